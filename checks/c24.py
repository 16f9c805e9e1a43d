"""C24: importing works in every process context and leaves it intact."""
import itertools
import json
import os
import shutil
import zipfile
from pathlib import Path

from checks import c20
from vlib import starts

LEVEL = 'model_checking'
RULE = ('state: context of importing (entry point, start method of '
        'processes, saved files, interpreter options, locale, kind of worker '
        'process); transition: start of the program; trace: program '
        'comparing the context before and after importing and asking about '
        'every callable, followed by an ordinary start')
ASSUMPTIONS = [
    'tiny synthetic standard library is used',
    'worker processes may not save metadata, so without saved one they are '
    'only expected not to fail',
    'start methods which execute code of the main module again are not used '
    'for starting workers from unguarded main modules',
]
PARTS = 16
LIMIT = 4
BUILD = False
TIMEOUT = 3000
# non-ASCII text should not depend on the locale
STUBS = {**starts.STUBS, 'vthree': '''
from typing import Literal
def localized(x: Literal["\u043a\u043b\u044e\u0447"],
              y: str = "\u0437\u043d\u0430\u0447") -> None: ...
'''}
STUBS['typing'] += 'Literal: object\n'
SOURCES = {**starts.SOURCES, 'vthree': 'def localized(x, y=""): pass\n'}
# interpreters starting each other endlessly should not exhaust resources
GUARD = '''


def _limit_depth():
    import os
    depth = int(os.environ.get('VERIF_DEPTH', '0'))
    if depth > 6:
        os.write(2, b'Traceback: processes are started endlessly')
        os._exit(99)
    os.environ['VERIF_DEPTH'] = str(depth + 1)


_limit_depth()
'''
SUPPORT = '''
import json, multiprocessing, os, signal, sys, threading, warnings
HERE = os.path.dirname(os.path.abspath(__file__))

def executed():
    with open(os.path.join(HERE, 'executed'), 'a') as file:
        file.write('x')

def state():
    main = sys.modules.get('__main__')
    return {'main module': main,
            'contents of main module': dict(getattr(main, '__dict__', {})),
            'start method': multiprocessing.get_start_method(allow_none=True),
            'arguments': list(sys.argv), 'import path': list(sys.path),
            'working directory': os.getcwd(), 'environment': dict(os.environ),
            'name of process': multiprocessing.current_process().name,
            'streams': (sys.stdin, sys.stdout, sys.stderr),
            'handlers of signals': [signal.getsignal(value)
                                    for value in (signal.SIGINT,
                                                  signal.SIGTERM,
                                                  signal.SIGCHLD)],
            'filters of warnings': list(warnings.filters),
            'tracing': (sys.gettrace(), threading.gettrace()),
            'recursion limit': sys.getrecursionlimit(),
            'processes': len(multiprocessing.active_children())}

def compare(before, after):
    problems = []
    for name, value in before.items():
        other = after[name]
        if name == 'main module':
            equal = value is other
        elif name == 'contents of main module':
            other = {key: other.get(key, 'absent') for key in
                     {*value, *other} - {'before', 'paradigm', 'support'}}
            value = {key: value.get(key, 'absent') for key in other}
            equal = all(other[key] is item for key, item in value.items())
        else:
            equal = value == other
        if not equal:
            problems.append(f'{name} has changed from {value!r} to {other!r}')
    return problems

def children():
    import subprocess
    try:
        os.waitpid(-1, os.WNOHANG)
    except ChildProcessError:
        return []
    return ['children processes are left']

def report(before, kind=None, method=None, check_children=True):
    problems = compare(before, state())
    if (check_children
            and before['start method'] in (None, 'fork')):
        # others rely on processes which live longer
        problems += children()
    if before['start method'] is None:
        # can still be chosen
        try:
            multiprocessing.set_start_method('spawn')
        except RuntimeError as error:
            problems.append(f'start method can not be set: {error}')
    print(json.dumps({'problems': problems, 'answers': answers()}),
          flush=True)

def answers():
    import probe
    return probe.main()

def import_and_answer():
    import paradigm.base
    return answers()

def send(connection):
    try:
        connection.send(import_and_answer())
    except BaseException as error:
        connection.send(repr(error))
        raise

def thread():
    before = state()
    def target():
        import paradigm.base
    thread = threading.Thread(target=target)
    thread.start()
    thread.join()
    report(before)

def coroutine():
    import asyncio
    async def main():
        import paradigm.base
    before = state()
    asyncio.run(main())
    report(before)

def executor_thread():
    from concurrent.futures import ThreadPoolExecutor
    before = state()
    with ThreadPoolExecutor(2) as executor:
        result, other = executor.map(lambda _: import_and_answer(), range(2))
    assert result == other
    report(before)

def worker(kind, method, early):
    """Answers of worker process, library is imported before or in it."""
    if method is not None:
        multiprocessing.set_start_method(method)
    if early:
        import paradigm.base
    if kind == 'process':
        reader, writer = multiprocessing.Pipe(False)
        process = multiprocessing.Process(target=send, args=(writer,))
        process.start()
        writer.close()
        result = reader.recv()
        process.join()
    elif kind == 'named process':
        reader, writer = multiprocessing.Pipe(False)
        process = multiprocessing.Process(target=send, args=(writer,),
                                          name='Worker', daemon=True)
        process.start()
        writer.close()
        result = reader.recv()
        process.join()
    elif kind == 'pool':
        with multiprocessing.Pool(2) as pool:
            result = pool.apply(import_and_answer)
    elif kind == 'executor':
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(2) as executor:
            result = executor.submit(import_and_answer).result()
    elif kind == 'fork':
        reader, writer = multiprocessing.Pipe(False)
        identifier = os.fork()
        if not identifier:
            try:
                send(writer)
            finally:
                os._exit(0)
        writer.close()
        result = reader.recv()
        os.waitpid(identifier, 0)
    elif kind == 'subprocess':
        import subprocess
        result = json.loads(subprocess.run(
                [sys.executable, os.path.join(HERE, 'probe.py')],
                stdout=subprocess.PIPE, check=True).stdout)
    print(json.dumps({'problems': [], 'answers': result}), flush=True)
'''
PROGRAM = '''
import support
support.executed()
%s
before = support.state()
import paradigm.base
support.report(before)
'''
SET_METHOD = "import multiprocessing; multiprocessing.set_start_method('%s')"
METHODS = None, 'fork', 'spawn', 'forkserver'
INITIAL = 'nothing', 'actual', 'another version'


def entry_points(directory, name, program):
    """name -> arguments of the interpreter, input"""
    path = directory / 'programs'
    path.mkdir(exist_ok=True)
    script = path / 'script.py'
    call = program.replace('import paradigm.base\n', '')
    if name == 'script':
        script.write_text(program)
        return [str(script)], None
    elif name == 'guarded script':
        script.write_text('if __name__ == "__main__":\n'
                          + indent(program))
        return [str(script)], None
    elif name == 'function of script':
        script.write_text('def main():\n' + indent(program)
                          + 'if __name__ == "__main__":\n    main()\n')
        return [str(script)], None
    elif name == 'module':
        (path / 'umodule.py').write_text(program)
        return ['-m', 'umodule'], None
    elif name == 'package':
        (path / 'upackage').mkdir(exist_ok=True)
        (path / 'upackage' / '__init__.py').write_text(
                'import support; support.executed()\n')
        (path / 'upackage' / '__main__.py').write_text(
                program.replace('support.executed()\n', ''))
        return ['-m', 'upackage'], None
    elif name == 'library imported by module of package':
        (path / 'upackage').mkdir(exist_ok=True)
        (path / 'upackage' / '__init__.py').write_text('')
        (path / 'upackage' / 'inner.py').write_text(program)
        return ['-c', 'import upackage.inner'], None
    elif name == 'command':
        return ['-c', program], None
    elif name == 'input':
        return [], program
    elif name == 'explicit input':
        return ['-', 'argument'], program
    elif name == 'interactive':
        return ['-i', '-q'], program
    elif name == 'script then interactive':
        script.write_text('import support\nsupport.executed()\n')
        return ['-i', '-q', str(script)], program.replace(
                'support.executed()\n', '')
    elif name == 'directory':
        (path / 'udirectory').mkdir(exist_ok=True)
        (path / 'udirectory' / '__main__.py').write_text(program)
        return [str(path / 'udirectory')], None
    elif name == 'archive':
        with zipfile.ZipFile(path / 'uarchive.zip', 'w') as file:
            file.writestr('__main__.py', program)
        return [str(path / 'uarchive.zip')], None
    elif name == 'runpy path':
        script.write_text(program)
        return ['-c', f'import runpy; runpy.run_path({str(script)!r}, '
                      'run_name="__main__")'], None
    elif name == 'runpy module':
        (path / 'umodule.py').write_text(program)
        return ['-c', 'import runpy; runpy.run_module("umodule", '
                      'run_name="__main__", alter_sys=True)'], None
    elif name == 'profiled script':
        script.write_text(program)
        return ['-m', 'cProfile', '-o', os.devnull, str(script)], None
    elif name == 'executed code':
        return ['-c', f'exec({program!r}, {{}})'], None
    elif name == 'no main module':
        return ['-c', 'import sys; main = sys.modules.pop("__main__")\n'
                + program], None
    elif name == 'replaced main module':
        return ['-c', 'import sys, types\nmain = sys.modules["__main__"]\n'
                      'sys.modules["__main__"] = types.ModuleType("custom")\n'
                + program], None
    elif name == 'main module is not a module':
        return ['-c', 'import sys, types\nmain = sys.modules["__main__"]\n'
                      'sys.modules["__main__"] = types.SimpleNamespace(a=1)\n'
                + program], None
    elif name == 'main module without attributes':
        script.write_text('for name in ("__file__", "__spec__", '
                          '"__cached__", "__loader__", "__package__"):\n'
                          '    globals().pop(name, None)\n' + program)
        return [str(script)], None
    elif name == 'thread':
        script.write_text(call.partition('before')[0] + 'support.thread()\n')
        return [str(script)], None
    elif name == 'threads':
        script.write_text(call.partition('before')[0]
                          + 'support.executor_thread()\n')
        return [str(script)], None
    elif name == 'coroutine':
        script.write_text(call.partition('before')[0]
                          + 'support.coroutine()\n')
        return [str(script)], None
    raise ValueError(name)


ENTRY_POINTS = ['script', 'guarded script', 'function of script', 'module',
                'package', 'library imported by module of package', 'command',
                'input', 'explicit input', 'interactive',
                'script then interactive', 'directory', 'archive',
                'runpy path', 'runpy module', 'profiled script',
                'executed code', 'no main module', 'replaced main module',
                'main module is not a module',
                'main module without attributes', 'thread', 'threads',
                'coroutine']
WORKERS = ('process', 'named process', 'pool', 'executor', 'fork',
           'subprocess')
OPTIONS = [['-O'], ['-OO'], ['-B'], ['-W', 'error'], ['-X', 'dev'], ['-s'],
           ['-b'], ['-u'], ['-P'], ['-X', 'utf8=0'], ['-X', 'utf8=1'],
           ['-X', 'frozen_modules=off'], ['-X', 'no_debug_ranges'],
           ['-X', 'faulthandler'], ['-bb', '-W', 'error', '-OO']]
VARIABLES = [{'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
             {'LC_ALL': 'POSIX'}, {'PYTHONIOENCODING': 'latin-1:replace'},
             {'PYTHONIOENCODING': 'ascii:backslashreplace'},
             {'PYTHONWARNINGS': 'error'}, {'PYTHONOPTIMIZE': '2'},
             {'PYTHONDONTWRITEBYTECODE': '1'}, {'TMPDIR': '/nonexistent'},
             {'HOME': '/nonexistent'}, {'PYTHONINTMAXSTRDIGITS': '640'},
             {'PYTHONSAFEPATH': '1'}, {'TZ': 'Asia/Tokyo'}]


def indent(text):
    return ''.join(f'    {line}\n' for line in text.splitlines())


def prepare(context):
    scratch = context.scratch
    template = starts.Template(scratch / 'template', STUBS, SOURCES)
    place = make(scratch / 'clean', template)
    result = place.start()
    if result.code or result.answers is None:
        raise starts.target.BuildFailed(f'clean start: {result}')
    saved = {'nothing': {}, 'actual': place.saved()}
    # saved by another version
    path = place.package / 'paradigm' / '__init__.py'
    text, place_ = path.read_text(), make(scratch / 'other', template)
    other = place_.package / 'paradigm' / '__init__.py'
    other.write_text(c20.VERSION.sub(
            lambda found: (found.group(1) + found.group(2) + '0.'
                           + found.group(3) + found.group(2)), text,
            count=1))
    starts.write_library(place_.directory, {**STUBS, **c20.variant(1, 1)},
                         SOURCES)
    place_.start()
    saved['another version'] = {
        name: value for name, value in place_.saved().items()
        if not name.endswith('.pyc')}
    import pickle
    (scratch / 'saved.pickle').write_bytes(pickle.dumps(saved))
    (scratch / 'plan.json').write_text(json.dumps({
        'answers': result.answers, 'known': template.known}))


def make(directory, template):
    place = template.copy(directory)
    customization = directory / 'fake' / 'sitecustomize.py'
    customization.write_text(customization.read_text() + GUARD)
    (directory / 'programs').mkdir()
    (directory / 'programs' / 'support.py').write_text(SUPPORT)
    probe = starts.PROBE.replace('import vone,', 'import vthree, vone,') \
        .replace('(vone, vtwo,', '(vthree, vone, vtwo,')
    assert probe.count('vthree') == 2
    (directory / 'programs' / 'probe.py').write_text(probe)
    (directory / 'probe.py').write_text(probe)
    return place


def shards(tier):
    return [[part] for part in range(PARTS)]


def cases(quick):
    for method, initial, entry in itertools.product(METHODS, INITIAL,
                                                    ENTRY_POINTS):
        if (quick and initial == 'another version'
                and (method == 'fork' or method is not None
                     and entry not in ('script', 'module', 'package',
                                       'input', 'threads'))):
            continue
        yield {'kind': 'entry', 'method': method, 'initial': initial,
               'entry': entry}
    for method, initial, kind, early, entry in itertools.product(
            METHODS, INITIAL, WORKERS, (False, True),
            ('guarded script', 'module')):
        if kind in ('fork', 'subprocess') and method is not None:
            continue
        if quick and entry == 'module' and (initial != 'actual'
                                            or method is None):
            continue
        if quick and initial == 'another version' and not early:
            continue
        yield {'kind': 'worker', 'method': method, 'initial': initial,
               'entry': entry, 'worker': kind, 'early': early}
    for initial, options in itertools.product(INITIAL, OPTIONS):
        for entry in (['script'] if quick else ENTRY_POINTS):
            if entry.endswith('input') and '-P' in options:
                continue
            if ('error' in options and initial != 'actual'
                    and entry.startswith('thread')):
                # forking with several threads is an error itself
                continue
            yield {'kind': 'options', 'method': None, 'initial': initial,
                   'entry': entry, 'options': options}
    for initial, variables in itertools.product(INITIAL, VARIABLES):
        for entry in (['script'] if quick else ENTRY_POINTS):
            if (variables.get('PYTHONWARNINGS') == 'error'
                    and initial != 'actual' and entry.startswith('thread')):
                continue
            yield {'kind': 'variables', 'method': None, 'initial': initial,
                   'entry': entry, 'variables': variables}


def run(shard, report, spec):
    import pickle
    part, = shard
    scratch = Path(spec['scratch'])
    plan = json.loads((scratch / 'plan.json').read_text())
    saved = pickle.loads((scratch / 'saved.pickle').read_bytes())
    template = starts.Template.__new__(starts.Template)
    template.directory, template.known = scratch / 'template', plan['known']
    place = make(scratch / f'part{part}', template)
    for index, case in enumerate(cases(spec['tier'] == 'quick')):
        if index % PARTS != part:
            continue
        history = ', '.join(f'{name}: {value}'
                            for name, value in case.items())
        problems = check(place, case, saved, plan['answers'], report)
        report.state(history)
        report.count('traces')
        report.outcome(case['kind'])
        report.sample(history)
        if problems and not report.violation(
                history, f'{history}: ' + '; '.join(problems), case):
            break
    shutil.rmtree(place.directory)


def check(place, case, saved, answers, report):
    place.restore(saved[case['initial']])
    counter = place.directory / 'programs' / 'executed'
    counter.unlink(missing_ok=True)
    method = case['method']
    if case['kind'] == 'worker':
        program = (f'import support\nsupport.executed()\nsupport.worker('
                   f'{case["worker"]!r}, {method!r}, {case["early"]!r})\n')
        if case['entry'] == 'guarded script':
            arguments, text = entry_points(place.directory, case['entry'],
                                           program)
        else:
            arguments, text = entry_points(
                    place.directory, 'module',
                    'if __name__ == "__main__":\n' + indent(program))
    else:
        program = PROGRAM % ('' if method is None else SET_METHOD % method)
        arguments, text = entry_points(place.directory, case['entry'],
                                       program)
    environment = place.environment(**case.get('variables', {}))
    environment['PYTHONPATH'] = os.pathsep.join(
            [str(place.directory / 'programs'), environment['PYTHONPATH']])
    command = [starts.target.PYTHON, *case.get('options', []), *arguments]
    result = start(command, text, environment, place.directory)
    report.count('transitions')
    problems = []
    output = result.output.strip()
    expected = answers
    may_build = (case['kind'] != 'worker' or case['early']
                 or case['initial'] == 'actual'
                 or case['worker'] in ('fork', 'subprocess'))
    if result.timeout:
        return ['program hangs']
    elif result.code:
        return [f'program fails with code {result.code}: '
                f'{result.error[-900:]}']
    lines = output.splitlines()
    try:
        outcome = json.loads(lines[-1])
    except (IndexError, ValueError):
        return [f'there is no outcome: {output[-500:]} '
                f'{result.error[-500:]}']
    problems += outcome['problems']
    if len(lines) != 1:
        problems.append(f'something is printed: {output[:300]}')
    if 'Traceback' in result.error and case['entry'] != 'interactive' \
            and '-X' not in case.get('options', []):
        problems.append(f'something has failed: {result.error[-900:]}')
    if may_build and outcome['answers'] != expected:
        problems.append(starts.differences(outcome['answers'], expected)
                        if isinstance(outcome['answers'], list)
                        else str(outcome['answers']))
    times = len(counter.read_text())
    if times != 1:
        problems.append(f'main module is executed {times} times')
    if not problems:
        following = place.start()
        report.count('transitions')
        if following.code or following.timeout:
            problems.append(f'start afterwards fails: {following}')
        elif following.answers != expected:
            problems.append('start afterwards: ' + starts.differences(
                    following.answers, expected))
    return problems


class Outcome:
    pass


def start(command, text, environment, directory, timeout=100):
    import subprocess
    result = Outcome()
    process = subprocess.Popen(
            command, env=environment, cwd=str(directory),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, start_new_session=True)
    result.timeout = False
    try:
        output, error = process.communicate(
                None if text is None else text.encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        result.timeout = True
        starts.kill(process)
        output, error = process.communicate()
    else:
        starts.kill(process)
    result.code = process.returncode
    result.output = output.decode(errors='replace')
    result.error = error.decode(errors='replace')
    return result
