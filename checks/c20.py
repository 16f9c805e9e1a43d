"""C20: warm start gives the same answers as cold start."""
import hashlib
import json
import marshal
import os
import re
import shutil
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor

from vlib import core, starts, target

LEVEL = 'model_checking'
RULE = ('state: files saved by the library (their contents, whether compiled '
        'ones correspond to sources); transition: start of the process with '
        'some version of the library, version of the type checker stubs '
        'belong to and options of the interpreter, removal or copying of the '
        'saved files; trace: comparison of answers with those of a cold '
        'start with the same versions, and of everything in the complete '
        'standard library between cold and warm starts')
ASSUMPTIONS = [
    'version of the library is the one in the main file of the package; '
    'stubs of different versions differ',
    'histories of versions are explored with a tiny synthetic standard '
    'library',
]
OPTIONS = {'': [], 'optimized': ['-O'], 'without bytecode': ['-B'],
           'optimized more': ['-OO']}
VERSION = re.compile(r'''(__version__\s*(?::[^=]*)?=\s*)(['"])(.*?)\2''')


def variant(version, checker):
    """Stubs differ between versions."""
    result = dict(starts.STUBS)
    result['vone'] = result['vone'].replace(
            'def function(a: int',
            f'def function(v{version}: int, c{checker}: str, a: int')
    result['vone'] += f'''
class Versioned:
    def __init__(self, {'*, ' if version else ''}x{version}: int) -> None: ...
class Only{version}:
    def __init__(self, __x: int) -> None: ...
class OnlyChecker{checker}:
    def __init__(self, __x: int) -> None: ...
def Exposed{version}(__x: int) -> None: ...
def ExposedChecker{checker}(__x: int) -> None: ...
'''
    if checker:
        result['vtwo'] = result['vtwo'].replace('class Base(Leaf)',
                                                'class Base')
    return result


def sources(version, checker):
    result = dict(starts.SOURCES)
    result['vone'] += 'class Versioned: pass\n'
    # known to the saved metadata of some of versions only
    for name in ('Only', 'OnlyChecker'):
        for index in range(6):
            result['vone'] += (f'class {name}{index}:\n'
                               '    def __init__(self, y): pass\n')
    # found by their locations only
    result['vhidden'] = ''
    for name in ('Exposed', 'ExposedChecker'):
        for index in range(6):
            result['vhidden'] += (f'def hidden{name}{index}(y): pass\n')
            result['vone'] += (f'from vhidden import hidden{name}{index} '
                               f'as {name}{index}\n')
    return result


class Explorer:
    def __init__(self, context, report):
        self.context, self.report = context, report
        self.lock = threading.Lock()
        self.local = threading.local()
        self.template = starts.Template(context.scratch / 'template')
        self.count = 0
        initial = (self.template.directory / 'target' / 'paradigm'
                   / '__init__.py').read_text()
        match = VERSION.search(initial)
        self.versions = [initial]
        if match is None:
            report.note('version of the library is not found')
        else:
            original = match.group(3)
            parts = re.split(r'(\d+)', original)
            numbers = [index for index, part in enumerate(parts)
                       if part.isdigit()]
            changed = []
            for index in [*numbers[-1:], *numbers[:1]]:
                copy = list(parts)
                copy[index] = str(int(copy[index]) + 1)
                changed.append(''.join(copy))
            changed.append(original + '0')
            for other in changed:
                self.versions.append(VERSION.sub(
                        lambda found: (found.group(1) + found.group(2)
                                       + other + found.group(2)), initial,
                        count=1))

    def place(self):
        try:
            return self.local.place
        except AttributeError:
            with self.lock:
                self.count += 1
                directory = self.context.scratch / f'place{self.count}'
            place = self.local.place = self.template.copy(directory)
            return place

    def configure(self, place, version, checker):
        path = place.package / 'paradigm' / '__init__.py'
        path.write_text(self.versions[version])
        # compiled files are checked for modification time only
        os.utime(path, (10 ** 9 + version * 1000, 10 ** 9 + version * 1000))
        starts.write_library(place.directory, variant(version, checker),
                             sources(version, checker),
                             version=f'1.{checker}.1')
        path = place.directory / 'fake' / 'mypy' / 'version.py'
        os.utime(path, (10 ** 9 + checker * 1000, 10 ** 9 + checker * 1000))

    def start(self, files, action):
        """Result of the start, files saved."""
        version, checker, option = action
        place = self.place()
        place.restore(files)
        self.configure(place, version, checker)
        result = place.start(command=place.command(*OPTIONS[option]))
        return result, place.saved()

    def explore(self, versions, checkers, options, limit):
        actions = [(version, checker, option)
                   for version in range(len(self.versions))[:versions]
                   for checker in range(checkers)
                   for option in options]
        expected = {}
        with ThreadPoolExecutor(8) as pool:
            cold = list(pool.map(lambda action: self.start({}, action),
                                 actions))
            frontier, seen = [], {normalized({}): 'nothing saved'}

            def visit(name, files):
                key = normalized(files)
                if key not in seen:
                    seen[key] = name
                    self.report.state(key)
                    frontier.append((name, files))

            for action, (result, files) in zip(actions, cold):
                self.report.count('transitions')
                if result.code or result.answers is None:
                    self.report.violation(f'cold {action}',
                                          f'cold start {action}: {result}')
                    continue
                previous = expected.setdefault(action[:2], result.answers)
                if previous != result.answers:
                    self.report.violation(
                            f'cold {action}', f'answers of the cold start '
                            f'{action} differ: '
                            + starts.differences(result.answers, previous))
                visit(f'cold {action}', files)
            if len({json.dumps(answers) for answers in expected.values()}
                   ) != len(expected):
                raise RuntimeError('versions are not distinguished')
            while frontier and len(seen) < limit:
                layer, frontier = frontier, []
                tasks = []
                for name, files in layer:
                    for description, changed in changes(files):
                        visit(f'{name}, {description}', changed)
                    tasks += [(name, files, action) for action in actions]
                for (name, files, action), (result, changed) in zip(
                        tasks, pool.map(lambda task: self.start(*task[1:]),
                                        tasks)):
                    history = f'{name}, start {action}'
                    self.report.count('transitions')
                    self.report.count('traces')
                    self.report.outcome('start after others')
                    if (result.code or result.timeout
                            or result.answers != expected[action[:2]]):
                        if not self.report.violation(
                                history, f'{history}: {result}, '
                                + starts.differences(result.answers,
                                                     expected[action[:2]]),
                                {'history': history}):
                            return
                    elif result.error.strip():
                        self.report.violation(
                                history, f'{history} complains: {result}')
                    visit(history, changed)
            if frontier:
                self.report.note(f'exploration of {versions} versions, '
                                 f'{checkers} checkers, options {options} '
                                 f'stopped with {len(frontier)} states left')
            else:
                self.report.note(f'all {len(seen)} states of {versions} '
                                 f'versions, {checkers} checkers, options '
                                 f'{options} explored')


def changes(files):
    compiled = {name for name in files if name.endswith('.pyc')}
    if compiled:
        yield 'compiled files removed', {
            name: value for name, value in files.items()
            if name not in compiled}
        yield 'files copied', {
            name: (content, modified if name in compiled
                   else modified + 10 ** 10)
            for name, (content, modified) in files.items()}
    if set(files) - compiled:
        yield 'sources removed', {name: value
                                  for name, value in files.items()
                                  if name in compiled}
        for name in set(files) - compiled:
            yield f'{os.path.basename(name)} removed', {
                other: value for other, value in files.items()
                if other != name}


def normalized(files):
    result = []
    texts = {os.path.basename(name).rpartition('.')[0]: value
             for name, value in files.items() if not name.endswith('.pyc')}
    for name, (content, modified) in sorted(files.items()):
        if name.endswith('.pyc'):
            base = os.path.basename(name).split('.')[0]
            source = texts.get(base)
            # header: magic number, flags, modification time, size
            is_actual = source is not None and (
                    int.from_bytes(content[8:12], 'little')
                    == int(source[1] // 10 ** 9)
                    and int.from_bytes(content[12:16], 'little')
                    == len(source[0]))
            result.append((name, is_actual,
                           digest(content[16:])))
        else:
            result.append((name, hashlib.md5(content).hexdigest()))
    return tuple(result)


def digest(content):
    """Compiled files have equal contents in many ways."""
    try:
        code = marshal.loads(content)
    except Exception:
        return hashlib.md5(content).hexdigest()
    return hashlib.md5(repr(parts(code)).encode()).hexdigest()


def parts(code):
    return [code.co_code, code.co_names,
            [parts(constant) if hasattr(constant, 'co_code')
             else repr(constant) for constant in code.co_consts]]


COMPLETE = '''
import json, sys
sys.setrecursionlimit(5000)
import paradigm.base as base
from checks import c18
from vlib import describe
with open(sys.argv[1], 'w') as file:
    json.dump([[f'{key[0]}:{key[1]}', describe.ask(base, value)[0]]
               for key, value in c18.enumerate_queries()], file)
'''


def complete(context, report):
    """Everything in the complete standard library."""
    directory = context.scratch / 'complete'
    target.copy_package(directory)

    def sweep(name, options=(), directory=directory, **variables):
        path = context.scratch / f'{name}.json'
        environment = target.environment(directory, seed=context.seed,
                                         **variables)
        result = starts.run([target.PYTHON, '-W', 'ignore', *options, '-c',
                             COMPLETE, str(path)], environment,
                            context.scratch, 500)
        if result.code or result.timeout:
            report.violation(f'complete {name}',
                             f'{name} start with the complete standard '
                             f'library: {result}')
            return {}
        entries = json.loads(path.read_text())
        path.unlink()
        return dict(entries)

    def compiled_removed():
        other = context.scratch / 'complete-sources'
        shutil.copytree(directory, other,
                        ignore=shutil.ignore_patterns('*.pyc'))
        return sweep('without compiled files', directory=other)

    cold = sweep('cold')
    ways = {'warm': lambda: sweep('warm'),
            'warm again': lambda: sweep('warm-again'),
            'without compiled files': compiled_removed}
    if not context.quick:
        ways['optimized'] = lambda: sweep('optimized', ['-O'])
        ways['without bytecode'] = lambda: sweep('without-bytecode', ['-B'])
        ways['other compiled files'] = lambda: sweep(
                'prefix',
                PYTHONPYCACHEPREFIX=str(context.scratch / 'prefix'))
        ways['another locale'] = lambda: sweep('locale', LC_ALL='POSIX',
                                               PYTHONCOERCECLOCALE='0',
                                               PYTHONUTF8='0')
    with ThreadPoolExecutor(4) as pool:
        for name, answers in zip(ways, pool.map(lambda way: way(),
                                                ways.values())):
            report.state(name)
            report.count('transitions')
            optimized = name == 'optimized'
            for key in cold.keys() | answers.keys():
                if optimized and (key not in cold or key not in answers):
                    # standard library itself depends on optimization
                    continue
                report.count('traces')
                report.outcome('complete library')
                if cold.get(key) != answers.get(key):
                    if not report.violation(
                            f'{name} {key}', f'{key}: answer of {name} start '
                            f'is\n{answers.get(key)}\ncold one is\n'
                            f'{cold.get(key)}'):
                        break


def execute(context):
    first, second = core.Report(), core.Report(limit=6)
    thread = threading.Thread(target=complete, args=(context, second))
    thread.start()
    explorer = Explorer(context, first)
    if context.quick:
        explorer.explore(2, 1, [''], 300)
        explorer.explore(1, 2, [''], 300)
        explorer.explore(1, 1, ['', 'optimized'], 300)
        explorer.explore(5, 1, [''], 250)
    else:
        explorer.explore(3, 2, list(OPTIONS), 3000)
        explorer.explore(5, 2, [''], 3000)
    thread.join()
    return [first.to_dict(True), second.to_dict(True)]


def prepare(context):
    pass
