"""C21: interrupted or failing cache writes never lead to wrong answers."""
import errno
import itertools
import json
import os
import random
import shutil
import signal
from pathlib import Path

from vlib import starts

LEVEL = 'model_checking'
RULE = ('state: files left by a start of the process which was killed (at '
        'every operation on files the library makes, writes being torn), '
        'whose operation has failed (every operation, every kind of error, '
        'once or from then on), or which were truncated (at every boundary '
        'of lines, thorough: at every byte), emptied, removed, zeroed or '
        'replaced afterwards; transition: start of the process; trace: '
        'chain of starts, the ones which are not disturbed (and the ones '
        'with failing operations) being expected to give the answers of a '
        'clean start without errors')
ASSUMPTIONS = [
    'operations on files are the ones made through the C library by the '
    'interpreter',
    'histories are explored with a tiny synthetic standard library, the '
    'complete one is used for few of them',
    'contents of the saved files are not replaced with other meaningful '
    'ones',
]
PARTS = 8
LIMIT = 4
BUILD = False
WRITE_ERRORS = (errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EIO,
                errno.EFBIG)
READ_ERRORS = (errno.EACCES, errno.EIO)


def prepare(context):
    scratch = context.scratch
    shim = starts.build_shim(scratch)
    template = starts.Template(scratch / 'template')
    place = template.copy(scratch / 'clean')
    result = place.start(shim=shim, plan='record@-1', log=scratch / 'log')
    if result.code or result.answers is None:
        raise starts.target.BuildFailed(f'clean start: {result}')
    writes = starts.read_log(scratch / 'log')
    saved = place.saved()
    result_ = place.start(shim=shim, plan='readrecord@-1',
                          log=scratch / 'read_log')
    reads = starts.read_log(scratch / 'read_log')
    # number of steps of helper processes
    counts = []
    place = template.copy(scratch / 'helpers')
    place.start(shim=shim, plan='helper@-1:9')
    (scratch / 'plan.json').write_text(json.dumps({
        'answers': result.answers, 'writes': writes, 'reads': reads,
        'helper_steps': place.count(), 'known': template.known,
        'names': sorted(saved)}))


def shards(tier):
    return ([[mode, part] for mode in ('killed', 'failed', 'damaged',
                                       'helper')
             for part in range(PARTS)]
            + [['complete', part]
               for part in range(3 if tier == 'quick' else PARTS)])


def run(shard, report, spec):
    mode, part = shard
    scratch = Path(spec['scratch'])
    plan = json.loads((scratch / 'plan.json').read_text())
    quick = spec['tier'] == 'quick'
    if mode == 'complete':
        return run_complete(report, scratch, part, quick)
    template = starts.Template.__new__(starts.Template)
    template.directory, template.known = scratch / 'template', plan['known']
    directory = scratch / f'{mode}{part}'
    place = template.copy(directory)
    explorer = Explorer(report, template, place, scratch / 'shim.so',
                        plan['answers'])
    cases = {'killed': killed, 'failed': failed, 'damaged': damaged,
             'helper': helper}[mode](plan, explorer, quick)
    for index, case in enumerate(cases):
        if index % PARTS != part:
            continue
        if not explorer.check(case):
            break
    shutil.rmtree(directory)


class Explorer:
    def __init__(self, report, template, place, shim, answers):
        self.report, self.template, self.place = report, template, place
        self.shim, self.answers = shim, answers
        self._clean = None

    @property
    def clean(self):
        """Files saved by an undisturbed start."""
        if self._clean is None:
            self.place.restore({})
            self.place.start()
            self._clean = self.place.saved()
        return self._clean

    def check(self, case):
        """
        Case is the initial state and sequence of starts:
        (plan of the shim, whether right answers are expected).
        """
        self.place.restore({})
        prepare, starts_ = case
        description = []
        if prepare is not None:
            description.append(prepare[0])
            prepare[1](self.place)
        for plan, expectation in starts_:
            description.append(plan or 'start')
            result = self.place.start(
                    shim=self.shim if plan is not None else None, plan=plan,
                    timeout=60)
            self.report.count('transitions')
            problem = self.problem(result, plan, expectation)
            if problem is not None:
                history = ', '.join(map(str, description))
                return self.report.violation(
                        history, f'{problem} ({history}): {result}; '
                        + starts.differences(result.answers, self.answers),
                        {'history': description})
        self.report.state(tuple(map(str, description)))
        self.report.count('traces')
        self.report.outcome(expectation if len(starts_) == 1
                            else 'recovered')
        return True

    def problem(self, result, plan, expectation):
        if result.timeout:
            return 'start hangs'
        elif expectation == 'killed':
            return None
        elif expectation == 'failure is allowed':
            if result.code == 0 and result.answers != self.answers:
                return 'wrong answers'
            return None
        elif result.code != 0:
            return 'start fails'
        elif result.answers != self.answers:
            return 'wrong answers'
        elif plan is None and result.error.strip():
            return 'undisturbed start complains'
        return None


AFTERWARDS = [(None, 'right'), (None, 'right')]


def torn(size):
    return sorted({0, 1, size // 3, size // 2, size - 2, size - 1}
                  & set(range(size)))


def kill_plans(writes, quick=False):
    for number, name, size, path in writes:
        yield f'crash@{number}'
        if name == 'write':
            for length in (torn(size) if not quick else [size // 2]):
                yield f'torn@{number}:{length}'


def killed(plan, explorer, quick):
    writes = plan['writes']
    plans = list(kill_plans(writes))
    for first in plans:
        yield None, [(first, 'killed'), *AFTERWARDS]
    few = list(kill_plans(writes, True))
    if quick:
        few = few[::3]
    for first, second in itertools.product(few if quick else plans, few):
        yield None, [(first, 'killed'), (second, 'killed'), *AFTERWARDS]
    if not quick:
        for history in itertools.product(few[::2], repeat=3):
            yield None, [*[(first, 'killed') for first in history],
                         *AFTERWARDS]


def failed(plan, explorer, quick):
    for kind in ('error', 'errors'):
        for number, name, size, path in plan['writes']:
            for code in WRITE_ERRORS[:2 if quick else None]:
                yield None, [(f'{kind}@{number}:{code}', 'right'),
                             *AFTERWARDS]
    for number, name, size, path in plan['writes']:
        if name == 'write':
            for length in torn(size)[1:]:
                yield None, [(f'short@{number}:{length}', 'right'),
                             *AFTERWARDS]

    def warm(place):
        place.restore(explorer.clean)

    for kind in ('readerror', 'readerrors'):
        for number, name, size, path in plan['reads']:
            for code in READ_ERRORS:
                yield (('saved', warm),
                       [(f'{kind}@{number}:{code}', 'right'), *AFTERWARDS])
    # saving fails after killed start
    few = list(kill_plans(plan['writes'], True))[::3 if quick else 1]
    for first in few:
        for number in [1, *range(2, len(plan['writes']),
                                 7 if quick else 2)]:
            yield None, [(first, 'killed'),
                         (f'errors@{number}:{errno.ENOSPC}', 'right'),
                         *AFTERWARDS]


def damaged(plan, explorer, quick):
    names = plan['names']
    clean = explorer.clean
    names = sorted(clean)
    texts = [name for name in names if not name.endswith('.pyc')]
    compiled = [name for name in names if name.endswith('.pyc')]

    def setting(description, contents):
        def prepare(place):
            result = {name: value for name, value in clean.items()}
            for name, content in contents.items():
                if content is None:
                    del result[name]
                else:
                    modified = clean[name][1]
                    if callable(content):
                        content = content(clean[name][0])
                    result[name] = content, modified
            place.restore(result)

        return description, prepare

    base = os.path.basename
    # truncation of every file
    for name in names:
        content = clean[name][0]
        if name in texts:
            lines = [0]
            for line in content.splitlines(True):
                lines.append(lines[-1] + len(line))
            top = [offset for offset in lines
                   if content[offset:offset + 1] not in (b' ', b'}', b']')]
            points = ({*lines[::6], *top, *[point - 1 for point in top],
                       *[point + 1 for point in top],
                       *range(len(content) - 40, len(content))}
                      if quick else range(len(content)))
        else:
            points = ({*range(20), *range(0, len(content), 401),
                       len(content) - 1}
                      if quick else range(0, len(content), 7))
        others = [[]]
        if name in texts:
            # compiled file is absent unless text is complete
            others = [[other for other in compiled
                       if base(other).split('.')[0]
                       == base(name).split('.')[0]]]
            if not quick:
                others.append([])
        for removed in others:
            for point in sorted(points):
                if not 0 <= point < len(content):
                    continue
                yield (setting(f'{base(name)} truncated to {point}'
                               + (' without compiled' if removed else ''),
                               {name: content[:point],
                                **dict.fromkeys(removed)}),
                       AFTERWARDS)
    # combinations of damages of all files
    damages = {'removed': None, 'emptied': b'',
               'halved': lambda content: content[:len(content) // 2],
               'zeroed': lambda content: bytes(len(content)),
               'replaced': b'\x80\xff garbage ( \x00',
               'without last line': lambda content: content[
                   :content.rstrip().rfind(b'\n') + 1]}
    for (name, other) in itertools.combinations(names, 2):
        for first, second in itertools.product(damages, repeat=2):
            if quick and (first, second).count('halved'):
                continue
            yield (setting(f'{base(name)} {first}, {base(other)} {second}',
                           {name: damages[first], other: damages[second]}),
                   AFTERWARDS)
    if not quick:
        for history in itertools.product(['intact', *damages],
                                         repeat=len(names)):
            contents = {name: damages[damage]
                        for name, damage in zip(names, history)
                        if damage != 'intact'}
            if len(contents) > 2:
                yield (setting(f'damages {history}', contents), AFTERWARDS)
    # lost pages
    for name in texts:
        content = clean[name][0]
        for start in range(0, len(content), 4096 if quick else 512):
            end = start + 512
            yield (setting(f'{base(name)} zeroed from {start} to {end}', {
                name: (content[:start] + bytes(min(512, len(content) - start))
                       + content[end:]),
                **{other: None for other in compiled}}), AFTERWARDS)

    def replace(name, function):
        def prepare(place):
            place.restore(clean)
            path = place.package / name
            path.unlink()
            function(path)

        return prepare

    # something else with the same name; can't be fixed by the library
    for name in names:
        yield ((f'{base(name)} is a dangling link',
                replace(name, lambda path: path.symlink_to(
                    path.parent / 'missing' / 'file'))),
               [('record@-1', 'right'), ('record@-1', 'right')])


def helper(plan, explorer, quick):
    """Helper processes end at any of their steps."""
    ways = [(signal.SIGKILL, 'signal'), (0, 'exit'), (-1, 'exit')]
    steps = range(1, plan['helper_steps'] + 3)
    for step in steps:
        for index, (way, _) in enumerate(ways):
            if quick and (step + index) % 3 and step % 16:
                continue
            yield None, [(f'helper@{step}:{way}', 'failure is allowed'),
                         *AFTERWARDS]


def run_complete(report, scratch, part, quick):
    """With the complete standard library."""
    import subprocess
    from vlib import target
    directory = scratch / f'complete{part}'
    package = directory / 'target'
    package.mkdir(parents=True)
    target.copy_package(package)
    subprocess.run([target.PYTHON, '-m', 'compileall', '-q', str(package)],
                   check=False, stdout=subprocess.DEVNULL)
    known = directory / 'known.txt'
    names = [str(path) for path in package.rglob('*') if path.is_file()]
    known.write_text(''.join(f'{name}\n' for name in names))
    (directory / 'probe.py').write_text(COMPLETE_PROBE)
    place = starts.Place(directory, [os.path.relpath(name, directory)
                                     for name in names])

    def start(plan=None):
        environment = place.environment(
                shim=scratch / 'shim.so' if plan else None, plan=plan,
                log=directory / 'log')
        environment['PYTHONPATH'] = os.pathsep.join(
                path for path in environment['PYTHONPATH'].split(os.pathsep)
                if os.path.basename(path) not in ('fake', 'runtime'))
        report.count('transitions')
        return starts.run(place.command(), environment, directory, 300)

    clean = start('record@-1')
    if clean.code or clean.answers is None:
        report.violation('complete', f'clean start fails: {clean}')
        return
    writes = starts.read_log(directory / 'log')
    plans = list(kill_plans(writes))
    number = 2 if quick else 12
    chosen = [plans[(len(plans) - 1) * (index * PARTS + part)
                    // (number * PARTS - 1)]
              for index in range(number)]
    if quick:
        chosen = chosen[-2 + part % 2:][:1]
    for plan in chosen:
        place.restore({})
        start(plan)
        for _ in range(2):
            result = start()
            if (result.code or result.timeout
                    or result.answers != clean.answers
                    or result.error.strip()):
                report.violation(
                        f'complete {plan}', 'start with the complete '
                        f'standard library after {plan}: {result}')
                break
        report.state(plan)
        report.count('traces')
        report.outcome('complete library')
    shutil.rmtree(directory)


COMPLETE_PROBE = '''
import json, sys
sys.setrecursionlimit(5000)
import paradigm.base as base
import zlib
from checks import c18
from vlib import describe
text = '\\n'.join(describe.ask(base, value)[0]
                 for key, value in c18.enumerate_queries()
                 if key[0][0] in 'abcost')
json.dump([len(text), zlib.crc32(text.encode())], sys.stdout)
'''
