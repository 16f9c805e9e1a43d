"""C23: answers don't depend on hash randomization or scanning order."""
import itertools
import json
import os
import shutil
from pathlib import Path

from vlib import starts

LEVEL = 'model_checking'
RULE = ('state: hash seed and permutation of entries of each of scanned '
        'directories (stubs, sources, nested packages of both); transition: '
        'start of the process with nothing saved (and start using what was '
        'saved by it); trace: start with every callable of the library '
        'asked, answers being compared with the ones of natural order and '
        'another hash seed')
ASSUMPTIONS = [
    'permutations are explored on a tiny synthetic standard library with '
    'ambiguous locations of objects, the complete one is used for few of '
    'them',
    'directories are listed through the module "os"',
]
PARTS = 16
LIMIT = 4
BUILD = False
TIMEOUT = 5400
ORDERING = '''


def _patch_listing():
    import json
    import os
    orders = os.environ.get('VERIF_ORDERS')
    if not orders:
        return
    orders = json.loads(orders)
    listdir_, scandir_ = os.listdir, os.scandir

    def reorder(path, entries, key):
        # some of files appear later
        entries = [entry for entry in entries if key(entry) != '__pycache__']
        mode = orders.get('')
        if mode is None:
            try:
                names = orders[os.fspath(path)]
            except (KeyError, TypeError):
                return entries
            order = {name: index for index, name in enumerate(names)}
            return sorted(entries, key=lambda entry: order.get(
                    os.fsdecode(key(entry)).partition('.')[0], -1))
        entries = sorted(entries, key=key)
        if mode == 'reversed':
            return entries[::-1]
        elif mode.startswith('rotated'):
            offset = int(mode[7:]) * len(entries) // 8
            return entries[offset:] + entries[:offset]
        elif mode == 'interleaved':
            return entries[::2] + entries[1::2][::-1]
        return entries

    class Entries:
        def __init__(self, entries):
            self.entries = iter(entries)
        def __iter__(self):
            return self
        def __next__(self):
            return next(self.entries)
        def __enter__(self):
            return self
        def __exit__(self, *args):
            self.close()
        def close(self):
            self.entries = iter(())

    def listdir(path='.'):
        result = listdir_(path)
        return (result if isinstance(path, int)
                else reorder(path, result, lambda entry: entry))

    def scandir(path='.'):
        with scandir_(path) as entries:
            result = list(entries)
        return Entries(result if isinstance(path, int) else
                       reorder(path, result, lambda entry: entry.name))

    os.listdir, os.scandir = listdir, scandir


_patch_listing()
'''
# objects are accessible from several places which describe them differently,
# names come from several sources
STUBS = {
    'builtins': starts.STUBS['builtins'],
    'typing': starts.STUBS['typing'],
    'va': '''
from typing import Generic, TypeVar
from vp import *
from vb import _U
import vp.sub
_T = TypeVar('_T')
class First(Generic[_U]):
    def __init__(self, x: _U) -> None: ...
class Shared(Generic[_T]):
    def __init__(self, x: _T) -> None: ...
    def method(self, a: int) -> Shared[_T]: ...
class Left(Shared[int], Leaf):
    def only_left(self, x: _T) -> Alias: ...
def function(a: int) -> Left: ...
def ambiguous(a: int) -> Shared[str]: ...
def own(a: Alias, b: vp.sub.Alias = ...) -> Leaf: ...
''',
    'vb': '''
from typing import TypeVar
from va import First, Left as _Left
from vp.sub import *
from vp import *
# parsing of modules depends on each other
class Early(First[_Left]): ...
_U = TypeVar('_U')
class Second(First[_U]): ...
class Third(Second[int]): ...
class Shared:
    def __init__(self, y: str) -> None: ...
    def method(self, b: str) -> Alias: ...
class Left:
    def __init__(self, z: _Left) -> None: ...
    def only_left(self) -> Leaf: ...
def function(b: str) -> Shared: ...
def ambiguous(b: Alias) -> Leaf: ...
''',
    'vp/__init__': '''
from vp.sub import Alias as Alias, Leaf as Leaf, deep as deep
def ambiguous(c: bool) -> Leaf: ...
class Shared(Leaf):
    def method(self, c: bool) -> Alias: ...
''',
    'vp/sub': '''
from va import Shared as _Shared
Alias = list[int]
class Leaf:
    def __new__(cls, *args: _Shared[bool]) -> Leaf: ...
    class Inner:
        def deepest(self, x: Leaf) -> Leaf.Inner: ...
def deep(x: Leaf, *, key: _Shared[Alias] = ...) -> Alias: ...
''',
}
IMPLEMENTATION = '''
class Leaf:
    def __new__(cls, *args): return super().__new__(cls)
    class Inner:
        def deepest(self, x): pass
class Shared:
    def __init__(self, x): pass
    def method(self, a): pass
class Left(Shared, Leaf):
    def only_left(self, *args): pass
def function(a): pass
def ambiguous(a): pass
def deep(x, *, key=None): pass
'''
SOURCES = {
    '_vimpl': IMPLEMENTATION,
    'va': '''
from _vimpl import *
class First:
    def __init__(self, x): pass
def own(a, b=None): pass
''',
    'vb': '''
from _vimpl import *
from va import First as _First
class Early(_First): pass
class Second(_First): pass
class Third(Second): pass
# another object with the same path
def ambiguous(b): pass
ambiguous.__module__ = '_vimpl'
''',
    'vp/__init__': '''
from vp.sub import Leaf, deep
from _vimpl import Shared, ambiguous
Alias = list
''',
    'vp/sub': '''
from _vimpl import Leaf, deep
Alias = list
''',
}
PROBE = '''
import json, sys
def main():
    import paradigm.base as base
    import _vimpl, va, vb, vp.sub
    from vlib import describe
    queries = []
    for module in (va, vb, vp, vp.sub, _vimpl):
        for name, value in sorted(vars(module).items()):
            if callable(value) and not name.startswith('__'):
                queries.append(value)
                if isinstance(value, type):
                    queries += [getattr(value, name)
                                for name in sorted(vars(value))
                                if callable(getattr(value, name))
                                and not name.startswith('__')]
    queries += [_vimpl.Leaf.Inner.deepest, _vimpl.Leaf.__new__, va.Left(1)
                .method, len, int, bool, isinstance, sorted, list.append,
                [].append, 'a'.upper, (1).bit_length, type.mro, tuple.index]
    return [[describe.plain(query), describe.ask(base, query)[0]]
            for query in queries]
if __name__ == '__main__':
    json.dump(main(), sys.stdout)
'''
STUBS_NAMES = 'builtins', 'typing', 'va', 'vb', 'vp'
SOURCES_NAMES = '_vimpl', 'va', 'vb', 'vp'
NESTED_NAMES = '__init__', 'sub'


def make(directory, template):
    place = template.copy(directory)
    customization = directory / 'fake' / 'sitecustomize.py'
    customization.write_text(customization.read_text() + ORDERING)
    (directory / 'probe.py').write_text(PROBE)
    return place


def prepare(context):
    scratch = context.scratch
    template = starts.Template(scratch / 'template', STUBS, SOURCES)
    place = make(scratch / 'clean', template)
    result = place.start(VERIF_ORDERS=orders(
            place, (STUBS_NAMES, NESTED_NAMES, SOURCES_NAMES, NESTED_NAMES)))
    if result.code or result.answers is None:
        raise starts.target.BuildFailed(f'clean start: {result}')
    (scratch / 'plan.json').write_text(json.dumps({
        'answers': result.answers, 'known': template.known}))


def orders(place, state):
    stubs, nested_stubs, sources, nested_sources = state
    root = place.directory / 'fake' / 'mypy' / 'typeshed' / 'stdlib'
    runtime = place.directory / 'runtime'
    return json.dumps({str(root): stubs, str(root / 'vp'): nested_stubs,
                       str(runtime): sources,
                       str(runtime / 'vp'): nested_sources})


def shards(tier):
    return ([['tiny', part] for part in range(PARTS)]
            + [['complete', part] for part in range(8)])


def states(quick):
    natural = STUBS_NAMES, NESTED_NAMES, SOURCES_NAMES, NESTED_NAMES
    permutations = [list(itertools.permutations(names)) for names in natural]
    for seed in range(64 if quick else 1024):
        yield seed, natural
    if not quick:
        for state in itertools.product(*permutations):
            yield 1, state
        return
    for seed, (first, second) in zip(
            itertools.cycle([1, 2]),
            itertools.product(permutations[0], permutations[1])):
        yield seed, (first, second, *natural[2:])
    for seed, (first, second) in zip(
            itertools.cycle([1, 2]),
            itertools.product(permutations[2], permutations[3])):
        yield seed, (*natural[:2], first, second)
    for first, second in itertools.product(
            [names[::-1] for names in natural[:1]]
            + [names[1:] + names[:1] for names in natural[:1]],
            permutations[2]):
        yield 1, (first, natural[1][::-1], second, natural[3][::-1])


def run(shard, report, spec):
    mode, part = shard
    scratch = Path(spec['scratch'])
    quick = spec['tier'] == 'quick'
    if mode == 'complete':
        return run_complete(report, scratch, part, quick)
    plan = json.loads((scratch / 'plan.json').read_text())
    template = starts.Template.__new__(starts.Template)
    template.directory, template.known = scratch / 'template', plan['known']
    place = make(scratch / f'tiny{part}', template)
    for index, (seed, state) in enumerate(states(quick)):
        if index % PARTS != part:
            continue
        place.restore({})
        problems = []
        # the second start uses what was saved by the first one
        for name, start_seed in [('cold', seed), ('warm', seed + 1)][
                :1 if quick and index % 8 else 2]:
            result = place.start(seed=start_seed,
                                 VERIF_ORDERS=orders(place, state))
            report.count('transitions')
            if result.code or result.timeout:
                problems.append(f'{name} start fails: {result}')
            elif result.answers != plan['answers']:
                problems.append(f'{name} start: ' + starts.differences(
                        result.answers, plan['answers']))
        report.count('traces')
        report.state((seed, state))
        report.outcome('tiny library')
        history = f'hash seed {seed}, order {state}'
        report.sample(history)
        if problems and not report.violation(
                history, f'{history}: ' + '; '.join(problems),
                {'history': history}):
            break
    shutil.rmtree(place.directory)


MODES = ['natural', 'reversed', 'interleaved', *[f'rotated{offset}'
                                                 for offset in range(1, 8)]]


def run_complete(report, scratch, part, quick):
    """Texts of all answers are compared between shards afterwards."""
    import subprocess
    from vlib import target
    directory = scratch / f'complete{part}'
    package = directory / 'target'
    package.mkdir(parents=True)
    target.copy_package(package)
    (directory / 'fake').mkdir()
    (directory / 'fake' / 'sitecustomize.py').write_text(ORDERING)
    (directory / 'probe.py').write_text(COMPLETE_PROBE)
    subprocess.run([target.PYTHON, '-m', 'compileall', '-q', str(package)],
                   check=False, stdout=subprocess.DEVNULL)
    place = starts.Place(directory, [
        os.path.relpath(path, directory) for path in package.rglob('*')
        if path.is_file()])
    cases = [(seed, MODES[(seed + shift) % len(MODES)])
             for shift in range(1 if quick else 3)
             for seed in range(part, 8 if quick else 32, 8)]
    for seed, mode in cases:
        place.restore({})
        output = directory / f'answers_{seed}_{mode}'
        result = place.start(
                command=[*place.command(), str(output)], seed=seed,
                timeout=600, VERIF_ORDERS=json.dumps({'': mode}))
        report.count('transitions')
        history = f'complete library, hash seed {seed}, order {mode}'
        if result.code or result.timeout or not output.exists():
            report.violation(history, f'{history}: {result}',
                             {'history': history})
            continue
        report.state((seed, mode))
        report.count('traces')
        report.outcome('complete library')


def conclude(context, reports):
    from vlib import core
    report = core.Report()
    reference = None
    for path in sorted(context.scratch.glob('complete*/answers_*')):
        answers = json.loads(path.read_text())
        history = 'complete library, ' + path.name
        if reference is None:
            reference = answers, history
            report.count('answers_of_complete_library', len(answers))
            continue
        other, other_history = reference
        if answers != other:
            names = [name for name in other if name in answers
                     and answers[name] != other[name]]
            description = ('\n'.join(
                    f'{name}: {answers[name]}\ninstead of {other[name]}'
                    for name in names[:3])
                if names else
                f'callables {sorted(answers.keys() ^ other.keys())[:5]}')
            report.violation(history, f'{history} and {other_history}: '
                             f'{len(names)} answers differ, e.g. '
                             f'{description}', {'history': history})
    return [*reports, report.to_dict(True)]


COMPLETE_PROBE = '''
import json, sys
sys.setrecursionlimit(5000)
import paradigm.base as base
from checks import c18
from vlib import describe
answers = {repr(key): describe.ask(base, value)[0]
           for key, value in sorted(c18.enumerate_queries(),
                                    key=lambda item: item[0])}
with open(sys.argv[1], 'w') as file:
    json.dump(answers, file)
'''
