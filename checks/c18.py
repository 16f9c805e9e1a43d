"""C18: answers do not depend on the history of previous queries."""
import gc
import importlib
import itertools
import json
import os
import re
import subprocess
import sys
import types
import warnings

from vlib import describe, target

LEVEL = 'model_checking'
RULE = ('state: process which has answered some queries, with everything or '
        'only the module of the callable imported; transition: query in a '
        'fork of the process; trace: comparison of the answer with the '
        'reference one. Explored: every callable asked in a fresh process, '
        'sequences of all queries in several orders (every query asked '
        'twice, with bindings in between), all ordered pairs of queries '
        'sharing a part of answer existing in stubs only, all ordered pairs '
        'of representatives of all such parts (answer of the first query '
        'being kept or dropped)')
ASSUMPTIONS = [
    'interference of queries goes through something mentioned by both of '
    'them or through imports of modules; others are covered by sequences of '
    'all queries only',
]
LIMIT = 6
PARTS = 8
ORDERS = ('forward', 'backward', 'modules backward', 'classes first',
          'classes last', 'by answer', 'odd first', 'by name')
PREPARATION = '''
import json, sys
sys.setrecursionlimit(5000)
import paradigm.base as base
from checks import c18
from vlib import describe
queries = c18.enumerate_queries()
with open(sys.argv[1], 'w') as file:
    json.dump([[*key, describe.ask(base, value)[0]]
               for key, value in queries], file)
'''
# spelled in annotations of callables, but exists in stubs only
LEAF = re.compile(r"(?:TypeVar|ParamSpec|TypeVarTuple)\(\w+"
                  r"|forward\('[^']*'\)|[\w.]+<")


def prepare(context):
    target.build(context.target, seed=context.seed)
    process = subprocess.run(
            [target.PYTHON, '-W', 'ignore', '-c', PREPARATION,
             str(context.scratch / 'reference.json')],
            env=target.environment(context.target, seed=context.seed),
            cwd=str(context.scratch), stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if process.returncode:
        raise RuntimeError(process.stderr.decode()[-3000:])


def enumerate_queries():
    """[(module name, path, way of access), callable]"""
    from vlib import expected
    result = []
    for name, path, value in expected.Index(
            expected.import_modules()).callables:
        for way in ('attribute', 'raw'):
            try:
                found = access(sys.modules[name], path, way)
                if found is value or found == value:
                    break
            except Exception:
                continue
        else:
            continue
        result.append(((name, '.'.join(path), way), value))
    return result


def access(module, path, way):
    result = module
    for name in path[:-1]:
        result = getattr(result, name)
    return (getattr(result, path[-1]) if way == 'attribute'
            else vars(result)[path[-1]])


USER = '''
import functools, typing
T = typing.TypeVar('T')
def plain(a, b=1, *args, c, d: 'T' = None, **kwargs) -> typing.List[T]: pass
class Base(typing.Generic[T]):
    def __init__(self, x: T, *, y=()): pass
    def method(self, x: T) -> 'Base': pass
    @classmethod
    def create(cls, z): pass
    @staticmethod
    def static(z: int = 0): pass
    def __call__(self, w): pass
class Derived(Base[int]):
    def method(self, x, extra=1): pass
class Dictionary(dict): pass
class Error(ValueError): pass
instance, derived = Base(1), Derived(2)
QUERIES = [
    plain, Base, Derived, Base.method, Derived.method, instance.method,
    derived.method, Base.create, Derived.create, derived.static,
    super(Derived, derived).method, lambda: 0, Dictionary, Error,
    Dictionary.fromkeys, Dictionary().get, Dictionary.pop, [].append,
    'a'.join, str.join, (1).__add__, functools.partial(plain, 1, c=2),
    functools.partial(functools.partial(plain, 1), 2),
    functools.partial(int, base=2), functools.partial(derived.method, 1),
    functools.partial(sorted, key=len), functools.partial('a'.join),
]
'''


def user_queries():
    module = types.ModuleType('user_queries')
    sys.modules['user_queries'] = module
    exec(compile(USER, 'user_queries.py', 'exec', dont_inherit=True),
         vars(module))
    return [(('user_queries', f'{index} {describe.plain(value)}', 'list'),
             value) for index, value in enumerate(module.QUERIES)]


def shards(tier):
    return ([['sequences', part] for part in range(PARTS)]
            + [['pairs', part] for part in range(PARTS)]
            + [['alone', part] for part in range(PARTS)]
            + [['lean', part] for part in range(PARTS)]
            + ([['lean alone', part] for part in range(PARTS)]
               + [['triples', part] for part in range(PARTS)]
               if tier != 'quick' else []))


def in_fork(function):
    """Result of the function called in a fork of the process."""
    reader, writer = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(reader)
            data = json.dumps(function()).encode()
            with os.fdopen(writer, 'wb') as file:
                file.write(data)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    os.close(writer)
    with os.fdopen(reader, 'rb') as file:
        data = file.read()
    _, status = os.waitpid(pid, 0)
    if status:
        return 'error', f'process has ended with status {status}'
    return 'ok', json.loads(data)


def run(shard, report, spec):
    mode, part = shard
    warnings.simplefilter('ignore')
    with open(os.path.join(spec['scratch'], 'reference.json')) as file:
        entries = json.load(file)
    quick = spec['tier'] == 'quick'
    if mode.startswith('lean'):
        return run_lean(report, entries, part, mode == 'lean alone')
    import paradigm.base as base
    reference = {tuple(key): answer for *key, answer in entries}
    queries = enumerate_queries() + user_queries()
    for key, value in queries[-len(user_queries()):]:
        # compared with their own answers in a fresh process
        kind, answer = in_fork(lambda: describe.ask(base, value)[0])
        reference[key] = answer
    queries = [query for query in queries if query[0] in reference]
    gc.collect()
    gc.freeze()
    explore = {'sequences': run_sequences, 'pairs': run_pairs,
               'alone': run_alone, 'triples': run_triples}[mode]
    explore(report, base, reference, queries, part, quick)


def name_of(key):
    return f'{key[0]}:{key[1]}'


def differs(report, key, expected, actual, history, case=None):
    return report.violation(
            f'{name_of(key)} after {history}'[:200],
            f'answer for {name_of(key)} {history} is\n{actual}\ninstead of\n'
            f'{expected}', case)


def run_alone(report, base, reference, queries, part, quick):
    """Every query is the first one in the process."""
    for index in range(part, len(queries), PARTS):
        key, value = queries[index]
        kind, answer = in_fork(lambda: describe.ask(base, value)[0])
        report.state(('alone', key))
        report.count('transitions')
        report.count('traces')
        report.outcome('alone')
        if answer != reference[key]:
            if not differs(report, key, reference[key], answer,
                           'asked alone'):
                return


def ordered(queries, reference, name):
    if name == 'backward':
        return queries[::-1]
    elif name == 'modules backward':
        groups = [list(group) for _, group in itertools.groupby(
                queries, key=lambda query: query[0][0])]
        return [query for group in reversed(groups) for query in group]
    elif name == 'classes first':
        return sorted(queries, key=lambda query: not isinstance(query[1],
                                                                type))
    elif name == 'classes last':
        return sorted(queries, key=lambda query: isinstance(query[1], type))
    elif name == 'by answer':
        return sorted(queries, key=lambda query: len(reference[query[0]]))
    elif name == 'odd first':
        return queries[1::2] + queries[::2]
    elif name == 'by name':
        return sorted(queries, key=lambda query: query[0][1][::-1])
    return queries


def run_sequences(report, base, reference, queries, part, quick):
    name = ORDERS[part]
    queries = ordered(queries, reference, name)
    kind, problems = in_fork(lambda: sequence(base, reference, queries))
    if kind == 'error':
        report.violation(f'sequence {name}', f'{name} sequence: {problems}')
        return
    report.state(('sequence', name))
    report.count('transitions', 2 * len(queries))
    report.count('traces', 3 * len(queries))
    report.outcome('in a sequence', 3 * len(queries))
    for key, expected, actual, history in problems:
        if not differs(report, key, expected, actual,
                       f'{history} ({name})', {'order': name}):
            return


def sequence(base, reference, queries):
    problems, signatures = [], []
    for key, value in queries:
        before = features(value)
        text, signature = describe.ask(base, value)
        again, other = describe.ask(base, value)
        if text != reference[key]:
            problems.append((key, reference[key], text, 'in a sequence'))
        if text != again:
            problems.append((key, text, again, 'asked twice'))
        if signature is not None:
            if not signature == other or hash(signature) != hash(other):
                problems.append((key, text, 'unequal one', 'asked twice'))
            use(signature)
            signatures.append((key, text, signature, hash(signature)))
        after = features(value)
        if before != after:
            problems.append((key, before, after,
                             '(attributes of the callable) asked'))
    for key, text, signature, number in signatures:
        later = describe.of_signature(signature)
        if later != text:
            problems.append((key, text, later, 'kept during a sequence'))
        elif hash(signature) != number:
            problems.append((key, number, hash(signature),
                             '(hash) kept during a sequence'))
    return problems[:50]


def features(value):
    """What the callable consists of."""
    if isinstance(value, types.FunctionType):
        return [describe.plain(part) for part in (
            value.__defaults__, value.__kwdefaults__, value.__annotations__,
            sorted(vars(value)), value.__qualname__, value.__module__,
            value.__type_params__, value.__name__)]
    elif isinstance(value, type):
        return sorted(map(str, vars(value)))
    elif isinstance(value, types.MethodType):
        return features(value.__func__)
    return sorted(map(str, getattr(value, '__dict__', {})))


def use(signature):
    """Everything a user may do with a signature."""
    for args, kwargs in (((), {}), ((None,), {}), ((None, 1), {}),
                         ((), {'key': []})):
        try:
            if signature.expects(*args, **kwargs):
                signature.bind(*args, **kwargs)
            signature.all_set(*args, **kwargs)
        except TypeError:
            pass
    str(signature), repr(signature), hash(signature)
    parameters = getattr(signature, 'parameters', ())
    for parameter in parameters[:3]:
        try:
            signature.bind(**{parameter.name: parameter})
        except TypeError:
            pass


def leaves(answer):
    return {leaf for leaf in LEAF.findall(answer)
            if not leaf.startswith('builtins.')}


def groups_of(queries, reference):
    """Queries with different answers mentioning the same."""
    result = {}
    for key, value in queries:
        for leaf in leaves(reference[key]):
            result.setdefault(leaf, {}).setdefault(reference[key],
                                                   (key, value))
    return {leaf: list(by_answer.values())
            for leaf, by_answer in sorted(result.items())}


def spread(items, limit):
    if len(items) <= limit:
        return items
    return [items[index * (len(items) - 1) // (limit - 1)]
            for index in range(limit)]


def representatives(queries, reference):
    """Queries mentioning everything at least twice, if possible."""
    covered, result = {}, []
    for leaf, group in sorted(groups_of(queries, reference).items(),
                              key=lambda item: len(item[1])):
        for query in group:
            if covered.get(leaf, 0) >= 2:
                break
            if query not in result:
                result.append(query)
                for other in leaves(reference[query[0]]):
                    covered[other] = covered.get(other, 0) + 1
    return result


def pairs(queries, reference, quick):
    """First queries to second ones."""
    result = {}
    for group in groups_of(queries, reference).values():
        group = spread(group, 6 if quick else 24)
        for first in group:
            seconds = result.setdefault(first[0], (first, {}))[1]
            for second in group:
                seconds[second[0]] = second
    chosen = representatives(queries, reference)
    chosen = spread(chosen, 70 if quick else len(chosen))
    user = [query for query in queries if query[0][0] == 'user_queries']
    for group in (chosen + user[::3], user):
        for first in group:
            seconds = result.setdefault(first[0], (first, {}))[1]
            for second in group:
                seconds[second[0]] = second
    return [(first, list(seconds.values()))
            for first, seconds in result.values()]


def run_pairs(report, base, reference, queries, part, quick):
    for index, (first, seconds) in enumerate(pairs(queries, reference,
                                                   quick)):
        if index % PARTS != part:
            continue
        for keep in (True, False):
            if quick and not keep and index // PARTS % 3:
                continue
            kind, problems = in_fork(
                    lambda: ask_pairs(base, reference, [first], seconds,
                                      keep))
            history = (f'after {name_of(first[0])}, answer being '
                       f'{"kept" if keep else "dropped"}')
            if kind == 'error':
                if not report.violation(history, f'{history}: {problems}'):
                    return
                continue
            for second in seconds:
                report.state((first[0], second[0], keep))
            report.count('transitions', len(seconds))
            report.count('traces', len(seconds))
            report.outcome('in a pair', len(seconds))
            for key, actual in problems:
                if not differs(report, key, reference[tuple(key)], actual,
                               history, {'first': first[0], 'second': key,
                                         'keep': keep}):
                    return


def ask_pairs(base, reference, firsts, seconds, keep):
    kept = []
    for first in firsts:
        kept.append(describe.ask(base, first[1])[1])
    if not keep:
        kept.clear()
        gc.collect()
    result = []
    for key, value in seconds:
        kind, answer = in_fork(lambda: describe.ask(base, value)[0])
        if answer != reference[key]:
            result.append((key, answer))
    return result


def run_triples(report, base, reference, queries, part, quick):
    """Two queries before the third one."""
    for index, (leaf, group) in enumerate(groups_of(queries,
                                                    reference).items()):
        group = spread(group, 7)
        for position, firsts in enumerate(itertools.permutations(group, 2)):
            if (index + position) % PARTS != part:
                continue
            for keep in (True, False):
                kind, problems = in_fork(
                        lambda: ask_pairs(base, reference, firsts, group,
                                          keep))
                history = (f'after {name_of(firsts[0][0])} and '
                           f'{name_of(firsts[1][0])}, answers being '
                           f'{"kept" if keep else "dropped"}')
                if kind == 'error':
                    if not report.violation(history,
                                            f'{history}: {problems}'):
                        return
                    continue
                for third in group:
                    report.state((firsts[0][0], firsts[1][0], third[0],
                                  keep))
                report.count('transitions', len(group))
                report.count('traces', len(group))
                report.outcome('in a triple', len(group))
                for key, actual in problems:
                    if not differs(report, key, reference[tuple(key)],
                                   actual, history):
                        return


def run_lean(report, entries, part, alone):
    """Only the module of callables is imported by the user."""
    import paradigm.base as base
    modules = {}
    for module_name, path, way, answer in entries:
        modules.setdefault(module_name, []).append((path, way, answer))
    gc.collect()
    gc.freeze()
    for index, (module_name, queries) in enumerate(modules.items()):
        if index % PARTS != part:
            continue
        for backward in (False,) if alone else (False, True):
            kind, result = in_fork(
                    lambda: lean_queries(base, module_name,
                                         queries[::-1 if backward else 1],
                                         alone))
            history = (f'with only {module_name} imported'
                       + (', asked alone' if alone else
                          ', in backward sequence' if backward
                          else ', in a sequence'))
            if kind == 'error':
                if not report.violation(history, f'{history}: {result}'):
                    return
                continue
            count, problems = result
            report.state((module_name, backward, alone))
            report.count('transitions', count)
            report.count('traces', count)
            report.outcome('with nothing else imported', count)
            for path, expected, actual in problems:
                if not differs(report, (module_name, path), expected, actual,
                               history):
                    return


def lean_queries(base, module_name, queries, alone):
    try:
        module = importlib.import_module(module_name)
    except BaseException:
        # depends on others
        return 0, []
    count, problems = 0, []
    for path, way, answer in queries:
        try:
            value = access(module, path.split('.'), way)
        except Exception:
            # is set by others
            continue
        if not callable(value):
            continue
        count += 1
        actual = (in_fork(lambda: describe.ask(base, value)[0])[1] if alone
                  else describe.ask(base, value)[0])
        if actual != answer:
            problems.append((path, answer, actual))
            if len(problems) > 10:
                break
    return count, problems
