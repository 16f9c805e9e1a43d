"""C19: concurrent queries from several threads give sequential answers."""
import gc
import json
import os
import signal
import sys
import warnings

from checks import c18
from vlib import describe

LEVEL = 'model_checking'
RULE = ('state: position of each of the threads in the library (pair of '
        'queries, points of preemption); transition: line or instruction of '
        'the library executed by a thread under control of the scheduler; '
        'trace: complete schedule of two or three threads making their '
        'queries in a process which has not answered any queries, answers '
        'being compared with those given alone (both while running and '
        'afterwards). Explored: all schedules with a single preemption at '
        'any line (any of the first visits of a line), schedules with two '
        'preemptions at lines holding no locks, resuming threads waiting '
        'for a lock right after its release and later, three threads, and '
        'forking the process at any line of a query')
ASSUMPTIONS = [
    'threads are preempted between lines (thorough: instructions) of the '
    'library only, code of the standard library called from there is not '
    'preempted',
    'importing of the library itself by threads relies on import locks of '
    'the interpreter',
]
PARTS = 8
LIMIT = 3
FORK_TIMEOUT = 30
TIMEOUT = 5400
prepare = c18.prepare
MAIN = (
    # recursive alias, the same and different callables
    (('builtins', 'isinstance'), ('builtins', 'issubclass')),
    (('builtins', 'isinstance'), ('builtins', 'isinstance')),
    # protocols and type variables existing in stubs only
    (('builtins', 'min'), ('builtins', 'max')),
    (('builtins', 'sorted'), ('heapq', 'nlargest')),
    (('builtins', 'dict.get'), ('builtins', 'dict.pop')),
    # constructors of related classes
    (('collections', 'OrderedDict'), ('builtins', 'dict')),
    (('os', 'fsencode'), ('os', 'fsdecode')),
)
PAIRS = {'quick': 8, 'thorough': 200}


def shards(tier):
    return ([['single', part] for part in range(PARTS)]
            + [['several', part] for part in range(PARTS)]
            + ([['instructions', part] for part in range(PARTS)]
               if tier != 'quick' else []))


def run(shard, report, spec):
    mode, part = shard
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(5000)
    with open(os.path.join(spec['scratch'], 'reference.json')) as file:
        reference = {tuple(key): answer for *key, answer in json.load(file)}
    from vlib import expected, scheduler
    expected.import_modules()
    scheduler.install()
    import paradigm.base as base
    root = os.path.dirname(os.path.dirname(os.path.realpath(base.__file__)))
    root = os.path.join(root, 'paradigm') + os.sep
    traced = {}

    def is_traced(path):
        try:
            return traced[path]
        except KeyError:
            result = traced[path] = os.path.realpath(path).startswith(root)
            return result

    queries = [query for query in c18.enumerate_queries()
               if query[0] in reference]
    user = c18.user_queries()
    for key, value in user:
        reference[key] = c18.in_fork(lambda: describe.ask(base, value)[0])[1]
    gc.collect()
    gc.freeze()
    explorer = Explorer(report, base, reference, is_traced, part)
    pairs = pairs_of(queries, user, reference, PAIRS[spec['tier']])
    quick = spec['tier'] == 'quick'
    if mode == 'single':
        for pair in pairs:
            if not explorer.single(pair, visits=1 if quick else 1 << 30,
                                   cap=320 if quick else 6000):
                return
    elif mode == 'several':
        for pair in pairs[:3 if quick else 60]:
            if not explorer.several(pair, 9 if quick else 40):
                return
        for pair in pairs[:3 if quick else 60]:
            if not explorer.three(pair, 60 if quick else 600):
                return
        for pair in pairs[:3 if quick else 60]:
            if not explorer.forking(pair, 100 if quick else 1000):
                return
    else:
        explorer.instructions = True
        for pair in pairs[:12]:
            if not explorer.single(pair, visits=1 << 30, cap=8000):
                return


def pairs_of(queries, user, reference, limit):
    """Pairs of queries which share something while being answered."""
    by_name = {}
    for key, value in queries:
        by_name.setdefault(key[:2], (key, value))
    result = [[by_name[first], by_name[second]] for first, second in MAIN
              if first in by_name and second in by_name]
    groups = [sorted(group, key=lambda query: (len(reference[query[0]]),
                                               query[0]))[:2]
              for leaf, group in c18.groups_of(queries, reference).items()]
    groups = [group for group in groups if len(group) == 2]
    seen, unique = set(), []
    for group in groups:
        key = tuple(key for key, _ in group)
        if key not in seen:
            seen.add(key)
            unique.append(group)
    result += c18.spread(unique, max(limit - len(result) - 3, 2))
    # library has no stubs for these ones
    result += [[user[0], user[1]], [user[1], user[-1]],
               [user[-2], by_name.get(('builtins', 'sorted'), user[0])]]
    return result


class Explorer:
    def __init__(self, report, base, reference, is_traced, part):
        self.report, self.base, self.reference = report, base, reference
        self.is_traced, self.part = is_traced, part
        self.instructions = False
        self.counter = 0

    def ask(self, value, forking):
        if not forking:
            return describe.ask(self.base, value)[0]

        def in_child():
            sys.settrace(None)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(FORK_TIMEOUT)
            return describe.ask(self.base, value)[0]

        return c18.in_fork(in_child)[1]

    def execute(self, queries, schedule, *, eager=False, recording=False,
                forking=()):
        from vlib import scheduler

        def function():
            instance = scheduler.Scheduler(
                    [lambda value=value, index=index:
                     self.ask(value, index in forking)
                     for index, (_, value) in enumerate(queries)],
                    schedule, self.is_traced,
                    eager=eager, recording=recording,
                    instructions=self.instructions)
            error = instance.run()
            if error is not None:
                return {'error': error}
            return {'error': None,
                    'answers': [thread.result for thread in instance.all],
                    'later': [describe.ask(self.base, value)[0]
                              for _, value in queries],
                    'steps': [thread.steps for thread in instance.all],
                    'blocks': instance.blocks,
                    'locations': [thread.locations
                                  for thread in instance.all]}

        kind, result = c18.in_fork(function)
        return result if kind == 'ok' else {'error': result}

    def check(self, queries, schedule, *, eager=False, forking=()):
        """Whether to go on, were threads waiting for each other."""
        result = self.execute(queries, schedule, eager=eager,
                              forking=forking)
        names = ' and '.join(c18.name_of(key) for key, _ in queries)
        history = (f'{names}, schedule {schedule}'
                   + (', eager' if eager else '')
                   + (', the last one in a fork' if forking else ''))
        case = {'queries': [key for key, _ in queries],
                'schedule': schedule, 'eager': eager,
                'instructions': self.instructions}
        if result['error'] is not None:
            return (self.report.violation(
                    f'concurrent {history}', f'concurrent queries of '
                    f'{history}: {result["error"]}', case), False)
        self.report.state((names, tuple(schedule), eager, forking,
                           self.instructions))
        self.report.count('transitions', sum(result['steps']))
        self.report.count('traces')
        self.report.outcome('waiting for each other' if result['blocks']
                            else 'independent')
        for name in ('answers', 'later'):
            for (key, _), answer in zip(queries, result[name]):
                if answer != self.reference[key]:
                    return (self.report.violation(
                            f'{name} {history}',
                            f'{name} for {c18.name_of(key)} of concurrent '
                            f'queries of {history} is\n{answer}\ninstead of'
                            f'\n{self.reference[key]}', case), False)
        return True, bool(result['blocks'])

    def is_own(self):
        self.counter += 1
        return self.counter % PARTS == self.part

    def points(self, queries, index, visits):
        """Steps of the thread worth preemption at."""
        result = self.execute(queries, [(index, 1 << 40)],
                              recording=True)
        if result['error'] is not None:
            self.report.violation(
                    'sequential ' + ' '.join(c18.name_of(key)
                                             for key, _ in queries),
                    f'running threads one after another: {result["error"]}')
            return []
        counts, points, last = {}, [], {}
        for step, location in enumerate(result['locations'][index], 1):
            location = tuple(location)
            counts[location] = counts.get(location, 0) + 1
            last[location] = step
            if counts[location] <= visits:
                points.append(step)
        return sorted({*points, *last.values()})

    def single(self, pair, visits, cap):
        for queries in ([pair, pair[::-1]] if pair[0][0] != pair[1][0]
                        else [pair]):
            points = self.points(queries, 0, visits)
            if len(points) > cap:
                self.report.note(f'{len(points) - cap} points of preemption '
                                 f'of {c18.name_of(queries[0][0])} skipped')
                points = c18.spread(points, cap)
            for point in points:
                if not self.is_own():
                    continue
                go_on, waited = self.check(queries, [(0, point)])
                if go_on and waited:
                    go_on, _ = self.check(queries, [(0, point)], eager=True)
                if not go_on:
                    return False
        return True

    def several(self, pair, limit):
        """Two preemptions."""
        points = [c18.spread(self.points(pair, index, 1), limit)
                  for index in (0, 1)]
        for order in ((0, 1), (1, 0)):
            for first in points[order[0]]:
                for second in points[order[1]]:
                    if not self.is_own():
                        continue
                    for eager in (False, True):
                        go_on, waited = self.check(
                                pair, [(order[0], first),
                                       (order[1], second)], eager=eager)
                        if not go_on:
                            return False
                        if not waited:
                            break
        return True

    def three(self, pair, limit):
        queries = [*pair, pair[0]]
        for point in c18.spread(self.points(queries, 0, 1), limit):
            if not self.is_own():
                continue
            for order in ([(0, point), (1, point)],
                          [(0, point), (2, point), (1, point)]):
                go_on, _ = self.check(queries, order, eager=True)
                if not go_on:
                    return False
        return True

    def forking(self, pair, limit):
        """Process is forked by one thread while another one works."""
        for point in c18.spread(self.points(pair, 0, 1), limit):
            if not self.is_own():
                continue
            for eager in (False, True):
                go_on, waited = self.check(pair, [(0, point)], eager=eager,
                                           forking=(1,))
                if not go_on:
                    return False
                if not waited:
                    break
        return True
