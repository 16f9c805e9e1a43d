"""C22: concurrently starting processes do not corrupt each other."""
import itertools
import json
import os
import select
import shutil
import subprocess
import time
from pathlib import Path

from checks import c20
from vlib import starts

LEVEL = 'model_checking'
RULE = ('state: operations on the saved files completed by each of two '
        '(three) concurrently starting processes (initial state of the '
        'saved files, positions); transition: operation on the saved files '
        '(reading, writing, listing, requesting metadata) permitted by the '
        'controller to one of the processes; trace: complete schedule with '
        'a bounded number of context switches, answers of each of the '
        'processes and of two starts afterwards being compared with those '
        'of a clean start')
ASSUMPTIONS = [
    'operations on files are the ones made through the C library by the '
    'interpreter',
    'tiny synthetic standard library is used',
]
PARTS = 8
LIMIT = 4
BUILD = False
TIMEOUT = 5400
# how the files were left by previous starts
INITIAL = ('nothing', 'another version', 'torn', 'actual')


def prepare(context):
    scratch = context.scratch
    starts.build_shim(scratch)
    template = starts.Template(scratch / 'template')
    place = template.copy(scratch / 'clean')
    result = place.start()
    if result.code or result.answers is None:
        raise starts.target.BuildFailed(f'clean start: {result}')
    (scratch / 'plan.json').write_text(json.dumps({
        'answers': result.answers, 'known': template.known}))


def shards(tier):
    return [[initial, part] for initial in INITIAL for part in range(PARTS)]


class Process:
    """Started process, operations of which are permitted one by one."""

    def __init__(self, place, shim, seed):
        go_reader, self.go = os.pipe()
        self.operations, operations_writer = os.pipe()
        environment = place.environment(
                shim=shim, seed=seed,
                control=f'{go_reader},{operations_writer}')
        self.process = subprocess.Popen(
                place.command(), env=environment, cwd=str(place.directory),
                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, start_new_session=True,
                pass_fds=(go_reader, operations_writer))
        os.close(go_reader)
        os.close(operations_writer)
        self.buffer = b''
        self.pending = None
        self.finished = False
        self.log = []

    def peek(self, timeout=60):
        """The next operation to be done, none if there are no more."""
        while self.pending is None and not self.finished:
            if b'\n' in self.buffer:
                line, _, self.buffer = self.buffer.partition(b'\n')
                self.pending = line.decode()
                break
            if not select.select([self.operations], [], [], timeout)[0]:
                raise TimeoutError('process makes no operations')
            data = os.read(self.operations, 65536)
            self.buffer += data
            self.finished = not data
        return self.pending

    def step(self):
        operation = self.peek()
        if operation is None:
            return False
        self.log.append(operation)
        self.pending = None
        os.write(self.go, b'g')
        return True

    def kill(self):
        starts.kill(self.process)

    def finish(self):
        os.close(self.go)
        os.close(self.operations)
        return starts.finish(self.process, 60)


def run(shard, report, spec):
    initial, part = shard
    scratch = Path(spec['scratch'])
    plan = json.loads((scratch / 'plan.json').read_text())
    quick = spec['tier'] == 'quick'
    template = starts.Template.__new__(starts.Template)
    template.directory, template.known = scratch / 'template', plan['known']
    name = initial.replace(' ', '_')
    place = template.copy(scratch / f'{name}{part}')
    Explorer(report, place, scratch / 'shim.so', plan['answers'],
             initial, part).explore(quick)
    shutil.rmtree(place.directory)


class Explorer:
    def __init__(self, report, place, shim, answers, initial, part):
        self.report, self.place, self.shim = report, place, shim
        self.answers, self.initial, self.part = answers, initial, part
        self.files = self.initial_files()
        self.counter = 0

    def initial_files(self):
        if self.initial == 'nothing':
            return {}
        place = self.place
        if self.initial == 'another version':
            # both version and stubs differ
            path = place.package / 'paradigm' / '__init__.py'
            text = path.read_text()
            modified = path.stat().st_mtime_ns
            path.write_text(c20.VERSION.sub(
                    lambda found: (found.group(1) + found.group(2) + '0.'
                                   + found.group(3) + found.group(2)), text,
                    count=1))
            starts.write_library(place.directory, c20.variant(1, 1),
                                 starts.SOURCES)
            place.start()
            path.write_text(text)
            os.utime(path, ns=(modified, modified))
            shutil.rmtree(place.package / 'paradigm' / '__pycache__',
                          ignore_errors=True)
            starts.write_library(place.directory, starts.STUBS,
                                 starts.SOURCES)
            subprocess.run([starts.target.PYTHON, '-m', 'compileall', '-q',
                            str(place.package / 'paradigm')],
                           check=False, stdout=subprocess.DEVNULL)
            # saved files are rewritten in another second,
            # so that files compiled from them are out of date
            time.sleep(1.1)
            return place.saved()
        place.start()
        saved = place.saved()
        if self.initial == 'torn':
            saved = {name: (content[:len(content) * 2 // 3], modified)
                     for name, (content, modified) in saved.items()
                     if not name.endswith('.pyc')}
        return saved

    def execute(self, schedule, seeds, killed=()):
        """Results of processes, their operations, error."""
        self.place.restore(self.files)
        processes = [Process(self.place, self.shim, seed) for seed in seeds]
        error = None
        try:
            order = [*schedule, *[(index, None)
                                  for index in range(len(seeds))
                                  if index not in killed]]
            for index, count in order:
                process = processes[index]
                while count is None or count:
                    if not process.step():
                        break
                    if count is not None:
                        count -= 1
            for index in killed:
                processes[index].kill()
        except TimeoutError as exception:
            error = str(exception)
            for process in processes:
                process.kill()
        results = [process.finish() for process in processes]
        return results, [process.log for process in processes], error

    def check(self, schedule, seeds, killed=()):
        results, logs, error = self.execute(schedule, seeds, killed)
        history = (f'{self.initial} saved, schedule {schedule}'
                   + (f', processes {killed} killed' if killed else '')
                   + f', hash seeds {seeds}')
        self.report.count('transitions', sum(map(len, logs)))
        self.report.count('traces')
        self.report.state((self.initial, tuple(schedule), tuple(seeds),
                           killed))
        problems = [] if error is None else [error]
        for index, result in enumerate(results):
            if index not in killed:
                problems += self.problems(f'process {index}', result)
        if not problems:
            for number in (1, 2):
                result = self.place.start()
                self.report.count('transitions')
                problems += self.problems(f'start {number} afterwards',
                                          result)
                if result.error.strip():
                    problems.append(f'start {number} afterwards complains: '
                                    f'{result}')
        self.report.sample(history)
        self.report.outcome('killed' if killed else
                            f'{len(seeds)} processes')
        if problems:
            return self.report.violation(
                    history, f'{history}: ' + '; '.join(problems),
                    {'history': history, 'operations': logs})
        return True

    def problems(self, name, result):
        if result.code or result.timeout:
            return [f'{name} fails: {result}']
        elif result.answers != self.answers:
            return [f'{name}: ' + starts.differences(result.answers,
                                                     self.answers)]
        return []

    def is_own(self):
        self.counter += 1
        return self.counter % PARTS == self.part

    def explore(self, quick):
        results, (log, after), error = self.execute([], [1, 1])
        if error is not None or results[0].code:
            self.report.violation(f'{self.initial} sequential',
                                  f'{error} {results}')
            return
        everything = range(1, len(log) + 1)
        # points right before modifications and right after them
        modifying = [number for number, operation in enumerate(log)
                     if operation.split()[0] not in ('stat', 'read', 'list',
                                                     'open-read')]
        sharp = sorted({*modifying, *[number + 1 for number in modifying]}
                       | {number for number, operation in enumerate(log)
                          if operation.split()[0] == 'open-read'})
        sharp = [point for point in sharp if 0 < point <= len(log)]
        self.report.note(f'{self.initial}: {len(log)} operations of a '
                         f'process, {len(modifying)} modifications')
        for point in everything:
            for seeds in ([[1, 2]] if quick else [[1, 1], [1, 2]]):
                if self.is_own() and not self.check(
                        [(0, point), (1, None)], seeds):
                    return
        if not sharp:
            sharp = list(everything)
        limit = 10 if quick else len(sharp)
        points = [sharp[index * len(sharp) // limit]
                  for index in range(limit)] if limit < len(sharp) else sharp
        for first, second in itertools.product(
                points if quick else everything, points):
            if self.is_own() and not self.check(
                    [(0, first), (1, second), (0, None)], [1, 2]):
                return
        for first, second in itertools.product(points[::2 if quick else 1],
                                               points[::2 if quick else 1]):
            # killed while another one works
            if self.is_own() and not self.check(
                    [(0, first), (1, second), (0, None)], [1, 1],
                    killed=(1,)):
                return
        few = points[::4 if quick else 2]
        for first, second, third in itertools.product(few, repeat=3):
            if self.is_own() and not self.check(
                    [(0, first), (1, second), (2, third), (0, None)],
                    [1, 2, 3]):
                return
        if not quick:
            for history in itertools.product(points[::2], repeat=3):
                if self.is_own() and not self.check(
                        [(0, history[0]), (1, history[1]), (0, history[2]),
                         (1, None)], [1, 2]):
                    return
