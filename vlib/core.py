"""Driver: prepares the target, runs shards of a check in worker processes,
merges their results, writes evidence and reports violations."""
import collections
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

from . import target

VERIF = target.VERIF
MAX_REPORTED = 12


class Report:
    """Collects results of a shard inside of a worker."""

    def __init__(self, path=None, limit=4):
        self.counters = collections.Counter()
        self.outcomes = collections.Counter()
        self.states = set()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.notes = []
        self.limit = limit
        self._path = path
        self._keys = set()

    def count(self, name, value=1):
        self.counters[name] += value

    def state(self, key):
        key = hash(key)
        if key in self.states:
            return False
        self.states.add(key)
        return True

    def outcome(self, name, value=1):
        self.outcomes[name] += value

    def nontrivial(self, key):
        self.distinct.add(hash(key))

    def sample(self, value, limit=2):
        if len(self.samples) < limit:
            self.samples.append(str(value)[:600])

    def note(self, text):
        if text not in self.notes and len(self.notes) < 20:
            self.notes.append(text)

    def violation(self, key, what, case=None):
        """Returns whether exploration of the shard should go on."""
        if key in self._keys:
            return True
        self._keys.add(key)
        self.violations.append({'key': key, 'what': str(what)[:1500],
                                'case': case})
        self.flush()
        return len(self.violations) < self.limit

    @property
    def full(self):
        return len(self.violations) >= self.limit

    def to_dict(self, done):
        return {'done': done, 'counters': dict(self.counters),
                'outcomes': dict(self.outcomes),
                'states': len(self.states), 'distinct': len(self.distinct),
                'samples': self.samples, 'violations': self.violations,
                'notes': self.notes}

    def flush(self, done=False):
        if self._path is None:
            return
        temporary = self._path + '.tmp'
        with open(temporary, 'w') as file:
            json.dump(self.to_dict(done), file)
        os.replace(temporary, self._path)


class Context:
    def __init__(self, id_, tier, seed, scratch):
        self.id, self.tier, self.seed, self.scratch = id_, tier, seed, scratch
        self.target = scratch / 'target'
        self.quick = tier == 'quick'


def load_known(id_):
    path = VERIF / 'known_findings.json'
    if not path.exists():
        return {}
    data = json.loads(path.read_text())
    return {entry['key']: entry['what'] for entry in data['findings']
            if entry['property'] == id_}


def run_workers(context, module, shards, *, jobs=None, timeout=None,
                extra_paths=(), limit=4):
    """Runs all shards in subprocesses, returns list of result dicts."""
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(
            8, os.cpu_count() or 1)
    timeout = timeout or (600 if context.quick else 6000)
    queue = list(enumerate(shards))
    queue.reverse()
    running = {}
    results = [None] * len(shards)
    directory = context.scratch / 'shards'
    directory.mkdir(exist_ok=True)
    try:
        while queue or running:
            while queue and len(running) < jobs:
                index, shard = queue.pop()
                spec, out, err = (directory / f'{index}.spec',
                                  directory / f'{index}.out',
                                  directory / f'{index}.err')
                spec.write_text(json.dumps({
                    'check': context.id, 'tier': context.tier,
                    'seed': context.seed, 'scratch': str(context.scratch),
                    'module': module.__name__, 'shard': shard, 'limit': limit}))
                with open(err, 'wb') as err_file:
                    process = subprocess.Popen(
                            [target.PYTHON, '-X', 'faulthandler', '-W', 'ignore',
                             str(VERIF / 'vlib' / 'worker.py'), str(spec),
                             str(out)],
                            env=target.environment(context.target,
                                                   seed=context.seed,
                                                   extra_paths=extra_paths),
                            cwd=str(context.scratch), stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=err_file,
                            start_new_session=True)
                running[index] = (process, time.monotonic(), shard, out, err)
            time.sleep(0.02)
            for index, (process, start, shard, out, err) in list(running.items()):
                code = process.poll()
                expired = (code is None
                           and time.monotonic() - start > timeout)
                if code is None and not expired:
                    continue
                try:
                    os.killpg(process.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                process.wait()
                del running[index]
                result = (json.loads(out.read_text()) if out.exists() else
                          Report().to_dict(False))
                result['shard'] = shard
                if not result['done']:
                    tail = err.read_bytes()[-3000:].decode(errors='replace')
                    if code == 3:
                        # the harness itself has failed
                        raise RuntimeError(f'worker failed on shard {shard}:\n'
                                           f'{tail}')
                    result['violations'].append({
                        'key': 'worker:' + ('hang' if expired
                                            else f'exit {code}'),
                        'what': (f'process exploring shard {shard} '
                                 + ('has not finished in time' if expired
                                    else f'ended abnormally ({code})')
                                 + ': ' + tail[-800:]),
                        'case': None})
                results[index] = result
    finally:
        for process, *_ in running.values():
            try:
                os.killpg(process.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
    return results


def merge(results):
    counters, outcomes = collections.Counter(), collections.Counter()
    states = distinct = 0
    samples, violations, notes = [], [], []
    for result in results:
        counters.update(result['counters'])
        outcomes.update(result['outcomes'])
        states += result['states']
        distinct += result['distinct']
        for sample in result['samples']:
            if len(samples) < 6:
                samples.append(sample)
        for violation in result['violations']:
            violations.append({**violation, 'shard': result.get('shard')})
        for note in result['notes']:
            if note not in notes:
                notes.append(note)
    return counters, outcomes, states, distinct, samples, violations, notes


def main(id_, tier):
    started = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    module = importlib.import_module('checks.' + id_.lower())
    scratch = Path(tempfile.mkdtemp(prefix=f'verif-{id_}-'))
    os.chmod(scratch, 0o755)

    def terminate(number, frame):
        raise SystemExit(4)

    signal.signal(signal.SIGTERM, terminate)
    try:
        context = Context(id_, tier, seed, scratch)
        context.target.mkdir()
        target.copy_package(context.target)
        results = []
        try:
            if hasattr(module, 'prepare'):
                module.prepare(context)
            elif getattr(module, 'BUILD', True):
                target.build(context.target, seed=seed)
        except target.BuildFailed as error:
            result = Report().to_dict(True)
            result['violations'] = [{'key': 'build', 'what': str(error),
                                     'case': None}]
            results.append(result)
        else:
            if hasattr(module, 'execute'):
                results = module.execute(context)
            else:
                results = run_workers(
                        context, module, module.shards(tier),
                        timeout=getattr(module, 'TIMEOUT', None),
                        extra_paths=(module.extra_paths(context)
                                     if hasattr(module, 'extra_paths')
                                     else ()),
                        limit=getattr(module, 'LIMIT', 4))
                if hasattr(module, 'conclude'):
                    results = module.conclude(context, results)
        return finish(context, module, results, started)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def finish(context, module, results, started):
    counters, outcomes, states, distinct, samples, violations, notes = merge(
            results)
    level = module.LEVEL
    coverage = {}
    if level == 'model_checking':
        coverage['states'] = states + counters.pop('states', 0)
        coverage['transitions'] = counters.pop('transitions', 0)
        coverage['traces_validated_against_impl'] = counters.pop('traces', 0)
    else:
        coverage['evaluations'] = counters.pop('evaluations', 0)
        coverage['distinct_nontrivial'] = (distinct
                                           + counters.pop('nontrivial', 0))
        if states:
            coverage['distinct_states'] = states
    coverage['rule'] = module.RULE
    coverage['samples'] = samples or ['(none)']
    coverage['outcomes'] = dict(sorted(outcomes.items()))
    coverage.update(counters)
    if notes:
        coverage['notes'] = notes
    coverage['exhaustive'] = (not violations
                              and not getattr(module, 'CAPPED', False))
    known = load_known(context.id)
    fresh, seen_known, keys = [], {}, set()
    for violation in violations:
        key = violation['key']
        if key in keys:
            continue
        keys.add(key)
        if key in known:
            seen_known[key] = known[key]
        else:
            fresh.append(violation)
    evidence = {'property': context.id, 'tier': context.tier,
                'seed': context.seed, 'level': level, 'coverage': coverage,
                'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
                'wall_s': round(time.monotonic() - started, 2),
                'violations': len(fresh)}
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{context.id}.json').write_text(
            json.dumps(evidence, indent=1) + '\n')
    summary = {key: value for key, value in coverage.items()
               if isinstance(value, (int, dict))}
    print(f'{context.id} {context.tier} seed={context.seed} '
          f'{evidence["wall_s"]}s {json.dumps(summary)}')
    for key, what in seen_known.items():
        print(f'KNOWN-FINDING: property={context.id} {what}')
    for key in known.keys() - seen_known.keys():
        print(f'note: listed finding not observed: {key}')
    if fresh:
        directory = VERIF / 'replays'
        directory.mkdir(exist_ok=True)
        for index, violation in enumerate(fresh[:MAX_REPORTED]):
            path = directory / f'{context.id}_{index}.json'
            path.write_text(json.dumps({
                'property': context.id, 'tier': context.tier,
                'seed': context.seed, 'key': violation['key'],
                'what': violation['what'], 'case': violation.get('case'),
                'shard': violation.get('shard'),
                'replay': (f'{target.PYTHON} {VERIF}/run.py --replay '
                           f'{path}')}, indent=1) + '\n')
            print(f'VIOLATION property={context.id} replay={path}')
            print('  ' + violation['what'].replace('\n', '\n  ')[:1200])
        return 1
    return 0
