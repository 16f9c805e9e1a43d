"""C12: signatures of functools.partial objects."""
import functools
import io
import itertools
import operator
import typing as t

from vlib.shapes import (FOREIGN, PK, PO, VK, VP, accepts, attempt, base,
                         call_names, from_parameter, gen_shapes,
                         positionals_count, show, subsets, to_function)

from .c04 import (Marker, annotated_function, expected_parameters)

LEVEL = 'model_checking'
RULE = ('state: (wrapped callable, chain of partial applications); '
        'transition: one more application of functools.partial (flattened or '
        'not by the interpreter) with <= 2 positionals and <= 2 keywords; in '
        'every state the signature of the partial object is compared with '
        'the reference parameter list (names, kinds, defaults and '
        'annotations by identity) and with real calls of the partial object; '
        'trace: chain of partials together with all its follow-up calls. '
        'Builtin callables: partial is compared with binding of the '
        'signature of the wrapped callable, alternative by alternative')
ASSUMPTIONS = ['functools.partial objects pass arguments correctly',
               'follow-up calls do not name positional-or-keyword '
               'parameters which already have their values as positionals']
PARTS = 24
NAMES = ('b', 'self', 'func', 'c')


def shards(tier):
    return ([['user', index, PARTS] for index in range(PARTS)]
            + [['builtin', index, 4] for index in range(4)])


class Partial(functools.partial):
    """Applications of these are not flattened."""


def opaque(function, /, *args, **kwargs):
    result = functools.partial(function, *args, **kwargs)
    result.attribute = 1
    return result


WRAPPERS = (functools.partial, Partial, opaque)


def wrappers_chains(depth):
    if depth == 1:
        return [(w,) for w in WRAPPERS]
    return [(functools.partial, functools.partial), (Partial, Partial),
            (opaque, functools.partial), (functools.partial, opaque)]


def run(shard, report, spec):
    mode, part, parts = shard
    quick = spec['tier'] == 'quick'
    if mode == 'builtin':
        return run_builtins(part, parts, report, quick)
    index = 0
    for shape in itertools.chain(gen_shapes(2),
                                 gen_shapes(2, names=NAMES, min_named=1),
                                 () if quick else gen_shapes(3, min_named=3)):
        index += 1
        if index % parts != part:
            continue
        markers = {'returns': Marker('returns')}
        for p in shape:
            markers['annotation', p.name] = Marker(f'annotation of {p.name}')
            markers['default', p.name] = Marker(f'default of {p.name}')
        function = annotated_function(shape, markers)
        for kind, target in targets(function, shape, markers):
            if not explore(kind, target, shape, markers, report, quick):
                return
        report.sample(show(shape))


def targets(function, shape, markers):
    yield 'function', function
    namespace = {'markers': markers}
    # first positional parameter is going to be bound
    from vlib.shapes import header
    if any(p.kind == PO for p in shape):
        me = 'zelf'
    else:
        me = 'zelf, /'
    text = header(shape,
                  default_of=lambda p: f"markers['default', {p.name!r}]",
                  annotate=lambda p: f"markers['annotation', {p.name!r}]")
    text = f'{me}, {text}' if text else me
    exec('class C:\n'
         f' def m({text}) -> markers["returns"]: pass\n'
         f' @classmethod\n def c({text}) -> markers["returns"]: pass\n'
         f' def i({text}): pass\n'
         ' pm = functools.partialmethod(m)\n'
         f'class D:\n def __init__({text}): pass',
         {'functools': functools, **namespace}, namespace)
    yield 'bound method', namespace['C']().m
    yield 'class method', namespace['C'].c
    yield 'class', namespace['D']


def explore(kind, target, shape, markers, report, quick):
    returns = markers['returns']
    if kind == 'class':
        from typing_extensions import Self as returns
    names = call_names(shape)
    limit = positionals_count(shape) + 1
    follow_ups = [(count, keywords) for count in range(limit + 1)
                  for keywords in subsets(names)]
    steps = [(count, keywords) for count in range(3)
             for keywords in subsets(names, 2)]
    optional = to_function(shape, optional=True)
    depths = (1, 2) if kind == 'function' else (1,)
    for depth in depths:
        chains = itertools.product(steps, repeat=depth)
        for history in chains:
            gone, args, kwargs, legal = set(), (), {}, True
            for level, (count, keywords) in enumerate(history):
                if not gone.isdisjoint(keywords):
                    legal = None
                    break
                args += (Marker(f'value {level}'),) * count
                kwargs.update(dict.fromkeys(keywords,
                                            Marker(f'keyword {level}')))
                gone = {p.name for p in [p for p in shape
                                         if p.kind in (PO, PK)][:len(args)]
                        if p.kind == PK}
                if not accepts(optional, args, kwargs):
                    legal = False
                    if level + 1 < depth:
                        legal = None
                    break
            if legal is None:
                # explored as a shorter chain
                continue
            for wrappers in (wrappers_chains(depth)
                             if kind == 'function' or not quick
                             else wrappers_chains(depth)[:1]):
                value, position, values = target, 0, dict(kwargs)
                for level, ((count, keywords), wrapper) in enumerate(
                        zip(history, wrappers)):
                    step_kwargs = {}
                    for name in keywords:
                        # latest application wins
                        later = any(name in h[1] for h in history[level + 1:])
                        step_kwargs[name] = (Marker('replaced') if later
                                             else values[name])
                    value = wrapper(value, *args[position:position + count],
                                    **step_kwargs)
                    position += count
                if not compare(kind, value, history, wrappers, legal, args,
                               kwargs, gone, shape, markers, returns,
                               follow_ups, report, optional):
                    return False
    return True


def compare(kind, value, history, wrappers, legal, args, kwargs, gone, shape,
            markers, returns, follow_ups, report, optional):
    what = (f'{kind} {show(shape)} in ' + ' of '.join(
            f'{w.__name__}{h}' for h, w in zip(history, wrappers)))
    case = {'shape': shape, 'history': history, 'kind': kind,
            'wrappers': [w.__name__ for w in wrappers]}
    report.count('transitions')
    report.state((kind, shape, history))
    result = attempt(base.signature_from_callable, value)
    report.outcome('accepted' if legal else 'rejected')
    if not legal:
        if result[0] == 'ok' or result[1] != 'TypeError':
            return report.violation(
                    f'no error:{kind}', f'{what} can never be called, but '
                    f'gives {result[1:]}', case)
        return True
    if result[0] != 'ok':
        return report.violation(f'fails:{kind}', f'{what}: {result[1:]}',
                                case)
    signature = result[1]
    if not isinstance(signature, base.PlainSignature):
        return report.violation(f'type:{kind}', f'{what}: {signature!r}',
                                case)
    got = tuple((tuple(from_parameter(p)), id(p.annotation),
                 id(p.default) if getattr(p, 'has_default', False) else 0)
                for p in signature.parameters)
    want = expected_parameters(shape, args, kwargs, markers)
    if got != want or signature.returns is not returns:
        if not report.violation(
                f'parameters:{kind}', f'{what} is {signature}, while '
                f'parameters {[p for p, _, _ in want]} are left', case):
            return False
    for count, keywords in follow_ups:
        if not gone.isdisjoint(keywords):
            continue
        call_args, call_kwargs = (None,) * count, dict.fromkeys(keywords)
        report.count('traces')
        reference = accepts(value, call_args, call_kwargs)
        result = attempt(signature.all_set, *call_args, **call_kwargs)
        if result != ('ok', reference):
            if not report.violation(
                    f'calls:{kind}', f'{what}: call {(count, keywords)} '
                    f'accepted: {reference}, the signature says '
                    f'{result[1:]}', case):
                return False
    return True


def builtin_callables():
    import bisect
    import collections
    import datetime
    import heapq
    import itertools
    import json
    import math
    import os
    import random
    import re
    import shutil
    import subprocess
    for value in (
            len, print, sorted, max, min, sum, isinstance, getattr, open,
            pow, round, iter, next, zip, map, int, str, dict, list, tuple,
            bytes, range, slice, type, enumerate, property, super, object,
            'a'.join, [].append, [].sort, {}.get, {}.pop, {}.update,
            dict.fromkeys, str.split, str.join, list.append, dict.get,
            object.__init__, (1).__add__, int.__add__, int.from_bytes,
            math.log, math.hypot, re.compile, re.sub, json.dumps, os.open,
            os.path.join, random.randint, bisect.insort, heapq.merge,
            itertools.accumulate, itertools.chain, itertools.islice,
            itertools.product, collections.Counter, collections.deque,
            collections.OrderedDict, collections.defaultdict,
            collections.namedtuple, datetime.datetime, datetime.timedelta,
            datetime.datetime.now, io.StringIO, io.BytesIO().read,
            operator.itemgetter, operator.add, subprocess.run,
            subprocess.Popen, shutil.copy, functools.reduce,
            functools.wraps, functools.lru_cache, random.Random().choice):
        yield value


def run_builtins(part, parts, report, quick):
    for index, function in enumerate(builtin_callables()):
        if index % parts != part:
            continue
        origin = attempt(base.signature_from_callable, function)
        if origin[0] != 'ok':
            report.outcome('no signature')
            continue
        origin = origin[1]
        plains = (origin.signatures
                  if isinstance(origin, base.OverloadedSignature)
                  else [origin])
        names = list(dict.fromkeys(p.name for s in plains
                                   for p in s.parameters
                                   if int(p.kind) not in (VP, VK)))[-4:]
        steps = [(count, keywords) for count in range(4)
                 for keywords in subsets([*names, FOREIGN], 2)]
        for step in steps:
            for second in [None, *(steps if not quick else steps[:6])]:
                history = [step] if second is None else [step, second]
                if not compare_builtin(function, plains, history, report):
                    return


def compare_builtin(function, plains, history, report):
    value, left, failed = function, list(plains), False
    for count, keywords in history:
        args = tuple(Marker(f'value {i}') for i in range(count))
        kwargs = dict.fromkeys(keywords, 'value')
        value = Partial(value, *args, **kwargs)
        left = [s.bind(*args, **kwargs) for s in left
                if s.expects(*args, **kwargs)]
    report.count('transitions')
    report.state((repr(function)[:30], tuple(history)))
    result = attempt(base.signature_from_callable, value)
    what = f'{function} in partials {history}'
    case = {'function': repr(function), 'history': history}
    report.outcome(f'{min(len(left), 2)} alternatives')
    if not left:
        if result[0] == 'ok' or result[1] != 'TypeError':
            return report.violation('builtin error', f'{what}: expected '
                                    f'TypeError, got {result[1:]}', case)
        return True
    report.count('traces')
    if result[0] != 'ok':
        return report.violation('builtin fails', f'{what}: {result[1:]}',
                                case)
    got = (list(result[1].signatures)
           if isinstance(result[1], base.OverloadedSignature)
           else [result[1]])
    if got != left:
        return report.violation('builtin', f'{what}: expected '
                                f'{" | ".join(map(str, left))}, got '
                                f'{result[1]}', case)
    return True
