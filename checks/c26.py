"""C26: an overloaded signature is the union of its alternatives."""
import itertools

from vlib.shapes import (FOREIGN, ODD_NAMES, Param, PO, PK, accepts, attempt,
                         base, call_names, from_signature, gen_shapes,
                         positionals_count, show, subsets, to_function,
                         to_signature)

LEVEL = 'model_checking'
RULE = ('state: sequence of alternatives (all pairs and triples over bounded '
        'shapes, repetitions included) left after the bindings so far; '
        'transition: a query or a bind; reference: disjunction of real calls '
        'of functions with these shapes; trace: bind chains of length <= 2 '
        'followed by all queries')
ASSUMPTIONS = ['bind of plain signatures is right (decided by C04)']
PARTS = 16


def pool(tier):
    small = [s for s in gen_shapes(2) if len(s) <= 3]
    if tier == 'quick':
        small = [s for s in small if len(s) <= 2]
    return small


def triples_pool():
    return [s for s in gen_shapes(1)][:20:2] + [
        (Param('b', PK, 'r'), Param('a', PK, 'd')),
        (Param('b', PO, 'r'), Param('a', PO, 'r'))]


def odd_pool():
    return list(gen_shapes(1, names=('self',), vp_name='args',
                           vk_name='kwargs'))


def universe(tier):
    yield from itertools.product(pool(tier), repeat=2)
    yield from itertools.product(triples_pool(), repeat=3)
    yield from itertools.product(odd_pool(), repeat=2)


def shards(tier):
    return [[index, PARTS] for index in range(PARTS)]


def flatten(signature):
    return (list(signature.signatures)
            if isinstance(signature, base.OverloadedSignature)
            else [signature])


def verify_queries(report, signature, plains, functions, calls, what, case):
    """functions[i](args, kwargs) is the reference of i-th alternative."""
    for count, keywords in calls:
        args, kwargs = (None,) * count, dict.fromkeys(keywords)
        for method in ('all_set', 'expects'):
            reference = any(getattr(plain, method)(*args, **kwargs)
                            for plain in plains)
            actual = attempt(getattr(signature, method), *args, **kwargs)
            report.count('transitions')
            report.outcome(f'{method}: {reference}')
            if actual[0] != 'ok' or actual[1] is not reference:
                return report.violation(
                        method, f'{what}: {method}{(count, keywords)} is '
                        f'{actual[1:]}, expected {reference}',
                        {**case, 'call': (count, keywords)})
    return True


def run(shard, report, spec):
    part, parts = shard
    for index, (shapes, same) in enumerate(
            (shapes, same) for shapes in universe(spec['tier'])
            for same in (False, True)):
        if index % parts != part:
            continue
        # alternatives having the same returns can become equal
        plains = [to_signature(shape, returns=None if same else number)
                  for number, shape in enumerate(shapes)]
        made = attempt(base.OverloadedSignature, *plains)
        what = (' | '.join(map(show, shapes))
                + ' with the same returns' * same)
        case = {'shapes': shapes}
        if made[0] != 'ok':
            report.violation('construction', f'{what}: {made[1:]}', case)
            return
        signature = made[1]
        names = sorted({name for shape in shapes
                        for name in call_names(shape, variadic_names=True)})
        limit = max(map(positionals_count, shapes)) + 1
        calls = [(count, keywords) for count in range(limit + 1)
                 for keywords in subsets(names, 2)]
        report.state((shapes, same))
        # plain queries against real functions
        for count, keywords in calls * (not same):
            args, kwargs = (None,) * count, dict.fromkeys(keywords)
            for method, optional in (('all_set', False), ('expects', True)):
                reference = any(
                        accepts(to_function(shape, optional=optional), args,
                                kwargs) for shape in shapes)
                actual = attempt(getattr(signature, method), *args, **kwargs)
                report.count('transitions')
                report.outcome(f'{method}: {reference}')
                if actual[0] != 'ok' or actual[1] is not reference:
                    if not report.violation(
                            method, f'{what}: {method}{(count, keywords)} is '
                            f'{actual[1:]}, expected {reference}',
                            {**case, 'call': (count, keywords)}):
                        return
        if not verify_bind(report, signature, plains, calls, what, case, 2,
                           names, limit):
            return
        after = flatten(signature)
        if len(after) != len(plains) or any(
                a is not b and a != b for a, b in zip(after, plains)):
            report.violation('modified', f'{what} was modified', case)
            return
        if index < parts * 2:
            report.sample(f'{what}: {len(calls)} calls, binds of them and '
                          'queries after them')


def verify_bind(report, signature, plains, calls, what, case, depth, names,
                limit):
    for count, keywords in calls:
        if depth == 1 and (count > 1 or len(keywords) > 1):
            continue
        args, kwargs = (count,) * count, dict.fromkeys(keywords, depth)
        chosen = [plain for plain in plains
                  if plain.expects(*args, **kwargs)]
        actual = attempt(signature.bind, *args, **kwargs)
        report.count('transitions')
        step = {**case, 'depth': depth, 'bind': (count, keywords)}
        if not chosen:
            report.outcome('bind: error')
            if actual[0] == 'ok' or actual[1] != 'TypeError':
                return report.violation(
                        'bind error', f'{what}: bind{(count, keywords)} '
                        f'should raise TypeError, but gives {actual[1:]}',
                        step)
            continue
        report.outcome(f'bind: {len(chosen)} of {len(plains)}')
        expected = [plain.bind(*args, **kwargs) for plain in chosen]
        if actual[0] != 'ok':
            return report.violation(
                    'bind', f'{what}: bind{(count, keywords)} fails: '
                    f'{actual[1:]}', step)
        result = actual[1]
        if len(expected) == 1:
            good = (isinstance(result, base.PlainSignature)
                    and result == expected[0])
        else:
            good = (isinstance(result, base.OverloadedSignature)
                    and len(result.signatures) == len(expected)
                    and all(type(a) is base.PlainSignature and a == b
                            and a.returns == b.returns
                            for a, b in zip(result.signatures, expected)))
        if not good:
            return report.violation(
                    'bind', f'{what}: bind{(count, keywords)} gives '
                    f'{result}, expected alternatives '
                    f'{[str(e) for e in expected]}', step)
        report.count('traces')
        if depth > 1:
            next_calls = [(c, k) for c in range(3)
                          for k in subsets(names, 1)]
            next_what = f'{what}.bind{(count, keywords)}'
            if len(expected) > 1:
                if not verify_queries(report, result, expected, None,
                                      next_calls, next_what, step):
                    return False
                if not verify_bind(report, result, expected, next_calls,
                                   next_what, step, depth - 1, names, limit):
                    return False
    return True
