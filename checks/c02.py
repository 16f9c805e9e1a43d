"""C02: expects() <=> some completion of the call is accepted by Python."""
from vlib.shapes import (FOREIGN, NAMES, ODD_NAMES, VP_NAME, VK_NAME, accepts,
                         attempt, call_names, gen_shapes, positionals_count,
                         show, subsets, to_function, to_signature)

LEVEL = 'model_checking'
METHOD = 'expects'
RULE = ('state: signature shape (kinds, required/default/unknown default, '
        'variadics, naming scheme); transition: one query with n positional '
        'arguments and a set of keywords; the reference is a real call of a '
        'function defined with this shape (for "expects": with all parameters'
        ' made optional, cross-validated by enumerating completions); trace: '
        'shape with all its queries, replayed against the implementation')
ASSUMPTIONS = ['the interpreter binds arguments to real functions correctly']
PARTS = 16


def universe(tier):
    named = 4 if tier == 'quick' else 6
    yield from (('plain', shape) for shape in gen_shapes(named))
    yield from (('unknown', shape)
                for shape in gen_shapes(3, opts='rdo')
                if any(p.opt == 'o' for p in shape))
    yield from (('odd', shape)
                for shape in gen_shapes(3, names=ODD_NAMES, vp_name='a',
                                        vk_name='k'))
    yield from (('odd variadics', shape)
                for shape in gen_shapes(2, vp_name='args', vk_name='kwargs',
                                        names=('kw', 'arg')))


def shards(tier):
    return [[index, PARTS] for index in range(PARTS)]


def expected(shape, count, keywords, method):
    function = to_function(shape, optional=method == 'expects')
    return accepts(function, (None,) * count,
                   dict.fromkeys(keywords))


def completions_exist(shape, count, keywords):
    """Existential definition of "expects", by enumeration."""
    function = to_function(shape)
    names = [name for name in call_names(shape) if name not in keywords]
    for extra_count in range(positionals_count(shape) + 1):
        for extra in subsets(names):
            if accepts(function, (None,) * (count + extra_count),
                       dict.fromkeys([*keywords, *extra])):
                return True
    return False


def run(shard, report, spec, method=METHOD):
    part, parts = shard
    for index, (scheme, shape) in enumerate(universe(spec['tier'])):
        if index % parts != part:
            continue
        report.state((scheme, shape))
        report.count('traces')
        names = call_names(
                shape, variadic_names=True,
                foreign=((FOREIGN,) if scheme != 'odd'
                         else ('self', 'kwargs', FOREIGN)[:3 if len(shape) < 3
                                                          else 2]))
        names = list(dict.fromkeys(names))
        made = attempt(to_signature, shape)
        if made[0] != 'ok':
            report.violation('construction', f'legal parameter list '
                             f'{show(shape)} is rejected: {made[1:]}',
                             {'shape': shape})
            return
        signature = made[1]
        query = getattr(signature, method)
        limit = positionals_count(shape) + 2
        for count in range(limit + 1):
            for keywords in subsets(names):
                reference = expected(shape, count, keywords, method)
                if (method == 'expects' and len(shape) <= 3
                        and completions_exist(shape, count,
                                              keywords) != reference):
                    raise RuntimeError(
                            f'reference models disagree: {show(shape)} '
                            f'{count} {keywords}')
                args, kwargs = (None,) * count, dict.fromkeys(keywords)
                actual = attempt(query, *args, **kwargs)
                report.count('transitions')
                report.outcome(f'{method}: {reference}')
                if actual[0] != 'ok' or actual[1] is not reference:
                    going = report.violation(
                            f'{method}:{scheme}',
                            f'{method}{(count, keywords)} of a signature '
                            f'{show(shape)} is {actual[1:]}, while '
                            f'{reference} is expected',
                            {'shape': shape, 'positionals': count,
                             'keywords': keywords, 'expected': reference})
                    if not going:
                        return
        # values and order of keywords do not matter
        for values in ((0, ...), ([], {}), (signature, type)):
            for count in range(min(limit, 3)):
                for keywords in subsets(names, 2):
                    reference = expected(shape, count, keywords, method)
                    actual = attempt(
                            query, *values[:1] * count,
                            **{name: values[1]
                               for name in reversed(keywords)})
                    report.count('transitions')
                    if actual[0] != 'ok' or actual[1] is not reference:
                        report.violation(
                                f'{method}:values',
                                f'{method} of {show(shape)} depends on values'
                                f' or order of arguments: {count} x '
                                f'{values[0]!r}, {keywords} = {values[1]!r}: '
                                f'{actual[1:]}, expected {reference}',
                                {'shape': shape, 'positionals': count,
                                 'keywords': keywords})
                        return
        if index < 200:
            report.sample(f'{show(shape)}: {limit + 1} x {2 ** len(names)} '
                          f'queries')
