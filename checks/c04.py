"""C04: chains of bind are equivalent to functools.partial."""
import collections
import functools

from vlib.shapes import (FOREIGN, KO, ODD_NAMES, PK, PO, VK, VP, accepts,
                         attempt, base, call_names, from_parameter,
                         gen_shapes, header, positionals_count, show, subsets,
                         to_function, to_parameter)

LEVEL = 'model_checking'
RULE = ('breadth-first search for every signature shape; state: (number of '
        'positionals, keywords with values bound so far) together with the '
        'canonical form of the signature obtained by the implementation; '
        'transition: bind with <= 2 more positionals and a set of <= 2 '
        'keywords; in every state all follow-up calls are compared with '
        'functools.partial of a real function and parameters are compared '
        'with a reference model (names, kinds, identity of annotations and '
        'defaults), itself validated by these calls; trace: chain of binds '
        'replayed on the implementation')
ASSUMPTIONS = ['functools.partial objects pass arguments correctly']
PARTS = 32


def universe(tier):
    if tier == 'quick':
        yield from (('plain', s) for s in gen_shapes(3))
    else:
        yield from (('plain', s) for s in gen_shapes(4))
    yield from (('unknown', s) for s in gen_shapes(2, opts='rdo')
                if any(p.opt == 'o' for p in s))
    yield from (('odd', s) for s in gen_shapes(2, names=ODD_NAMES,
                                               vp_name='a', vk_name='k'))


def shards(tier):
    return [[index, PARTS] for index in range(PARTS)]


class Marker:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def annotated_function(shape, markers):
    namespace = {'markers': markers}
    text = header(shape,
                  default_of=lambda p: f"markers['default', {p.name!r}]",
                  annotate=lambda p: f"markers['annotation', {p.name!r}]")
    exec(f"def f({text}) -> markers['returns']: pass", namespace)
    return namespace['f']


def canonical(signature):
    return (tuple((from_parameter(p), id(p.annotation),
                   id(p.default) if getattr(p, 'has_default', False) else 0)
                  for p in signature.parameters), id(signature.returns))


def expected_parameters(shape, args, kwargs, markers):
    """Reference model of parameters left after binding."""
    result = []
    positionals = [p for p in shape if p.kind in (PO, PK)]
    left = [p for p in shape if p not in positionals[:len(args)]]
    keyword_bound = False
    for p in left:
        bound = p.kind in (PK, KO) and p.name in kwargs
        keyword_bound = keyword_bound or bound
        if keyword_bound and p.kind == VP:
            # parameter before it can't be passed as positional anymore
            continue
        kind = KO if keyword_bound and p.kind == PK else p.kind
        result.append(((p.name, kind, 'd' if bound else p.opt),
                       id(markers['annotation', p.name]),
                       id(kwargs[p.name]) if bound
                       else (id(markers['default', p.name])
                             if p.opt == 'd' else 0)))
    return tuple(result)


def run(shard, report, spec):
    part, parts = shard
    depth = 2 if spec['tier'] == 'quick' else 3
    for index, (scheme, shape) in enumerate(universe(spec['tier'])):
        if index % parts != part:
            continue
        if not explore(shape, report, depth):
            return
        if index < 200:
            report.sample(f'{show(shape)}: chains of {depth} binds')


def explore(shape, report, depth):
    markers = {'returns': Marker('returns')}
    for p in shape:
        markers['annotation', p.name] = Marker(f'annotation of {p.name}')
        markers['default', p.name] = Marker(f'default of {p.name}')
        if p.opt == 'o':
            markers['unknown', p.name] = markers['default', p.name]
    function, optional = (annotated_function(shape, markers),
                          to_function(shape, optional=True))
    parameters = [to_parameter(p, annotation=markers['annotation', p.name],
                               default=markers['default', p.name])
                  for p in shape]
    made = attempt(base.PlainSignature, *parameters,
                   returns=markers['returns'])
    if made[0] != 'ok':
        return report.violation('construction', f'{show(shape)}: {made[1:]}')
    origin = made[1]
    names = call_names(shape, foreign=(FOREIGN,) if len(shape) > 2
                       else (FOREIGN, 'y'))
    variadics = [p.name for p in shape if p.kind in (VP, VK)]
    steps = [(count, keywords) for count in range(3)
             for keywords in subsets([*names, *variadics[:1]], 2)]
    limit = positionals_count(shape) + 1
    follow_ups = [(count, keywords) for count in range(limit + 1)
                  for keywords in subsets(names)]
    values = [(Marker(f'value {i}'), Marker(f'keyword value {i}'))
              for i in range(depth)]
    queue = collections.deque([((), {}, origin, 0, ())])
    seen = {((), (), canonical(origin))}
    while queue:
        args, kwargs, signature, level, history = queue.popleft()
        report.state((shape, len(args), tuple(sorted(kwargs)),
                      tuple(str(v) for _, v in sorted(kwargs.items()))))
        report.count('traces')
        case = {'shape': shape, 'history': history}
        what = show(shape) + ''.join(f'.bind{step}' for step in history)
        # parameters left
        actual = canonical(signature)
        expected = (expected_parameters(shape, args, kwargs, markers),
                    id(markers['returns']))
        if tuple(((p.name, p.kind, p.opt), a, d)
                 for p, a, d in actual[0]) != expected[0]:
            if not report.violation(
                    'parameters', f'{what} is {signature}, while parameters '
                    f'{[p for p, _, _ in expected[0]]} are left (with their '
                    'annotations and defaults)', case):
                return False
        if signature.returns is not markers['returns']:
            return report.violation('returns', f'{what} returns '
                                    f'{signature.returns}', case)
        # parameter list can't tell names of parameters which are gone
        # from the other ones accepted by variadic keywords
        gone = {p.name for p in [p for p in shape if p.kind in (PO, PK)
                                 ][:len(args)] if p.kind == PK}
        # follow-up calls
        called = functools.partial(function, *args, **kwargs)
        called_optional = functools.partial(optional, *args, **kwargs)
        for count, keywords in follow_ups:
            if not gone.isdisjoint(keywords):
                continue
            call_args, call_kwargs = (None,) * count, dict.fromkeys(keywords)
            for method, reference in (
                    ('all_set', accepts(called, call_args, call_kwargs)),
                    ('expects', accepts(called_optional, call_args,
                                        call_kwargs))):
                result = attempt(getattr(signature, method), *call_args,
                                 **call_kwargs)
                report.count('follow_up_calls')
                if result[0] != 'ok' or result[1] is not reference:
                    if not report.violation(
                            method, f'{what}.{method}{(count, keywords)} is '
                            f'{result[1:]}, while partial object gives '
                            f'{reference}',
                            {**case, 'call': (count, keywords)}):
                        return False
        if level == depth:
            continue
        before = canonical(signature), canonical(origin)
        for count, keywords in steps:
            if not gone.isdisjoint(keywords):
                continue
            positional, keyword = values[level]
            step_args = (positional,) * count
            step_kwargs = dict.fromkeys(keywords, keyword)
            fine = accepts(called_optional, step_args, step_kwargs)
            result = attempt(signature.bind, *step_args, **step_kwargs)
            report.count('transitions')
            report.outcome('bind accepted' if fine else 'bind rejected')
            step_case = {**case, 'step': (count, keywords)}
            if not fine:
                if result[0] == 'ok' or result[1] != 'TypeError':
                    if not report.violation(
                            'error', f'{what}.bind{(count, keywords)} should '
                            f'raise TypeError, but gives {result[1:]}',
                            step_case):
                        return False
                continue
            if result[0] != 'ok':
                if not report.violation(
                        'no error', f'{what}.bind{(count, keywords)} should '
                        f'be accepted, but gives {result[1:]}', step_case):
                    return False
                continue
            bound = result[1]
            if not isinstance(bound, base.PlainSignature):
                return report.violation('type', f'{what} gives {bound!r}',
                                        step_case)
            next_args = args + step_args
            next_kwargs = {**kwargs, **step_kwargs}
            key = (tuple(map(id, next_args)),
                   tuple(sorted((k, id(v)) for k, v in next_kwargs.items())),
                   canonical(bound))
            if key not in seen:
                seen.add(key)
                queue.append((next_args, next_kwargs, bound, level + 1,
                              history + ((count, keywords),)))
        if before != (canonical(signature), canonical(origin)):
            return report.violation('modified', f'{what}: binding modifies '
                                    'the original signature', case)
    return True
