"""C10: user-defined functions get exactly their declared signature."""
import functools
import inspect
import itertools
import sys
import types
import typing as t

from vlib import typeshed
from vlib.shapes import (KO, PK, PO, VK, VP, accepts, attempt, base,
                         call_names, from_parameter, gen_shapes, header,
                         positionals_count, show, subsets)

LEVEL = 'model_checking'
RULE = ('state: (parameter list, mask of annotated parameters, way of '
        'defining the function, names it claims); transition: obtaining the '
        'signature and comparing it part by part (names, order, kinds, '
        'identity of defaults, annotations, result) with the declaration; '
        'trace: real call of the function compared with the answer of the '
        'obtained signature')
ASSUMPTIONS = ['user modules are not imported under names of standard '
               'library modules']
PARTS = 16
FEATURES = ('def f({h}){r}: pass', 'async def f({h}){r}: pass',
            'def f({h}){r}: yield', 'async def f({h}){r}: yield')
NAMES = ('b', 'a', 'd', 'c', 'self', 'cls')


def shards(tier):
    return ([['ways', i, PARTS] for i in range(PARTS)]
            + [['names', i, 8] for i in range(8)])


class Marker:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<{self.name}>'


def user_module(name='vuser.functions'):
    module = sys.modules.get(name)
    if module is None:
        module = sys.modules[name] = types.ModuleType(name)
    return module


def define(source, namespace, name='f'):
    exec(source, namespace)
    return namespace[name]


def ways(h, r, values, lambda_ok):
    """Yields (name of the way, function, whether annotations are texts)."""
    def module(**rest):
        result = {'__name__': 'vuser.functions', **values, **rest}
        user_module()
        return result

    for template in FEATURES:
        yield template, define(template.format(h=h, r=r), module()), False
    if lambda_ok:
        yield 'lambda', define(f'f = lambda {h}: None', module()), False
    yield 'nested', define(f'def o():\n  x = 1\n  def f({h}){r}: return x\n'
                           '  return f\nf = o()', module()), False
    yield 'future', define(
            'from __future__ import annotations\n'
            f'def f({h}){r}: pass', module()), True
    yield 'wraps', define(
            'import functools\n'
            f'def g({h}){r}: pass\n'
            '@functools.wraps(g)\n'
            'def f(*args, **kwargs): return g(*args, **kwargs)',
            module()), False
    yield 'wraps twice', define(
            'import functools\n'
            f'def g({h}){r}: pass\n'
            'for i in range(2):\n'
            '  @functools.wraps(g)\n'
            '  def f(q=0, *z, g=g, **w): return g(*z, **w)\n'
            '  g = f', module()), False
    yield 'class', define(
            f'class C:\n  def f({h}){r}: pass\nf = C.f', module()), False
    yield 'static', define(
            f'class C:\n  @staticmethod\n  def f({h}){r}: pass\nf = C.f',
            module()), False
    yield 'static of instance', define(
            f'class C:\n class D:\n  @staticmethod\n  def f({h}){r}: pass\n'
            'f = C.D().f', module()), False
    yield 'instance attribute', define(
            f'class C:\n  def __init__(self):\n    def f({h}){r}: pass\n'
            '    self.f = f\n'
            '  def f(self, other): pass\nf = C().f', module()), False
    for name in ('function', 'len', 'dict', 'print', 'reveal_type', 'sorted',
                 'ellipsis', '__getattr__', 'object', '__import__', 'self'):
        yield (f'exec as {name}', define(f'def {name}({h}){r}: pass',
                                         dict(values), name), False)
    yield 'main', define(f'def __getattr__({h}){r}: pass',
                         {'__name__': '__main__', **values},
                         '__getattr__'), False
    main = vars(sys.modules['__main__'])
    main.update(values)
    yield 'genuine main', define(f'def __getattr__({h}){r}: pass', main,
                                 '__getattr__'), False
    del main['__getattr__']
    copy = define(f'def f({h}){r}: pass', module())
    other = types.FunctionType((lambda x, *, y=0: 0).__code__, module(), 'f')
    other.__code__ = copy.__code__
    other.__defaults__ = copy.__defaults__
    other.__kwdefaults__ = copy.__kwdefaults__
    other.__annotations__ = copy.__annotations__
    yield 'code replaced', other, False
    nameless = define(f'def f({h}){r}: pass', module())
    nameless.__module__ = None
    yield 'no module', nameless, False
    renamed = define(f'def f({h}){r}: pass', module())
    renamed.__name__, renamed.__qualname__ = 'g', 'A.<locals>.g'
    renamed.__doc__ = 'f(x, y) -> int'
    yield 'renamed', renamed, False


def expected(shape, mask, values, texts):
    result = []
    for index, p in enumerate(shape):
        annotation = (f'A_{p.name}' if texts else values['A_' + p.name]
                      ) if mask >> index & 1 else t.Any
        result.append((p.name, p.kind, annotation,
                       (values['D_' + p.name],) if p.opt == 'd' else ()))
    return result


def obtained(signature):
    result = []
    for p in signature.parameters:
        q = from_parameter(p)
        result.append((q.name, q.kind, p.annotation,
                       (p.default,) if q.opt == 'd' else
                       () if q.opt in 'rv' else ('?',)))
    return result


def same(first, second):
    return (len(first) == len(second)
            and all(a[:2] == b[:2] and a[2] is b[2]
                    or a[:2] == b[:2] and isinstance(a[2], str)
                    and a[2] == b[2] for a, b in zip(first, second))
            and all(len(a[3]) == len(b[3])
                    and all(x is y for x, y in zip(a[3], b[3]))
                    for a, b in zip(first, second)))


def check(report, what, function, want, want_returns, case):
    report.count('transitions')
    result = attempt(base.signature_from_callable, function)
    if result[0] != 'ok':
        return report.violation(f'fails:{case["way"]}',
                                f'{what}: {result[1:]}', case)
    signature = result[1]
    if not isinstance(signature, base.PlainSignature):
        return report.violation(f'overloaded:{case["way"]}',
                                f'{what}: {signature}', case)
    got, returns = obtained(signature), signature.returns
    ok = (same(want, got)
          and (returns is want_returns
               or isinstance(returns, str) and returns == want_returns))
    report.outcome('as declared' if ok else 'differs')
    if not ok:
        return report.violation(
                f'differs:{case["way"]}',
                f'{what}: expected {want} -> {want_returns}, got {got} -> '
                f'{returns}', case)
    return True


def run(shard, report, spec):
    mode, part, parts = shard
    (run_ways if mode == 'ways' else run_names)(part, parts, report, spec)


def run_ways(part, parts, report, spec):
    quick = spec['tier'] == 'quick'
    index = 0
    defaults = [None, 0, [], object(), Ellipsis, inspect, int]
    for shape in gen_shapes(3 if quick else 4, opts='rd', names=NAMES):
        index += 1
        if index % parts != part:
            continue
        full = (1 << len(shape)) - 1
        masks = ({0, full, full & 0b10101} if quick
                 else range(full + 1))
        for mask in sorted(masks):
            values = {}
            for i, p in enumerate(shape):
                values['D_' + p.name] = defaults[(i + index + mask)
                                                 % len(defaults)]
                values['A_' + p.name] = (Marker(p.name) if (i + index) % 2
                                         else [int, None, t.List[int], 'text'
                                               ][(i + index) // 2 % 4])
            values['A_return'] = [None, int, Marker('return')][index % 3]
            returns = mask & 1 or not shape and index % 2
            annotated = {p.name for i, p in enumerate(shape)
                         if mask >> i & 1}
            h = header(shape, default_of=lambda p: 'D_' + p.name,
                       annotate=lambda p: ('A_' + p.name
                                           if p.name in annotated else None))
            r = ' -> A_return' if returns else ''
            for way, function, texts in ways(h, r, values,
                                             not mask and not returns):
                what = f'{way} with ({h}){r}'
                report.state(what)
                want_returns = (('A_return' if texts
                                 else values['A_return'])
                                if returns else t.Any)
                if not check(report, what, function,
                             expected(shape, mask, values, texts),
                             want_returns,
                             {'way': way, 'header': h, 'returns': r}):
                    return
            report.sample(what)
        # agreement with real calls
        function = define(f'def f({header(shape)}): pass',
                          {'__name__': 'vuser.functions'})
        signature = base.signature_from_callable(function)
        for count in range(positionals_count(shape) + 2):
            for keywords in subsets(call_names(shape)):
                args, kwargs = (0,) * count, dict.fromkeys(keywords)
                report.count('traces')
                if (accepts(function, args, kwargs)
                        is not signature.all_set(*args, **kwargs)):
                    if not report.violation(
                            'calls', f'{show(shape)} called with {count} '
                            f'positionals and {keywords}: answer of the '
                            'signature differs from the interpreter',
                            {'way': 'call'}):
                        return


def run_names(part, parts, report, spec):
    """Functions and classes claiming names of the standard library."""
    names = sorted({*typeshed.names(), *runtime_names()})
    values = {'D_b': object()}
    source = 'def f(x, /, a, b=D_b, *c, d, **e): pass'
    want = [('x', PO, t.Any, ()), ('a', PK, t.Any, ()),
            ('b', PK, t.Any, (values['D_b'],)), ('c', VP, t.Any, ()),
            ('d', KO, t.Any, ()), ('e', VK, t.Any, ())]
    for index, (module, name) in enumerate(names):
        if index % parts != part:
            continue
        report.state((module, name))
        function = define(source, {'__name__': module, **values})
        function.__qualname__ = name
        function.__name__ = name.rpartition('.')[2]
        if not check(report, f'function claiming to be {module}.{name}',
                     function, want, t.Any, {'way': 'name',
                                             'name': [module, name]}):
            return
        cls = define('class f:\n  def __init__(self, x, /, a, b=D_b, *c, d, '
                     '**e): pass', {'__name__': module, **values})
        cls.__qualname__ = name
        cls.__name__ = name.rpartition('.')[2]
        result = attempt(base.signature_from_callable, cls)
        report.count('transitions')
        if (result[0] != 'ok'
                or not isinstance(result[1], base.PlainSignature)
                or not same(want, obtained(result[1]))):
            if not report.violation('class name', f'class claiming to be '
                                    f'{module}.{name}: {result[1:]}',
                                    {'way': 'name', 'name': [module, name]}):
                return


def runtime_names():
    for module_name, module in list(sys.modules.items()):
        top = module_name.partition('.')[0]
        if top not in sys.stdlib_module_names or top == '__main__':
            continue
        for value in list(vars(module).values()):
            name = getattr(value, '__qualname__', None)
            if isinstance(name, str) and callable(value):
                yield module_name, name
