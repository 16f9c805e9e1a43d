"""Abstract parameter lists ("shapes"), real Python functions having them
(the reference semantics) and signatures of the library built from them."""
import itertools
import typing as t
from collections import namedtuple

# kinds as in the language reference, in the order of a parameter list
PO, PK, VP, KO, VK = range(5)
KINDS_NAMES = ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD',
               'VARIADIC_POSITIONAL', 'KEYWORD_ONLY', 'VARIADIC_KEYWORD')
# r: required, d: optional with default, o: optional with unknown default,
# v: variadic
Param = namedtuple('Param', 'name kind opt')

NAMES = ('b', 'a', 'd', 'c', 'e', 'g', 'f')
# names which implementation of queries could use for its own parameters
ODD_NAMES = ('self', 'args', 'kwargs', 'cls', 'parameters', 'signature',
             'signatures')
FOREIGN = 'z'
VP_NAME, VK_NAME = 'rest', 'extra'


def gen_shapes(max_named, *, opts='rd', names=NAMES, variadics=True,
               min_named=0, vp_name=VP_NAME, vk_name=VK_NAME):
    optional = [o for o in opts if o != 'r']
    for n in range(min_named, max_named + 1):
        for po in range(n + 1):
            for pk in range(n - po + 1):
                ko = n - po - pk
                for pos_opts in _positional_opts(po + pk, optional):
                    for ko_opts in itertools.product(opts, repeat=ko):
                        for vp in ((False, True) if variadics else (False,)):
                            for vk in ((False, True) if variadics
                                       else (False,)):
                                yield _make(po, pk, ko, pos_opts, ko_opts,
                                            vp, vk, names, vp_name, vk_name)


def _positional_opts(count, optional):
    for required in range(count, -1, -1):
        for rest in itertools.product(optional, repeat=count - required):
            yield ('r',) * required + rest


def _make(po, pk, ko, pos_opts, ko_opts, vp, vk, names, vp_name, vk_name):
    result = []
    names = iter(names)
    for index, opt in enumerate(pos_opts):
        result.append(Param(next(names), PO if index < po else PK, opt))
    if vp:
        result.append(Param(vp_name, VP, 'v'))
    for opt in ko_opts:
        result.append(Param(next(names), KO, opt))
    if vk:
        result.append(Param(vk_name, VK, 'v'))
    return tuple(result)


def header(shape, *, default='None', optional=False, annotate=None,
           default_of=None):
    """Renders the shape as text between parentheses of a definition."""
    parts = []
    last_po = max((i for i, p in enumerate(shape) if p.kind == PO),
                  default=-1)
    star_done = False
    for index, p in enumerate(shape):
        if p.kind == KO and not star_done:
            if not any(q.kind == VP for q in shape[:index]):
                parts.append('*')
            star_done = True
        text = {VP: '*', VK: '**'}.get(p.kind, '') + p.name
        if annotate is not None and annotate(p) is not None:
            text += ': ' + annotate(p)
        if p.kind not in (VP, VK) and (optional or p.opt != 'r'):
            text += '=' + (default if default_of is None else default_of(p))
        parts.append(text)
        if index == last_po:
            parts.append('/')
    return ', '.join(parts)


_functions = {}


def to_function(shape, *, optional=False):
    key = (shape, optional)
    try:
        return _functions[key]
    except KeyError:
        pass
    namespace = {}
    exec(f'def f({header(shape, optional=optional)}): pass', namespace)
    result = _functions[key] = namespace['f']
    return result


def accepts(function, args, kwargs):
    try:
        function(*args, **kwargs)
    except TypeError:
        return False
    return True


def show(shape):
    return '(' + header(shape, default_of=lambda p: {'d': '0', 'o': '...'}.get(
            p.opt, '0')) + ')'


class Base:
    """Public names of the library, imported lazily (inside of workers)."""
    _module = None

    def __getattr__(self, name):
        if Base._module is None:
            import paradigm.base
            Base._module = paradigm.base
        return getattr(Base._module, name)


base = Base()


def kind_of(kind):
    return base.ParameterKind[KINDS_NAMES[kind]]


def to_parameter(p, *, annotation=t.Any, default=None):
    if p.opt == 'r':
        return base.RequiredParameter(annotation=annotation,
                                      kind=kind_of(p.kind), name=p.name)
    elif p.opt == 'd':
        return base.OptionalParameter(annotation=annotation, default=default,
                                      kind=kind_of(p.kind), name=p.name)
    else:
        return base.OptionalParameter(annotation=annotation,
                                      kind=kind_of(p.kind), name=p.name)


def to_signature(shape, *, annotations=None, defaults=None, returns=t.Any):
    return base.PlainSignature(
            *[to_parameter(p,
                           annotation=(t.Any if annotations is None
                                       else annotations.get(p.name, t.Any)),
                           default=(None if defaults is None
                                    else defaults.get(p.name)))
              for p in shape],
            returns=returns)


def from_signature(signature):
    """Shape of a plain signature, read through its public attributes."""
    return tuple(from_parameter(p) for p in signature.parameters)


def from_parameter(p):
    kind = int(p.kind)
    if isinstance(p, base.RequiredParameter):
        opt = 'r'
    elif kind in (VP, VK):
        opt = 'v' if not p.has_default else 'bad'
    else:
        opt = 'd' if p.has_default else 'o'
    return Param(p.name, kind, opt)


def subsets(values, limit=None):
    values = list(values)
    limit = len(values) if limit is None else min(limit, len(values))
    for size in range(limit + 1):
        yield from itertools.combinations(values, size)


def call_names(shape, *, foreign=(FOREIGN,), variadic_names=False):
    result = [p.name for p in shape
              if variadic_names or p.kind not in (VP, VK)]
    return [*result, *foreign]


def positionals_count(shape):
    return sum(p.kind in (PO, PK) for p in shape)


def attempt(function, *args, **kwargs):
    """('ok', result) or ('error', type name, text)."""
    try:
        return ('ok', function(*args, **kwargs))
    except Exception as error:
        return ('error', type(error).__name__, str(error)[:300])
