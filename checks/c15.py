"""C15: class signature is the one of its effective constructor."""
import inspect
import itertools
import sys
import textwrap
import types
import typing as t

import typing_extensions

from vlib.shapes import attempt, base

from . import c13

LEVEL = 'model_checking'
RULE = ('state: (hierarchy of up to four user-defined classes with kinds of '
        'constructors defined by each level and a root class) or a class '
        'reachable in the standard library; transition: obtaining the '
        'signature of the class; trace: comparison with the constructor '
        'found by walking the method resolution order and with the '
        'interpreter (user classes, real instantiations included), or with '
        'the declaration found by symbolic execution of stubs (standard '
        'library)')
ASSUMPTIONS = ['user class defining both an initializer and a constructor is '
               'described as the interpreter does it']
PARTS = 8
LIMIT = 20

DEFINITIONS = {
    'none': '',
    'init': ('def __init__(self, i_{n}: int, /, j_{n}=D, *, k_{n}: "str"): '
             'pass'),
    'new': ('def __new__(cls, n_{n}, *m_{n}: bytes, o_{n}=D) -> "Z": '
            'return super().__new__(cls)'),
    'init variadic': 'def __init__(*args_{n}, **kwargs_{n}: float): pass',
    'init bare': 'def __init__(self): pass',
    'static new': ('@staticmethod\n'
                   'def __new__(cls, s_{n}=D): return object.__new__(cls)'),
}
DEFINITIONS['both'] = DEFINITIONS['init'] + '\n' + DEFINITIONS['new']
QUICK_KINDS = ('none', 'init', 'new', 'both')
STRUCTURES = {
    'single': ('{root}',),
    'chain of 2': ('{root}', 'C0'),
    'chain of 3': ('{root}', 'C0', 'C1'),
    'two bases': ('{root}', '{root}', 'C0, C1'),
    'diamond': ('{root}', 'C0', 'C0', 'C1, C2'),
}
ROOTS = {
    'object': '', 'list': 'list', 'dict': 'dict', 'int': 'int',
    'Exception': 'Exception', 'UserList': 'collections.UserList',
    'deque': 'collections.deque', 'Generic': 't.Generic[T]',
    'Protocol': 't.Protocol', 'ABC': 'abc.ABC', 'Meta': 'metaclass=Meta',
    'NamedTuple': 'Point', 'dataclass': 'Data', 'Thread': 'threading.Thread',
    'TypedDict': 'Typed', 'type': 'type', 'Enum': 'enum.Enum',
    'partial': 'functools.partial', 'Path': 'pathlib.PurePosixPath',
}
HEADER = '''
import abc, collections, dataclasses, enum, functools, pathlib, threading
import typing as t
D = object()
T = t.TypeVar('T')
class Z: pass
class Meta(type): pass
class MetaCall(type):
    def __call__(cls, called, *, other=D): return cls
class Point(t.NamedTuple):
    x: int
    y: str = 'y'
@dataclasses.dataclass
class Data:
    first: int
    second: 'list' = D
    third: t.Any = dataclasses.field(default=D, kw_only=True)
    _: dataclasses.InitVar[str] = ''
class Typed(t.TypedDict):
    key: int
'''
EXTRA = '''
class WithMeta(metaclass=MetaCall):
    def __init__(self, hidden): pass
class DerivedWithMeta(WithMeta):
    pass
class Color(enum.Enum):
    RED = 1
class Flags(enum.IntFlag):
    A = 1
Functional = collections.namedtuple('Functional', 'a b', defaults=[D])
class deque(list):
    def __init__(self, namesake): pass
class Signed:
    def __init__(self, *args): pass
Signed.__init__.__signature__ = None
class Outer:
    class Inner:
        def __init__(self, inner, *, outer=D): pass
class Slots:
    __slots__ = 'a',
    def __init__(self, a=D): self.a = a
@dataclasses.dataclass(order=True, slots=True)
class Frozen(Data):
    fourth: bytes = b''
class Assigned:
    __init__ = Outer.Inner.__init__
class Wrapped:
    def original(self, wrapped, *, by=D): pass
    @functools.wraps(original)
    def __init__(self, *args, **kwargs): pass
class Partial:
    def original(self, first, second=D): pass
    __init__ = functools.partialmethod(original, 1)
class Descriptor:
    class Init:
        def __get__(self, instance, owner):
            return lambda described: None
    __init__ = Init()
def local():
    class Local:
        def __init__(self, local_): pass
    return Local
Local = local()
Renamed = type('OrderedDict', (dict,), {'__init__': Outer.Inner.__init__,
                                        '__module__': 'collections'})
Dynamic = type('Dynamic', (Data,), {})
Aliased = Outer.Inner
'''


def shards(tier):
    return ([['stubs', part, PARTS] for part in range(PARTS)]
            + [['hierarchies', part, PARTS] for part in range(PARTS)]
            + [['extra', 0, 1]])


def run(shard, report, spec):
    mode, part, parts = shard
    if mode == 'stubs':
        return c13.explore([part, parts], report, spec, classes=True,
                           annotations=True)
    if mode == 'extra':
        return run_extra(report)
    quick = spec['tier'] == 'quick'
    for position, (structure, root, kinds) in enumerate(programs(quick)):
        if position % parts == part:
            if not check_program(report, structure, root, kinds):
                return


def programs(quick):
    for structure, bases in STRUCTURES.items():
        for root in ROOTS:
            kinds = (QUICK_KINDS
                     if quick and len(bases) > 2
                     or len(bases) > 3 and root != 'object'
                     else [*DEFINITIONS])
            if quick and len(bases) > 3 and root not in ('object', 'Generic',
                                                         'list'):
                continue
            for combination in itertools.product(kinds, repeat=len(bases)):
                yield structure, root, combination


def user_module():
    """Fresh module with root classes."""
    if 'user_module' not in sys.modules:
        result = sys.modules['user_module'] = types.ModuleType('user_module')
        exec(compile(HEADER, '<user>', 'exec', dont_inherit=True),
             vars(result))
    return sys.modules['user_module']


def to_source(structure, root, kinds):
    lines = []
    for index, (bases, kind) in enumerate(zip(STRUCTURES[structure], kinds)):
        bases = bases.format(root=ROOTS[root])
        body = DEFINITIONS[kind].format(n=index) or 'pass'
        lines.append(f'class C{index}({bases}):\n'
                     + textwrap.indent(body, '    '))
    return '\n'.join(lines)


def check_program(report, structure, root, kinds):
    source = to_source(structure, root, kinds)
    namespace = dict(vars(user_module()))
    try:
        exec(compile(source, '<user>', 'exec', dont_inherit=True), namespace)
    except TypeError:
        report.outcome('impossible hierarchy')
        return True
    cls = namespace[f'C{len(kinds) - 1}']
    if not report.state((structure, root, kinds)):
        return True
    case = {'structure': structure, 'root': root, 'kinds': list(kinds)}
    key = f'{structure}/{root}/{"+".join(kinds)}'
    if not compare(report, cls, key, case):
        return False
    if root in ('object', 'Generic', 'ABC', 'Meta'):
        return check_effective(report, cls, key, case, kinds)
    return True


def compare(report, cls, key, case):
    """Against the interpreter."""
    report.count('transitions')
    try:
        raw = inspect.signature(cls)
    except (TypeError, ValueError) as error:
        raw = error
    actual = attempt(base.signature_from_callable, cls)
    if isinstance(raw, Exception):
        report.outcome('unknown to the interpreter')
        if actual[0] == 'error' and actual[1] not in ('ValueError',
                                                      'TypeError'):
            return report.violation(key, f'{key}: {actual}', case)
        return True
    if actual[0] != 'ok':
        return report.violation(key, f'{key}: {actual}, the interpreter '
                                     f'gives {raw}', case)
    signature = actual[1]
    report.outcome('as the interpreter')
    if isinstance(signature, base.OverloadedSignature):
        return report.violation(key, f'{key}: {signature} instead of {raw}',
                                case)
    expected = [(p.name, int(p.kind),
                 t.Any if p.annotation is p.empty else p.annotation,
                 None if p.default is p.empty else (p.default,))
                for p in raw.parameters.values()]
    found = [(p.name, int(p.kind), p.annotation,
              (p.default,) if getattr(p, 'has_default', False) else None)
             for p in signature.parameters]
    if found != expected:
        return report.violation(key, f'{key}: {signature} instead of {raw}',
                                case)
    if signature.returns is not typing_extensions.Self:
        return report.violation(
                key + ':result', f'{key}: result is {signature.returns!r} '
                                 f'instead of Self', case)
    report.count('traces')
    return True


def check_effective(report, cls, key, case, kinds):
    """Against the method resolution order and real instantiations."""
    for ancestor in cls.__mro__:
        own = [name for name in ('__init__', '__new__')
               if name in vars(ancestor)]
        if own:
            break
    if (len(own) != 1 or ancestor.__module__ != 'user_module'):
        return True
    name, = own
    function = vars(ancestor)[name]
    function = getattr(function, '__func__', function)
    raw = list(inspect.signature(function).parameters.values())
    if raw[0].kind is not raw[0].VAR_POSITIONAL:
        raw = raw[1:]
    signature = base.signature_from_callable(cls)
    if [p.name for p in signature.parameters] != [p.name for p in raw]:
        return report.violation(
                key + ':effective',
                f'{key}: {signature} is not the one of '
                f'{ancestor.__name__}.{name}', case)
    if len({kind.split()[-1] if kind == 'static new' else kind.split()[0]
            for kind in kinds} - {'none'}) != 1:
        return True
    if 'both' in kinds or (name == '__new__'
                           and kinds.count('none') != len(kinds) - 1):
        return True
    names = [p.name for p in raw
             if p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)] + ['z']
    for count in range(4):
        for size in range(len(names) + 1):
            for subset in itertools.combinations(names, size):
                report.count('traces')
                args, kwargs = (0,) * count, dict.fromkeys(subset, 0)
                try:
                    cls(*args, **kwargs)
                except TypeError:
                    accepted = False
                else:
                    accepted = True
                if signature.all_set(*args, **kwargs) is not accepted:
                    return report.violation(
                            key + ':call',
                            f'{key}: call with {count} positionals and '
                            f'{subset} is '
                            f'{"accepted" if accepted else "rejected"} by '
                            f'the class, but not by {signature}', case)
    return True


def run_extra(report):
    namespace = vars(user_module())
    exec(compile(EXTRA, '<user>', 'exec', dont_inherit=True), namespace)
    for name, cls in namespace.items():
        if isinstance(cls, type) and report.state(name):
            if not compare(report, cls, f'extra/{name}', {'class': name}):
                return
