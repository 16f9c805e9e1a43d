"""Synthetic stubs with definitions which do not exist in runtime."""
import importlib
import typing

PACKAGE = 'vonly'
HEADER = '''
import sys
import enum
import abc
import typing as t
from abc import ABCMeta, abstractmethod
from collections.abc import Iterator, Mapping
from contextlib import contextmanager
from typing import (Any, Callable, ClassVar, Dict, Generic,
                    Iterable, List, NamedTuple, Optional, Protocol, Tuple,
                    Type, TypedDict, TypeVar, Union, overload)
from typing_extensions import (Literal, NotRequired, ParamSpec, Required,
                               Self, TypeAlias, final, runtime_checkable)
T = TypeVar('T')
U = TypeVar('U')
P = ParamSpec('P')
class X: ...
class Y: ...
class Plain:
    def method(self) -> X: ...
class Gen(Generic[T]):
    def get(self) -> T: ...
class Meta(type):
    def create(cls) -> X: ...
Alias = List[X]
'''
# definitions of new objects
MADE = [
    '''\
class K: ...''',
    '''\
class K:
    pass''',
    '''\
class K:
    "Documented."''',
    '''\
class K(object): ...''',
    '''\
class K(Plain): ...''',
    '''\
class K(Gen[X]): ...''',
    '''\
class K(Gen[T]): ...''',
    '''\
class K(Gen["K"]): ...''',
    '''\
class K(Generic[T]): ...''',
    '''\
class K(Generic[T, U]): ...''',
    '''\
class K(Protocol): ...''',
    '''\
class K(Protocol[T]): ...''',
    '''\
@runtime_checkable
class K(Protocol):
    def m(self) -> X: ...''',
    '''\
@final
class K: ...''',
    '''\
class K(int): ...''',
    '''\
class K(str): ...''',
    '''\
class K(dict): ...''',
    '''\
class K(Dict[str, X]): ...''',
    '''\
class K(dict[str, X]): ...''',
    '''\
class K(List[X]): ...''',
    '''\
class K(Tuple[X, Y]): ...''',
    '''\
class K(Mapping[str, X]): ...''',
    '''\
class K(Iterator[X]):
    def __next__(self) -> X: ...
    def __iter__(self) -> Self: ...''',
    '''\
class K(Exception): ...''',
    '''\
class K(Meta): ...''',
    '''\
class K(type): ...''',
    '''\
class K(metaclass=ABCMeta): ...''',
    '''\
class K(metaclass=Meta): ...''',
    '''\
class K(abc.ABC):
    @abstractmethod
    def m(self) -> X: ...''',
    '''\
class K(Any): ...''',
    '''\
class K(Alias): ...''',
    '''\
class K(Plain, Gen[X]): ...''',
    '''\
class K(NamedTuple):
    x: X
    y: int''',
    '''\
class K(NamedTuple):
    x: X
    y: int = ...''',
    '''\
class K(NamedTuple):
    x: X
    def m(self) -> Y: ...''',
    '''\
class K(TypedDict):
    x: X
    y: int''',
    '''\
class K(TypedDict, total=False):
    x: X''',
    '''\
class K(TypedDict):
    x: NotRequired[X]
    y: Required[int]''',
    '''\
class KB(TypedDict):
    z: int
class K(KB, total=False):
    x: "K"''',
    '''\
class K(enum.Enum):
    A = 1
    B = 2''',
    '''\
class K(enum.Enum):
    A: int
    B: int''',
    '''\
class K(enum.IntEnum):
    A = ...
    B = ...''',
    '''\
class K(enum.Flag):
    A = 1
    B = 2''',
    '''\
class K:
    x: X''',
    '''\
class K:
    x: X = ...''',
    '''\
class K:
    x: "K"''',
    '''\
class K:
    x: K''',
    '''\
class K:
    x: Optional[K]
    y: List[K]''',
    '''\
class K:
    x: int = 1''',
    '''\
class K:
    x = 1''',
    '''\
class K:
    x = ...  # type: X''',
    '''\
class K:
    x: ClassVar[X]''',
    '''\
class K:
    x: ClassVar[int] = 1''',
    '''\
class K:
    __slots__ = ("a", "b")
    a: X''',
    '''\
class K:
    __hash__: ClassVar[None]''',
    '''\
class K:
    __hash__ = None''',
    '''\
class K:
    __match_args__ = ("a",)''',
    '''\
class K:
    def m(self) -> None: ...''',
    '''\
class K:
    def m(self) -> K: ...''',
    '''\
class K:
    def m(self: K, x: K) -> "K": ...''',
    '''\
class K:
    def m(self, x: X = ..., *args: Y, y: int = 1, **k: X) -> List[K]: ...''',
    '''\
class K:
    async def m(self) -> K: ...''',
    '''\
class K:
    async def m(self, x: K) -> X: ...''',
    '''\
class K:
    def __init__(self, x: X) -> None: ...''',
    '''\
class K:
    def __new__(cls, x: X) -> Self: ...''',
    '''\
class K:
    def __call__(self, x: X) -> Y: ...''',
    '''\
class K:
    def __eq__(self, other: object) -> bool: ...''',
    '''\
class K:
    @property
    def x(self) -> X: ...''',
    '''\
class K:
    @property
    def x(self) -> X: ...
    @x.setter
    def x(self, v: X) -> None: ...''',
    '''\
class K:
    @property
    def x(self) -> X: ...
    @x.deleter
    def x(self) -> None: ...''',
    '''\
class K:
    @classmethod
    def m(cls) -> K: ...''',
    '''\
class K:
    @staticmethod
    def m(x: K) -> X: ...''',
    '''\
class K:
    @classmethod
    @abstractmethod
    def m(cls) -> K: ...''',
    '''\
class K:
    @overload
    def m(self, x: X) -> X: ...
    @overload
    def m(self, x: Y) -> K: ...''',
    '''\
class K:
    @final
    def m(self) -> X: ...''',
    '''\
class K:
    @contextmanager
    def m(self) -> Iterator[X]: ...''',
    '''\
class K:
    def m(self) -> X: ...
    n = m''',
    '''\
class K:
    def m(self) -> X: ...
    n: Callable[[], X] = m''',
    '''\
class K:
    def __eq__(self, o: object) -> bool: ...
    __ne__ = __eq__''',
    '''\
class K:
    A = X''',
    '''\
class K:
    A: TypeAlias = X
    def m(self) -> A: ...''',
    '''\
class K:
    A = List[X]
    b: A''',
    '''\
class K:
    class N: ...''',
    '''\
class K:
    class N:
        def m(self) -> K: ...
    n: N''',
    '''\
class K:
    class N(Plain):
        class M: ...
    def m(self) -> N.M: ...''',
    '''\
class K:
    class N(TypedDict):
        x: int
    n: N''',
    '''\
class K:
    if sys.version_info >= (3,):
        def m(self) -> X: ...
    else:
        def n(self) -> X: ...''',
    '''\
class K:
    if sys.platform == "unknown":
        x: X
    else:
        y: X''',
    '''\
if sys.version_info >= (3,):
    class K:
        x: X
else:
    class K:
        y: Y''',
    '''\
class K:
    from collections import OrderedDict
    x: OrderedDict[str, X]''',
    '''\
class K:
    import json as j''',
    '''\
class K:
    x = y = 1''',
    '''\
class K:
    def m(self, x: Literal["a", 1] = "a") -> None: ...''',
    '''\
class K:
    def m(self, x: int = -1, y: bytes = b"", z: Tuple[int, ...] = (1, 2), w: float = 1.5e3) -> None: ...''',
    '''\
class K:
    def m(self, f: Callable[P, T], *a: P.args, **k: P.kwargs) -> T: ...''',
    '''\
class J:
    k: K
class K:
    j: J''',
    '''\
class J:
    def m(self) -> K: ...
class K(J): ...''',
    '''\
class K(J): ...
class J: ...''',
    '''\
class K:
    def m(self) -> J: ...
class J(K): ...''',
    '''\
class K(Gen[J]): ...
class J(Gen[K]): ...''',
    '''\
K = NamedTuple("K", [("x", X), ("y", int)])''',
    '''\
K = TypedDict("K", {"x": int, "y": str})''',
    '''\
K = TypedDict("K", {"x": int}, total=False)''',
    '''\
K = t.NewType("K", int)''',
    '''\
class K(Gen[X], Plain):
    x: T''',
    '''\
class K:
    del_: X''',
    '''\
class K:
    m: Callable[[X], Y]
    n: Callable[[K], K]''',
    '''\
class K:
    def __getitem__(self, i: int) -> K: ...
    def __class_getitem__(cls, i: Any) -> Any: ...''',
    '''\
class K:
    def __init_subclass__(cls, x: int = ...) -> None: ...
class J(K, x=1): ...''',
    '''\
class K:
    x: int; y: str; z: X''',
    '''\
class K:
    """doc"""
    x: int
    """doc of x"""''',
    '''\
class K:
    # comment
    ...
    x: X''',
    '''\
class K:
    pass
    def m(self) -> X:
        pass''',
    '''\
class K:
    def m(self) -> X:
        """Doc."""''',
    '''\
class K:
    def m(self) -> X: return X()''',
    '''\
class K:
    def m(self, x: int = sys.maxsize, y: Any = X) -> None: ...''',
    '''\
class K:
    class N:
        k: K
    n: N''',
    '''\
class K:
    class N:
        class M:
            k: K
            n: K.N
    def m(self) -> N.M: ...''',
    '''\
class K:
    class N: ...
    Alias = N
    x: Alias''',
    '''\
class K:
    class N(enum.Enum):
        A = 1
    x: N = ...''',
    '''\
class K(Gen[X]):
    class N(Gen[Y]): ...''',
    '''\
class K_N: ...
class K:
    class N: ...''',
]
# the ones having other spelling
ALIASES = [
    ('''\
K = X''',
     'X'),
    ('''\
K: TypeAlias = X''',
     'X'),
    ('''\
K = List[X]''',
     'List[X]'),
    ('''\
K: TypeAlias = X | None''',
     'X | None'),
    ('''\
K: TypeAlias = None | X''',
     'None | X'),
    ('''\
K = Optional[X]''',
     'Optional[X]'),
    ('''\
K = Callable[[X], Y]''',
     'Callable[[X], Y]'),
    ('''\
K = Callable[..., Y]''',
     'Callable[..., Y]'),
    ('''\
K = Literal[1, "a"]''',
     'Literal[1, "a"]'),
    ('''\
K = Type[X]''',
     'Type[X]'),
    ('''\
J = List[X]
K = Dict[str, J]''',
     'Dict[str, List[X]]'),
    ('''\
K = Dict[str, J]
J = List[X]''',
     'Dict[str, List[X]]'),
    ('''\
K = J = X''',
     'X'),
    ('''\
class J:
    class K: ...
K = J.K''',
     'J.K'),
    ('''\
class J:
    class K:
        j: J
K = J.K''',
     'J.K'),
]
# the ones mentioning objects by their names
FORWARD = [
    '''\
K: TypeAlias = "X"''',
    '''\
K: TypeAlias = List["X"]''',
    '''\
K: TypeAlias = List["K"]''',
    '''\
K = Union[X, List[K]]''',
    '''\
K: TypeAlias = Dict[str, K]''',
]
FUNCTIONS = """
def f(a: K, *b: List[K], c: Callable[[K], {}], **d: Dict[str, K]) -> (
        Optional[K]):
    ...
def g(*a: K) -> {}: ...
"""
RUNTIME = """
def f(*unknown): ...
def g(*unknown): ...
"""


def definitions():
    yield from ((text, None) for text in MADE)
    yield from ALIASES
    yield from ((text, None) for text in FORWARD)


def modules():
    """Yields name, definition of "K" in its stub and other spelling of "K"
    (if any)."""
    for index, (text, spelling) in enumerate(definitions()):
        yield f'{PACKAGE}.m{index}', text, spelling


def add_to(project):
    project.add(PACKAGE, '', package=True)
    for name, text, spelling in modules():
        project.add(name, RUNTIME,
                    stub=HEADER + text + FUNCTIONS.format(spelling or 'K',
                                                          spelling or 'K'))


def actual(text):
    """What the definition means for the interpreter, None if it makes no
    sense for it."""
    namespace = {'__name__': __name__}
    try:
        exec('from __future__ import annotations\n' + HEADER + text, namespace)
    except Exception:
        return None
    return namespace['K']


def functions(name):
    module = importlib.import_module(name)
    return module.f, module.g


def difference(text, spelling, first, second, same):
    """Compares signatures of functions mentioning the object."""
    a, b, c, d = [parameter.annotation for parameter in first.parameters]
    other, = [parameter.annotation for parameter in second.parameters]
    expected = actual(text)
    if text in MADE:
        if not isinstance(a, (type, typing.NewType)) or a.__name__ != 'K':
            return f'"K" expected, but {a!r} found'
        if other is not a or second.returns is not a:
            return 'objects are different'
        if typing.get_args(b) != (a,) or typing.get_args(b)[0] is not a:
            return 'objects of different annotations are different'
    if expected is not None and isinstance(a, type):
        missing = members(expected) - set(dir(a))
        if missing:
            return f'members {sorted(missing)} are missing'
        for name in members(expected):
            value = getattr(expected, name)
            if isinstance(value, type) and value.__name__ != getattr(
                    a, name).__name__.rpartition('.')[2]:
                return f'nested {name} is wrong'
    for actual_, expected_ in [
        (b, typing.List[a]), (c, typing.Callable[[a], a]),
        (d, typing.Dict[str, a]), (first.returns, typing.Optional[a]),
        (other, a), (second.returns, a)
    ]:
        if not same(actual_, expected_):
            return f'{expected_!r} expected, but {actual_!r} found'
    return None


def members(cls):
    if not isinstance(cls, type):
        return set()
    return {name for name, value in vars(cls).items()
            if getattr(value, '__qualname__', None) == f'K.{name}'}


def objects(first, second):
    """Objects made by the library."""
    return [value
            for signature in (first, second)
            for parameter in signature.parameters
            for value in (parameter.annotation,)
            if isinstance(value, (type, typing.NewType))]
