"""Types to be mentioned in annotations."""
import enum
import typing

import typing_extensions


class Sample:
    class Inner:
        class Innermost:
            pass


class Other:
    class Inner:
        pass

    class Shade(enum.Enum):
        DARK = 1

    class Permission(enum.Flag):
        READ = 1
        WRITE = 2


class Color(enum.Enum):
    RED = 1
    BLUE = 2


class Number(enum.IntEnum):
    ONE = 1
    TWO = 2


class Access(enum.Flag):
    READ = 1
    WRITE = 2
    ANY = READ | WRITE


class Mode(enum.IntFlag):
    A = 1
    B = 2


class Text(str, enum.Enum):
    A = 'a'


T = typing.TypeVar('T')
N = typing.NewType('N', int)
type Alias = int
type OtherAlias = int
type GenericAlias[X] = list[X]
BackportedAlias = typing_extensions.TypeAliasType('BackportedAlias', int)


class Gen(typing.Generic[T]):
    pass


Ts = typing.TypeVarTuple('Ts')


class Variadic(typing.Generic[typing.Unpack[Ts]]):
    pass


class Proto(typing.Protocol):
    pass
