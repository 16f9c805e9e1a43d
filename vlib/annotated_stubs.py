"""Synthetic stubs with annotations out of a grammar, the runtime modules
having the names they mention, so that evaluating the same text in the module
tells the meaning."""
import itertools
import types
import typing

PACKAGE = 'vann'
SUB = '''
import enum
from typing import Generic, TypeVar
class Other:
    class Inner: ...
class Color(enum.Enum):
    RED = 1
    GREEN = 2
U = TypeVar('U')
class Box(Generic[U]): ...
Alias = list[int]
'''
HEADER = '''
import collections.abc
import contextlib
import os
import re
import typing
import typing as t
import typing_extensions
from collections import OrderedDict, defaultdict, deque
from collections.abc import (AsyncIterator, Awaitable, Iterable, Iterator,
                             Mapping, Sequence)
from contextlib import AbstractContextManager
from os import PathLike
from re import Pattern
from types import TracebackType
from typing import (Annotated, Any, Callable, Dict, Generic, List, NamedTuple,
                    NoReturn, Optional, Protocol, Tuple, Type, TypeVar, Union,
                    AnyStr)
from typing_extensions import (Concatenate, Literal, LiteralString, Never,
                               ParamSpec, Self, TypeAlias, TypeGuard,
                               TypeVarTuple, Unpack)
from . import sub
from . import sub as subalias
from .sub import Box, Color as Colour
T = TypeVar('T')
K = TypeVar('K', bound=int)
V = TypeVar('V', int, str)
P = ParamSpec('P')
Ts = TypeVarTuple('Ts')
class Local: ...
class Outer:
    class Inner:
        class Innermost: ...
class Pair(Generic[T, K]): ...
class Proto(Protocol): ...
class Named(NamedTuple):
    field: int
Text = str
Number: TypeAlias = Union[int, float]
Strings = List[str]
Vector = list[T]
Table: TypeAlias = Dict[K, V]
'''
ATOMS = ('int', 'str', 'None', 'Any', 'object', 'bytes', 'Local',
         'Outer.Inner', 'Outer.Inner.Innermost', 'sub.Other',
         'sub.Other.Inner', 'subalias.Color', 'Colour', 'Box', 'Pair',
         'Proto', 'Named', 'T', 'K', 'V', 'AnyStr', 'Text', 'Number',
         'Strings', 'Vector', 'sub.Alias', 'typing.Any', 't.Any', 't.List',
         'typing.Callable', 'Callable', 'type', 'Type', 'tuple', 'Tuple',
         'list', 'List', 'dict', 'Self', 'LiteralString', 'Never',
         'NoReturn', 'TracebackType', 'PathLike', 'os.PathLike',
         'collections.abc.Sized', 'typing_extensions.Self',
         'Literal[1]', 'Literal["a", "b"]', "Literal[b'x', None]",
         'Literal[-1, 0]', 'Literal[True]', 'Literal[Colour.RED]',
         'Literal[sub.Color.RED, sub.Color.GREEN]', 'Literal["a b", ""]',
         'typing.Literal[1, "1"]', 'tuple[()]', 'Tuple[()]',
         'Table[int, str]', 'type[Any]', 'Callable[P, T]',
         'Callable[[], None]', 'Callable[..., Any]',
         'Callable[Concatenate[int, P], T]', 'tuple[Unpack[Ts]]',
         'Ellipsis', '"Local"')
UNARY = ('list[{}]', 'List[{}]', 't.List[{}]', 'Optional[{}]', 'type[{}]',
         'Type[{}]', 'tuple[{}]', 'tuple[{}, ...]', 'Tuple[{}, ...]',
         'Iterable[{}]', 'collections.abc.Iterable[{}]',
         'typing.Iterable[{}]', 'Awaitable[{}]', 'AsyncIterator[{}]',
         'Callable[..., {}]', 'Callable[[{}], None]',
         'collections.abc.Callable[[{}], int]', 'Callable[[], {}]',
         'Callable[Concatenate[{}, P], int]', 'TypeGuard[{}]',
         'Annotated[{}, 1]', 'Annotated[{}, "text", None]', 'Box[{}]',
         'sub.Box[{}]', 'deque[{}]', 'AbstractContextManager[{}]',
         'Pattern[{}]', 're.Pattern[{}]', 'PathLike[{}]', 'Vector[{}]',
         '{} | None', 'None | {}', 'Union[{}, None]', 'Union[{}]',
         '({})', 'typing_extensions.Annotated[{}, ...]')
BINARY = ('dict[{}, {}]', 'Dict[{}, {}]', 'Mapping[{}, {}]', '{} | {}',
          'Union[{}, {}]', 'tuple[{}, {}]', 'Tuple[{}, {}]',
          'Callable[[{}], {}]', 'Pair[{}, {}]', 'Callable[[{}, int], {}]',
          'defaultdict[{}, {}]', 'Union[{}, str, {}]', '{} | str | {}')
PARTNERS = ('int', 'None', 'T', 'Local', 'Literal["a", "b"]', 'List[str]',
            'list[int]', 'int | str', 'Callable[[int], str]', 'Number')


def compose(arguments, partners=PARTNERS):
    for form in UNARY:
        for argument in arguments:
            yield form.format(argument)
    for form in BINARY:
        for argument in arguments:
            for partner in partners:
                yield form.format(argument, partner)
                yield form.format(partner, argument)


def texts(tier):
    """Yields (text, is it checked in all positions)."""
    for text in ATOMS:
        yield text, True
    first = list(dict.fromkeys(compose(ATOMS)))
    for text in first:
        yield text, tier != 'quick'
    inner = [form.format('int') for form in UNARY] + [
        form.format('Local', 'T') for form in BINARY]
    second = compose(inner, PARTNERS[:3] if tier == 'quick' else PARTNERS)
    for text in second:
        yield text, False


POSITIONS = ('positional', 'variadic', 'keyword', 'variadic keyword',
             'returns')
STUB = 'def f{}(a: {}, *v: {}, k: {}, **w: {}) -> {}: ...\n'


def functions(tier):
    """Yields texts of all annotations of a function."""
    everywhere = [text for text, everywhere in texts(tier) if everywhere]
    rest = [text for text, everywhere in texts(tier) if not everywhere]
    count = len(POSITIONS)
    for portion, rotations in ((everywhere, count), (rest, 1)):
        for start in range(0, len(portion), count):
            chunk = portion[start:start + count]
            chunk += ['int'] * (count - len(chunk))
            for shift in range(rotations):
                yield chunk[shift:] + chunk[:shift]


def modules(tier, size=150):
    iterator = iter(functions(tier))
    for number in itertools.count():
        portion = list(itertools.islice(iterator, size))
        if not portion:
            break
        stub = HEADER + ''.join(STUB.format(index, *annotations)
                                for index, annotations in enumerate(portion))
        runtime = HEADER + ''.join(
                f'def f{index}(*unknown): ...\n'
                for index in range(len(portion)))
        yield f'{PACKAGE}.m{number}', stub, runtime, portion


def add_to(project, tier):
    project.add(PACKAGE, '', package=True)
    project.add(f'{PACKAGE}.sub', SUB)
    for name, stub, runtime, _ in modules(tier):
        project.add(name, runtime, stub=stub)


def same(left, right):
    """Equal in the same spelling, except that typing's namesakes of classes
    which are not builtins (stubs import them from there) are the same."""
    if isinstance(left, (list, tuple)):
        return (type(left) is type(right) and len(left) == len(right)
                and all(map(same, left, right)))
    left, right = map(unquoted, (left, right))
    if (type(left) is type(right) and left == right
            and repr(left) == repr(right)):
        return True
    if origin_of(left) is not origin_of(right):
        return False
    if left is None or right is None:
        return True
    if (type(left) is not type(right)
            and origin_of(left).__module__ == 'builtins'):
        return False
    left_arguments, right_arguments = (typing.get_args(left),
                                       typing.get_args(right))
    return (bool(left_arguments) == bool(right_arguments)
            and getattr(left, '__metadata__', None) == getattr(
                    right, '__metadata__', None)
            and (same_members(left_arguments, right_arguments)
                 if origin_of(left) is typing.Union
                 else same(left_arguments, right_arguments)
                 if left_arguments
                 else not isinstance(left, typing.TypeVar)))


def origin_of(value):
    if value is None:
        return type(None)
    origin = typing.get_origin(value)
    return (value if origin is None
            else typing.Union if origin is types.UnionType else origin)


def unquoted(value):
    return (value.__forward_arg__ if isinstance(value, typing.ForwardRef)
            else value)


def same_members(left, right):
    # equal generics share arguments which have got into the cache first
    return (len(left) == len(right)
            and all(any(same(x, y) for y in right) for x in left)
            and all(any(same(x, y) for x in left) for y in right))
