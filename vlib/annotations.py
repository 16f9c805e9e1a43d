"""Bounded grammar of annotations.

Every annotation is generated as (text, key): the text is evaluated to get the
object, the key is its canonical structure computed from the grammar alone
(two annotations are expected to be equal iff their keys are equal)."""
import collections
import collections.abc
import contextlib
import dataclasses
import re
import types
import typing

import typing_extensions

from . import sample_types

NAMESPACE = {'collections': collections, 'contextlib': contextlib,
             'dataclasses': dataclasses, 're': re,
             'types': types, 'typing': typing,
             'typing_extensions': typing_extensions,
             'st': sample_types, 'builtins': __builtins__}


def atoms():
    for name in ('int', 'str', 'bytes', 'bytearray', 'bool', 'object',
                 'float'):
        yield name, ('class', name)
    yield 'None', ('None',)
    for name in ('Any', 'NoReturn', 'AnyStr', 'Hashable'):
        yield f'typing.{name}', ('typing', name)
    yield 'typing_extensions.Self', ('typing', 'Self')
    for name in ('Sample', 'Sample.Inner', 'Sample.Inner.Innermost', 'Other',
                 'Other.Inner', 'Color', 'Gen', 'Proto'):
        yield f'st.{name}', ('class', name)
    for name in ('FunctionType', 'ModuleType', 'TracebackType',
                 'BuiltinFunctionType', 'MappingProxyType'):
        yield f'types.{name}', ('class', name)
    yield 'type(len)', ('class', 'BuiltinFunctionType')
    yield 'st.N', ('newtype', 'N')
    for arguments in ("'T'", "'U'", "'T', bound=int", "'T', bound=str",
                      "'T', int, str", "'T', str, int", "'T', covariant=True",
                      "'T', contravariant=True",
                      "'T', bound=typing.List[int]"):
        yield f'typing.TypeVar({arguments})', ('typevar', arguments)
    for text in ('X', 'Y', 'typing.List[X]'):
        yield f'typing.ForwardRef({text!r})', ('forward', text)
    for module in ('a', 'b'):
        yield (f"typing.ForwardRef('X', module={module!r})",
               ('forward', 'X', module))
    for name in ('Alias', 'OtherAlias', 'BackportedAlias'):
        yield f'st.{name}', ('alias', name)
    for text in ('X', 'a.B', "it's"):
        yield repr(text), ('text', text)


def special_atoms():
    """Ones having sense only in few places."""
    for name in 'PQ':
        for module in ('typing', 'typing_extensions'):
            yield f'{module}.ParamSpec({name!r})', ('paramspec', name)
            for attribute in ('args', 'kwargs'):
                yield (f'{module}.ParamSpec({name!r}).{attribute}',
                       ('paramspec', name, attribute))
            variadic = f'{module}.TypeVarTuple({name!r})'
            yield variadic, ('typevartuple', name)
            yield f'{module}.Unpack[{variadic}]', ('unpacked variadic', name)
            for spelling in ('typing.Tuple', 'tuple'):
                yield (f'{spelling}[{module}.Unpack[{variadic}]]',
                       ('variadic tuple', name))
                yield (f'{spelling}[*{variadic}]', ('variadic tuple', name))
                yield (f'{spelling}[int, *{variadic}]',
                       ('variadic tuple', 'int', name))
                yield (f'typing.Callable[[*{variadic}], int]',
                       ('variadic callable', name))


# spelling in typing, spellings elsewhere, arity
GENERICS = (
    ('typing.List', 'list', 1), ('typing.Set', 'set', 1),
    ('typing.FrozenSet', 'frozenset', 1), ('typing.Dict', 'dict', 2),
    ('typing.Type', 'type', 1),
    ('typing.Deque', 'collections.deque', 1),
    ('typing.DefaultDict', 'collections.defaultdict', 2),
    ('typing.Iterable', 'collections.abc.Iterable', 1),
    ('typing.Iterator', 'collections.abc.Iterator', 1),
    ('typing.Sequence', 'collections.abc.Sequence', 1),
    ('typing.Mapping', 'collections.abc.Mapping', 2),
    ('typing.Awaitable', 'collections.abc.Awaitable', 1),
    ('typing.Generator', 'collections.abc.Generator', 3),
    ('typing.ContextManager', 'contextlib.AbstractContextManager', 1),
    ('typing.Pattern', 're.Pattern', 1),
)


def bare_generics():
    for first, second, _ in GENERICS:
        yield first, ('generic', second)
        yield second, ('generic', second)
    yield 'typing.Tuple', ('generic', 'tuple')
    yield 'tuple', ('generic', 'tuple')
    yield 'typing.Callable', ('generic', 'callable')
    yield 'collections.abc.Callable', ('generic', 'callable')


def flatten_union(keys):
    result = set()
    for key in keys:
        if key[0] == 'union':
            result |= key[1]
        else:
            result.add(key)
    return frozenset(result)


def union_key(*keys):
    arms = flatten_union(keys)
    return next(iter(arms)) if len(arms) == 1 else ('union', arms)


def compose(arguments, *, generics=GENERICS, partners=None):
    """Annotations one level deeper than the arguments."""
    partners = arguments if partners is None else partners
    for first, second, arity in generics:
        if arity == 1:
            for text, key in arguments:
                for spelling in (first, second):
                    yield f'{spelling}[{text}]', ('app', second, (key,))
        else:
            for text, key in arguments:
                for other_text, other_key in partners:
                    rest_text = ''.join([f', {other_text}'] * (arity - 1))
                    rest_key = (other_key,) * (arity - 1)
                    for spelling in (first, second):
                        yield (f'{spelling}[{text}{rest_text}]',
                               ('app', second, (key, *rest_key)))
    for text, key in arguments:
        for spelling in ('typing.Tuple', 'tuple'):
            yield f'{spelling}[{text}]', ('app', 'tuple', (key,))
            yield f'{spelling}[{text}, ...]', ('tuple...', key)
        for spelling in ('typing.Callable', 'collections.abc.Callable'):
            yield f'{spelling}[[], {text}]', ('callable', (), key)
            yield f'{spelling}[..., {text}]', ('callable...', key)
        yield f'typing.Optional[{text}]', union_key(key, ('None',))
        yield f'typing.Union[None, {text}]', union_key(key, ('None',))
        yield f'{text} | None', union_key(key, ('None',))
        yield f'None | {text}', union_key(key, ('None',))
        yield f'st.Gen[{text}]', ('app', 'Gen', (key,))
        yield f'typing.ClassVar[{text}]', ('app', 'ClassVar', (key,))
        yield f'typing.Final[{text}]', ('app', 'Final', (key,))
        yield f'dataclasses.InitVar[{text}]', ('app', 'InitVar', (key,))
        for text_, key_ in partners:
            for spelling in ('typing.Tuple', 'tuple'):
                yield (f'{spelling}[{text}, {text_}]',
                       ('app', 'tuple', (key, key_)))
            for spelling in ('typing.Callable', 'collections.abc.Callable'):
                yield (f'{spelling}[[{text}], {text_}]',
                       ('callable', (key,), key_))
            if key != key_:
                yield f'typing.Union[{text}, {text_}]', union_key(key, key_)
                yield f'{text} | {text_}', union_key(key, key_)


def literal_key(text):
    value = evaluate(text)
    return (value
            if type(value) in (bytes, str, type(None))
            else (type(value).__name__, str(value)))


def fixed():
    for spelling in ('typing.Tuple', 'tuple'):
        yield f'{spelling}[()]', ('app', 'tuple', ())
        yield f'{spelling}[int, str, int]', ('app', 'tuple', (
            ('class', 'int'), ('class', 'str'), ('class', 'int')))
    for module in ('typing', 'typing_extensions'):
        yield f"{module}.Literal['a', 'b']", ('literal', frozenset('ab'))
        yield f"{module}.Literal['b', 'a']", ('literal', frozenset('ab'))
        yield f"{module}.Literal['a']", ('literal', frozenset('a'))
        yield f"{module}.Literal['a', 'c']", ('literal', frozenset('ac'))
        yield f'{module}.Literal[2]', ('literal', frozenset([('int', '2')]))
        yield f'{module}.Literal[2, 3]', ('literal', frozenset([('int', '2'), ('int', '3')]))
        yield f"{module}.Literal['2']", ('literal', frozenset('2'))
        yield f"{module}.Literal[b'2']", ('literal', frozenset([b'2']))
        yield f'{module}.Literal[None]', ('literal', frozenset([None]))
    for spelling in ('typing.Callable', 'collections.abc.Callable'):
        yield (f'{spelling}[[int, str], bytes]',
               ('callable', (('class', 'int'), ('class', 'str')),
                ('class', 'bytes')))
        yield (f'{spelling}[[str, int], bytes]',
               ('callable', (('class', 'str'), ('class', 'int')),
                ('class', 'bytes')))
        yield (f"{spelling}[typing.ParamSpec('P'), int]",
               ('callable-p', 'P', ('class', 'int')))
        yield (f"{spelling}[typing.ParamSpec('Q'), int]",
               ('callable-p', 'Q', ('class', 'int')))
        yield (f"{spelling}[typing.Concatenate[int, typing.ParamSpec('P')], "
               'int]', ('callable-c', 'P', ('class', 'int')))
    for union in ('typing.Union[int, str, None]',
                  'typing.Union[None, str, int]', 'int | str | None',
                  'None | int | str', 'typing.Optional[int | str]',
                  'typing.Optional[typing.Union[str, int]]'):
        yield union, ('union', frozenset([('class', 'int'), ('class', 'str'),
                                          ('None',)]))
    for union in ('typing.Union[int, str, bytes]', 'bytes | int | str'):
        yield union, ('union', frozenset([('class', 'int'), ('class', 'str'),
                                          ('class', 'bytes')]))
    yield "typing.Annotated[int, 'x']", ('annotated', 'int', 'x')
    yield "typing.Annotated[int, 'y']", ('annotated', 'int', 'y')
    yield "typing.Annotated[str, 'x']", ('annotated', 'str', 'x')


def peculiar():
    """Ones which are not nested into others."""
    for module in ('typing', 'typing_extensions'):
        # values of different types are different
        values = ('1', 'True', '0', 'False', "'a'", "b'a'", 'None',
                  'st.Color.RED', 'st.Number.ONE', 'st.Access.READ',
                  'st.Access.ANY', 'st.Text.A', 'st.Other.Shade.DARK',
                  'st.Other.Permission.READ',
                  'st.Other.Permission.READ | st.Other.Permission.WRITE')
        for text in values:
            yield (f'{module}.Literal[{text}]',
                   ('literal', frozenset([literal_key(text)])))
            for other in values:
                if text != other:
                    yield (f'{module}.Literal[{text}, {other}]',
                           ('literal', frozenset([literal_key(text),
                                                  literal_key(other)])))
    # generics of nothing
    nothing = ('None',)
    for none in ('None', 'type(None)'):
        for first, second, arity in GENERICS:
            for spelling in (first, second):
                yield (f'{spelling}[{", ".join([none] * arity)}]',
                       ('app', second, (nothing,) * arity))
        for spelling in ('typing.Tuple', 'tuple'):
            yield f'{spelling}[{none}]', ('app', 'tuple', (nothing,))
            yield f'{spelling}[{none}, ...]', ('tuple...', nothing)
            yield (f'{spelling}[{none}, int]',
                   ('app', 'tuple', (nothing, ('class', 'int'))))
            yield (f'{spelling}[int, {none}]',
                   ('app', 'tuple', (('class', 'int'), nothing)))
        for spelling in ('typing.Callable', 'collections.abc.Callable'):
            yield f'{spelling}[[], {none}]', ('callable', (), nothing)
            yield f'{spelling}[..., {none}]', ('callable...', nothing)
            yield (f'{spelling}[[{none}], int]',
                   ('callable', (nothing,), ('class', 'int')))
            yield (f'{spelling}[[int, {none}], {none}]',
                   ('callable', (('class', 'int'), nothing), nothing))
            for generic in ('typing.List', 'list'):
                yield (f'{spelling}[[{generic}[{none}]], {none}]',
                       ('callable', (('app', 'list', (nothing,)),), nothing))
    # unpacked tuples
    for spelling in ('typing.Tuple', 'tuple'):
        for inner in ('typing.Tuple', 'tuple'):
            yield (f'{spelling}[{inner}[str, ...]]',
                   ('app', 'tuple', (('tuple...', ('class', 'str')),)))
            for text in (f'*{inner}[str, ...]',
                         f'typing.Unpack[{inner}[str, ...]]'):
                yield (f'{spelling}[{text}]', ('unpacked tuple', 'str'))
                yield (f'{spelling}[int, {text}]',
                       ('unpacked tuple', 'int', 'str'))
            yield (f'{spelling}[*{inner}[int, ...]]',
                   ('unpacked tuple', 'int'))
            yield (f'{spelling}[*{inner}[int]]',
                   ('unpacked tuple of one', 'int'))
    for text in ('next(iter(tuple[str, ...]))',
                 'next(iter(typing.Tuple[str, ...]))',
                 'typing.Unpack[tuple[str, ...]]',
                 'typing.Unpack[typing.Tuple[str, ...]]'):
        yield text, ('unpacked', 'str')
    for arguments in ('()', 'int', 'str', 'int, str', 'str, int'):
        yield f'st.Variadic[{arguments}]', ('variadic', arguments)
    for argument in ('int', 'str'):
        yield (f'st.GenericAlias[{argument}]',
               ('alias', 'GenericAlias', argument))


def evaluate(text):
    return eval(text, NAMESPACE)


def universe(level):
    """level 0: atoms, 1: + one level of nesting, 2: + second level over a
    representative subset, 3: + second level over everything."""
    zero = [*atoms(), *special_atoms(), *bare_generics(), *fixed(),
            *peculiar()]
    result = list(zero)
    if level >= 1:
        small = [pair for pair in atoms()
                 if pair[0] in ('int', 'str', 'typing.Any', 'st.Sample.Inner',
                                'types.FunctionType', "typing.TypeVar('T')",
                                "typing.ForwardRef('X')", 'bytes')]
        pair_small = small[:2]
        result += compose([pair for pair in atoms() if pair[1][0] not in ('text', 'None')],
                          partners=pair_small)
        result += compose(small)
    if level >= 2:
        inner = [*compose(small[:2], generics=GENERICS[:1] + GENERICS[3:4],
                          partners=small[:2]), *fixed()]
        generics = GENERICS if level >= 3 else GENERICS[:2] + GENERICS[3:4]
        result += compose(inner, generics=generics,
                          partners=inner if level >= 3 else small[:1])
    seen, unique = set(), []
    for text, key in result:
        if text in seen:
            continue
        seen.add(text)
        try:
            value = evaluate(text)
        except TypeError:
            # not a valid annotation
            continue
        unique.append((text, key, value))
    return unique
