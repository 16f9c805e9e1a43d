"""C17: inherited constructors of specialized generics have arguments
substituted."""
import itertools
import json
import re

from vlib import synthetic, target

LEVEL = 'model_checking'
RULE = ('state: module of a synthetic standard library with a hierarchy of '
        'generic classes, stub and runtime of which have the same text; '
        'transition: class of the module; trace: comparison of its signature '
        'with the constructor found in runtime with type variables '
        'substituted along the actual (original) bases')
ASSUMPTIONS = [
    'type variables of unspecialized generic bases are left as they are',
    'Self is not specialized',
]
LIMIT = 12
PARTS = 8
PACKAGE = 'vsgn'

HEADER = '''
from typing import (Any, Callable, Dict, Generic, Iterable, List, Mapping,
                    Optional, Protocol, Tuple, Type, TypeVar, Union)
from typing_extensions import (Concatenate, Literal, ParamSpec, Self,
                               TypeAlias, overload)

T = TypeVar('T')
U = TypeVar('U')
V = TypeVar('V', bound='X')
C = TypeVar('C', int, str)
P = ParamSpec('P')
class X: ...
class Y: ...
class Outer:
    class Inner: ...
XAlias = X
Mixed: TypeAlias = Union[X, int]
'''
# same names as in header, but different objects
OTHER_HEADER = HEADER.replace("TypeVar('", "TypeVar('_")

INIT_ONE = '''
    def __init__(self, a: T, b: List[T], c: Optional[T] = ..., *args: T,
                 d: Callable[[T, X], Dict[X, T]], e: Y,
                 f: Tuple[T, ...] = ..., **kwargs: Type[T]) -> None: ...
    def method(self, x: T) -> T: ...
'''
NEW_ONE = '''
    def __new__(cls, a: T, b: "List[T]" = ..., *, c: Union[T, X]) -> Self: ...
'''.replace('"', '')
INIT_TWO = '''
    def __init__(self, a: T, b: U, c: Dict[T, U], d: Dict[U, T],
                 e: Callable[[T], U], *, f: Union[T, U, X] = ...,
                 g: List[Tuple[U, T]]) -> None: ...
'''
NEW_TWO = '''
    def __new__(cls, a: U, b: T, c: Tuple[T, U, X]) -> Self: ...
'''
OVERLOADED_ONE = '''
    @overload
    def __init__(self) -> None: ...
    @overload
    def __init__(self, a: T, *args: List[T]) -> None: ...
    @overload
    def __init__(self, b: Union[T, X], *, c: Callable[[T], T]) -> None: ...
    def __init__(self, *args, **kwargs): ...  # runtime
'''
OVERLOADED_TWO = '''
    @overload
    def __new__(cls, a: Dict[T, U]) -> Self: ...
    @overload
    def __new__(cls, a: U, b: T) -> Self: ...
    def __new__(cls, *args): ...  # runtime
'''
ONE = [
    ('class G(Generic[T]):', OVERLOADED_ONE),
    ('class G(Generic[T]):', INIT_ONE), ('class G(Generic[T]):', NEW_ONE),
    ('class G(Protocol[T]):', INIT_ONE),
    ('class P(Generic[T]): ...\nclass G(P[T]):', INIT_ONE),
    ('class P(Generic[T]): ...\nclass G(P[List[T]]):', INIT_ONE),
    ('class P(Generic[U]): ...\nclass G(P[T], Generic[T]):', INIT_ONE),
    ('class P: ...\nclass G(P, Generic[T]):', INIT_ONE),
    ('class G(Iterable[T]):\n    def __iter__(self): ...', INIT_ONE),
    ('class G(Protocol, Generic[T]):', INIT_ONE),
]
TWO = [
    ('class G(Generic[U, T]):', OVERLOADED_TWO),
    ('class G(Generic[T, U]):', INIT_TWO),
    ('class G(Generic[U, T]):', INIT_TWO),
    ('class G(Protocol[U, T]):', INIT_TWO),
    ('class G(Generic[U, T]):', NEW_TWO),
    ('class A(Generic[T]): ...\nclass B(Generic[T]): ...\n'
     'class G(A[U], B[T]):', INIT_TWO),
    ('class A(Generic[T]): ...\nclass B(Generic[T]): ...\n'
     'class G(A[U], B[T], Generic[T, U]):', INIT_TWO),
    ('class A(Generic[T]): ...\nclass G(A[Callable[[U], T]]):', INIT_TWO),
    ('class A(Generic[T, U]): ...\nclass G(A[U, T]):', INIT_TWO),
    ('class A(Generic[T]): ...\nclass G(A[Dict[U, Tuple[T, U]]]):',
     NEW_TWO),
    ('class A(Generic[T]): ...\nclass G(Generic[T, U], A[U]):', INIT_TWO),
]
ARGUMENTS = ['int', 'X', 'Y', 'Outer.Inner', 'XAlias', 'Mixed', 'List[X]',
             'Optional[X]', 'Union[int, X]', 'Callable[[X], int]',
             'Tuple[X, ...]', 'Literal["a"]', 'Any', 'Type[X]', 'object',
             'Dict[str, List[X]]', 'list[X]', 'dict[X, list[int]]',
             'Callable[..., X]', 'Tuple[()]', 'int | X', 'X | None',
             'Iterable[Mapping[str, X]]']
# arguments containing type variables
OPEN_ONE = ['T', 'List[T]', 'Dict[T, T]', 'Callable[[T], X]', 'Optional[T]',
            'U', 'Tuple[U, ...]', 'Union[U, X]', 'T | X', 'list[T]',
            'Tuple[X, List[T]]', 'V', 'C']
OPEN_TWO = [('T', 'U'), ('U', 'T'), ('T', 'T'), ('List[U]', 'T'),
            ('X', 'T'), ('T', 'X'), ('U', 'X'), ('Dict[T, U]', 'List[T]'),
            ('Dict[U, T]', 'U')]


def specialize(name, arguments):
    return f'{name}[{", ".join(arguments)}]'


def hierarchies():
    """Texts of classes derived from G, for each number of its parameters."""
    one, two = [], []
    # direct specializations
    one.append(''.join(f'class S{i}(G[{a}]): ...\n'
                       for i, a in enumerate(ARGUMENTS)))
    for index, first in enumerate(ARGUMENTS):
        two.append(''.join(f'class S{i}(G[{first}, {a}]): ...\n'
                           for i, a in enumerate(ARGUMENTS[:8])))
    tail = ('class R{i}(S{i}): ...\nclass Q{i}(R{i}, Plain): ...\n'
            'class L{i}(Plain, S{i}): ...\n')
    plain = 'class Plain:\n    def method(self) -> X: ...\n'
    one.append(plain + ''.join(f'class S{i}(G[{a}]): ...\n'
                               + tail.format(i=i)
                               for i, a in enumerate(ARGUMENTS)))
    one.append('class S0(G): ...\nclass S1(G[int]): ...\nclass S2(G): ...\n'
               'class S3(S0): ...\n')
    two.append('class S0(G): ...\nclass S1(G[int, X]): ...\n'
               'class S2(G): ...\n')
    # chains
    for a in OPEN_ONE:
        variable = next(v for v in 'UTVC'
                        if v in re.findall('[A-Za-z]+', a))
        for declaration in (f'class H(G[{a}]):', f'class H(G[{a}], '
                            f'Generic[{variable}]):',
                            f'class H(Generic[{variable}], G[{a}]):'):
            if declaration.startswith('class H(Generic'):
                continue
            one.append(declaration + ' ...\n'
                       + ''.join(f'class S{i}(H[{b}]): ...\n'
                                 f'class R{i}(S{i}): ...\n'
                                 for i, b in enumerate(ARGUMENTS[:12]))
                       + 'class D(H): ...\n'
                       + f'class K(H[Dict[{variable}, U]]): ...\n'
                       + ('class M0(K[int, X]): ...\nclass M1(K[X, Y]): ...\n'
                          if variable != 'U' else
                          'class M0(K[int]): ...\nclass M1(K[X]): ...\n'))
    for a, b in OPEN_TWO:
        text = f'G[{a}, {b}]'
        variables = [v for v in ('T', 'U') if v in a + b]
        by_appearance = sorted(variables, key=text.index)
        for order in itertools.permutations(variables):
            heads = [f'class H({text}, Generic[{", ".join(order)}]):']
            if list(order) == by_appearance:
                heads.append(f'class H({text}):')
            for head in heads:
                pairs = [arguments
                         for arguments in itertools.product(
                             ['int', 'X', 'List[X]', 'Union[int, X]'],
                             repeat=len(order))]
                two.append(
                        head + ' ...\n'
                        + ''.join(f'class S{i}({specialize("H", p)}): ...\n'
                                  for i, p in enumerate(pairs))
                        + 'class D(H): ...\n')
                if len(order) == 2:
                    two.append(
                            head + ' ...\n'
                            + 'class K(H[U, List[T]]): ...\n'
                              'class S0(K[int, X]): ...\n'
                              'class K1(H[T, T]): ...\n'
                              'class S1(K1[X]): ...\n'
                              'class K2(H[T, X]): ...\n'
                              'class S2(K2[Y]): ...\n'
                              'class K3(H[X, T], Generic[T]): ...\n'
                              'class S3(K3[Y]): ...\n'
                              'class K4(H[U, T], Generic[T, U]): ...\n'
                              'class S4(K4[int, X]): ...\n'
                              'class S5(K4[X, int]): ...\n')
    return one, two


def several_bases():
    """Specializations along different bases."""
    first = ('class G(Generic[T]):' + INIT_ONE
             + 'class F(Generic[T, U]):' + INIT_TWO
             + 'class E(Generic[T]): ...\n')
    yield first + '''
class S0(G[int], F[X, Y]): ...
class S1(F[X, Y], G[int]): ...
class S2(E[int], F[X, Y], G[int]): ...
class S3(E[int], G[X]): ...
class H(E[T], G[U]): ...
class S4(H[int, X]): ...
class S5(H[X, int]): ...
class I(E[U], G[T], Generic[T, U]): ...
class S6(I[int, X]): ...
class J(F[T, X], E[T]): ...
class S7(J[int]): ...
class K(E[T], F[X, T]): ...
class S8(K[Y]): ...
class Own(G[int]):
    def __init__(self, q: T, r: X) -> None: ...
class OwnNew(G[int]):
    def __new__(cls, q: List[X]) -> Self: ...
class O1(Own): ...
class S9(S8, Own): ...
class O2(OwnNew): ...
class M(G[T]):
    def __init__(self, q: T, r: Dict[T, X]) -> None: ...
class N0(M[int]): ...
class N1(M[X]): ...
class Node(G["int"]): ...
'''.replace('"', '')
    # own scope of members of generic class
    yield '''
class G(Generic[T]):
    class Nested: ...
    Alias = X
    List = Dict
    def __init__(self, a: Nested, b: Alias, c: T, d: List[X, T],
                 e: Outer.Inner) -> None: ...
class Nested: ...
Alias = Y
class S0(G[Nested]): ...
class S1(G[Alias]): ...
class S2(G[X]): ...
class Container:
    class Nested: ...
    Alias = Outer
    class S(G[X]): ...
    class S1(G[Y]):
        class Nested: ...
'''
    # parameters specifications
    yield '''
class G(Generic[P, T]):
    def __init__(self, f: Callable[P, T], g: T,
                 h: List[Callable[P, List[T]]]) -> None: ...
class S0(G[[int, X], Y]): ...
class S1(G[[X], X]): ...
class S2(G[..., X]): ...
class S3(G[[], int]): ...
class H(G[P, X]): ...
class S4(H[[int, Y]]): ...
class S6(H[[Y]]): ...
class K(G[[int, U], U]): ...
class S7(K[X]): ...
'''
    yield '''
class G(Generic[P, T]):
    def __init__(self, h: Callable[Concatenate[X, P], List[T]]) -> None: ...
class S0(G[[int, X], Y]): ...
class S1(G[[], int]): ...
class S2(G[..., int]): ...
class H(G[P, T]): ...
class S3(H[[Y], int]): ...
'''
    # nested generic classes
    yield '''
class Container:
    class G(Generic[T]):
        def __init__(self, a: T, b: List[T], c: X) -> None: ...
    class S0(G[X]): ...
class S1(Container.G[X]): ...
class S2(Container.G[Y]): ...
class Base: ...
class Other(Generic[T]): ...
class Library:
    class Base:
        def __init__(self, a: X) -> None: ...
    class Other(Generic[T]):
        def __init__(self, a: T, b: List[T]) -> None: ...
    class G(Base, Generic[T]): ...
    class H(Other[T]): ...
    class I(Other[List[T]]): ...
class T0(Library.G[X]): ...
class T1(Library.H[X]): ...
class T2(Library.I[Y]): ...
class T3(Library.G[Y], Library.H[Y]): ...
class H(Container.G[List[U]]): ...
class S3(H[X]): ...
'''
    # bases specified by aliases
    yield '''
class G(Generic[T]):
    def __init__(self, a: T, b: List[T], c: X) -> None: ...
Explicit: TypeAlias = G[X]
Implicit = G[List[X]]
Other = G
Chained = Implicit
class H(G[Dict[str, T]]): ...
Derived: TypeAlias = H[Y]
class S0(Explicit): ...
class S1(Implicit): ...
class S2(Other[Y]): ...
class S3(Chained): ...
class S4(Derived): ...
class S5(S0): ...
class S6(G[Y]): ...
class S7(Iterable[int], Implicit):
    def __iter__(self): ...
class Container:
    class X: ...
    Explicit = G[X]
    class Inner(Generic[T]): ...
class S8(Container.Explicit): ...
'''
    # aliases with type variables among members
    yield '''
class G(Generic[T]):
    Vector: TypeAlias = List[T]
    Table = Dict[str, T]
    Fixed = List[X]
    def __init__(self, a: Vector, b: Table, c: T, d: Fixed,
                 e: Optional[Vector]) -> None: ...
class S0(G[X]): ...
class S1(G[List[Y]]): ...
class H(G[Dict[str, U]]): ...
class S2(H[X]): ...
class S3(G): ...
'''
    # objects paths of which differ in the way of nesting only
    yield '''
class A:
    class B:
        class C: ...
    class B_C: ...
class A_B:
    class C: ...
class A_B_C: ...
class A_B_: ...
class G(Generic[T]):
    def __init__(self, a: T, b: List[T], c: A.B, d: A_B.C, e: A.B_C) -> None:
        ...
class S0(G[A.B]): ...
class S1(G[A_B]): ...
class S2(G[A.B.C]): ...
class S3(G[A.B_C]): ...
class S4(G[A_B.C]): ...
class S5(G[A_B_C]): ...
class S6(G[A_B_]): ...
class S7(G[List[A.B]]): ...
class S8(G[List[A_B]]): ...
class H(G[Dict[U, A.B]]): ...
class I(G[Dict[U, A_B]]): ...
class S9(H[A_B]): ...
class S10(I[A_B]): ...
class S11(I[A.B]): ...
'''
    # arguments spelled similarly
    arguments = ['1', '-1', 'True', '"1"', 'b"1"', '"True"', '"-1"', 'None',
                 '"None"', '"X"', '"a_b"', '"a b"', '"a-b"', '"a", "b"',
                 '"a, b"', '""', '"_"']
    yield '''
class G(Generic[T]):
    def __init__(self, a: T, b: List[T], c: X) -> None: ...
''' + ''.join(f'class S{i}(G[Literal[{argument}]]): ...\n'
              for i, argument in enumerate(arguments)) + '''
class R0(G[None]): ...
class R1(G[Literal[None]]): ...
class R2(G[X]): ...
class R3(G[List[X]]): ...
class R4(G[list[X]]): ...
class R5(G[Callable[[X], Y]]): ...
class R6(G[Callable[[], Y]]): ...
class R7(G[Callable[..., Y]]): ...
class R8(G[Callable[[X, Y], Y]]): ...
class R9(G[Tuple[X, ...]]): ...
class R10(G[Tuple[X, Y]]): ...
class R11(G[Tuple[()]]): ...
class R12(G[Union[X, Y]]): ...
class R13(G[X | Y]): ...
class R14(G[Tuple[X, Tuple[Y, X]]]): ...
class R15(G[Tuple[Tuple[X, Y], X]]): ...
class R16(G[Dict[X, List[Y]]]): ...
class R17(G[Dict[List[X], Y]]): ...
class R18(G[Tuple[Tuple[X], Y]]): ...
class R19(G[Tuple[Tuple[X, Y]]]): ...
class R20(G[Tuple[X, Tuple[Y], X]]): ...
class R21(G[Tuple[X, Tuple[Y, X]]]): ...
class R22(G[Tuple[X | Y, X]]): ...
class R23(G[X | Tuple[Y, X]]): ...
class R24(G[Tuple[X, Y | X]]): ...
class R25(G[Tuple[X, Y] | X]): ...
class R26(G[Callable[[X], Tuple[Y]]]): ...
class R27(G[Callable[[], Tuple[X, Y]]]): ...
'''
    # places of type variables
    yield '''
class G(Generic[T]):
    def __init__(self, a: T, b: List[T], c: X) -> None: ...
''' + ''.join(f'class H{i}(G[{argument}]): ...\n'
              f'class S{i}(H{i}[X]): ...\n'
              for i, argument in enumerate([
                  'U | None', 'None | U', 'X | U', 'int | List[U]',
                  'List[int | U]', 'None | X | U', 'X | U | None',
                  'Callable[[X, U], int]', 'Callable[[X], U]',
                  'Callable[[U], X]', 'Callable[..., U]',
                  'Callable[[int, List[U]], X]', 'Dict[X, U]',
                  'Union[int, X, U]', 'Type[U]', 'Tuple[X, U]'])) + '''
class J0(G[None | U | T]): ...
class J1(G[U | Dict[T, V]]): ...
class J2(G[Callable[[T, U], V]]): ...
class J3(G[Callable[[V], T | U]]): ...
class J4(G[Dict[List[V] | U, T]]): ...
class K0(J0[X, Y]): ...
class K1(J1[X, Y, X]): ...
class K2(J2[Y, int, X]): ...
class K3(J3[X, Y, int]): ...
class K4(J4[X, Y, int]): ...
'''
    # names of builtins among members and in modules
    yield '''
class G(Generic[T]):
    def int(self) -> None: ...
    str: X
    class list: ...
    def __init__(self, a: T, c: list, d: Optional[T]) -> None: ...
    def bytes(self) -> None: ...
class S0(G[int]): ...
class S1(G[str]): ...
class S2(G[list]): ...
class S3(G[bytes]): ...
class S4(G[Dict[str, int]]): ...
class H(G[Dict[str, T]]): ...
class S5(H[int]): ...
class S6(H[float]): ...
class dict: ...
class S7(G[dict]): ...
class S8(H[dict]): ...
'''


def importers(project, base, count, arguments):
    """The same spelling of arguments means different objects in modules."""
    counter = itertools.count()
    for number in range(2):
        for lines, generic in (
                (f'from {base} import G', 'G'),
                (f'from {base} import G as B', 'B'),
                (f'from . import {base.rpartition(".")[2]} as q', 'q.G'),
                (f'import {base}', f'{base}.G'),
                (f'from {base} import *', 'G'),
                (f'from {base} import G as int', 'int')):
            name = f'{base}_u{next(counter)}'
            variables = 'T' if count == 1 else 'T, U'
            classes = ''
            for index, values in enumerate(itertools.product(arguments,
                                                             repeat=count)):
                classes += (f'class S{index}({specialize(generic, values)}): '
                            f'...\n')
            header = HEADER
            if lines.endswith('*'):
                # variables are the ones of the base module
                header, lines = lines + '\n', ''
            text = (f'{header}{lines}\n'
                    + f'class H({generic}[{variables}]): ...\n'
                    + classes
                    + classes.replace('class S', 'class Z').replace(
                            f'({generic}[', '(H['))
            project.add(name, text)
            yield name


def projects(tier):
    project = synthetic.Project()
    project.add(PACKAGE, '', package=True)
    names = []
    one, two = hierarchies()
    counter = itertools.count()
    for group, definitions, texts in (('one parameter', ONE, one),
                                      ('two parameters', TWO, two)):
        for index, (head, body) in enumerate(definitions):
            if tier == 'quick' and index > 7:
                texts = texts[::3]
            header = HEADER + head + body
            base = f'{PACKAGE}.base{next(counter)}'
            project.add(base, header)
            names.append((group, base))
            names += [('imported', name)
                      for name in importers(
                          project, base, 1 if definitions is ONE else 2,
                          (['X', 'List[X]']
                           if tier == 'quick' and definitions is TWO
                           else ['X', 'str', 'List[X]', 'Outer.Inner', 'Y'])
                      )]
            for text in texts:
                name = f'{PACKAGE}.m{next(counter)}'
                project.add(name, header + text)
                names.append((group, name))
    for index, text in enumerate(several_bases()):
        name = f'{PACKAGE}.several{index}'
        project.add(name, HEADER + text)
        names.append(('several', name))
    return project, names


def prepare(context):
    project, names = projects(context.tier)
    context.extra = project.write(context.scratch)
    (context.scratch / 'names.json').write_text(json.dumps(names))
    target.build(context.target, seed=context.seed,
                 extra_paths=context.extra)


def extra_paths(context):
    return context.extra


def shards(tier):
    return [[part, PARTS] for part in range(PARTS)]


def run(shard, report, spec):
    import importlib
    import pathlib
    from vlib import reference, runtime_model
    import paradigm.base as base
    reference.PACKAGES.update([PACKAGE])
    part, parts = shard
    names = json.loads((pathlib.Path(spec['scratch'])
                        / 'names.json').read_text())
    for group, name in names[part::parts]:
        module = importlib.import_module(name)
        report.state(name)
        for path, value, owner in runtime_model.members(module):
            if not isinstance(value, type):
                continue
            report.count('transitions')
            key = f'{name}:{path}'
            difference = runtime_model.difference(
                    value, owner, module, base,
                    runtime_model.specialized_constructor(value))
            report.count('traces')
            if difference is None:
                report.outcome(group)
                report.sample(f'{key}: {base.signature_from_callable(value)}')
            elif not report.violation(
                    key, f'{key}: {difference}; source is\n'
                         f'{pathlib.Path(module.__file__).read_text()}',
                    {'callable': key}):
                return
