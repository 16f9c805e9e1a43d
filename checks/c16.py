"""C16: names in stubs are resolved as Python itself would resolve them."""
import itertools
import json

from vlib import synthetic, target

LEVEL = 'model_checking'
RULE = ('state: module of a synthetic standard library, stub and runtime of '
        'which have the same text; transition: function, method or class of '
        'the module; trace: comparison of annotations of the obtained '
        'signature with the ones computed by executing the module')
ASSUMPTIONS = [
    'names are looked up when the module is completely executed',
    'names used are bound in the scope Python looks them up in',
]
LIMIT = 40
PARTS = 8
PACKAGE = 'vspk'
# twin of the package names of which exist in stubs only
TWIN = 'vstb'

LEAF = '''
import sys
from typing import (Any, Callable, Dict, Generic, List, NewType, Optional,
                    Tuple, Type, TypeVar, Union)
from typing_extensions import Literal, TypeAlias, ParamSpec

class X: ...
class Y: ...
class Outer:
    class Inner:
        class Deep: ...
    Alias = X
XAlias = X
'''
DECOY = '''
class X: ...
class Y: ...
class Outer:
    class Inner:
        class Deep: ...
    class Alias: ...
class XAlias: ...
class leaf: ...
class decoy: ...
''' + ''.join(f'''
class b{step}: ...
class q{step}: ...
class K{step}:
    class b{step}: ...
''' for step in range(3))


def use(expression):
    return f'''
def f(x: {expression}) -> {expression}: ...
def g(x, *args: {expression}, k: {expression} = ..., **kwargs: {expression}): ...
def h(x, y: {expression}): ...
class U:
    def m(self, x: {expression}) -> {expression}: ...
    @classmethod
    def c(cls, x: {expression}): ...
    @staticmethod
    def s(x: {expression}): ...
    class V:
        def __init__(self, x: {expression}) -> None: ...
        async def m(self) -> {expression}: ...
'''


def early(expression):
    return f'''
def early(x: {expression}) -> {expression}: ...
class Early:
    def m(self, x: {expression}) -> {expression}: ...
'''


class Exported:
    """What other modules can refer to."""

    def __init__(self, module, path, step=0):
        self.module, self.path, self.step = module, path, step


def dotted(*parts):
    return '.'.join(parts)


# every mechanism gets a module of the importing module (to compute relative
# imports) and an exported path, returns lines and a path to the same object

def _relative(level, module):
    """Relative spelling of absolute module name in a package of modules."""
    return '.' * level + module.split('.', 1)[1]


def from_import(level, e):
    return f'from {e.module} import {e.path[0]}', e.path


def from_import_as(level, e):
    return f'from {e.module} import {e.path[0]} as b{e.step}', (f'b{e.step}', *e.path[1:])


def relative_from_import(level, e):
    return f'from {_relative(level, e.module)} import {e.path[0]}', e.path


def relative_from_import_as_itself(level, e):
    return (f'from {_relative(level, e.module)} import '
            f'{e.path[0]} as {e.path[0]}', e.path)


def _split(level, e):
    parent, _, name = e.module.rpartition('.')
    relative = '.' * level + dotted(*parent.split('.')[1:])
    return parent, relative, name


def relative_import_module(level, e):
    parent, relative, name = _split(level, e)
    return f'from {relative} import {name}', (name, *e.path)


def relative_import_module_as(level, e):
    parent, relative, name = _split(level, e)
    return f'from {relative} import {name} as q{e.step}', (f'q{e.step}', *e.path)


def from_package_import_module(level, e):
    parent, relative, name = _split(level, e)
    return f'from {parent} import {name}', (name, *e.path)


def import_module(level, e):
    return f'import {e.module}', (*e.module.split('.'), *e.path)


def import_module_as(level, e):
    return f'import {e.module} as q{e.step}', (f'q{e.step}', *e.path)


def star(level, e):
    return f'from {_relative(level, e.module)} import *', e.path


def absolute_star(level, e):
    return f'from {e.module} import *', e.path


def assigned(level, e):
    return (f'from {e.module} import {e.path[0]}\nb{e.step} = {dotted(*e.path)}',
            (f'b{e.step}',))


def assigned_from_module(level, e):
    return (f'import {e.module}\nb{e.step} = {e.module}.{dotted(*e.path)}', (f'b{e.step}',))


def type_alias(level, e):
    return (f'from typing_extensions import TypeAlias\n'
            f'from {e.module} import {e.path[0]}\n'
            f'b{e.step}: TypeAlias = {dotted(*e.path)}', (f'b{e.step}',))


def class_attribute(level, e):
    return (f'from {e.module} import {e.path[0]}\n'
            f'class K{e.step}:\n    b{e.step} = {dotted(*e.path)}', (f'K{e.step}', f'b{e.step}'))


def version_conditional(level, e):
    return (f'import sys\nif sys.version_info >= (3, 8):\n'
            f'    from {e.module} import {e.path[0]}\n'
            f'else:\n    from {PACKAGE}.decoy import {e.path[0]}', e.path)


def platform_conditional(level, e):
    return (f'import sys\nif sys.platform == "win32":\n'
            f'    from {PACKAGE}.decoy import {e.path[0]}\n'
            f'else:\n    from {e.module} import {e.path[0]}', e.path)


def shadowing_builtin(level, e):
    return f'from {e.module} import {e.path[0]} as int', ('int', *e.path[1:])


def star_then_import(level, e):
    return (f'from {PACKAGE}.decoy import *\n'
            f'from {e.module} import {e.path[0]}', e.path)


def two_stars(level, e):
    return (f'from {PACKAGE}.decoy import *\nfrom {e.module} import *',
            e.path)


def class_import(level, e):
    return (f'class K{e.step}:\n    from {e.module} import {e.path[0]}',
            (f'K{e.step}', *e.path))


MECHANISMS = [from_import, from_import_as, relative_from_import,
              relative_from_import_as_itself, relative_import_module,
              relative_import_module_as, from_package_import_module,
              import_module, import_module_as, star, absolute_star, assigned,
              assigned_from_module, type_alias, class_attribute,
              version_conditional, platform_conditional, shadowing_builtin,
              star_then_import, two_stars, class_import]
LEAVES = [('X',), ('Outer', 'Inner'), ('Outer', 'Alias'), ('XAlias',)]


def chains(project, depth):
    leaf = f'{PACKAGE}.leaf'
    level_exports = [[(Exported(leaf, path), str(index))
                      for index, path in enumerate(LEAVES)]]
    for step in range(depth):
        exports = []
        for exported, identity in level_exports[-1]:
            if step and step < depth - 1 and identity[0] not in '01':
                continue
            for index, mechanism in enumerate(MECHANISMS):
                for kind in ('m', 'p', 's'):
                    # module, package and module of sub-package
                    if kind != 'm' and not (
                            mechanism.__name__.startswith('relative')
                            or mechanism in (star, import_module)):
                        continue
                    if (kind != 'm' and step < depth - 1 and step):
                        continue
                    new = f'{identity}_{index}'
                    level = 2 if kind == 's' else 1
                    name = f'{PACKAGE}.{kind}{new}'
                    if kind == 's':
                        name = f'{PACKAGE}.sub.{kind}{new}'
                    elif kind == 'p':
                        level = 2
                    lines, path = mechanism(level, exported)
                    expression = dotted(*path)
                    project.add(name, early(expression) + lines + '\n'
                                + use(expression), package=kind == 'p')
                    yield name
                    if kind != 's':
                        exports.append((Exported(name, path, step + 1), new
                                        if kind == 'm' else new + 'p'))
        level_exports.append(exports)


CONDITIONS = [
    ('import sys', [
        *[f'sys.version_info {operator} {version}'
          for operator in ('<', '<=', '>', '>=', '==', '!=')
          for version in ('(3,)', '(3, 8)', '(3, 12)', '(3, 13)', '(4,)',
                          '(3, 12, 3)', '(3, 12, 9)')],
        'sys.version_info[0] >= 3', 'sys.version_info[0] == 2',
        'sys.version_info[:2] == (3, 12)', 'sys.version_info[:2] > (3, 12)',
        'sys.version_info[1] < 12', 'sys.version_info.major == 3',
        'sys.platform == "linux"', 'sys.platform != "linux"',
        'sys.platform == "win32"', 'sys.platform != "win32"',
        'sys.platform.startswith("linux")',
        'not sys.platform.startswith("linux")',
        'sys.platform in ("linux", "darwin")',
        'sys.platform not in ("linux", "darwin")',
        'sys.implementation.name == "cpython"',
        'sys.implementation.name != "cpython"',
        'sys.version_info >= (3, 8) and sys.platform == "win32"',
        'sys.version_info >= (3, 8) and sys.platform != "win32"',
        'sys.version_info < (3, 8) or sys.platform == "win32"',
        'sys.version_info >= (3, 8) or sys.platform == "win32"',
        'not (sys.version_info >= (3, 8) and sys.platform == "linux")',
        'sys.version_info >= (3, 8) and not sys.platform == "linux" '
        'or sys.version_info < (4, 0)',
        '(3, 8) <= sys.version_info < (3, 10)',
        '(3, 8) <= sys.version_info < (3, 20)',
        'True', 'False',
    ]),
    ('import sys as s', ['s.version_info >= (3, 8)', 's.platform == "win32"',
                         's.version_info < (3, 8)']),
    ('from sys import version_info, platform as p',
     ['version_info >= (3, 8)', 'p == "win32"', 'p != "win32"']),
    ('from .constants import *', ['sys.version_info >= (3, 8)',
                                  'sys.platform == "win32"']),
    ('from .constants import s', ['s.version_info >= (3, 8)',
                                  's.version_info < (3, 8)']),
]


def indent(text):
    return ''.join('    ' + line if line.strip() else line
                   for line in text.splitlines(True))


def conditionals(project):
    project.add(f'{PACKAGE}.constants', 'import sys\ns = sys\n')
    counter = itertools.count()
    bodies = [
        # (what goes to both branches, common tail)
        (lambda t: f'def f(x: {t}) -> {t}: ...\n'
                   f'class C:\n    def __init__(self, x: {t}): ...\n'
                   f'    def m(self, x: {t}): ...\n'
                   f'A = {t}\n'
                   f'class Only{t}: ...\n',
         'def g(x: A) -> A: ...\nclass D(C): ...\n'),
        (lambda t: f'from {PACKAGE}.{"leaf" if t == "X" else "decoy"} '
                   f'import X as I, Outer\n',
         'def g(x: I, y: Outer.Inner, z: Outer.Alias) -> I: ...\n'
         'class D(I): ...\n'),
    ]
    for header, conditions in CONDITIONS:
        for condition in conditions:
            for make, tail in bodies:
                name = f'{PACKAGE}.cond{next(counter)}'
                branches = (f'if {condition}:\n' + indent(make('X'))
                            + 'else:\n' + indent(make('Y')))
                text = f'{header}\nfrom {PACKAGE}.leaf import X, Y\n'
                project.add(name, text + branches + tail)
                yield name
                # in a class
                if 'import X as I' in tail or 'D(I)' in tail:
                    continue
                name = f'{PACKAGE}.cond{next(counter)}'
                project.add(name, text + 'class K:\n' + indent(
                        f'if {condition}:\n'
                        + indent('def f(self, x: X) -> X: ...\n'
                                 'class C:\n'
                                 '    def m(self, x: X): ...\n'
                                 'A = X\n')
                        + 'else:\n'
                        + indent('def f(self, x: Y) -> Y: ...\n'
                                 'class C:\n'
                                 '    def m(self, x: Y): ...\n'
                                 'A = Y\n')
                        + 'def g(self, x: A) -> A: ...\n'
                        + 'def __init__(self, x: A): ...\n')
                            + 'def h(x: K.A): ...\n')
                yield name
    header = f'import sys\nfrom {PACKAGE}.leaf import X, Y, Outer\n'
    tests = ['sys.version_info >= (3, 8)', 'sys.version_info < (3, 8)',
             'sys.platform == "win32"', 'sys.platform == "linux"']
    targets = ['X', 'Y', 'Outer', 'Outer.Inner']
    for first, second in itertools.product(tests, repeat=2):
        definitions = [f'def f(x: {t}): ...\nclass C:\n'
                       f'    def __new__(cls, x: {t}): ...\n'
                       for t in targets]
        name = f'{PACKAGE}.cond{next(counter)}'
        project.add(name, header
                    + f'if {first}:\n' + indent(definitions[0])
                    + f'elif {second}:\n' + indent(definitions[1])
                    + 'else:\n' + indent(definitions[2]))
        yield name
        name = f'{PACKAGE}.cond{next(counter)}'
        project.add(name, header
                    + f'if {first}:\n'
                    + indent(f'if {second}:\n' + indent(definitions[0])
                             + 'else:\n' + indent(definitions[1]))
                    + 'else:\n'
                    + indent(f'if {second}:\n' + indent(definitions[2])
                             + 'else:\n' + indent(definitions[3])))
        yield name
        # definitions overridden by condition or guarded without alternative
        name = f'{PACKAGE}.cond{next(counter)}'
        project.add(name, header
                    + f'if {first}:\n' + indent('from .decoy import X, Y\n')
                    + f'if {second}:\n' + indent('A = X\n')
                    + f'if not ({second}):\n' + indent('A = Y\n')
                    + 'def f(x: A, y: X): ...\n')
        yield name


def scopes(project):
    """Name defined in subsets of nested scopes."""
    counter = itertools.count()
    ways = ['class {n}: ...', '{n} = {d}', 'from .decoy import X as {n}',
            None]
    for name_, imports in (('N', ''), ('int', ''), ('X', ''),
                           ('N', 'from .leaf import X as N\n'),
                           ('N', 'from .three import *\n')):
        for combination in itertools.product(ways, repeat=3):
            lines = [way and way.format(n=name_, d=d) for way, d in
                     zip(combination, ('leaf.X', 'leaf.Y', 'leaf.Outer'))]
            module, outer, inner = lines
            if name_ == 'X' and module is None and False:
                continue
            expressions = [name_]
            # annotations of a scope are looked up in the scope and a module
            at = {'module': bool(module) or bool(imports) or name_ == 'int'}
            at['outer'] = at['module'] or bool(outer)
            at['inner'] = at['module'] or bool(inner)
            names = {scope: [name_] * at[scope] for scope in at}
            for scope in at:
                if outer:
                    names[scope].append(f'Outer.{name_}')
                if inner:
                    names[scope].append(f'Outer.Inner.{name_}')
                    if scope == 'outer':
                        names[scope].append(f'Inner.{name_}')

            def parameters(scope):
                return ''.join(f', p{i}: {e}'
                               for i, e in enumerate(names[scope]))

            text = ('from . import leaf\n' + imports
                    + (module + '\n' if module else '')
                    + f'def f(p{parameters("module")}): ...\n'
                    + 'class Outer:\n'
                    + (f'    {outer}\n' if outer else '')
                    + f'    def m(self{parameters("outer")}): ...\n'
                    + '    class Inner:\n'
                    + (f'        {inner}\n' if inner else '')
                    + f'        def __init__(self{parameters("inner")}): '
                      f'...\n'
                    + f'        def m(self{parameters("inner")}): ...\n'
                    + f'    def n(self{parameters("outer")}): ...\n'
                    + 'class Derived(Outer):\n'
                    + f'    def k(self{parameters("module")}): ...\n'
                    + '    class Inner(Outer.Inner): ...\n'
                    + (f'def g(x: Derived.{name_}): ...\n' if outer else '')
                    + (f'def h(x: Derived.Inner.{name_}): ...\n'
                       if inner else ''))
            name = f'{PACKAGE}.scope{next(counter)}'
            project.add(name, text)
            yield name
    project.add(f'{PACKAGE}.three', 'class N: ...\nclass M: ...\n')
    yield f'{PACKAGE}.three'


ALIASES = [
    'List[X]', 'Dict[X, Y]', 'Union[X, Y]', 'Optional[X]', 'Tuple[X, ...]',
    'Tuple[X, Y]', 'Type[X]', 'Callable[[X], Y]', 'Callable[..., X]',
    'Callable[[], Optional[Y]]', 'X', 'Outer.Inner', 'list[X]',
    'tuple[X, ...]', 'dict[X, list[Y]]', 'type[X]', 'Literal[1, "X", b"", '
    'None, True]', 'Literal["X"]', 'List[X]', 'Union[X, Y, None]',
    'X | Y', 'X | None', 'list[X] | None', 'Union[List[X], Tuple[()]]',
    'Any', 'object', 'Optional[Union[X, int]]', 'Tuple[()]',
    'List[Outer.Inner.Deep]',
]


def aliases(project):
    """Aliases are evaluated in the module defining them."""
    header = LEAF
    for index, expression in enumerate(ALIASES):
        base = f'{PACKAGE}.alias{index}'
        for kind, text in (
                ('a', f'A = {expression}\n'),
                ('t', f'A: TypeAlias = {expression}\n'),
                ('c', f'B = {expression}\nA = B\n'),
                ('k', f'class Holder:\n    B = {expression}\n'
                      f'A = Holder.B\n'),
                ('n', None)):
            if text is None:
                name = base + 'n'
                project.add(name, header + use(expression))
                yield name
                continue
            if '|' in expression and 'None' in expression and False:
                continue
            name = base + kind
            project.add(name, header + text
                        + 'def f(x: A, y: List[A], z: Optional[A]) -> A: '
                          '...\n')
            yield name
            user = name + 'u'
            local = 'class X: ...\nclass Y: ...\nclass Outer: ...\n'
            project.add(user, 'from typing import Dict, Tuple, Union\n'
                        + local
                        + f'from {name} import A\nfrom . import alias{index}'
                          f'{kind} as q\n'
                          'def f(x: A, y: Dict[X, A], z: q.A) -> '
                          'Union[X, A]: ...\n'
                          'class C:\n    from typing import List as X\n'
                          '    def m(self, x: A, y: X[A]) -> q.A: ...\n')
            yield user


def variables(project):
    name = f'{PACKAGE}.variables'
    project.add(name, LEAF + '''
T = TypeVar('T')
B = TypeVar('B', bound=X)
Q = TypeVar('Q', bound=Outer.Inner)
C = TypeVar('C', X, Y)
P = ParamSpec('P')
V = TypeVar('V', covariant=True)
W = TypeVar('W', contravariant=True)
def f(t: T, b: B, c: C) -> Dict[T, List[B]]: ...
def g(t: Callable[P, T]) -> Callable[P, V]: ...
def h(t: W, q: List[C]) -> Union[T, B]: ...
''')
    yield name
    user = f'{PACKAGE}.variables_user'
    project.add(user, f'''
from typing import List, TypeVar
from {name} import T, B as S, P
from . import variables as v
from .variables import *
class X: ...
B = TypeVar('B', bound=X)
def f(t: T, s: S, b: B) -> List[S]: ...
def g(t: v.T, s: v.B, c: C) -> List[v.V]: ...
''')
    yield user


EXPORTS = '''
class Public: ...
class _Private: ...
class Other: ...
class _Listed: ...
'''


def star_rules(project):
    """What is exported by star imports."""
    lists = [None, '__all__ = ["Public"]', '__all__ = ("Public", "_Listed")',
             '__all__ = []\n__all__ += ["Public", "_Listed"]',
             'import sys\n__all__ = ["Public"]\nif sys.version_info >= '
             '(3, 8):\n    __all__ += ["_Listed"]\n',
             '__all__: list[str]\n__all__ = ["Public"]',
             'import sys\nif sys.version_info >= (3, 8):\n'
             '    __all__ = ["Public", "_Listed"]\nelse:\n'
             '    __all__ = ["Other"]\n',
             '__all__ = ["Public"] + ["_Listed"]']
    local = ''.join(f'class {n}: ...\n' for n in
                    ('Public', '_Private', 'Other', '_Listed'))
    for index, all_ in enumerate(lists):
        base = f'{PACKAGE}.star{index}'
        project.add(base, EXPORTS + (all_ or '') + '\n')
        yield base
        for kind, text in () if index > 5 else (
                ('a', local + f'from {base} import *\n'),
                ('b', f'from {base} import *\n' + local),
                ('c', f'from {PACKAGE}.star_decoy import *\n'
                      f'from {PACKAGE}.star_decoy import _Private, _Listed\n'
                      f'from {base} import *\n'),
                ('d', f'from {base} import *\n'
                      f'from {PACKAGE}.star_decoy import *\n'
                      f'from {PACKAGE}.star_decoy import _Private, '
                      f'_Listed\n'),
                ('e', f'from {PACKAGE}.star_decoy import _Private, _Listed, '
                      f'Public\n'
                      f'from {PACKAGE}.star_decoy import Other\n'
                      f'from {base} import *\n')):
            project.add(base + kind, text + 'def f(a: Public, b: _Private, '
                                            'c: Other, d: _Listed): ...\n')
            yield base + kind
        if '_Listed' in (all_ or ''):
            # nothing to be mixed up with
            project.add(base + 'f', f'from {base} import *\n'
                                    f'def f(a: Public, b: _Listed): ...\n')
            project.add(base + 'g', f'from {base}f import Public, _Listed\n'
                                    f'def f(a: Public, b: _Listed): ...\n')
            project.add(base + 'h', f'from . import star{index}f as s\n'
                                    f'def f(a: s.Public, b: s._Listed): '
                                    f'...\n')
            yield from (base + 'f', base + 'g', base + 'h')
    project.add(f'{PACKAGE}.star_decoy', EXPORTS)
    # cyclic imports
    project.add(f'{PACKAGE}.cycle_a', 'class A: ...\nfrom .cycle_b import *\n'
                                      'def f(a: A, b: B, c: Late): ...\n'
                                      'class Late: ...\n')
    project.add(f'{PACKAGE}.cycle_b', 'class B: ...\nfrom . import cycle_a\n'
                                      'def f(a: cycle_a.A, b: B, '
                                      'c: cycle_a.Late): ...\n')
    yield f'{PACKAGE}.cycle_a'
    yield f'{PACKAGE}.cycle_b'


def inheritance(project):
    """Members of classes inherited from other modules."""
    base = f'{PACKAGE}.bases'
    project.add(base, LEAF + '''
class Init:
    def __init__(self, x: X, y: Outer.Inner = ...) -> None: ...
    def m(self, x: X) -> Y: ...
    class Nested:
        def __init__(self, x: Y) -> None: ...
class New:
    def __new__(cls, x: Y) -> New: ...
class Both(Init, New): ...
class Both2(New, Init): ...
class Package:
    Init = Init
''')
    yield base
    shadow, other = f'{PACKAGE}.shadow', f'{PACKAGE}.shadow_other'
    project.add(shadow, LEAF + '''
class list:
    def __init__(self, x: X) -> None: ...
    def append(self, x: Y) -> X: ...
class int(list): ...
class Error:
    def __init__(self, x: X) -> None: ...
Exception = Error
''')
    project.add(other, 'class Other: ...\nclass Outer: ...\n')
    yield shadow
    for index, lines in enumerate((
            f'from {shadow} import *', f'from {shadow} import list, int, '
            'Exception', f'from .shadow import *\nfrom .shadow_other import *',
            'from .shadow_other import *\nfrom .shadow import *',
            'from . import shadow\nlist = shadow.list\nint = shadow.int\n'
            'Exception = shadow.Exception')):
        for wrapper in ('{}', 'class W:\n{}'):
            name = f'{PACKAGE}.shadow{index}{"nw"[wrapper == "{}"]}'
            body = ('class S(list): ...\nclass R(int): ...\n'
                    'class E(Exception): ...\n'
                    'def f(x: list, y: int, z: Exception): ...\n')
            project.add(name, lines + '\n' + (
                body if wrapper == '{}' else wrapper.format(indent(body))))
            yield name
    counter = itertools.count()
    for mechanism in MECHANISMS:
        for path in (('Init',), ('New',), ('Both',), ('Both2',),
                     ('Init', 'Nested'), ('Package', 'Init')):
            if mechanism in (version_conditional, platform_conditional,
                             star_then_import, two_stars):
                continue
            lines, result = mechanism(1, Exported(base, path))
            name = f'{PACKAGE}.inh{next(counter)}'
            project.add(name, f'{lines}\nclass Y: ...\nclass Outer: ...\n'
                              f'class X: ...\n'
                              f'class S({dotted(*result)}): ...\n'
                              f'class R(S):\n    class Y: ...\n'
                              f'class H:\n'
                              f'    class Nested({dotted(*result)}): ...\n')
            yield name


GENERIC_BASE = LEAF + '''
T = TypeVar('T')
U = TypeVar('U')
class Root(Generic[T]):
    class Nested:
        class Deep:
            def __init__(self, x: X) -> None: ...
        def m(self, x: X, y: Y) -> Outer.Inner: ...
        def __init__(self, x: Y) -> None: ...
    class Second(Nested): ...
    Alias = X
    Chained = Nested
    def __init__(self, x: X, y: Outer.Inner = ...) -> None: ...
class Middle(Root[U], Generic[U, T]):
    class Other:
        def __init__(self, x: X) -> None: ...
    Chosen = Y
'''


def generic_members(project):
    """Members reached through classes derived from specialized generics."""
    base = f'{PACKAGE}.generic_base'
    project.add(base, GENERIC_BASE)
    yield base
    counter = itertools.count()
    for bases in (('Root[int]',), ('Root[X]',), ('Root[T]', 'Generic[T]'),
                  ('Middle[int, str]',), ('Middle[T, int]',),
                  ('Middle[X, Y]', 'Mixin'), ('Mixin', 'Root[int]'),
                  ('Root',), ('Middle',)):
        for mechanism in ('from .generic_base import Middle, Root',
                          'from .generic_base import *',
                          'from . import generic_base as gb\n'
                          'Root = gb.Root\nMiddle = gb.Middle'):
            for wrapper in ('{}', 'class W:\n{}'):
                prefix = '' if wrapper == '{}' else 'W.'
                middle = 'Middle' in bases[0]
                members = [f'{prefix}{cls}.{path}'
                           for cls in ('D', 'E')
                           for path in ('Nested', 'Nested.Deep', 'Second',
                                        'Alias', 'Chained', 'Chained.Deep')
                           + (('Other', 'Chosen') if middle else ())]
                classes = ''.join(f'class {cls}({bases_}): ...\n'
                                  for cls, bases_ in (
                                      ('D', ', '.join(bases)), ('E', 'D')))
                uses = ''.join(
                        f'N{index} = {member}\n'
                        f'class B{index}({member}): ...\n'
                        f'class C{index}(N{index}): ...\n'
                        f'def f{index}(x: {member}, y: N{index}): ...\n'
                        for index, member in enumerate(members))
                name = f'{PACKAGE}.gen{next(counter)}'
                project.add(name, f"from typing import TypeVar, Generic\n"
                                  f"{mechanism}\nT = TypeVar('T')\n"
                                  'class Mixin: ...\nclass X: ...\n'
                                  'class Y: ...\nclass Nested: ...\n'
                                  'class Other: ...\n'
                            + wrapper.format(classes if wrapper == '{}'
                                             else indent(classes)) + uses)
                yield name


def packages(project):
    """Packages importing their own modules and names from them."""
    sub = LEAF + '''
class Init:
    def __init__(self, x: X) -> None: ...
    def m(self, y: Y) -> X: ...
'''
    counter = itertools.count()
    for lines, path in (
            ('from . import sub', 'sub'), ('from . import sub as ss', 'ss'),
            ('from . import sub as sub', 'sub'),
            ('from {p} import sub', 'sub'), ('from {p} import sub as ss', 'ss'),
            ('from {p} import sub as sub', 'sub'),
            ('import {p}.sub', '{p}.sub'), ('import {p}.sub as ss', 'ss'),
            ('from . import deep\nfrom .deep import sub as ss', 'deep.sub'),
            ('from .deep import sub', 'sub'),
            ('from . import deep', 'deep.sub'),
            ('from {p}.deep import sub as ss', 'ss'),
            ('import {p}.deep.sub as ss', 'ss'),
            ('from .sub import X, Outer, Init', ''),
            ('from {p}.sub import *', ''), ('from .sub import *', '')):
        for exporting in ('', 'Y = {e}.Y\n', 'class Y: ...\n',
                          '__all__ = ["Init", "X", "C", "A", "sub"]\n'):
            package = f'{PACKAGE}.pack{next(counter)}'
            imports = lines.format(p=package)
            inner = 'deep' in lines
            place = f'{package}.deep' if inner else package
            prefix = path.format(p=package)
            prefix = f'{prefix}.' if prefix else ''
            if ('{e}' in exporting and not prefix
                    or '__all__' in exporting and (prefix != 'sub.' or inner)):
                continue
            body = (f'{imports}\n' + use(f'{prefix}Outer.Inner')
                    # cannot be used while the package is being imported
                    if prefix.startswith(PACKAGE) else
                    f'{imports}\n'
                    + exporting.format(e=prefix.rstrip('.'))
                    + f'A = {prefix}X\n'
                    + ('' if not prefix else
                       f'Init = {prefix}Init\nX = {prefix}X\n')
                    + f'class C({prefix}Init):\n'
                      f'    def n(self, x: {prefix}X) -> A: ...\n'
                      f'class D(Init): ...\n'
                    + use(f'{prefix}Outer.Inner'))
            project.add(package, body, package=True)
            if inner:
                project.add(place, 'from . import sub\n', package=True)
            project.add(f'{place}.sub', sub)
            yield package
            if prefix.startswith(PACKAGE):
                continue
            name = f'{package}.near'
            project.add(name, 'from . import A, C as B\n'
                        + ('from . import deep\n' if inner else
                           'from . import sub\n')
                        + 'class E(B): ...\n'
                        + use('deep.sub.X' if inner else 'sub.Outer.Alias')
                        + 'def k(x: A) -> B: ...\n')
            yield name
            name = f'{package}_far'
            module = f'{package}.deep.sub' if inner else f'{package}.sub'
            project.add(name, f'import {package}\nimport {module}\n'
                        + f'class E({package}.C): ...\n'
                        + f'class F({module}.Init): ...\n'
                        + use(f'{module}.X')
                        + f'def k(x: {package}.A, y: {package}.{prefix}X) '
                          f'-> {package}.Init: ...\n')
            yield name
            if '__all__' in exporting:
                name = f'{package}_star'
                project.add(name, f'from {package} import *\n'
                            'class E(C): ...\nclass F(sub.Init): ...\n'
                            + use('sub.X')
                            + 'def k(x: A, y: X) -> Init: ...\n')
                yield name


def projects(tier):
    project = synthetic.Project()
    project.add(PACKAGE, '', package=True)
    project.add(f'{PACKAGE}.sub', '', package=True)
    project.add(f'{PACKAGE}.leaf', LEAF)
    project.add(f'{PACKAGE}.decoy', DECOY)
    names = []
    for group, items in (
            ('chains', chains(project, 2 if tier == 'quick' else 3)),
            ('conditionals', conditionals(project)),
            ('scopes', scopes(project)),
            ('aliases', aliases(project)),
            ('variables', variables(project)),
            ('star imports', star_rules(project)),
            ('inheritance', inheritance(project)),
            ('generic members', generic_members(project)),
            ('packages', packages(project))):
        names += [(group, name) for name in items]
    twins = []
    for name, (text, stub, package) in list(project.modules.items()):
        if name.startswith((f'{PACKAGE}.cond', f'{PACKAGE}.const')):
            continue
        text = text.replace(PACKAGE, TWIN)
        project.add(name.replace(PACKAGE, TWIN), synthetic.stripped(text),
                    stub=text, package=package)
    names += [(group + ' (stubs only)', name) for group, name in names
              if group in ('chains', 'aliases', 'variables', 'star imports',
                           'scopes', 'inheritance', 'generic members',
                           'packages')]
    return project, names


def prepare(context):
    project, names = projects(context.tier)
    context.extra = project.write(context.scratch)
    (context.scratch / 'names.json').write_text(json.dumps(names))
    target.build(context.target, seed=context.seed,
                 extra_paths=context.extra)


def extra_paths(context):
    return context.extra


def shards(tier):
    return [[part, PARTS] for part in range(PARTS)]


def run(shard, report, spec):
    import importlib
    import pathlib
    from vlib import reference, runtime_model
    import paradigm.base as base
    reference.PACKAGES.update([PACKAGE, TWIN])
    part, parts = shard
    names = json.loads((pathlib.Path(spec['scratch'])
                        / 'names.json').read_text())
    for group, name in names[part::parts]:
        module = importlib.import_module(name)
        report.state(name)
        members = {path: (value, owner)
                   for path, value, owner in runtime_model.members(module)}
        for path, (value, owner) in members.items():
            report.count('transitions')
            key = f'{name}:{path}'
            if group.endswith('(stubs only)'):
                key = key.replace(PACKAGE, TWIN)
                twin = importlib.import_module(name.replace(PACKAGE, TWIN))
                value = runtime_model.find(twin, path)
                difference = runtime_model.difference(
                        value, owner, module, base,
                        runtime_model.expected(*members[path]),
                        rename=(PACKAGE, TWIN))
            else:
                difference = runtime_model.difference(value, owner, module,
                                                      base)
            report.count('traces')
            if difference is None:
                report.outcome(group)
                report.sample(f'{key}: {base.signature_from_callable(value)}')
            elif not report.violation(
                    key, f'{key}: {difference}; source is\n'
                         f'{pathlib.Path(module.__file__).read_text()}',
                    {'callable': key}):
                return
