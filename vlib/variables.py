"""Synthetic stubs describing functions as variables."""
import itertools

PACKAGE = 'vvar'
HEADER = '''
import sys
import typing as t
import typing
import collections.abc as cabc
from collections.abc import Callable as Function
from typing import (Any, Callable, Dict, List, Optional, Protocol, TypeVar,
                    Union, overload)
class X: ...
class Y: ...
T = TypeVar('T')
B = TypeVar('B', bound=Callable[[X], Y])
F = TypeVar('F', bound=Callable[..., Any])
V = TypeVar('V', Callable[[X], Y], Callable[[Y, X], None])
class Called:
    def __init__(self, z: int) -> None: ...
    def __call__(self, x: X, *args: Y, y: str = ..., **k: X) -> List[Y]: ...
class OverloadedCalled:
    @overload
    def __call__(self, x: X) -> Y: ...
    @overload
    def __call__(self, x: Y, z: int = 1) -> X: ...
class Proto(Protocol):
    def __call__(self, x: X) -> Y: ...
class Outer:
    class Inner:
        def __call__(self, *, x: X) -> Y: ...
CB = Callable[[X, int], Y]
CC = Callable[..., X]
'''
RUNTIME = '''
class X: ...
class Y: ...
'''
R, VP, KO, VK, PO = 'r', 2, 3, 4, 0
ARGUMENTS = ['X', 'int', 'List[X]', 'Optional[Y]', 'Callable[[X], Y]',
             'Any', 'Dict[str, X]', 'Callable[..., X]', 'None']
RETURNS = ['Y', 'None', 'Any', 'List[X]', 'Callable[[X], Y]', 'X | None']
SPELLINGS = ['Callable', 't.Callable', 'typing.Callable', 'cabc.Callable',
             'Function']
ANY = [(VP, 'o', 'Any'), (VK, 'o', 'Any')]


def positionals(*arguments):
    return [(PO, 'r', argument) for argument in arguments]


def types(tier):
    """(annotation, alternatives), where an alternative consists of
    parameters (without names) and returned annotation."""
    for returns in RETURNS:
        yield f'Callable[..., {returns}]', [(ANY, returns)]
        yield f'Callable[[], {returns}]', [([], returns)]
    for size in (1, 2, 3):
        for number, arguments in enumerate(
                itertools.product(ARGUMENTS, repeat=size)):
            if size == 3 and number % (19 if tier == 'quick' else 1):
                continue
            returns = RETURNS[number % len(RETURNS)]
            spelling = SPELLINGS[number % len(SPELLINGS)]
            yield (f'{spelling}[[{", ".join(arguments)}], {returns}]',
                   [(positionals(*arguments), returns)])
    for spelling in SPELLINGS:
        yield f'{spelling}[..., X]', [(ANY, 'X')]
        yield f'{spelling}[[X], Y]', [(positionals('X'), 'Y')]
    called = [(PO, 'r', 'X'), (VP, 'o', 'Y'), (KO, 'o', 'str'),
              (VK, 'o', 'X')], 'List[Y]'
    simple = positionals('X'), 'Y'
    yield from [
        ('Called', [called]),
        ('OverloadedCalled', [simple, ([(PO, 'r', 'Y'), (PO, 'd', 'int')],
                                       'X')]),
        ('Proto', [simple]),
        ('Outer.Inner', [([(KO, 'r', 'X')], 'Y')]),
        ('CB', [(positionals('X', 'int'), 'Y')]),
        ('CC', [(ANY, 'X')]),
        ('B', [simple]),
        ('F', [(ANY, 'Any')]),
        ('V', [simple, (positionals('Y', 'X'), 'None')]),
    ]


FORMS = ['{name}: {item}', '{name}: {item} = ...', '{name} = {item}',
         '{name}_: {item}\n{name} = {name}_',
         'if sys.version_info >= (3,):\n    {name}: {item}\n'
         'else:\n    {name}: Callable[[int, int], None]',
         'class Owner_{name}:\n    {name}: {item}\n'
         '{name} = Owner_{name}.{name}']
CLASSES = ('Called', 'OverloadedCalled', 'Proto', 'Outer.Inner')
KINDS = {PO: 'POSITIONAL_ONLY', 1: 'POSITIONAL_OR_KEYWORD',
         VP: 'VARIADIC_POSITIONAL', KO: 'KEYWORD_ONLY',
         VK: 'VARIADIC_KEYWORD'}


def variables(tier):
    """Yields module's name, variable's name, its definition in the stub and
    alternatives."""
    for number, form in enumerate(FORMS):
        for index, (item, alternatives) in enumerate(types(tier)):
            if form == '{name} = {item}' and item in CLASSES:
                # other name of the class, not an object of it
                continue
            name = f'f{index}'
            yield (f'{PACKAGE}.m{number}', name,
                   form.format(name=name, item=item), alternatives)


def add_to(project, tier):
    stubs, runtimes = {}, {}
    for module, name, definition, _ in variables(tier):
        stubs[module] = stubs.get(module, HEADER) + definition + '\n'
        runtimes[module] = (runtimes.get(module, RUNTIME)
                            + f'def {name}(a, b=1, *, c=2): ...\n')
    for module, stub in stubs.items():
        project.add(module, runtimes[module], stub=stub)


def parameters_difference(alternatives, signature, base):
    actual = alternatives_of(signature, base)
    if len(actual) != len(alternatives):
        return f'{len(alternatives)} alternatives expected'
    for alternative, (parameters, _) in zip(actual, alternatives):
        if len(alternative.parameters) != len(parameters):
            return f'{len(parameters)} parameters expected'
        if len({parameter.name for parameter in alternative.parameters}) != (
                len(parameters)
        ):
            return 'names of parameters are not unique'
        for index, (parameter, (kind, opt, _)) in enumerate(
                zip(alternative.parameters, parameters)
        ):
            if parameter.kind.name != KINDS[kind]:
                return f'kind of parameter {index} is wrong'
            if isinstance(parameter, base.RequiredParameter) != (opt == 'r'):
                return f'optionality of parameter {index} is wrong'
            if opt != 'r' and parameter.has_default != (opt == 'd'):
                return f'presence of default of parameter {index} is wrong'
    return None


def annotations(module, alternatives, signature, base):
    """Yields texts of annotations, what they mean and what they are."""
    namespace = {}
    exec(HEADER, namespace)
    namespace.update(vars(module))
    for alternative, (parameters, returns) in zip(
            alternatives_of(signature, base), alternatives
    ):
        for parameter, (_, _, text) in zip(alternative.parameters,
                                           parameters):
            yield text, eval(text, namespace), parameter.annotation
        yield returns, eval(returns, namespace), alternative.returns


def alternatives_of(signature, base):
    return (list(signature.signatures)
            if isinstance(signature, base.OverloadedSignature)
            else [signature])
