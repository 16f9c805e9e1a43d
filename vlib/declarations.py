"""Synthetic stubs with all forms of parameter lists of definitions, the
runtime modules having nothing in common with them but names."""
import itertools
import typing as t

from . import shapes

PACKAGE = 'vdcl'
DEFAULTS = ('None', '-1', '"text"', 'b"bytes"', '1.5', 'True', '()', 'LIMIT',
            'sub.LIMIT', '+2', '(1, "a")', '{"a": 1}', '[1]')
HEADER = '''
import sys
from abc import ABCMeta, abstractmethod
from typing import Any, Generic, TypeVar, final, overload
from typing_extensions import deprecated, override
from . import sub
LIMIT = 10
T = TypeVar('T')
'''
DECORATORS = ('', '@final\n', '@deprecated("no")\n', '@override\n',
              '@abstractmethod\n', '@abstractmethod\n@deprecated("no")\n')
CONDITIONS = ('sys.version_info >= (3, 0)', 'sys.platform == "unknown"',
              'sys.version_info >= (3, 0) and sys.platform != "unknown"')
FORMS = ('function', 'method', 'async', 'class', 'static', 'initializer',
         'constructor')


class Definition:
    def __init__(self, form, alternatives, *, offset=0, decorator=0,
                 annotated=False, condition=None):
        (self.form, self.alternatives, self.offset, self.decorator,
         self.annotated, self.condition) = (form, alternatives, offset,
                                            decorator, annotated, condition)

    def default_of(self, parameter):
        if parameter.opt == 'o':
            return '...'
        return DEFAULTS[(self.offset + shapes.NAMES.index(parameter.name))
                        % len(DEFAULTS)]

    def stub(self, name):
        first = {'function': '', 'static': '', 'class': 'cls',
                 'constructor': 'cls'}.get(self.form, 'self')
        lines = []
        for index, shape in enumerate(self.alternatives):
            header = shapes.header(
                    shape, default_of=self.default_of,
                    annotate=(lambda parameter: 'int')
                    if self.annotated else None)
            text = ', '.join(filter(None, [first, header]))
            if header.startswith('/') or (first and header.startswith('/')):
                raise AssertionError(header)
            decorators = DECORATORS[self.decorator]
            if self.form == 'class':
                decorators = '@classmethod\n' + decorators
            elif self.form == 'static':
                decorators += '@staticmethod\n'
            if len(self.alternatives) > 1:
                decorators = '@overload\n' + decorators
            definition = (f'{decorators}'
                          f'{"async " if self.form == "async" else ""}'
                          f'def {name}({text})'
                          + (' -> int' if self.annotated else '')
                          + ': ...\n')
            if self.condition is not None and index % 2 == 1:
                condition, negated = self.condition
                other = f'def {name}(other) -> None: ...\n'
                branches = [definition, other]
                if negated:
                    branches.reverse()
                definition = (f'if {CONDITIONS[condition]}:\n'
                              + _indent(branches[0]) + 'else:\n'
                              + _indent(branches[1]))
            lines.append(definition)
        return ''.join(lines)

    def runtime(self, name):
        decorators = {'class': '@classmethod\n',
                      'static': '@staticmethod\n'}.get(self.form, '')
        return f'{decorators}def {name}(*unknown): ...\n'

    def expected(self, first=None):
        return [([(first, 0, 'r', None)] if first is not None else [])
                + [(p.name,
                    shapes.PO if p.kind == shapes.PK else p.kind,
                    p.opt, self.default_of(p) if p.opt == 'd' else None)
                   for p in shape]
                for shape in self.alternatives]


def _indent(text):
    return ''.join('    ' + line for line in text.splitlines(True))


def definitions(tier):
    quick = tier == 'quick'
    three = list(shapes.gen_shapes(3, opts='rdo'))
    two = list(shapes.gen_shapes(2, opts='rdo'))
    one = list(shapes.gen_shapes(1, opts='rd'))
    for index, shape in enumerate(three):
        yield Definition('function', [shape], offset=index)
    for form in FORMS[1:]:
        for index, shape in enumerate(two if quick else three):
            yield Definition(form, [shape], offset=index)
    for offset in range(len(DEFAULTS)):
        for shape in one:
            yield Definition('function', [shape], offset=offset,
                             annotated=True)
    for form in FORMS:
        for decorator in range(1, len(DECORATORS)):
            for shape in one:
                yield Definition(form, [shape], decorator=decorator)
    overloaded = list(shapes.gen_shapes(1, opts='rd' if quick else 'rdo'))
    for form in FORMS:
        if form == 'async':
            continue
        for pair in itertools.product(overloaded, repeat=2):
            if quick and form not in ('function', 'class', 'initializer') \
                    and pair[0] == pair[1]:
                continue
            yield Definition(form, pair)
    plain = [shape for shape in one if len(shape) <= 1]
    for triple in itertools.product(plain, repeat=3):
        yield Definition('function', triple)
        yield Definition('method', triple)
    for form in FORMS:
        if form == 'async':
            continue
        for pair in itertools.product(plain, repeat=2):
            for decorator in range(1, len(DECORATORS)):
                yield Definition(form, pair, decorator=decorator)
            for condition in range(len(CONDITIONS)):
                yield Definition(form, pair,
                                 condition=(condition, condition == 1))


def modules(tier, size=200):
    """Yields (name of the module, stub, runtime, definitions)."""
    iterator = iter(definitions(tier))
    for number in itertools.count():
        portion = list(itertools.islice(iterator, size))
        if not portion:
            break
        stub, runtime = [HEADER], ['class T: ...\nLIMIT = 10\n']
        for index, definition in enumerate(portion):
            if definition.form == 'function':
                stub.append(definition.stub(f'f{index}'))
                runtime.append(definition.runtime(f'f{index}'))
            else:
                name = {'initializer': '__init__',
                        'constructor': '__new__'}.get(definition.form, 'm')
                for parts, text in ((stub, definition.stub(name)),
                                    (runtime, definition.runtime(name))):
                    parts.append(f'class C{index}:\n' + _indent(text))
        yield (f'{PACKAGE}.m{number}', ''.join(stub), ''.join(runtime),
               portion)


def add_to(project, tier):
    project.add(PACKAGE, '', package=True)
    project.add(f'{PACKAGE}.sub', 'LIMIT = 20\n')
    for name, stub, runtime, _ in modules(tier):
        project.add(name, runtime, stub=stub)


def accesses(module, index, definition) -> t.Iterable[t.Tuple]:
    """Yields (description, callable, name of the first parameter if it is
    still there)."""
    if definition.form == 'function':
        yield f'f{index}', getattr(module, f'f{index}'), None
        return
    cls = getattr(module, f'C{index}')
    name = f'C{index}'
    if definition.form in ('initializer', 'constructor'):
        yield name, cls, None
        if definition.form == 'initializer':
            yield f'{name}.__init__', cls.__init__, 'self'
            return
        yield f'{name}.__new__', cls.__new__, 'cls'
        return
    instance = cls()
    yield (f'{name}.m', cls.m,
           'self' if definition.form in ('method', 'async') else None)
    yield f'{name}().m', instance.m, None

    class Derived(cls):
        pass

    yield (f'Derived({name}).m', Derived.m,
           'self' if definition.form in ('method', 'async') else None)
    yield f'Derived({name})().m', Derived().m, None


def difference(definition, first, signature, base, module):
    alternatives = (list(signature.signatures)
                    if isinstance(signature, base.OverloadedSignature)
                    else [signature])
    expected = definition.expected(first)
    if len(alternatives) != len(expected):
        return f'{len(expected)} alternatives expected'
    for alternative, parameters in zip(alternatives, expected):
        if len(alternative.parameters) != len(parameters):
            return f'{len(parameters)} parameters expected'
        for parameter, (name, kind, opt, default) in zip(
                alternative.parameters, parameters
        ):
            if parameter.name != name:
                return f'parameter "{name}" expected'
            if parameter.kind.name != shapes.KINDS_NAMES[kind]:
                return f'kind of "{name}" is wrong'
            if isinstance(parameter,
                          base.RequiredParameter) != (opt == 'r'):
                return f'optionality of "{name}" is wrong'
            if opt == 'r':
                continue
            if parameter.has_default != (default is not None):
                return f'presence of default of "{name}" is wrong'
            if default is not None:
                value = eval(default, vars(module))
                if (type(parameter.default) is not type(value)
                        or parameter.default != value):
                    return f'default of "{name}" is not {default}'
    return None
