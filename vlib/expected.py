"""Expected signatures of standard library callables according to stubs."""
import ast
import importlib
import inspect
import sys
import types
import typing
import warnings

import typing_extensions

from . import reference
from .reference import MISSING, NotFound, Unknown

# importing has side effects or needs a display
UNSUPPORTED = ('antigravity', 'idlelib', 'lib2to3.pgen2.conv', 'this',
               'tkinter', 'turtle', 'turtledemo', 'test', 'crypt')


def module_names():
    """Names of importable standard library modules, sorted."""
    from . import typeshed
    names = {name for name, _, _ in typeshed.modules()}
    names |= set(sys.stdlib_module_names)
    return sorted(name for name in names
                  if not any(name == skipped
                             or name.startswith(skipped + '.')
                             for skipped in UNSUPPORTED)
                  and not name.endswith('__main__'))


def import_modules():
    result = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for name in module_names():
            try:
                result.append(importlib.import_module(name))
            except BaseException:
                pass
    return result


class Index:
    """Where in the modules every object can be found."""

    def __init__(self, modules):
        self.paths = {}
        self.functions_paths = {}
        self.objects = {}
        self.callables = []
        self.seen = set()
        for module in modules:
            self._walk(module, module.__spec__.name if module.__spec__
                       else module.__name__, (), ())

    def _add(self, value, module_name, path):
        self.objects[id(value)] = value
        locations = self.paths.setdefault(id(value), [])
        if (module_name, path) not in locations:
            locations.append((module_name, path))

    def _add_function(self, value, module_name, path):
        # function of a class method
        self.objects[id(value)] = value
        locations = self.functions_paths.setdefault(id(value), [])
        if (module_name, path) not in locations:
            locations.append((module_name, path))

    def _walk(self, namespace, module_name, path, outer):
        for name, raw in sorted(vars(namespace).items(),
                                key=lambda item: str(item[0])):
            if not isinstance(name, str):
                continue
            here = path + (name,)
            self._add(raw, module_name, here)
            if isinstance(raw, classmethod):
                self._add_function(raw.__func__, module_name, here)
            elif isinstance(raw, staticmethod):
                self._add(raw.__func__, module_name, here)
            values = [raw]
            if isinstance(namespace, type):
                try:
                    values.append(getattr(namespace, name))
                except Exception:
                    pass
            for value in values:
                if not callable(value):
                    continue
                if isinstance(value, type):
                    if value in outer:
                        continue
                    if id(value) not in self.seen:
                        self.seen.add(id(value))
                        self.callables.append((module_name, here, value))
                        self.objects[id(value)] = value
                    if len(here) < 5 and value is raw:
                        self._walk(value, module_name, here,
                                   (*outer, value))
                elif id(value) not in self.seen:
                    self.seen.add(id(value))
                    # keeps alive, otherwise identity may be reused
                    self.objects[id(value)] = value
                    self.callables.append((module_name, here, value))


class Spec:
    """Expected plain signature."""

    def __init__(self, parameters, returns, scope, where, substitution,
                 kind='function', constructor=None):
        self.parameters, self.returns = parameters, returns
        self.scope, self.where = scope, where
        self.substitution, self.kind = substitution, kind
        self.constructor = constructor

    def without_first(self):
        if not self.parameters:
            raise Unknown(f'no first parameter {self.where}')
        if self.parameters[0].kind == 'variadic':
            return self
        if self.parameters[0].kind != 'positional':
            raise Unknown(f'no first parameter {self.where}')
        return Spec(self.parameters[1:], self.returns, self.scope, self.where,
                    self.substitution, self.kind, self.constructor)

    def __repr__(self):
        return f'({", ".join(map(repr, self.parameters))}) of {self.where}'


class Parameter:
    def __init__(self, name, kind, default, annotation, scope, implicit=False):
        self.name, self.kind, self.default = name, kind, default
        self.annotation, self.scope = annotation, scope
        self.implicit = implicit

    def __repr__(self):
        prefix = {'positional': '', 'variadic': '*', 'keyword': 'kw:',
                  'variadic keyword': '**'}[self.kind]
        return (prefix + str(self.name)
                + ('' if self.default is MISSING
                   else '=' + ast.unparse(self.default)))


class Model:
    def __init__(self, stubs):
        self.stubs = stubs
        self.evaluator = reference.Evaluator(stubs)

    def function_spec(self, node, scope, *, substitution, kind):
        arguments = node.args
        positional = arguments.posonlyargs + arguments.args
        defaults = ([MISSING] * (len(positional) - len(arguments.defaults))
                    + arguments.defaults)
        parameters = [Parameter(a.arg, 'positional', d, a.annotation, scope)
                      for a, d in zip(positional, defaults)]
        if arguments.vararg is not None:
            a = arguments.vararg
            parameters.append(Parameter(a.arg, 'variadic', MISSING,
                                        a.annotation, scope))
        for a, d in zip(arguments.kwonlyargs, arguments.kw_defaults):
            parameters.append(Parameter(a.arg, 'keyword',
                                        MISSING if d is None else d,
                                        a.annotation, scope))
        if arguments.kwarg is not None:
            a = arguments.kwarg
            parameters.append(Parameter(a.arg, 'variadic keyword', MISSING,
                                        a.annotation, scope))
        if kind in ('method', 'class method') and parameters:
            parameters[0].implicit = kind
        return Spec(parameters, node.returns, scope,
                    f'{scope!r}:{node.name}:{node.lineno}', substitution,
                    kind)

    def method_kind(self, node, scope):
        if not scope.path:
            return 'function'
        for decorator in node.decorator_list:
            try:
                found = self.stubs.resolve(decorator, scope)
            except Unknown:
                continue
            if found.key == ('builtins', ('staticmethod',)):
                return 'static method'
            elif found.key == ('builtins', ('classmethod',)):
                return 'class method'
        return 'method'

    def callable_specs(self, definition):
        """Specs of object with given definition."""
        if definition.kind == 'functions':
            return [self.function_spec(node, definition.scope,
                                       substitution=definition.substitution,
                                       kind=self.method_kind(
                                               node, definition.scope))
                    for node in definition.nodes]
        elif definition.kind == 'class':
            return self.class_specs(definition)
        elif definition.kind == 'named tuple':
            return [self.named_tuple_spec(definition)]
        elif definition.kind == 'value':
            node, = definition.nodes
            expression = node.value if node.value is not None else (
                node.annotation)
            return self.expression_specs(
                    expression, definition.scope,
                    is_value=node.value is not None)
        raise Unknown(repr(definition))

    def expression_specs(self, node, scope, *, is_value):
        if isinstance(node, ast.Subscript):
            found = self.stubs.resolve(node.value, scope)
            if found.key in (('typing', ('Callable',)),):
                arguments, returns = node.slice.elts
                if isinstance(arguments, ast.List):
                    parameters = [Parameter(None, 'positional', MISSING,
                                            element, scope)
                                  for element in arguments.elts]
                else:
                    parameters = [Parameter(None, 'variadic', MISSING, None,
                                            scope),
                                  Parameter(None, 'variadic keyword',
                                            MISSING, None, scope)]
                return [Spec(parameters, returns, scope,
                             f'{scope!r}:{ast.unparse(node)}', {})]
        elif isinstance(node, (ast.Name, ast.Attribute)):
            found = self.stubs.resolve(node, scope)
            if found.kind == 'class' and not is_value:
                call = self.stubs.attribute(found, '__call__')
                return [spec.without_first()
                        for spec in self.callable_specs(call)]
        raise Unknown(f'{scope!r}:{ast.unparse(node)}')

    # constructors

    def class_specs(self, definition):
        for cls in self.stubs.linearize(definition):
            for name in ('__init__', '__new__'):
                found = self.stubs.bound(cls.body, name)
                if (found is None and name == '__new__'
                        and self.stubs.is_named_tuple(cls)):
                    found = self.stubs.attribute(cls, name)
                if found is None:
                    continue
                if cls is not definition:
                    found = found.inherit(
                            self.stubs.substitutions(definition)[cls.key])
                specs = [spec.without_first()
                         for spec in self.callable_specs(found)]
                for spec in specs:
                    spec.constructor = name
                return specs
        raise Unknown(repr(definition))

    def named_tuple_spec(self, definition):
        parameters = [Parameter('cls', 'positional', MISSING, None,
                                definition.scope, 'method')]
        for name, binding in definition.body.bindings:
            if binding[0] == 'value' and isinstance(binding[1],
                                                    ast.AnnAssign):
                node = binding[1]
                parameters.append(Parameter(
                        name, 'positional',
                        MISSING if node.value is None else node.value,
                        node.annotation, definition.body))
        return Spec(parameters, ast.Name(definition.name, ast.Load()),
                    definition.scope, repr(definition),
                    definition.substitution, 'method')


def flatten(signature):
    return getattr(signature, 'signatures', None) or [signature]


KINDS = {0: 'positional', 1: 'positional', 2: 'variadic', 3: 'keyword',
         4: 'variadic keyword'}


def shape_difference(model, spec, signature, base):
    """What is different between parameters or None."""
    parameters = list(signature.parameters)
    if len(parameters) != len(spec.parameters):
        return (f'{len(parameters)} parameters instead of '
                f'{len(spec.parameters)}')
    for actual, expected in zip(parameters, spec.parameters):
        if expected.name is not None and actual.name != expected.name:
            return f'name {actual.name} instead of {expected.name}'
        if KINDS[int(actual.kind)] != expected.kind:
            return f'kind {actual.kind!r} instead of {expected.kind}'
        if expected.kind == 'positional' and int(actual.kind) != 0:
            return f'kind {actual.kind!r} instead of positional only'
        variadic = expected.kind.startswith('variadic')
        optional = variadic or expected.default is not MISSING
        if isinstance(actual, base.OptionalParameter) is not optional:
            return (f'{actual.name} should be '
                    f'{"optional" if optional else "required"}')
        if optional and not variadic:
            try:
                default = model.evaluator.evaluate(expected.default,
                                                   expected.scope)
            except Unknown:
                continue
            if actual.has_default is not (default is not Ellipsis):
                return (f'{actual.name}: has_default is '
                        f'{actual.has_default}, but default is '
                        f'{ast.unparse(expected.default)}')
            if actual.has_default and not (
                    type(actual.default) is type(default)
                    and actual.default == default):
                return (f'{actual.name}: default {actual.default!r} instead '
                        f'of {default!r}')
    return None


def annotation_difference(model, spec, signature):
    pairs = []
    for actual, expected in zip(signature.parameters, spec.parameters):
        if expected.implicit:
            continue
        pairs.append((actual.name, actual.annotation, expected.annotation,
                      expected.scope))
    if spec.constructor == '__init__':
        if signature.returns is not typing_extensions.Self:
            return f'returns {signature.returns!r} instead of Self'
    else:
        pairs.append(('return', signature.returns, spec.returns, spec.scope))
    for name, actual, node, scope in pairs:
        expected = (typing.Any if node is None
                    else model.evaluator.evaluate(node, scope,
                                                  spec.substitution))
        actual_tree, expected_tree = (reference.canonical(actual),
                                      reference.canonical(expected))
        if actual_tree != expected_tree:
            return (f'annotation of {name} is {actual!r} instead of '
                    f'{expected!r} '
                    f'({"-" if node is None else ast.unparse(node)} in '
                    f'{scope!r})')
    return None


# verdicts


class Case:
    """Value with everything its signature may be according to the model."""

    def __init__(self, value, where):
        self.value, self.where = value, where
        # alternatives for the whole signature: lists of specs
        self.specs = []
        self.interpreted = False
        self.skipped = None
        self.level = None

    @property
    def key(self):
        return f'{self.where[0]}:{".".join(self.where[1])}'

    @property
    def identity(self):
        """Same for all locations of the value."""
        value = self.value
        if isinstance(value, types.MethodType) and isinstance(
                value.__self__, type):
            cls = value.__self__
            return f'{cls.__module__}:{cls.__qualname__}.{value.__name__}'
        if isinstance(value, types.MethodWrapperType):
            value = getattr(value.__objclass__, value.__name__)
        module, path = Oracle.own_location(value)
        return f'{module}:{".".join(path)}'


class Oracle:
    def __init__(self):
        self.modules = import_modules()
        self.index = Index(self.modules)
        self.stubs = reference.Stubs.standard()
        self.model = Model(self.stubs)

    def supported(self, module_name):
        return (module_name.split('.')[0] in sys.stdlib_module_names
                and module_name in self.stubs.files)

    def cases(self, part=0, parts=1):
        callables = self.index.callables
        for position in range(part, len(callables), parts):
            module_name, path, value = callables[position]
            if module_name.split('.')[0] not in sys.stdlib_module_names:
                continue
            yield self.case(value, (module_name, path))

    def case(self, value, where):
        result = Case(value, where)
        try:
            self._fill(result, value, 0)
        except Unknown as error:
            result.skipped = f'unknown: {error}'
        return result

    def _fill(self, case, value, bound):
        index = self.index
        if isinstance(value, types.MethodType):
            function = value.__func__
            if not isinstance(function, types.FunctionType):
                # is up to the underlying callable
                case.skipped = f'method of {type(function).__name__}'
                return
            locations = (index.functions_paths.get(id(function))
                         or index.paths.get(id(function), []))
            return self._from_locations(case, locations,
                                        self.own_location(function),
                                        bound + 1, value)
        elif isinstance(value, types.MethodWrapperType):
            return self._fill(case, getattr(value.__objclass__,
                                            value.__name__), bound + 1)
        elif isinstance(value, types.BuiltinFunctionType):
            owner = value.__self__
            if isinstance(owner, type):
                for cls in owner.__mro__:
                    raw = vars(cls).get(value.__name__)
                    if (isinstance(raw, types.ClassMethodDescriptorType)
                            and raw.__get__(None, owner) == value):
                        return self._from_locations(
                                case, index.paths.get(id(raw), []),
                                (owner.__module__,
                                 (*owner.__qualname__.split('.'),
                                  value.__name__)), bound + 1, value)
            elif owner is not None and not isinstance(owner,
                                                      types.ModuleType):
                for cls in type(owner).__mro__:
                    raw = vars(cls).get(value.__name__)
                    if (isinstance(raw, types.MethodDescriptorType)
                            and raw.__get__(owner, type(owner)) == value):
                        return self._fill(case, raw, bound + 1)
            return self._from_locations(case, index.paths.get(id(value), []),
                                        self.own_location(value), bound,
                                        value)
        elif isinstance(value, (types.FunctionType,
                                types.MethodDescriptorType,
                                types.WrapperDescriptorType, type)):
            return self._from_locations(case, index.paths.get(id(value), []),
                                        self.own_location(value), bound,
                                        value)
        case.skipped = f'kind: {type(value).__name__}'

    @staticmethod
    def own_location(value):
        if isinstance(value, (types.MethodDescriptorType,
                              types.WrapperDescriptorType)):
            cls = value.__objclass__
            return cls.__module__, (*cls.__qualname__.split('.'),
                                    value.__name__)
        if (isinstance(value, types.BuiltinFunctionType)
                and isinstance(value.__self__, type)):
            cls = value.__self__
            return cls.__module__, (*cls.__qualname__.split('.'),
                                    value.__name__)
        module, name = value.__module__, value.__qualname__
        return (module if isinstance(module, str) else '',
                tuple(name.split('.')))

    def direct(self, location):
        """Definition in the very scope."""
        module_name, path = location
        if not self.supported(module_name):
            return None
        if len(path) == 1:
            module = self.stubs.module(module_name)
            try:
                return self.stubs.bound(module.scope, path[0])
            except NotFound:
                return None
        outer = self.stubs.find(module_name, path[:-1])
        if outer is None or outer.kind != 'class':
            return None
        try:
            return self.stubs.bound(outer.body, path[-1])
        except NotFound:
            return None

    def _from_locations(self, case, locations, own, bound, value):
        locations = [location for location in locations
                     if self.supported(location[0])]
        direct = [(location, found) for location in locations
                  for found in [self.direct(location)] if found is not None]
        own_direct = [found for location, found in direct if location == own]
        if own_direct:
            case.level, found = 'own', own_direct
        elif direct:
            case.level, found = 'direct', [found for _, found in direct]
        else:
            outers = [self.stubs.find(module_name, path[:-1])
                      for module_name, path in [own, *locations]
                      if self.supported(module_name)]
            outers = [outer for outer in outers if outer is not None]
            if outers and (outers[0].kind == 'value'
                           or all(outer.kind == 'value'
                                  for outer in outers)):
                raise Unknown(f'attribute of {outers[0]!r}')
            own_found = (self.stubs.find(*own) if own in locations
                         else None)
            # own declaration has precedence over ones of namesakes
            found = ([own_found] if own_found is not None
                     else [found for found in (self.stubs.find(*location)
                                               for location in locations)
                           if found is not None])
            case.level = ('own inherited' if own_found is not None
                          else 'inherited' if found else 'interpreter')
            case.interpreted = own_found is None
            if self.supported(own[0]):
                # another implementation of what stubs describe
                namesake = self.stubs.find(*own)
                if namesake is not None:
                    found.append(namesake)
        errors = []
        for definition in found:
            try:
                specs = self._specs(definition, value, bound)
            except Unknown as error:
                errors.append(error)
            else:
                if specs not in case.specs:
                    case.specs.append(specs)
        if errors:
            raise errors[0]

    def _specs(self, definition, value, bound):
        specs = self.model.callable_specs(definition)
        if not isinstance(value, type):
            for spec in specs:
                if bound and spec.kind not in ('method', 'class method'):
                    raise Unknown(f'{spec.kind} instead of a method')
            for _ in range(bound):
                specs = [spec.without_first() for spec in specs]
        return specs

    def interpreted_difference(self, value, signature, base, *,
                               annotations):
        """How the signature differs from the interpreter's one."""
        try:
            raw = inspect.signature(value)
        except (ValueError, TypeError) as error:
            return (None if isinstance(signature, (ValueError, TypeError))
                    else f'{signature} instead of {error!r}')
        if isinstance(signature, Exception):
            return f'{signature!r} instead of {raw}'
        actual = flatten(signature)
        if len(actual) != 1:
            return f'{len(actual)} alternatives'
        parameters = actual[0].parameters
        expected = list(raw.parameters.values())
        if [(p.name, int(p.kind)) for p in parameters] != [
                (p.name, int(p.kind)) for p in expected]:
            return f'{signature} instead of {raw}'
        for parameter, other in zip(parameters, expected):
            optional = (other.default is not inspect.Parameter.empty
                        or int(other.kind) in (2, 4))
            if isinstance(parameter, base.OptionalParameter) is not optional:
                return f'optionality of {parameter.name}'
            if int(other.kind) in (2, 4) or not optional:
                continue
            if not parameter.has_default or (
                    parameter.default is not other.default
                    and parameter.default != other.default):
                return f'default of {parameter.name}'
        if annotations:
            pairs = [(p.name, p.annotation, q.annotation)
                     for p, q in zip(parameters, expected)]
            if not isinstance(value, type):
                pairs.append(('return', actual[0].returns,
                              raw.return_annotation))
            elif actual[0].returns is not typing_extensions.Self:
                return 'result is not Self'
            for name, annotation, other in pairs:
                if other is inspect.Parameter.empty:
                    other = typing.Any
                if annotation is not other and annotation != other:
                    return (f'annotation of {name} is {annotation!r} instead '
                            f'of {other!r}')
        return None

    def difference(self, case, signature, base, *, annotations):
        """None if the signature is one of the accepted ones."""
        reasons = []
        if case.interpreted:
            reason = self.interpreted_difference(case.value, signature, base,
                                                 annotations=annotations)
            if reason is None:
                return None
            reasons.append('interpreter: ' + reason)
        for specs in case.specs:
            reason = self.specs_difference(specs, signature, base,
                                           annotations=annotations)
            if reason is None:
                return None
            reasons.append(reason)
        return '; '.join(reasons[:3])

    def specs_difference(self, specs, signature, base, *, annotations):
        if isinstance(signature, Exception):
            return f'{signature!r} instead of {specs}'
        actual = flatten(signature)
        if len(actual) != len(specs):
            return f'{len(actual)} alternatives instead of {len(specs)}'
        for spec, plain in zip(specs, actual):
            reason = shape_difference(self.model, spec, plain, base)
            if reason is not None:
                return f'{reason} in {plain}, {spec.where}'
        if annotations:
            for spec, plain in zip(specs, actual):
                reason = annotation_difference(self.model, spec, plain)
                if reason is not None:
                    return reason
        return None
