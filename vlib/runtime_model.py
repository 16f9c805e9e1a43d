"""Signatures as seen by executing the module: model for modules stubs of
which have the same text."""
import inspect
import types
import typing

import typing_extensions

from .reference import canonical


def members(module):
    """Functions, methods and classes defined by the module:
    (path, callable, class owning it)."""
    yield from _members(module, module, '', None)


def _members(namespace, module, prefix, owner):
    for name, value in list(vars(namespace).items()):
        function = (value.__func__
                    if isinstance(value, (classmethod, staticmethod))
                    else value)
        if (getattr(function, '__module__', None) != module.__name__
                or getattr(function, '__qualname__', None) != prefix + name):
            continue
        if isinstance(value, types.FunctionType):
            yield prefix + name, value, owner
        elif isinstance(value, (classmethod, staticmethod)):
            yield prefix + name, getattr(namespace, name), owner
        elif isinstance(value, type):
            yield prefix + name, value, owner
            yield from _members(value, module, prefix + name + '.', value)


def hints(function):
    """Annotations evaluated in the scope function is defined in."""
    import importlib
    module = importlib.import_module(function.__module__)
    scope = module
    for name in function.__qualname__.split('.')[:-1]:
        scope = vars(scope)[name]
    result = typing.get_type_hints(
            function, vars(module),
            dict(vars(scope)) if scope is not module else None)
    return result


def constructor(cls):
    """First initializer or constructor in MRO as a function."""
    for base in cls.__mro__:
        if base is object:
            return None
        for name in ('__init__', '__new__'):
            value = vars(base).get(name)
            if value is not None:
                return (value.__func__ if isinstance(value, staticmethod)
                        else value)


def alternatives(function):
    return typing_extensions.get_overloads(function) or [function]


def expected(value, owner):
    """Alternatives: (parameters as (name, kind, optional, annotation),
    returns); annotation Ellipsis is not compared."""
    Self = typing_extensions.Self
    drop, first = False, None
    if isinstance(value, type):
        function, drop = constructor(value), True
        if function is None:
            return [([], Self)]
    elif isinstance(value, types.MethodType):
        function, first = value.__func__, typing.Type[Self]
        drop = True
    else:
        function = value
        if owner is not None and not isinstance(
                vars(owner).get(function.__name__), staticmethod):
            first = Self
    return [_expected(alternative, function, drop, first,
                      isinstance(value, type))
            for alternative in alternatives(function)]


def _expected(alternative, function, drop, first, is_class):
    Self = typing_extensions.Self
    annotations = hints(alternative)
    parameters = list(inspect.signature(alternative).parameters.values())
    result = []
    for index, parameter in enumerate(parameters):
        if drop and not index:
            continue
        kind = parameter.kind.name
        if kind == 'POSITIONAL_OR_KEYWORD':
            kind = 'POSITIONAL_ONLY'
        variadic = kind.startswith('VAR_')
        annotation = (... if function.__name__ == '__new__' and not index
                      else Self if first is Self and not index
                      else annotations.get(parameter.name, typing.Any))
        result.append((parameter.name, kind,
                       parameter.default is not parameter.empty or variadic,
                       annotation))
    returns = (Self if is_class and function.__name__ == '__init__'
               else annotations.get('return', typing.Any))
    return result, returns


KINDS = {'VARIADIC_POSITIONAL': 'VAR_POSITIONAL',
         'VARIADIC_KEYWORD': 'VAR_KEYWORD',
         'POSITIONAL_OR_KEYWORD': 'POSITIONAL_OR_KEYWORD'}


def find(module, path):
    result = module
    for name in path.split('.'):
        result = getattr(result, name)
    return result


def by_name(structure, old, new):
    """Structure with objects identified by names instead of identity."""
    if not isinstance(structure, (tuple, frozenset)):
        return structure
    if structure and isinstance(structure, tuple) and structure[0] == 'object':
        return 'object', structure[2].replace(old, new)
    return type(structure)(by_name(item, old, new) for item in structure)


def difference(value, owner, module, base, expect=None, rename=None):
    """What differs from the expected alternatives, None if nothing."""
    try:
        signature = base.signature_from_callable(value)
    except BaseException as error:
        return f'signature_from_callable fails: {error!r}'
    expect = expect or expected(value, owner)
    structure = (canonical if rename is None
                 else lambda item: by_name(canonical(item), *rename))
    signatures = (signature.signatures
                  if isinstance(signature, base.OverloadedSignature)
                  else [signature])
    if len(signatures) != len(expect):
        return f'there should be {len(expect)} alternatives in {signature}'
    for signature, (parameters, returns) in zip(signatures, expect):
        result = _difference(signature, parameters, returns, base, structure)
        if result is not None:
            return result


def _difference(signature, parameters, returns, base, structure):
    if not isinstance(signature, base.PlainSignature):
        return f'signature is not plain: {signature}'
    actual = list(signature.parameters)
    actual_shape = [(p.name, KINDS.get(p.kind.name, p.kind.name),
                     isinstance(p, base.OptionalParameter)) for p in actual]
    shape = [p[:3] for p in parameters]
    if actual_shape != shape:
        return (f'parameters should be {shape}, but signature is '
                f'{signature}')
    for parameter, (name, _, _, annotation) in zip(actual, parameters):
        if (annotation is not ... and structure(parameter.annotation)
                != structure(annotation)):
            return (f'annotation of {name} should be {annotation!r}, but is '
                    f'{parameter.annotation!r}')
    if structure(signature.returns) != structure(returns):
        return (f'result should be {returns!r}, but is '
                f'{signature.returns!r}')
    return None


def substitute(annotation, mapping):
    if isinstance(annotation, (typing.TypeVar, typing.ParamSpec)):
        return mapping.get(annotation, annotation)
    if isinstance(annotation, (list, tuple)):
        # value of parameters specification
        return [substitute(item, mapping) for item in annotation]
    variables = getattr(annotation, '__parameters__', ())
    if isinstance(annotation, type) and not isinstance(annotation,
                                                       types.GenericAlias):
        return annotation
    if not variables:
        return annotation
    return annotation[tuple(mapping.get(variable, variable)
                            for variable in variables)]


def mappings(cls):
    """Type variables of bases to their values (from the point of view of the
    class), the first way to a base is preferred."""
    result = {cls: {}}
    queue = [cls]
    while queue:
        child = queue.pop(0)
        bases = (child.__dict__.get('__orig_bases__') or child.__bases__)
        for base in bases:
            origin = typing.get_origin(base) or base
            if origin in (typing.Generic, typing.Protocol, object):
                continue
            mapping = {}
            if origin is not base:
                parameters = getattr(origin, '__parameters__', ())
                mapping = dict(zip(parameters,
                                   [substitute(argument, result[child])
                                    for argument in typing.get_args(base)]))
            if origin not in result:
                result[origin] = mapping
                queue.append(origin)
    return result


def specialized_constructor(cls):
    function = constructor(cls)
    expect = expected(cls, None)
    if function is None:
        return expect
    owner = next(base for base in cls.__mro__
                 if any(getattr(value, '__func__', value) is function
                        for value in vars(base).values()))
    mapping = mappings(cls)[owner]
    return [([(*rest, substitute(annotation, mapping))
              for *rest, annotation in parameters],
             substitute(returns, mapping))
            for parameters, returns in expect]
