"""Signatures of standard library callables and what they are made of."""
import ast
import contextlib
import dataclasses
import sys
import types
import typing

import typing_extensions

from . import expected, typeshed
from .shapes import attempt, base


def signatures(part, parts):
    """(name, signature), the same ones are given once."""
    seen = set()
    for index, (name, value) in enumerate(callables()):
        if index % parts != part:
            continue
        result = attempt(base.signature_from_callable, value)
        if result[0] != 'ok':
            # decided by C25
            continue
        signature = result[1]
        text = attempt(repr, signature)
        if text[0] == 'ok':
            if text[1] in seen:
                continue
            seen.add(text[1])
        yield name, signature


def callables():
    modules = expected.import_modules()
    seen = set()
    for module in modules:
        for name, value in list(vars(module).items()):
            for path, candidate in ((name, value), *members(name, value)):
                if callable(candidate) and id(candidate) not in seen:
                    seen.add(id(candidate))
                    # keeps identifier unique
                    _alive.append(candidate)
                    yield f'{module.__name__}.{path}', candidate


_alive = []


def members(name, value):
    if isinstance(value, type):
        for key in list(vars(value)):
            with contextlib.suppress(Exception):
                yield f'{name}.{key}', getattr(value, key)


def plains(signature):
    return (signature.signatures
            if isinstance(signature, base.OverloadedSignature)
            else [signature])


def values(signature):
    """Annotations and defaults."""
    annotations, defaults = [], []
    for plain in plains(signature):
        annotations.append(plain.returns)
        for parameter in plain.parameters:
            annotations.append(parameter.annotation)
            if getattr(parameter, 'has_default', False):
                defaults.append(parameter.default)
    return annotations, defaults


def leaves(value, variables=False):
    """Objects which the annotation refers to."""
    if isinstance(value, (list, tuple)):
        for element in value:
            yield from leaves(element, variables)
    elif variables and isinstance(value, (typing.TypeVar, typing.ParamSpec,
                                          typing_extensions.ParamSpec)):
        # are pickled by name
        yield value
    elif isinstance(value, typing.TypeVar):
        for element in (*value.__constraints__, value.__bound__):
            yield from leaves(element, variables)
    elif isinstance(value, (typing_extensions.ParamSpec, typing.ParamSpec)):
        yield from leaves(value.__bound__, variables)
    elif isinstance(value, (typing_extensions.ParamSpecArgs,
                            typing_extensions.ParamSpecKwargs)):
        yield from leaves(value.__origin__, variables)
    elif isinstance(value, dataclasses.InitVar):
        yield from leaves(value.type, variables)
    elif typing.get_origin(value) is not None:
        origin = typing.get_origin(value)
        if isinstance(origin, type) and origin is not types.UnionType:
            yield origin
        for element in typing.get_args(value):
            yield from leaves(element, variables)
    else:
        yield value


def stubs_classes():
    """Names of classes defined by stubs."""
    return {node.name
            for _, _, path in typeshed.modules()
            for node in ast.walk(ast.parse(path.read_bytes()))
            if isinstance(node, ast.ClassDef)}


def is_made(value, names):
    """Is the class made by the library itself from a stub?"""
    return (isinstance(value, type)
            and value.__module__.partition('.')[0]
            == base.__name__.partition('.')[0]
            and value.__name__ in names)


def is_named(value):
    """Can the class be found by its name?"""
    candidate = sys.modules.get(value.__module__)
    for part in value.__qualname__.split('.'):
        candidate = getattr(candidate, part, None)
    return (candidate is value
            or value in vars(types).values()
            or value in (type(None), type(...), type(NotImplemented)))


def is_evaluable(signature, namespace, names):
    """Can everything mentioned by the signature be referred to by name?"""
    annotations, defaults = values(signature)
    return (all(is_made(leaf, names)
                or (is_named(leaf)
                    if isinstance(leaf, type)
                    else evaluable(leaf, namespace))
                for annotation in annotations
                for leaf in leaves(annotation))
            and all(evaluable(default, namespace) for default in defaults))


def evaluable(value, namespace):
    result = attempt(lambda: eval(repr(value), dict(namespace)))
    return (result[0] == 'ok'
            and (result[1] is value
                 or type(result[1]) is type(value)
                 and attempt(lambda: bool(result[1] == value))
                 == ('ok', True)))


def scope():
    """Everything that can be mentioned by representations."""
    result = {name.partition('.')[0]: sys.modules[name.partition('.')[0]]
              for name in list(sys.modules)
              if name.partition('.')[0] in sys.modules}
    result.update({name: getattr(base, name)
                   for name in ('OptionalParameter', 'OverloadedSignature',
                                'ParameterKind', 'PlainSignature',
                                'RequiredParameter')})
    return result
