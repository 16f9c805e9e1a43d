"""Text of a signature which can be compared between processes."""
import re
import sys
import types
import typing

import typing_extensions

ADDRESS = re.compile(r'\b0x[0-9a-fA-F]+\b')
KINDS_OF_PARAMETERS = tuple(
        cls for module in (typing, typing_extensions)
        for cls in (module.TypeVar, module.ParamSpec,
                    getattr(module, 'TypeVarTuple', module.ParamSpec)))
PARTS_OF_PARAMETERS = tuple(
        cls for module in (typing, typing_extensions)
        for cls in (module.ParamSpecArgs, module.ParamSpecKwargs))


def plain(value):
    """Representation which does not mention addresses."""
    try:
        return ADDRESS.sub('0x', repr(value))
    except Exception as error:
        return f'<{type(value).__qualname__} {type(error).__name__}>'


def is_reachable(cls):
    if cls.__module__.partition('.')[0] == 'paradigm':
        # made from a stub
        return False
    module = sys.modules.get(cls.__module__)
    if cls.__module__ == 'builtins' or module is None:
        return True
    for name in cls.__qualname__.split('.'):
        module = getattr(module, name, None)
    return module is cls


def of_annotation(value, depth=0):
    if depth > 25:
        return '...'
    recur = lambda item: of_annotation(item, depth + 1)
    if isinstance(value, (list, tuple)):
        return f'[{", ".join(map(recur, value))}]'
    if isinstance(value, typing.ForwardRef):
        return f'forward({value.__forward_arg__!r})'
    if isinstance(value, KINDS_OF_PARAMETERS):
        # what it ranges over is a part of it
        details = [recur(getattr(value, '__bound__', None)),
                   *map(recur, getattr(value, '__constraints__', ())),
                   getattr(value, '__covariant__', None),
                   getattr(value, '__contravariant__', None)]
        return f'{type(value).__name__}({value.__name__}, {details})'
    if isinstance(value, PARTS_OF_PARAMETERS):
        return f'{type(value).__name__}({recur(value.__origin__)})'
    origin = typing_extensions.get_origin(value)
    if origin is None:
        if isinstance(value, type):
            result = f'{value.__module__}.{value.__qualname__}'
            if not is_reachable(value):
                # namesakes are distinguished by their contents
                result += (f'<{", ".join(map(recur, value.__bases__))}; '
                           + ', '.join(sorted(map(str, vars(value)))) + '>')
            return result
        return plain(value)
    arguments = typing_extensions.get_args(value)
    if origin in (typing.Literal, typing_extensions.Literal):
        return f'Literal{list(arguments)}'
    if origin is typing.Union or origin is types.UnionType:
        return f'({" | ".join(sorted(map(recur, arguments)))})'
    return (f'{recur(origin)}[{", ".join(map(recur, arguments))}]'
            + ('' if arguments else plain(value)))


def of_signature(signature):
    alternatives = getattr(signature, 'signatures', None)
    if alternatives is not None:
        return ' || '.join(map(of_signature, alternatives))
    result = []
    for parameter in signature.parameters:
        default = (f' = {plain(parameter.default)}'
                   if getattr(parameter, 'has_default', False) else '')
        result.append(f'{type(parameter).__name__} {parameter.kind.name} '
                      f'{parameter.name}: '
                      f'{of_annotation(parameter.annotation)}{default}')
    return (f'{type(signature).__name__}({"; ".join(result)}) -> '
            f'{of_annotation(signature.returns)}')


def ask(base, value):
    """Text of the answer, signature if there is any."""
    try:
        signature = base.signature_from_callable(value)
    except (TypeError, ValueError) as error:
        return type(error).__name__, None
    except BaseException as error:
        return f'fails with {type(error).__name__}: {plain(error)}', None
    return of_signature(signature), signature
