"""Shared universe of signatures with texts of their parts, for checks of
representation, string form, pickling and copying."""
import itertools

from . import annotations
from .shapes import (KO, ODD_NAMES, PK, PO, VK, VP, Param, base, gen_shapes,
                     to_signature)

DEFAULTS = ('0', 'None', '-1', "'text'", '"it\'s"', "'a\\nb'", "b'x'", '()',
            '(1,)', "(1, 'x')", '[]', '[1, [2]]', '1.5', '1j', 'True', '...',
            'NotImplemented', 'int', 'st.Sample.Inner', '(int, str)',
            '[int, [st.Sample]]', '(int,)', 'typing.List[int]', 'list[int]',
            'int | None', "'\\u044f'", '{}', "{'a': 1}", '10 ** 20', "'#'",
            "'->'", "', '", "' | '", 'st.Color.RED', 'st.Number.TWO',
            'st.Access.READ', 'st.Access.ANY', 'st.Access(0)',
            'st.Mode.A | st.Mode.B', 'st.Mode(8)', 'st.Text.A',
            '(st.Color.RED, [st.Access.WRITE])')


def signatures(level, *, quick=True):
    """Yields (text, signature, shape, annotations texts, defaults texts)."""
    # every annotation in every position
    for text, key, _ in annotations.universe(level):
        for shape in ((Param('x', PO, 'r'), Param('y', KO, 'd')),
                      (Param('x', PK, 'o'), Param('v', VP, 'v'),
                       Param('k', VK, 'v'))):
            yield make(shape, {p.name: text for p in shape},
                       {p.name: '0' for p in shape}, text)
            if quick and len(text) > 30:
                break
    # every default in every position
    for text in DEFAULTS:
        for kind in (PO, PK, KO):
            shape = (Param('x', kind, 'd'), Param('k', VK, 'v'))
            yield make(shape, {'x': 'int'}, {'x': text}, text)
    # all shapes
    for shape in gen_shapes(3 if quick else 4, opts='rdo'):
        yield make(shape, dict(zip([p.name for p in shape], itertools.cycle(
                ('int', 'str', 'typing.Any', 'typing.List[int]', 'bytes')))),
            {p.name: DEFAULTS[i] for i, p in enumerate(shape)},
            'None')
    for shape in gen_shapes(2, opts='rdo', names=ODD_NAMES, vp_name='a',
                            vk_name='k'):
        yield make(shape, {}, {}, 'typing.Any')


def make(shape, annotations_texts, defaults_texts, returns_text):
    texts = ({p.name: annotations_texts.get(p.name, 'typing.Any')
              for p in shape},
             {p.name: defaults_texts.get(p.name, 'None') for p in shape},
             returns_text)
    return (shape, *texts, build(shape, *texts))


def build(shape, annotations_texts, defaults_texts, returns_text):
    return to_signature(
            shape,
            annotations={name: annotations.evaluate(text)
                         for name, text in annotations_texts.items()},
            defaults={name: annotations.evaluate(text)
                      for name, text in defaults_texts.items()},
            returns=annotations.evaluate(returns_text))


def describe(shape, annotations_texts, defaults_texts, returns_text):
    return (f'{[tuple(p) for p in shape]} annotations {annotations_texts} '
            f'defaults {defaults_texts} returns {returns_text}')


def namespace():
    import builtins
    import vlib.sample_types
    import vlib
    result = {**annotations.NAMESPACE, 'builtins': builtins, 'vlib': vlib}
    for name in ('OptionalParameter', 'OverloadedSignature', 'ParameterKind',
                 'PlainSignature', 'RequiredParameter'):
        result[name] = getattr(base, name)
    return result


def overloaded(items, *, step=37):
    """Groups consecutive signatures into overloaded ones."""
    items = [item[-1] for item in items][::step]
    for first, second, third in zip(items, items[1:], items[2:]):
        yield base.OverloadedSignature(first, second)
        yield base.OverloadedSignature(third, first, second, first)
