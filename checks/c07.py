"""C07: representation evaluates back to an equal object."""
from vlib import library, texts
from vlib.shapes import attempt, base, from_signature

LEVEL = 'model_checking'
RULE = ('state: signature built by the generator (annotation grammar in all '
        'positions, default values, all bounded shapes, overloads) or '
        'obtained from a callable of the standard library; '
        'transition: evaluation of its representation (or of one of its '
        'parameters), compared with == both ways and part by part '
        '(names, kinds, optionality); trace: object -> text -> object -> '
        'text, the texts being equal')
ASSUMPTIONS = ['equality is structural (decided by C05)',
               'annotations and defaults can be referred to by name']
PARTS = 16
LIBRARY_PARTS = 8


def shards(tier):
    return ([[i, PARTS] for i in range(PARTS)]
            + [['library', i] for i in range(LIBRARY_PARTS)])


def check(report, value, namespace, what):
    report.count('transitions')
    text = attempt(repr, value)
    if text[0] != 'ok' or not isinstance(text[1], str):
        return report.violation('repr fails', f'{what}: repr gives '
                                f'{text[1:]}', {'what': what})
    result = attempt(eval, text[1], dict(namespace))
    if result[0] != 'ok':
        return report.violation('not evaluable', f'{what}: representation '
                                f'{text[1]} can not be evaluated: '
                                f'{result[1:]}', {'what': what,
                                                  'repr': text[1]})
    other = result[1]
    same = attempt(lambda: (value == other, other == value,
                            type(value) is type(other)))
    if same != ('ok', (True,) * 3):
        return report.violation('differs', f'{what}: representation '
                                f'{text[1]} evaluates to {other!r} which is '
                                f'not equal to the original: {same[1:]}',
                                {'what': what, 'repr': text[1]})
    shapes = [[from_signature(plain) for plain in plains(v)]
              for v in (value, other)]
    if shapes[0] != shapes[1]:
        return report.violation('shape', f'{what}: {shapes}',
                                {'what': what, 'repr': text[1]})
    report.count('traces')
    report.outcome('round trip')
    return True


def plains(value):
    if isinstance(value, base.OverloadedSignature):
        return list(value.signatures)
    elif isinstance(value, base.PlainSignature):
        return [value]
    else:
        return [base.PlainSignature(value, returns=None)]


def run_library(part, report):
    """Signatures of the standard library."""
    names = library.stubs_classes()
    for what, signature in library.signatures(part, LIBRARY_PARTS):
        report.state(what)
        namespace = library.scope()
        if not library.is_evaluable(signature, namespace, names):
            report.outcome('cannot be referred to by name')
            continue
        if not check(report, signature, namespace, what):
            return


def run(shard, report, spec):
    if shard[0] == 'library':
        return run_library(shard[1], report)
    part, parts = shard
    quick = spec['tier'] == 'quick'
    namespace = texts.namespace()
    items = list(texts.signatures(2, quick=quick))
    for index, item in enumerate(items):
        if index % parts != part:
            continue
        what = texts.describe(*item[:-1])
        report.state(what)
        if not check(report, item[-1], namespace, what):
            return
        for p in item[-1].parameters:
            if not check(report, p, namespace, f'parameter of {what}'):
                return
        report.sample(repr(item[-1]))
    for index, signature in enumerate(texts.overloaded(items)):
        if index % parts == part:
            report.state(('overloaded', index))
            if not check(report, signature, namespace,
                         f'overloaded {index}: {signature}'):
                return
