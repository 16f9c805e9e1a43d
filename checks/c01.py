"""C01: signatures can be built exactly from legal parameter lists."""
import inspect
import itertools
import typing as t

from vlib.shapes import (KINDS_NAMES, KO, PK, PO, VK, VP, Param, attempt,
                         base, from_parameter, header, kind_of, show,
                         to_parameter)

LEVEL = 'model_checking'
RULE = ('state: sequence of parameters (legal prefix tree of all sequences '
        'over name x kind x required/default/unknown default); transition: '
        'appending one more parameter and building the signature; reference: '
        'the sequence is legal iff a "def" with its header compiles and '
        'inspect reports the very same list; trace: a maximal sequence')
ASSUMPTIONS = ['the interpreter rejects illegal definitions']
PARTS = 16
NAMES = ('x', 'y', 'z')


def alphabet(names=NAMES):
    for name in names:
        for kind in (PO, PK, KO):
            for opt in 'rdo':
                yield Param(name, kind, opt)
        for kind in (VP, VK):
            yield Param(name, kind, 'v')


def shards(tier):
    return [['lists', index, PARTS] for index in range(PARTS)] + [['params']]


def legal(sequence):
    """Whether some function definition has this list of parameters."""
    namespace = {}
    try:
        exec(f'def f({header(sequence)}): pass', namespace)
    except SyntaxError:
        return False
    parameters = inspect.signature(namespace['f']).parameters.values()
    return [(p.name, int(p.kind), p.default is not inspect.Parameter.empty)
            for p in parameters] == [(p.name, p.kind, p.opt in 'do')
                                     for p in sequence]


class Marker:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def run(shard, report, spec):
    if shard[0] == 'params':
        return run_params(report)
    _, part, parts = shard
    depth = 3 if spec['tier'] == 'quick' else 4
    symbols = list(alphabet())
    markers = {(s, what): Marker(f'{what} of {s}') for s in symbols
               for what in ('annotation', 'default')}
    built = {s: to_parameter(s, annotation=markers[s, 'annotation'],
                             default=markers[s, 'default']) for s in symbols}
    returns = Marker('returns')
    sequences = itertools.chain(
            itertools.chain.from_iterable(
                    itertools.product(symbols, repeat=n)
                    for n in range(depth + 1)),
            # longer lists: one name per position (names do not collide)
            itertools.chain.from_iterable(
                    itertools.product(*[
                        [s for s in symbols_of(index)] for index in range(n)])
                    for n in ((4,) if spec['tier'] == 'quick' else (4, 5))))
    for index, sequence in enumerate(sequences):
        if index % parts != part:
            continue
        reference = legal(sequence)
        report.state(sequence)
        report.count('transitions')
        report.count('traces', len(sequence) >= depth)
        report.outcome('legal' if reference else 'illegal')
        parameters = [built.get(s) or to_parameter(s) for s in sequence]
        actual = attempt(base.PlainSignature, *parameters, returns=returns)
        case = {'sequence': sequence}
        if reference:
            if actual[0] != 'ok':
                going = report.violation(
                        'legal rejected', f'legal parameter list '
                        f'{show(sequence)} is rejected: {actual[1:]}', case)
                if not going:
                    return
                continue
            signature = actual[1]
            got = list(signature.parameters)
            if (len(got) != len(parameters)
                    or any(a is not b and a != b or from_parameter(a) != s
                           for a, b, s in zip(got, parameters, sequence))
                    or signature.returns is not returns):
                report.violation('read back', f'{show(sequence)} is read back'
                                 f' as {got}', case)
                return
        elif actual[0] == 'ok' or actual[1] not in ('ValueError',
                                                    'TypeError'):
            going = report.violation(
                    'illegal accepted', f'parameter list {sequence} '
                    f'which no function can have gives {actual[1:]}', case)
            if not going:
                return
        if index < parts * 2:
            report.sample(f'{sequence}: legal={reference}')


def symbols_of(index):
    name = 'xyzuv'[index]
    for kind in (PO, PK, KO):
        for opt in 'rd':
            yield Param(name, kind, opt)
    for kind in (VP, VK):
        yield Param(name, kind, 'v')


def run_params(report):
    required, optional = base.RequiredParameter, base.OptionalParameter
    annotations = (int, t.Any, None, 'text', [], {}, ..., Marker('x'))
    defaults = (None, ..., 0, False, '', (), [], {}, NotImplemented, type,
                inspect.Parameter.empty, Marker('x'), object())

    def expect(result, ok, what, errors=('ValueError', 'TypeError')):
        report.count('transitions')
        report.state(what)
        report.outcome('parameter accepted' if ok else 'parameter rejected')
        if (result[0] == 'ok') != ok or (not ok and result[1] not in errors):
            report.violation('parameter: ' + what.split(' ', 1)[0], f'{what} '
                             f'should {"succeed" if ok else "fail"}, but '
                             f'gives {result[1:]}', {'what': what})

    for kind_index, kind_name in enumerate(KINDS_NAMES):
        kind = kind_of(kind_index)
        variadic = kind_index in (VP, VK)
        if int(kind) != kind_index or kind.name != kind_name:
            report.violation('kinds', f'{kind_name} has value {int(kind)}',
                             None)
        for annotation in annotations:
            what = f'required {kind_name} {annotation!r}'
            result = attempt(required, annotation=annotation, kind=kind,
                             name='x')
            expect(result, not variadic, what)
            if result[0] == 'ok' and (
                    result[1].annotation is not annotation
                    or result[1].kind is not kind or result[1].name != 'x'):
                report.violation('required read', what, None)
            what = f'optional {kind_name} {annotation!r} without default'
            result = attempt(optional, annotation=annotation, kind=kind,
                             name='x')
            expect(result, True, what)
            if result[0] == 'ok' and (
                    result[1].annotation is not annotation
                    or result[1].kind is not kind or result[1].name != 'x'
                    or result[1].has_default):
                report.violation('optional read', what, None)
            for default in defaults:
                what = (f'optional {kind_name} {annotation!r} with default '
                        f'{default!r}')
                result = attempt(optional, annotation=annotation, kind=kind,
                                 name='x', default=default)
                expect(result, not variadic, what)
                if result[0] == 'ok' and (
                        result[1].annotation is not annotation
                        or result[1].kind is not kind
                        or result[1].name != 'x'
                        or result[1].has_default is not True
                        or result[1].default is not default):
                    report.violation('optional read', what, None)
    for bad in (0, 1, 2, 3, 4, 5, -1, True, None, 'POSITIONAL_ONLY', 1.0,
                inspect.Parameter.POSITIONAL_ONLY, object(),
                type(kind_of(0))):
        for cls in (required, optional):
            expect(attempt(cls, annotation=int, kind=bad, name='x'), False,
                   f'kind {bad!r} of {cls.__name__}')
    plain = [base.PlainSignature(returns=t.Any),
             base.PlainSignature(to_parameter(Param('x', PO, 'r')),
                                 returns=int),
             base.PlainSignature(to_parameter(Param('y', KO, 'd')),
                                 returns=int)]
    overloaded = base.OverloadedSignature(*plain[:2])
    pool = [*plain, overloaded, None, 1, 'x',
            inspect.signature(lambda x: x), to_parameter(Param('x', PO, 'r'))]
    for size in range(4):
        for sequence in itertools.product(pool, repeat=size):
            ok = (size >= 2 and all(isinstance(s, base.PlainSignature)
                                    for s in sequence))
            result = attempt(base.OverloadedSignature, *sequence)
            expect(result, ok, f'overloaded of {sequence}')
            if result[0] == 'ok':
                got = list(result[1].signatures)
                if len(got) != size or any(
                        a is not b and a != b for a, b in zip(got, sequence)):
                    report.violation('alternatives', f'alternatives '
                                     f'{sequence} are read back as {got}',
                                     None)
    report.count('traces', len(pool))
