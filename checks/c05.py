"""C05: equality is structural."""
import itertools
import typing as t

from vlib import annotations
from vlib.shapes import (KO, PK, PO, VK, VP, Param, attempt, base, gen_shapes,
                         kind_of, show, to_parameter, to_signature)

LEVEL = 'model_checking'
RULE = ('state: an object (annotation in some position of a signature, '
        'parameter, plain or overloaded signature) with its canonical key '
        'computed by the generator; transition: comparison of an ordered '
        'pair of states, expected to be equal iff keys are equal (which is '
        'an equivalence relation, so reflexivity, symmetry and transitivity '
        'are decided for all pairs and triples); trace: row of comparisons')
ASSUMPTIONS = ['canonical keys of the annotation grammar are right (typing '
               'aliases, builtin generics, unions and literals regardless of '
               'order; strings inside of builtin generics and equal defaults '
               'of different types are left out as unspecified)']
PARTS = 16


def shards(tier):
    return ([['annotations', position, index, PARTS]
             for position in ('parameter', 'returns', 'default')
             for index in range(PARTS)]
            + [['structure', index, PARTS] for index in range(PARTS)]
            + [['overloaded', index, 4] for index in range(4)]
            + [['unions', position] for position in ('parameter', 'returns')]
            + [['foreign'], ['reflexive']])


def holder(position, value):
    """Signature with the value in given position."""
    cls = base.PlainSignature
    if position == 'returns':
        return cls(returns=value)
    elif position == 'parameter':
        return cls(base.RequiredParameter(annotation=value, name='x',
                                          kind=kind_of(PO)), returns=int)
    else:
        return cls(base.OptionalParameter(annotation=int, name='x',
                                          default=value, kind=kind_of(KO)),
                   returns=int)


def compare(report, rows, columns, what, key_prefix, sparse=False):
    """Compares every row with every column."""
    if sparse:
        # one representative of every class & all members of the own class
        by_key = {}
        for column in columns:
            by_key.setdefault(column[1], []).append(column)
        first = [members[0] for members in by_key.values()]
    for row_text, row_key, row in rows:
        report.state((what, row_text))
        report.count('traces')
        for text, key, value in (columns if not sparse
                                 else first + by_key[row_key]):
            expected = row_key == key
            report.count('transitions')
            try:
                equal, unequal = row == value, row != value
            except Exception as error:
                equal = unequal = f'{type(error).__name__}: {error}'
            if equal is not expected or unequal is expected:
                report.outcome('mismatch')
                if not report.violation(
                        f'{key_prefix}:{"equal" if expected else "differ"}',
                        f'{what} {row_text} and {text} should '
                        f'{"" if expected else "not "}be equal, but == gives '
                        f'{equal} and != gives {unequal}',
                        {'left': row_text, 'right': text, 'what': what}):
                    return False
            report.outcome('equal' if expected else 'different')
    return True


def run(shard, report, spec):
    quick = spec['tier'] == 'quick'
    if shard[0] == 'annotations':
        _, position, part, parts = shard
        pairs = annotations.universe(
                2 if position == 'parameter' or not quick else 1)
        objects = [(text, key, holder(position, value))
                   for text, key, value in pairs]
        # independently created equal objects
        others = [(text, key, holder(position, annotations.evaluate(text)))
                  for text, key, _ in pairs]
        report.sample(objects[part][0])
        compare(report, objects[part::parts], others,
                f'annotation as {position}', f'annotation {position}',
                sparse=quick)
    elif shard[0] == 'structure':
        _, part, parts = shard
        objects = list(structures(quick))
        others = list(structures(quick))
        report.sample(objects[part][0])
        if not compare(report, objects[part::parts], others, 'signature',
                       'structure'):
            return
        parameters, others = list(all_parameters()), list(all_parameters())
        compare(report, parameters[part::parts], others, 'parameter',
                'parameter')
    elif shard[0] == 'overloaded':
        _, part, parts = shard
        objects, others = list(overloads()), list(overloads())
        report.sample(objects[part][0])
        compare(report, objects[part::parts], others, 'signature',
                'overloaded')
    elif shard[0] == 'unions':
        run_unions(report, shard[1])
    elif shard[0] == 'reflexive':
        run_reflexive(report)
    else:
        run_foreign(report)


ARMS = (('typing.List[int]', 'list of int'), ('list[int]', 'list of int'),
        ('typing.List[str]', 'list of str'), ('list[str]', 'list of str'),
        ('int', 'int'), ('None', 'None'))


def run_unions(report, position):
    """Unions of differently spelled arms against each other.

    Unions having the same arms written different number of times are left out
    as unspecified."""
    unions = []
    for size in (2, 3, 4):
        for arms in itertools.permutations(ARMS, size):
            if size == 4 and arms != tuple(sorted(arms)):
                continue
            names = [name for name, _ in arms]
            for text in (f'typing.Union[{", ".join(names)}]',
                         ' | '.join(names)):
                value = annotations.evaluate(text)
                unions.append((text, size, frozenset(key for _, key in arms),
                               holder(position, value)))
    representatives = {}
    for union in unions:
        representatives.setdefault(union[1:3], []).append(union)
    columns = [union for group in representatives.values()
               for union in group[:2] + group[-2:]]
    for text, size, key, value in unions:
        report.state((position, text))
        report.count('traces')
        for other_text, other_size, other_key, other in columns:
            if key == other_key and size != other_size:
                continue
            expected = key == other_key
            for left, right in ((value, other), (other, value)):
                result = attempt(lambda: (left == right, left != right))
                report.count('transitions')
                report.outcome(str(expected))
                if result != ('ok', (expected, not expected)):
                    report.violation(
                            f'union {position}',
                            f'{text} and {other_text} should '
                            f'{"" if expected else "not "}be equal: {result}',
                            {'left': text, 'right': other_text})
                    return


def all_parameters():
    for name in ('x', 'y', 'self'):
        for kind in range(5):
            for annotation_name in ('int', 'str', 'list[int]'):
                annotation = annotations.evaluate(annotation_name)
                for opt in ('v' if kind in (VP, VK) else 'rdo'):
                    defaults = (("0", "None", "'0'", "()", "[]", "b''")
                                if opt == 'd' else ('',))
                    for default in defaults:
                        p = Param(name, kind, opt)
                        key = (p, annotation_name, default)
                        yield str(key), key, to_parameter(
                                p, annotation=annotation,
                                default=eval(default or 'None'))


def structures(quick):
    """Signatures with near misses: everything varies independently."""
    annotation_names = ('int', 'str')
    for names in (('a', 'b', 'c'), ('b', 'a', 'c')):
        for shape in gen_shapes(2, opts='rdo', names=names, vp_name='v',
                                vk_name='k'):
            variants = [annotation_names if p.opt != 'v'
                        else annotation_names[:1] for p in shape]
            if len(shape) > 2 or (names[0] == 'b' and quick):
                variants = [v[:1] for v in variants]
            for chosen in itertools.product(*variants):
                defaults_variants = [((1, None) if p.opt == 'd' else (None,))
                                     for p in shape]
                for defaults in itertools.product(*defaults_variants):
                    for returns in ((int,) if len(shape) > 1
                                    else (int, None, str)):
                        signature = to_signature(
                                shape,
                                annotations={
                                    p.name: annotations.evaluate(c)
                                    for p, c in zip(shape, chosen)},
                                defaults={p.name: d
                                          for p, d in zip(shape, defaults)},
                                returns=returns)
                        key = (shape, chosen,
                               tuple(d if p.opt == 'd' else 'no'
                                     for p, d in zip(shape, defaults)),
                               returns)
                        yield (f'{show(shape)} {chosen} {defaults} '
                               f'{returns}', key, signature)


def overloads():
    plain = [(show(shape) + str(returns), (shape, returns),
              lambda shape=shape, returns=returns:
              to_signature(shape, returns=returns))
             for shape in list(gen_shapes(1, variadics=False))[:5]
             for returns in (int, str)]
    for size in (1, 2, 3):
        for chosen in itertools.product(plain[:10 if size < 3 else 6],
                                        repeat=size):
            key = tuple(key for _, key, _ in chosen)
            text = ' | '.join(text for text, _, _ in chosen)
            made = [make() for _, _, make in chosen]
            yield text, key, (made[0] if size == 1
                              else base.OverloadedSignature(*made))


class Friendly:
    """Claims to be equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class Unfriendly:
    """Claims to be equal to nothing."""

    def __eq__(self, other):
        return False

    __hash__ = None


def run_reflexive(report):
    """Objects not being equal to themselves as parts of signatures."""
    nan, unfriendly = float('nan'), Unfriendly()
    values = {'nan': nan, 'unfriendly': unfriendly, 'list': [nan],
              'tuple': (unfriendly, 1), 'nested': [(nan,), [unfriendly]],
              'dictionary': {'a': nan}, 'complex': complex(nan, 1)}
    for name, value in values.items():
        for kind in (PO, PK, KO):
            report.state((name, kind))

            def parameter():
                return base.OptionalParameter(
                        annotation=int, default=value, kind=kind_of(kind),
                        name='x')

            def plain(returns=int):
                return base.PlainSignature(parameter(), returns=returns)

            def overloaded():
                return base.OverloadedSignature(plain(), plain(str))

            for make in (parameter, plain, overloaded):
                first, second = make(), make()
                for left, right in ((first, first), (first, second),
                                    (second, first)):
                    report.count('transitions')
                    result = attempt(lambda: (left == right, left != right))
                    report.outcome(str(result))
                    if result != ('ok', (True, False)):
                        report.violation(
                                'reflexive',
                                f'{first!r} made of the same objects: == and '
                                f'!= give {result[1:]}', {'value': name})
                        return
            report.count('traces')
        # as what functions have
        space = {'value': value}
        exec('def f(x=value, *, y=value): pass', space)
        results = [attempt(base.signature_from_callable, space['f'])
                   for _ in range(2)]
        report.count('transitions')
        if (any(result[0] != 'ok' for result in results)
                or results[0][1] != results[1][1]):
            report.violation('reflexive', f'signatures of the same function '
                             f'with default {name} differ: {results}',
                             {'value': name})
            return


def run_foreign(report):
    parameters = [value for _, _, value in all_parameters()][::7]
    signatures = [value for _, _, value in overloads()][::11]
    everything = [('parameter', p) for p in parameters] + [
        ('signature', s) for s in signatures]
    foreign = [None, 0, '', (), [], object(), int, 'x', ..., NotImplemented]
    for what, value in everything:
        report.state(repr(value))
        for other in foreign:
            for left, right in ((value, other), (other, value)):
                result = attempt(lambda: (left == right, left != right))
                report.count('transitions')
                if result != ('ok', (False, True)):
                    report.violation('foreign', f'{left!r} == {right!r}: '
                                     f'{result[1:]}', None)
        friendly = Friendly()
        for left, right in ((value, friendly), (friendly, value)):
            result = attempt(lambda: (left == right, left != right))
            report.count('transitions')
            if result != ('ok', (True, False)):
                report.violation('foreign', f'{value!r} does not leave '
                                 'comparison to the object of another class: '
                                 f'{result[1:]}', None)
        for other_what, other in everything:
            if other_what != what:
                result = attempt(lambda: (value == other, value != other))
                report.count('transitions')
                if result != ('ok', (False, True)):
                    report.violation('foreign', f'{value!r} == {other!r}: '
                                     f'{result[1:]}', None)
    report.count('traces', len(everything))
