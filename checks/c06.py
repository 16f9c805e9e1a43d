"""C06: equal signatures have equal hashes, everything is hashable."""
import collections
import itertools

from checks import c05
from vlib import annotations
from vlib.shapes import (KO, PK, PO, VK, VP, Param, attempt, base, gen_shapes,
                         kind_of, to_parameter, to_signature)

LEVEL = 'model_checking'
RULE = ('state: parameter/signature (annotations grammar, default values '
        'including unhashable and cross-type equal ones, shapes, overloads) '
        'with canonical key; transition: a pair of objects which are equal '
        '(by canonical key, or as reported by ==), whose hashes should be '
        'equal and which should be found in a set/dict by each other; trace: '
        'an object hashed, stored and looked up')
ASSUMPTIONS = ['canonical keys of the annotation grammar are right']
PARTS = 8


def shards(tier):
    return ([['annotations', i, PARTS] for i in range(PARTS)]
            + [['values', i, PARTS] for i in range(PARTS)]
            + [['structure', i, PARTS] for i in range(PARTS)]
            + [['overloaded', 0, 1]])


class Unhashable:
    __hash__ = None

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Unhashable) and self.value == other.value


def values():
    """Values equal to something of another type or not hashable."""
    return [0, False, 0.0, 0j, 1, True, 1.0, '', b'', (), [], {}, set(),
            frozenset(), [1], [True], (1,), (True,), {1: []}, bytearray(b''),
            collections.OrderedDict(), collections.deque(), Unhashable(1),
            Unhashable(True), slice(1), None, ..., [[]], ([],), 10 ** 20,
            1e20, -1, 'x', b'x', range(0), range(1, 1),
            annotations.evaluate('list[int]'),
            annotations.evaluate('typing.List[int]'),
            annotations.evaluate('int | str'),
            annotations.evaluate('typing.Union[str, int]'),
            annotations.evaluate("typing.Annotated[int, []]"),
            annotations.evaluate("typing.Annotated[int, [0]]"),
            annotations.evaluate("typing.Annotated[int, [False]]")]


def values_objects():
    made = []
    for kind in (PO, PK, KO):
        for number, value in enumerate(values()):
            p = base.OptionalParameter(annotation=int, default=value,
                                       kind=kind_of(kind), name='x')
            made.append((f'default {value!r} of {kind}', p))
            made.append((f'default {value!r} of {kind} in signature',
                         base.PlainSignature(p, returns=int)))
    for kind in range(5):
        for value in values():
            p = base.OptionalParameter(annotation=value, kind=kind_of(kind),
                                       name='x')
            made.append((f'annotation {value!r} of {kind}', p))
            if kind not in (VP, VK):
                p = base.RequiredParameter(annotation=value, name='x',
                                           kind=kind_of(kind))
                made.append((f'annotation {value!r} of required {kind}', p))
            made.append((f'annotation {value!r} of {kind} in signature',
                         base.PlainSignature(p, returns=value)))
    for first, second in itertools.product(values()[:20], repeat=2):
        made.append((f'overloaded {first!r} {second!r}',
                     base.OverloadedSignature(
                             base.PlainSignature(returns=first),
                             base.PlainSignature(returns=second))))
    return made


def check_hash(report, text, value):
    first, second = attempt(hash, value), attempt(hash, value)
    report.count('traces')
    report.state(text)
    if first[0] != 'ok' or first != second:
        return report.violation('hashable', f'hash of {text}: {first[1:]}, '
                                f'then {second[1:]}', {'object': text})
    return True


def check_pair(report, text, value, other_text, other):
    report.count('transitions')
    result = attempt(lambda: (hash(value) == hash(other), value in {other},
                              {other: 1}.get(value) == 1,
                              len({value, other}) == 1))
    if result != ('ok', (True,) * 4):
        return report.violation(
                'hash differs', f'{text} and {other_text} are equal, but '
                f'(hashes equal, found in set, found in dict, merged in a '
                f'set) is {result[1:]}', {'left': text, 'right': other_text})
    return True


def run(shard, report, spec):
    kind, part, parts = shard
    quick = spec['tier'] == 'quick'
    if kind == 'annotations':
        pairs = annotations.universe(2)
        for position in ('parameter', 'returns', 'default'):
            by_key = {}
            for text, key, value in pairs:
                by_key.setdefault(key, []).append(
                        (f'{text} as {position}',
                         c05.holder(position, value)))
                if len(by_key[key]) == 1:
                    by_key[key].append(
                            (f'{text} again as {position}',
                             c05.holder(position,
                                        annotations.evaluate(text))))
            for index, members in enumerate(by_key.values()):
                if index % parts != part:
                    continue
                for text, value in members:
                    if not check_hash(report, text, value):
                        return
                for (text, value), (other_text, other) in (
                        itertools.permutations(members, 2)):
                    report.outcome('equal')
                    if not check_pair(report, text, value, other_text, other):
                        return
        report.sample(members[0][0])
    elif kind == 'values':
        objects, others = values_objects(), values_objects()
        report.sample(objects[part][0])
        for text, value in objects[part::parts]:
            if not check_hash(report, text, value):
                return
            for other_text, other in others:
                equal = attempt(lambda: value == other)
                report.count('transitions')
                report.outcome('equal' if equal == ('ok', True)
                               else 'different')
                if equal == ('ok', True) and not check_pair(
                        report, text, value, other_text, other):
                    return
    else:
        make = (c05.overloads if kind == 'overloaded'
                else lambda: itertools.chain(c05.structures(quick),
                                             c05.all_parameters()))
        others = {}
        for text, key, value in make():
            others.setdefault(key, []).append((text, value))
        for index, (text, key, value) in enumerate(make()):
            if index % parts != part:
                continue
            if not check_hash(report, text, value):
                return
            for other_text, other in others[key]:
                report.outcome('equal')
                if not check_pair(report, text, value, other_text, other):
                    return
        report.sample(text)
