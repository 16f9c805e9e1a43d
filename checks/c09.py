"""C09: pickling and copying preserve signatures."""
import copy
import pickle

from vlib import library, stub_only, synthetic, target, texts
from vlib.shapes import (attempt, base, call_names, from_parameter,
                         from_signature, positionals_count, subsets)

LEVEL = 'model_checking'
RULE = ('state: signature or parameter built by the generator (shapes, '
        'defaults, annotations, overloads) or signature of a callable of the '
        'standard library or of a function of a synthetic stub mentioning '
        'objects which exist in stubs only; transition: pickling with each '
        'protocol by both pickle implementations, copy or deepcopy, the '
        'result being compared by ==, part by part, by string form, hash and '
        'answers to queries; trace: chains of two such operations')
ASSUMPTIONS = ['annotations and defaults themselves survive pickling '
               '(objects for which the interpreter fails are skipped)']
PARTS = 16
LIBRARY_PARTS = 16


def shards(tier):
    return ([[i, PARTS] for i in range(PARTS)]
            + [['library', i] for i in range(LIBRARY_PARTS)]
            + [['stub only', 0]])


def prepare(context):
    project = synthetic.Project()
    stub_only.add_to(project)
    context.extra = project.write(context.scratch)
    target.build(context.target, seed=context.seed,
                 extra_paths=context.extra)


def extra_paths(context):
    return context.extra


def python_pickle(value, protocol):
    import io
    file = io.BytesIO()
    pickle._Pickler(file, protocol).dump(value)
    return pickle._loads(file.getvalue())


def operations():
    # instances of slotted classes cannot be pickled by protocols 0 and 1
    for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1):
        yield (f'pickle protocol {protocol}',
               lambda value, protocol=protocol: pickle.loads(
                       pickle.dumps(value, protocol)))
        yield (f'python pickle protocol {protocol}',
               lambda value, protocol=protocol: python_pickle(value,
                                                              protocol))
    yield 'copy', copy.copy
    yield 'deepcopy', copy.deepcopy
    yield ('deepcopy in container',
           lambda value: copy.deepcopy({'x': [value, value]})['x'][1])


def parts_of(value):
    """Everything that can be read from the object."""
    if isinstance(value, base.OverloadedSignature):
        return [parts_of(s) for s in value.signatures]
    elif isinstance(value, base.PlainSignature):
        return [parts_of(p) for p in value.parameters]
    else:
        return from_parameter(value)


def answers(value):
    if not isinstance(value, (base.OverloadedSignature,
                              base.PlainSignature)):
        return None
    plains = (value.signatures
              if isinstance(value, base.OverloadedSignature) else [value])
    names = list(dict.fromkeys(p.name for plain in plains
                               for p in plain.parameters))[:4]
    result = []
    for count in range(3):
        for keywords in subsets(names, 2):
            args, kwargs = (None,) * count, dict.fromkeys(keywords)
            result.append((value.all_set(*args, **kwargs),
                           value.expects(*args, **kwargs),
                           attempt(lambda: str(value.bind(*args,
                                                          **kwargs)))[:2]))
    return result


def check(report, value, parts, what, made=()):
    before = attempt(lambda: (parts_of(value), str(value), repr(value),
                              answers(value)))
    if before[0] != 'ok':
        return report.violation('fails', f'{what}: {before[1:]}', None)
    for name, operation in operations():
        portable = attempt(lambda: [
            operation(part) == part or 0 / 0 for part in parts])
        if portable[0] != 'ok' and not (made and all(
                attempt(lambda: operation(leaf) == leaf or 0 / 0)[0] == 'ok'
                or leaf in made
                for leaf in library.leaves(parts, variables=True))):
            # annotation or default does not survive on its own
            report.outcome('skipped')
            continue
        report.count('transitions')
        result = attempt(operation, value)
        if result[0] == 'ok' and name != 'copy':
            # once more, from the copy
            result = attempt(operation, result[1])
            report.count('traces')
        case = {'what': what, 'operation': name}
        if result[0] != 'ok':
            if not report.violation(f'{name} fails', f'{name} of {what}: '
                                    f'{result[1:]}', case):
                return False
            continue
        other = result[1]
        same = attempt(lambda: (type(value) is type(other), value == other,
                                other == value, hash(value) == hash(other),
                                before == ('ok', (parts_of(other),
                                                  str(other), repr(other),
                                                  answers(other)))))
        report.outcome('preserved' if same == ('ok', (True,) * 5)
                       else 'differs')
        if same != ('ok', (True,) * 5):
            if not report.violation(f'{name} differs', f'{name} of {what} '
                                    f'gives {other!r}: (type, ==, reversed '
                                    f'==, hash, parts) {same[1:]}', case):
                return False
    after = attempt(lambda: (parts_of(value), str(value), repr(value),
                             answers(value)))
    if after != before:
        return report.violation('original', f'{what} was modified', None)
    return True


def run_library(part, report):
    """Signatures of the standard library."""
    names = library.stubs_classes()
    for what, signature in library.signatures(part, LIBRARY_PARTS):
        report.state(what)
        annotations, defaults = library.values(signature)
        made = [leaf for leaf in library.leaves(annotations)
                if library.is_made(leaf, names)]
        if not check(report, signature, [*annotations, *defaults], what,
                     made):
            return


def run_stub_only(report):
    for name, text, _ in stub_only.modules():
        signatures = [base.signature_from_callable(function)
                      for function in stub_only.functions(name)]
        made = stub_only.objects(*signatures)
        for number, signature in enumerate(signatures):
            report.state((text, number))
            annotations, defaults = library.values(signature)
            if not check(report, signature, [*annotations, *defaults],
                         f'{signature} defined by\n{text}\n', made):
                return


def run(shard, report, spec):
    if shard[0] == 'library':
        return run_library(shard[1], report)
    if shard[0] == 'stub only':
        return run_stub_only(report)
    part, parts = shard
    quick = spec['tier'] == 'quick'
    items = list(texts.signatures(0 if quick else 1, quick=quick))
    for index, item in enumerate(items):
        if index % parts != part:
            continue
        shape, _, _, _, signature = item
        what = texts.describe(*item[:-1])
        report.state(what)
        values = [getattr(p, name) for p in signature.parameters
                  for name in ('annotation', 'default')
                  if name == 'annotation' or getattr(p, 'has_default', False)]
        if not check(report, signature, [*values, signature.returns], what):
            return
        for p in signature.parameters:
            if not check(report, p, values, f'parameter {p} of {what}'):
                return
        report.sample(what)
    for index, signature in enumerate(texts.overloaded(items, step=7)):
        if index % parts == part:
            values = [value for s in signature.signatures
                      for p in s.parameters
                      for value in (p.annotation,
                                    getattr(p, 'default', None))]
            values += [s.returns for s in signature.signatures]
            report.state(('overloaded', index))
            if not check(report, signature, values, str(signature)):
                return
