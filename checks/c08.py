"""C08: string form reads as the Python parameter list."""
import ast
import inspect

from vlib import annotations, library, texts
from vlib.shapes import (Param, attempt, base, from_signature, header,
                         kind_of, show)

LEVEL = 'model_checking'
RULE = ('state: signature built by the generator (annotation grammar in all '
        'positions, default values, all bounded shapes, overloads) or '
        'obtained from a callable of the standard library; '
        'transition: compilation of its string form as the header of a '
        'function definition, whose parameters (as reported by the '
        'interpreter) are compared one by one with the generated ones; '
        'trace: generator -> string -> function -> parameters')
ASSUMPTIONS = ['equality of parameters is structural (decided by C05)']
PARTS = 16
LIBRARY_PARTS = 8


def shards(tier):
    return ([[i, PARTS] for i in range(PARTS)]
            + [['library', i] for i in range(LIBRARY_PARTS)])


def run_library(part, report):
    """Signatures of the standard library."""
    names = library.stubs_classes()
    for what, signature in library.signatures(part, LIBRARY_PARTS):
        namespace = library.scope()
        if not library.is_evaluable(signature, namespace, names):
            report.outcome('cannot be referred to by name')
            continue
        for plain in library.plains(signature):
            by_name = {p.name: p for p in plain.parameters}
            if not compare(report, what, plain, from_signature(plain),
                           lambda p: by_name[p.name].annotation,
                           lambda p: by_name[p.name].default,
                           plain.returns, namespace):
                return


def run(shard, report, spec):
    if shard[0] == 'library':
        return run_library(shard[1], report)
    part, parts = shard
    quick = spec['tier'] == 'quick'
    namespace = texts.namespace()
    items = list(texts.signatures(2, quick=quick))
    for index, item in enumerate(items):
        if index % parts != part:
            continue
        if not check(report, item, namespace):
            return
    for index, signature in enumerate(texts.overloaded(items)):
        if index % parts != part:
            continue
        report.count('transitions')
        actual = attempt(str, signature)
        expected = ' | '.join(map(str, signature.signatures))
        if actual != ('ok', expected):
            report.violation('overloaded', f'string form of overloaded is '
                             f'{actual[1:]}, expected {expected}', None)
            return


def check(report, item, namespace):
    shape, annotations_texts, defaults_texts, returns_text, signature = item
    return compare(
            report, texts.describe(*item[:-1]), signature, shape,
            lambda p: annotations.evaluate(annotations_texts[p.name]),
            lambda p: annotations.evaluate(defaults_texts[p.name]),
            annotations.evaluate(returns_text), namespace)


def compare(report, what, signature, shape, annotation_of, default_of,
            returns, namespace):
    report.state(what)
    report.count('transitions')
    text = attempt(str, signature)
    case = {'what': what, 'text': text[-1]}
    if text[0] != 'ok':
        return report.violation('fails', f'{what}: str gives {text[1:]}',
                                case)
    text = text[1]
    local = dict(namespace)
    compiled = attempt(exec, f'def f{text}: pass', local)
    if compiled[0] != 'ok':
        return report.violation('not a header', f'{what}: string form {text} '
                                f'is not a function header: {compiled[1:]}',
                                case)
    parameters = list(inspect.signature(local['f']).parameters.values())
    if ([(p.name, int(p.kind)) for p in parameters]
            != [(p.name, p.kind) for p in shape]):
        return report.violation('parameters', f'{what}: string form {text} '
                                'has other parameters', case)
    for p, raw in zip(shape, parameters):
        has_default = raw.default is not inspect.Parameter.empty
        if has_default != (p.opt in 'do'):
            return report.violation('optionality', f'{what}: string form '
                                    f'{text}, parameter {p.name}', case)
        if p.opt == 'o' and raw.default is not ...:
            return report.violation('unknown default', f'{what}: string form '
                                    f'{text}, parameter {p.name}', case)
        pairs = [(raw.annotation, annotation_of(p))]
        if p.opt == 'd':
            pairs.append((raw.default, default_of(p)))
        for value, expected in pairs:
            if not same(value, expected):
                return report.violation(
                        'part', f'{what}: string form {text}, parameter '
                        f'{p.name}: {value!r} instead of {expected!r}', case)
    if not same(local['f'].__annotations__['return'], returns):
        return report.violation('returns', f'{what}: string form {text}',
                                case)
    # separators are where they are in the canonical header
    plain = attempt(lambda: [
        type(a).__name__ for a in ast.walk(ast.parse(f'def f{text}: pass'))
    ])
    if plain[0] != 'ok':
        return report.violation('not parsed', f'{what}: {text}', case)
    expected = ('(' + header(
            shape,
            annotate=lambda p: '_', default_of=lambda p: '_') + ')')
    source = ast.parse(f'def f{text}: pass').body[0].args
    for arg in ast.walk(source):
        if isinstance(arg, ast.arg):
            arg.annotation = ast.Name('_')
    source.defaults = [ast.Name('_') for _ in source.defaults]
    source.kw_defaults = [d and ast.Name('_') for d in source.kw_defaults]
    if ast.unparse(source) != ast.unparse(ast.parse(
            f'def f{expected}: pass').body[0].args):
        return report.violation('separators', f'{what}: {text} while '
                                f'expected {expected}', case)
    report.count('traces')
    report.outcome('readable')
    report.sample(text)
    return True


def same(left, right):
    made = [base.PlainSignature(returns=value) for value in (left, right)]
    return made[0] == made[1] and made[1] == made[0]
