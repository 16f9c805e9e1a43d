"""C14: annotations of standard library callables mean what stubs say."""
from vlib import annotated_stubs, stub_only, synthetic, target, variables

from . import c13

LEVEL = 'model_checking'
RULE = ('state: callable or class reachable in the importable modules of the '
        'standard library; transition: obtaining its signature; trace: '
        'comparison of all annotations with objects denoted by annotations '
        'of the declaration, found by independent symbolic execution of the '
        'installed stubs and evaluated against the actual runtime objects. '
        'In addition state: annotation of a synthetic stub out of a grammar '
        '(of a function or within the type of a variable) or definition of '
        'an object existing in stubs only; '
        'trace: comparison with what the interpreter makes of the same text '
        'in the runtime module or (for objects existing in stubs only) with '
        'the other annotations mentioning the object')
ASSUMPTIONS = [
    'arguments of generics which are not generic in runtime are not compared',
    'annotation of the first parameter of methods is not checked',
    'classes existing in stubs only are compared by name',
    'expressions of synthetic annotations which the interpreter cannot '
    'evaluate are skipped',
]
PARTS = 8
LIMIT = 20


def shards(tier):
    return [[kind, part, PARTS]
            for kind in ('library', 'synthetic')
            for part in range(PARTS)] + [['variables', 0, 1], ['stub only', 0, 1]]


def prepare(context):
    project = synthetic.Project()
    annotated_stubs.add_to(project, context.tier)
    variables.add_to(project, context.tier)
    stub_only.add_to(project)
    context.extra = project.write(context.scratch)
    target.build(context.target, seed=context.seed,
                 extra_paths=context.extra)


def extra_paths(context):
    return context.extra


def run(shard, report, spec):
    kind, *shard = shard
    if kind == 'library':
        c13.explore(shard, report, spec, classes=None, annotations=True)
    elif kind == 'variables':
        explore_variables(report, spec)
    elif kind == 'stub only':
        explore_stub_only(report)
    else:
        explore_annotations(shard, report, spec)


def explore_variables(report, spec):
    import importlib
    import paradigm.base as base
    for name, key, definition, alternatives in variables.variables(
            spec['tier']):
        module = importlib.import_module(name)
        report.count('transitions')
        case = {'callable': f'{name}.{key}', 'stub': definition}
        try:
            signature = base.signature_from_callable(getattr(module, key))
        except Exception as error:
            if not report.violation(f'variable:{definition}',
                                    f'{error!r} for {definition}', case):
                return
            continue
        if variables.parameters_difference(alternatives, signature, base):
            # is a subject of C13
            report.outcome('parameters are not the declared ones')
            continue
        for text, expected, actual in variables.annotations(
                module, alternatives, signature, base):
            report.state((definition, text))
            report.count('traces')
            if annotated_stubs.same(actual, expected):
                report.outcome('as evaluated (type of a variable)')
            elif not report.violation(
                    f'variable:{definition}',
                    f'annotation "{text}" in "{definition}" is {actual!r} '
                    f'instead of {expected!r}', case):
                return


def explore_stub_only(report):
    import paradigm.base as base
    for name, text, spelling in stub_only.modules():
        report.state(text)
        case = {'module': name, 'stub': text}
        try:
            first, second, again = map(
                    base.signature_from_callable,
                    [*stub_only.functions(name), stub_only.functions(name)[0]]
            )
        except Exception as error:
            first, difference = None, repr(error)
        else:
            difference = (
                'asking again gives a different answer'
                if first != again
                else stub_only.difference(text, spelling, first, second,
                                          annotated_stubs.same)
            )
        report.count('transitions', 3)
        report.count('traces')
        if difference is None:
            report.outcome('as defined (existing in stubs only)')
            report.sample(f'{text}: {first}')
        elif not report.violation(f'definition:{text}',
                                  f'{difference} for\n{text}\nsignature is '
                                  f'{first}', case):
            return


def explore_annotations(shard, report, spec):
    import importlib
    import paradigm.base as base
    part, parts = shard
    for name, _, _, functions in annotated_stubs.modules(spec['tier']):
        module = importlib.import_module(name)
        for index, texts in enumerate(functions):
            if index % parts != part:
                continue
            report.count('transitions')
            stub = annotated_stubs.STUB.format(index, *texts).rstrip()
            case = {'module': name, 'stub': stub}
            try:
                signature = base.signature_from_callable(
                        getattr(module, f'f{index}'))
            except Exception as error:
                if not report.violation(f'function:{stub}',
                                        f'{error!r} for {stub}', case):
                    return
                continue
            annotations = [*[parameter.annotation
                             for parameter in signature.parameters],
                           signature.returns]
            for position, text, actual in zip(annotated_stubs.POSITIONS,
                                              texts, annotations):
                try:
                    expected = eval(text, vars(module))
                except TypeError:
                    report.outcome('cannot be evaluated by the interpreter')
                    continue
                report.state((text, position))
                report.count('traces')
                if annotated_stubs.same(actual, expected):
                    report.outcome(f'as evaluated ({position})')
                    report.sample(f'{text}: {actual!r}')
                elif not report.violation(
                        f'annotation:{text}',
                        f'annotation "{text}" ({position}) is {actual!r} '
                        f'instead of {expected!r}', case):
                    return
