"""C13: standard library callables have the parameters stubs declare."""
from vlib import (declarations, expected, reference, synthetic, target,
                  variables)

LEVEL = 'model_checking'
RULE = ('state: callable reachable in the importable modules of the standard '
        'library (functions, methods, class methods, bound builtins, slot '
        'wrappers of all classes, classes aside); transition: obtaining its '
        'signature; trace: comparison with the declaration found by '
        'independent symbolic execution of the installed stubs. In addition '
        'state: definition of a synthetic stub (parameter list, form of the '
        'definition, decorators, overloads, conditions) or type of a variable '
        'of such stub which is a function in runtime; transition: a way '
        'of accessing the callable; trace: comparison of its signature with '
        'what was put into the stub')
ASSUMPTIONS = [
    'stubs of modules which are not part of the standard library of the '
    'running version are not considered',
    'where stubs of the standard library describe a variable instead of the '
    'function only the kind of outcome is checked (meaning of types of '
    'variables is checked with synthetic stubs)',
    'callables inherited in stubs but overridden in runtime may be described '
    'by either',
]
PARTS = 8
LIMIT = 20


def shards(tier):
    return [[kind, part, PARTS]
            for kind in ('library', 'synthetic')
            for part in range(PARTS)] + [['variables', 0, 1]]


def prepare(context):
    project = synthetic.Project()
    declarations.add_to(project, context.tier)
    variables.add_to(project, context.tier)
    context.extra = project.write(context.scratch)
    target.build(context.target, seed=context.seed,
                 extra_paths=context.extra)


def extra_paths(context):
    return context.extra


def run(shard, report, spec):
    kind, *shard = shard
    if kind == 'library':
        explore(shard, report, spec, classes=False, annotations=False)
    elif kind == 'variables':
        explore_variables(report, spec)
    else:
        explore_declarations(shard, report, spec)


def explore_variables(report, spec):
    import importlib
    import paradigm.base as base
    for name, key, definition, alternatives in variables.variables(
            spec['tier']):
        module = importlib.import_module(name)
        report.state((name, key))
        report.count('transitions')
        try:
            signature = base.signature_from_callable(getattr(module, key))
        except Exception as error:
            signature, difference = None, repr(error)
        else:
            difference = variables.parameters_difference(
                    alternatives, signature, base)
        report.count('traces')
        if difference is None:
            report.outcome('as the type of the variable')
            report.sample(f'{definition}: {signature}')
        elif not report.violation(
                f'variable:{definition}',
                f'{name}.{key}: {difference}; declared as\n{definition}\n'
                f'signature is {signature}',
                {'callable': f'{name}.{key}', 'stub': definition}):
            return


def explore_declarations(shard, report, spec):
    import importlib
    import paradigm.base as base
    part, parts = shard
    for name, _, _, definitions in declarations.modules(spec['tier']):
        module = importlib.import_module(name)
        importlib.import_module(f'{declarations.PACKAGE}.sub')
        module.sub = importlib.import_module(f'{declarations.PACKAGE}.sub')
        for index, definition in enumerate(definitions):
            if index % parts != part:
                continue
            report.state((name, index))
            for access, value, first in declarations.accesses(
                    module, index, definition):
                report.count('transitions')
                try:
                    signature = base.signature_from_callable(value)
                except Exception as error:
                    signature, difference = None, repr(error)
                else:
                    difference = declarations.difference(
                            definition, first, signature, base, module)
                report.count('traces')
                if difference is None:
                    report.outcome(f'as in the stub ({definition.form})')
                    report.sample(f'{access}: {signature}')
                elif not report.violation(
                        f'{definition.form}:{definition.stub("f")}',
                        f'{access}: {difference}; declared as\n'
                        f'{definition.stub("f")}'
                        f'signature is {signature}',
                        {'callable': access, 'stub': definition.stub('f')}):
                    return


def explore(shard, report, spec, *, classes, annotations):
    import paradigm.base as base
    part, parts = shard
    oracle = expected.Oracle()
    if not oracle.modules or len(oracle.index.callables) < 5000:
        raise RuntimeError('standard library was not imported')
    for case in oracle.cases(part, parts):
        if classes is not None and isinstance(case.value, type) != classes:
            continue
        if case.skipped:
            report.outcome('out of the model: '
                           + case.skipped.split(':', 1)[0].split(' of ')[0])
            continue
        report.count('transitions')
        if not report.state(case.identity):
            report.count('aliases')
        try:
            signature = base.signature_from_callable(case.value)
        except (TypeError, ValueError) as error:
            signature = error
        except BaseException as error:
            if not report.violation(case.identity,
                                    f'{case.key}: {error!r}',
                                    {'callable': case.key}):
                return
            continue
        try:
            difference = oracle.difference(case, signature, base,
                                           annotations=annotations)
        except reference.Unknown as error:
            report.outcome('annotation is out of the model')
            report.note(f'{case.key}: {error}')
            continue
        report.count('traces')
        if difference is None:
            report.outcome(f'as declared ({case.level})')
            if case.specs:
                report.sample(f'{case.key}: {signature}')
        elif not report.violation(
                case.identity,
                f'{case.key} ({case.level}): {difference}; signature is '
                f'{signature}', {'callable': case.key}):
            return
