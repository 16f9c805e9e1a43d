"""Source of properties.jsonl (run: python tools/properties.py)."""
import json, pathlib

M = 'paradigm/_core/models.py'
A = 'paradigm/_core/annotated.py'
S = 'paradigm/_core/signatures.py'
T = 'paradigm/_core/stubs.py'
E = 'paradigm/_core/arboreal/evaluation.py'
C = 'paradigm/_core/arboreal/conversion.py'
SC = 'paradigm/_core/scoping.py'
CA = 'paradigm/_core/caching.py'
MO = 'paradigm/_core/modules.py'
EX = 'paradigm/_core/execution.py'
SO = 'paradigm/_core/sources.py'
IX = 'paradigm/_core/index.py'
CT = 'paradigm/_core/catalog.py'
B = 'paradigm/base.py'


def mech(*pairs):
    return [{'name': n, 'where': w} for n, w in pairs]


def state(*triples):
    return [{'name': n, 'meaning': m, 'where': w} for n, m, w in triples]


P = []


def prop(id, title, statement, over, text, why, files, mechanism, st=None,
         observe=None):
    anchors = {'files': files, 'mechanism': mechanism}
    if st:
        anchors['state'] = st
    anchors['observe_at'] = observe or [B]
    anchors['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


prop('C01', 'Signatures can be built exactly from legal parameter lists',
     'Building a plain signature succeeds exactly when some Python function definition could have that parameter list '
     '(kinds in order, names unique, at most one variadic of each kind, no required positional parameter after an optional one), and fails with ValueError or TypeError otherwise. '
     'Required parameters cannot be variadic, variadic parameters cannot carry a default, kinds must be genuine parameter kinds, and an overloaded signature needs at least two plain signatures. '
     'What was given (names, kinds, annotations, defaults, order, return annotation) is what can be read back, including "no default" being different from a default of None.',
     ['inputs'], 'all sequences of parameters over all kinds, required/optional with and without default, and colliding names',
     'the tests build only legal signatures from random strategies; no test constructs an illegal list, so the validation is never exercised',
     [M], mech(('PlainSignature.__new__ ordering/uniqueness validation', M), ('RequiredParameter/OptionalParameter validation', M),
               ('OverloadedSignature.__new__', M)))

prop('C02', 'expects() is true exactly when some completion of the call is accepted',
     'For every signature and every positional/keyword arguments, the "expects" query is true exactly when a Python call of a function with that signature could still succeed after supplying further arguments; '
     'too many positionals, unknown keywords, keywords naming positional-only parameters without variadic keywords and values given twice make it false. '
     'It never raises, whatever the keyword names or the values are.',
     ['inputs', 'programs'], 'all signature shapes up to the bound and all calls (number of positionals, sets of keywords including foreign ones and ones named as implementation parameters)',
     'random sampling of arguments known to be expected/unexpected leaves combinations (positional-only name given as keyword with **kwargs, multiple values) unvisited; there is no oracle for the exact truth value',
     [M], mech(('PlainSignature.expects', M), ('OverloadedSignature.expects', M)))

prop('C03', 'all_set() is true exactly when Python would accept the call',
     'For every signature and every positional/keyword arguments, the "all set" query is true exactly when calling a real Python function with that signature with these arguments succeeds in binding its parameters. '
     'Being all set implies being expected, and the answer depends neither on the values of the arguments nor on the order of keywords.',
     ['inputs', 'programs'], 'all signature shapes up to the bound and all calls over the parameter names plus foreign names',
     'tests only check implications with expects() on sampled signatures, not the exact value for every call',
     [M], mech(('PlainSignature.all_set', M), ('OverloadedSignature.all_set', M)))

prop('C04', 'Binding arguments is equivalent to functools.partial, however it is split',
     'A signature obtained by binding arguments accepts exactly the follow-up calls which a functools.partial of a function with the original signature accepts, for any chain of bindings (follow-up calls naming a parameter that is already gone aside). '
     'Bound positionals disappear, keyword-bound parameters become keyword-only with the bound value as default (as do the positional-or-keyword parameters after them), all other parameters and the return annotation stay as they were, and the original signature is not modified. '
     'Binding raises TypeError exactly when the arguments are not expected.',
     ['inputs', 'histories'], 'all signature shapes up to the bound, all chains of bind operations up to the depth, all follow-up calls',
     'tests apply one bind with sampled arguments and check only that it raises or not and that all/no parameters are left; chains and follow-up calls are never examined',
     [M], mech(('PlainSignature.bind', M), ('_bind_positionals', M), ('_bind_keywords', M), ('OverloadedSignature.bind', M)),
     state(('parameters', 'parameters left after bindings so far', M)))

prop('C05', 'Equality is structural: exactly equal parts make equal signatures',
     'Two signatures are equal exactly when they have the same sequence of parameters (same name, kind, optionality, default and annotation), the same return annotation and, if overloaded, the same sequence of alternatives; equality is reflexive, symmetric, transitive and consistent with inequality. '
     'Annotations are compared by structure: typing aliases equal the corresponding builtin generics, members of unions are compared regardless of order and spelling, and annotations differing in origin, arity or any argument are different. '
     'Objects of other types are never equal to signatures unless they say so themselves.',
     ['inputs'], 'all pairs of signatures over bounded shapes and all pairs of annotations of a bounded grammar, in every position an annotation or default can take',
     'tests sample pairs which are almost never nearly-equal; discriminating pairs (differing in exactly one component) need enumeration',
     [M, A], mech(('__eq__ of parameters and signatures', M), ('are_equal', A)))

prop('C06', 'Equal signatures have equal hashes and every signature is hashable',
     'Every signature and parameter is hashable, whatever its defaults and annotations are (including unhashable ones), its hash does not change, and equal objects have equal hashes, so that signatures can be looked up in sets and dictionaries by any equal signature.',
     ['inputs'], 'all signatures over bounded shapes, annotation grammar and default values (including unhashable and cross-type equal ones)',
     'tests check sampled pairs, practically all of which are unequal',
     [M, A], mech(('__hash__ of parameters and signatures', M)))

prop('C07', 'Representation evaluates back to an equal signature',
     'Evaluating the representation of a signature or a parameter, with the public names and the mentioned modules in scope, gives an object equal to the original, '
     'for every combination of kinds, presence of defaults and annotations that can be referred to by name (generic, builtin, union, callable, literal, forward-referenced, type-variable and parameter-specification annotations included).',
     ['inputs'], 'all signature shapes up to the bound times an annotation grammar in every position; signatures of the standard library callables whose parts have evaluable representations',
     'tests use a fixed list of types without nesting beyond what hypothesis happens to generate',
     [M, A], mech(('__repr__ of parameters and signatures', M), ('to_repr', A)))

prop('C08', 'String form reads as the Python parameter list of the signature',
     'The string form of a signature, taken as the header of a Python function definition, is syntactically valid and denotes the same parameters in the same order with the same kinds, optionality, annotations and defaults (unknown defaults shown as an ellipsis) and return annotation; '
     'separators "/" and "*" appear exactly where Python requires them. The string form of an overloaded signature is its alternatives joined by " | ".',
     ['inputs'], 'all signature shapes up to the bound times the annotation grammar',
     'tests only check that the result is a non-empty string containing parts',
     [M, A], mech(('PlainSignature.__str__', M), ('OptionalParameter.__str__', M)))

prop('C09', 'Pickling and copying preserve signatures',
     'Pickling with any protocol supporting slotted classes (2 and above) and unpickling, copying and deep-copying a signature or a parameter (whose annotations and defaults are picklable themselves) gives an equal object of the same type with the same string form, with the presence of defaults preserved and with the same answers to queries; the original stays intact.',
     ['inputs', 'configurations'], 'all signature shapes up to the bound times defaults and annotations times pickle protocols 2 to the highest and copy operations, nested overloaded signatures included',
     'the test round-trips sampled signatures with the default protocol only and relies on equality alone',
     [M], mech(('__getnewargs_ex__ / __getnewargs__', M)))

prop('C10', 'User-defined functions get exactly their declared signature',
     'For every user-defined function (plain, lambda, nested, asynchronous, generator, wrapped by a decorator preserving metadata, or named like something from the standard library) the obtained signature has exactly the declared parameters: names, order, kinds, defaults (same objects), annotations (absent ones being Any) and return annotation. '
     'It agrees with what the interpreter itself accepts in a call.',
     ['programs', 'inputs'], 'all parameter-list shapes up to the bound times the ways of defining a function times module/qualified names colliding with the standard library',
     'tests only check that some signature object is returned for sampled callables',
     [S, CT], mech(('from_callable for functions', S), ('_from_raw_signature/_parameter_from_raw', S), ('resolve_qualified_paths', S)))

prop('C11', 'Methods lose exactly what the call supplies',
     'A bound method has the signature of the underlying function with the first argument bound, a class method is bound to the class, a static method keeps all parameters and an unbound method keeps its first parameter; this holds for user-defined and builtin classes, inherited, overridden, super(), instance-attribute-shadowed and manually bound methods alike. '
     'In all cases the signature is that of the very object being called, not of a namesake found elsewhere.',
     ['programs', 'configurations'], 'all small class hierarchies (kinds of method definitions per level, access paths) and all builtin types instances methods',
     'tests sample methods of standard library classes and check only the type of the result',
     [S], mech(('from_callable for MethodType/BuiltinMethodType/MethodWrapperType/descriptors', S), ('_to_method_descriptor/_is_builtin_classmethod', S)))

prop('C12', 'functools.partial objects get the signature of the remaining call',
     'The signature of a functools.partial object (nested to any depth, over functions, methods, classes and builtins) is the signature of the wrapped callable with its positional and keyword arguments bound, so that it accepts exactly the calls the partial object accepts; '
     'partials whose arguments can never be accepted are reported with TypeError.',
     ['programs', 'histories'], 'all function shapes up to the bound times all partial applications nested up to the depth, and builtin callables with overloads',
     'partials are not generated by the tests beyond one level and the result is only checked for its type',
     [S, M], mech(('from_callable for functools.partial', S), ('bind', M)))

prop('C13', 'Standard library callables have the parameters their stubs declare',
     'For every callable of the standard library covered by the installed type stubs, the obtained signature has exactly the parameters declared there for the running platform and Python version: same names in the same order, same optionality, same default values (ellipsis meaning an unknown default), variadics, keyword-only parameters, one alternative per overload in the order of declaration. '
     'Positional parameters of stubs are positional-only, the first parameter of methods and class methods is present when unbound, and callables without stubs have the parameters reported by the interpreter.',
     ['inputs', 'configurations'], 'all callables reachable in all importable standard library modules and their classes; all shapes of parameter lists in synthetic stubs',
     'tests sample a few hundred callables per run and check only that a signature object is returned, never its content',
     [S, T, SC, MO, IX], mech(('_parameters_from and _to_*_parameters', S), ('_StateParser', T), ('resolve_object_path', SC), ('index of qualified paths', IX)))

prop('C14', 'Annotations of standard library callables mean what the stubs say',
     'For every standard library callable covered by stubs, each parameter and return annotation is the object denoted by the annotation expression in the scope of the stub declaring it: names resolved through imports, aliases, star imports and enclosing classes to the actual runtime objects where they exist, '
     'and generics, unions, literals, callables and tuples composed of the same arguments in the same order; missing annotations are Any.',
     ['inputs', 'configurations'], 'all annotations of all standard library callables reachable at runtime; all annotation expressions of a grammar up to the bound in synthetic stubs',
     'no test inspects annotations of stub-based signatures except for a handful in the README',
     [E, SC, S], mech(('evaluate_expression_node/evaluate_qualified_path', E), ('resolve_object_path', SC)),
     state(('objects/assignments caches', 'evaluated stub-only classes and aliases', E)))

prop('C15', 'Class signature is the one of its effective constructor',
     'The signature of a class is that of the first initializer or constructor found along its method resolution order without the instance or class parameter; user-defined classes agree with the interpreter, and stub-declared classes agree with their stub (the initializer is preferred when a stub class defines both) including inherited, overloaded and named-tuple constructors. '
     'The result of an initializer-based signature is the instance type (Self).',
     ['programs', 'configurations'], 'all small class hierarchies times which constructors each class defines, and all standard library classes',
     'tests sample standard library classes and check only the type of the result',
     [S, T], mech(('_resolve_builder_qualified_path/_to_class_builder_qualified_path/_to_mro', S), ('named tuple constructors', T)))

prop('C16', 'Names in stubs are resolved as Python itself would resolve them',
     'Whatever mixture of imports (plain, from, aliased, relative, star, re-exported through several modules), assignments, nested classes, version/platform conditionals and forward order a type stub uses, a name used in a signature denotes the object which executing the same source as a Python module would denote. '
     'Definitions excluded by conditionals are never used.',
     ['programs', 'configurations'], 'all stub programs of a bounded grammar: ways to introduce a name, lengths of re-export chains, scopes, conditionals and places of use',
     'typeshed happens to contain some of these combinations; tests do not check what the names resolve to and cannot vary the stubs',
     [T, SC, 'paradigm/_core/arboreal/utils.py', SO], mech(('_StateParser visitors', T), ('resolve_object_path', SC), ('to_parent_module_path', 'paradigm/_core/arboreal/utils.py')))

prop('C17', 'Inherited constructors of specialized generics have arguments substituted',
     'When a class described by stubs inherits its constructor from a specialized generic base (directly or through a chain of generic bases), type variables in the annotations of the constructor are replaced by the corresponding type arguments of the specialization, independently of other classes specializing the same base. '
     'Annotations not mentioning these type variables are unaffected.',
     ['programs', 'configurations'], 'all hierarchies of a bounded grammar: number of type variables, order of arguments, chain length, position of the constructor, pairs of specializations',
     'typeshed contains only some shapes and no test looks at substituted annotations',
     [T, SC], mech(('_process_classes_bases/_register_base_ast_node/_register_generic_specialization', T), ('_SpecializeGeneric', T)))

prop('C18', 'Answers do not depend on the history of previous queries',
     'The signature obtained for a callable is the same whichever signatures were obtained before in the process, in whichever order and however many times, and obtaining or binding signatures never changes signatures obtained earlier or the callable itself.',
     ['histories'], 'all ordered pairs (and triples of a sharp subset) of queries in a fresh process, and full sweeps over the standard library in different orders',
     'each test makes independent queries in whatever order hypothesis picks and compares nothing between orders',
     [S, E], mech(('caches of evaluated objects', E), ('forward references for recursive aliases', E)),
     state(('modules_cache/objects_cache/assignments cache', 'memoized evaluations', E)))

prop('C19', 'Concurrent queries from several threads give the sequential answers',
     'When several threads obtain signatures concurrently in a process, each of them gets the same signature as it would get alone, without errors and without deadlocks, under every interleaving, including the first queries of the process.',
     ['schedules'], 'all thread interleavings with a bounded number of preemptions at every source line of the library of two or three threads querying colliding callables from a cold state',
     'tests are single-threaded',
     [S, E], mech(('evaluation lock', S), ('caches of evaluated objects', E)),
     state(('caches shared by threads', 'partially evaluated aliases/classes are visible to other threads', E)))

prop('C20', 'Warm start gives the same answers as cold start',
     'Signatures obtained in a process which loaded previously saved metadata are the same as in the process which computed it from the stubs, for every callable; metadata saved by another version of the library, or made from stubs of another version of the type checker, is not used.',
     ['histories', 'configurations'], 'all histories of process starts up to the bound (cold, warm, version change, source-only/bytecode-only caches) compared over the whole standard library',
     'all tests of a run share one state of the cache',
     [CA, T, MO], mech(('caching.save/load', CA), ('pretty.repr_from', 'paradigm/_core/pretty.py'), ('version check', T)),
     state(('cache files', 'serialized stubs state and index next to the sources', CA)))

prop('C21', 'Interrupted or failing cache writes never lead to wrong answers',
     'After the process building the metadata cache crashes at any point of writing it, or the write fails (no space, read-only location), or a cache file is left truncated, empty or corrupted, the next start gives the same signatures as a clean one and no error. '
     'A failure to save costs only time, and a failing helper process is reported with an error instead of hanging the importing process.',
     ['crash_points', 'fault_sequences'], 'all crash points of the sequence of file system operations of a cold start (each with all combinations of files left complete, torn or missing at write granularity) and single faults at each operation',
     'tests never interrupt a cold start',
     [CA, T, MO, EX], mech(('saving order: version is written last', CA), ('fallback to recomputation on any loading error', T), ('warning on failed saving', CA)),
     state(('cache files', 'possibly torn', CA)))

prop('C22', 'Concurrently starting processes do not corrupt each other',
     'When several processes import the library at the same time, with no or stale saved metadata, each of them and every later process gets the same signatures as a process starting alone, under every interleaving of their reads and writes of the saved metadata.',
     ['schedules', 'crash_points'], 'all interleavings of file operations of two concurrently starting processes up to a bounded number of context switches',
     'the test suite builds the cache once before running',
     [CA, T, MO], mech(('deterministic content of cache files', CA), ('version written last', CA)),
     state(('cache files', 'shared by processes', CA)))

prop('C23', 'Answers do not depend on hash randomization or scanning order',
     'The signatures obtained for all callables are the same for every hash seed and whatever order the file system lists stub files and modules in.',
     ['configurations'], 'hash seeds and permutations of directory listings',
     'tests run with one fixed hash seed and one file system',
     [SO, T, MO, S], mech(('sorted modules paths', SO), ('sorted qualified paths', S)))

prop('C24', 'Importing works in every process context and leaves it intact',
     'Importing the library works and gives the same signatures in scripts, modules run by name, interactive and command-line code, threads and worker processes of every start method, with and without saved metadata where the context may build it; '
     'user code in the main module is not executed again, the identity and contents of the main module, the start method (which can still be chosen afterwards), command-line arguments, the working directory, the environment, handlers of signals and the import path are left as they were, nothing is printed and no processes are left behind. Options of the interpreter, warnings turned into errors and the locale do not change that.',
     ['configurations'], 'all combinations of entry points, start methods, states of saved metadata and main-module shapes; kinds of worker processes; options of the interpreter and environment variables',
     'tests always run under pytest with caches built beforehand',
     [EX, T, MO], mech(('call_in_process', EX), ('is_main_process', EX)))

prop('C25', 'Every callable gets a signature or a ValueError/TypeError',
     'Obtaining the signature of any callable object either succeeds or fails with ValueError (no signature is available) or TypeError (this kind of callable is not supported); no other error escapes, the process never crashes or hangs, and whenever the interpreter itself can tell the signature of a function, method, class or builtin, a signature is obtained. '
     'The result has the right shape: several alternatives for overloaded callables, never an empty or nested alternative.',
     ['inputs', 'programs'], 'all callables of the standard library reached through modules, classes, instances and metaclasses, and adversarial user callables (odd names, missing metadata, foreign metaclasses)',
     'tests filter out callables considered unsupported and sample the rest',
     [S, CT, T], mech(('singledispatch registrations', S), ('fallbacks to inspect', S), ('qualified_path_from', CT)))

prop('C26', 'Overloaded signatures behave as the union of their alternatives',
     'An overloaded signature is all set/expects a call exactly when some alternative is/does; binding keeps exactly the alternatives expecting the arguments, each bound, in the original order, collapsing to a plain signature when one is left and raising TypeError when none is. '
     'It exposes its alternatives in the order given.',
     ['inputs', 'histories'], 'all sequences of two and three alternatives over bounded shapes, all calls, all chains of two binds',
     'sampled overloaded signatures rarely have alternatives that disagree on the sampled arguments',
     [M], mech(('OverloadedSignature.all_set/expects/bind', M), ('from_signatures', M)))

prop('C27', 'Asking about callables and using signatures has no side effects',
     'Obtaining a signature and using it (queries, binding, comparison, hashing, string forms, copying, pickling) changes nothing but the set of imported modules: callables, classes, instances, partial objects and default values of the user stay exactly as they were (including their attributes, annotations, caches and subclasses), no code of the callable itself (body, constructor, metaclass call, property) is executed, previously obtained signatures stay the same, '
     'namespaces of modules and classes of the standard library, import and warnings configuration, environment, signal handlers, threads, child processes, opened files, state of random numbers and standard streams are untouched, and nothing is printed.',
     ['inputs', 'histories'], 'all callables of the standard library with everything or only their module imported, all sequences of operations up to the bound on user-defined callables of all kinds',
     'tests look at returned objects only; nothing observes the callables and the process afterwards',
     [S, E, M], mech(('from_callable', S), ('evaluate_qualified_path and evaluators of statements', E), ('bind and others', M)))


if __name__ == '__main__':
    out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
    for p in P:
        assert len(p['title']) <= 80, p['title']
    out.write_text(''.join(json.dumps(p) + '\n' for p in P))
    print(len(P))
