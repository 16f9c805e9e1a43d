"""Source of MANIFEST.json (run: python tools/manifest.py)."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.path.insert(0, str(ROOT / 'tools'))
import properties  # noqa

TECHNIQUES = {
    'C01': ('explicit enumeration of parameter sequences, reference model',
            'all parameter sequences up to length 4 (thorough 5) over all kinds/optionality/name collisions, the compiler being the oracle'),
    'C02': ('exhaustive enumeration of signature shapes and calls, model bound to real functions',
            'all shapes up to 4 parameters x all calls; a small binding model is validated against real calls'),
    'C03': ('exhaustive enumeration of signature shapes and calls, the interpreter as oracle',
            'all shapes up to 4 parameters x all calls executed on real functions'),
    'C04': ('breadth-first exploration of chains of bindings against functools.partial',
            'all shapes up to 3-4 parameters, chains of 2 binds, all follow-up calls'),
    'C05': ('exhaustive pairs over annotation grammar and signature shapes against structural model',
            'all pairs of bounded grammar'),
    'C06': ('exhaustive pairs over annotation grammar and signature shapes, hash consistency',
            'all pairs of equal objects of bounded grammar'),
    'C07': ('exhaustive enumeration of shapes x annotation grammar x defaults with round trip through eval',
            'all shapes up to the bound with every annotation and default in every position'),
    'C08': ('exhaustive enumeration of shapes x annotation grammar, the compiler as oracle',
            'string form compiled as function header and compared part by part'),
    'C09': ('exhaustive enumeration of signatures x pickle protocols and copy operations (chains of two)',
            'protocols 2 and above; both pickle implementations'),
    'C10': ('exhaustive enumeration of parameter lists x ways of defining functions x claimed names, the declaration and real calls as oracle',
            'all shapes up to 3 named parameters; all names of stubs and loaded standard library modules'),
    'C11': ('exhaustive enumeration of class hierarchies x kinds of methods x access paths, interpreted descriptor protocol as model',
            'all shapes up to 3 named parameters, all hierarchies of 2 levels and diamonds, all attributes of instances of ~150 builtin types'),
    'C12': ('exhaustive exploration of chains of partial applications against functools.partial',
            'all shapes up to 2 parameters, chains of 2 (flattened and not), all follow-up calls; builtins by composition with bind'),
    'C13': ('exhaustive enumeration of callables reachable in the standard library against symbolic execution of the stubs',
            'all functions, methods, bound builtins and slot wrappers; independent interpreter of stubs as reference model; synthetic stubs with all shapes of parameter lists up to 3 parameters x forms x decorators x overloads'),
    'C14': ('exhaustive enumeration of callables reachable in the standard library, annotations evaluated by an independent model of stubs',
            'all annotations of all callables and classes; 24 000 (thorough 33 000) annotations of a grammar of depth 2 in synthetic stubs, the interpreter being the oracle'),
    'C15': ('exhaustive enumeration of classes reachable in the standard library and of bounded user class hierarchies',
            'all classes; constructor resolution along the MRO by independent model of stubs, the interpreter for user classes'),
    'C16': ('exhaustive enumeration of synthetic stubs (chains of binding mechanisms, conditionals, nested scopes, aliases, star imports) against executing the same source by Python',
            'all chains of 2 (thorough 3) of 21 mechanisms over 4 kinds of leaves, all subsets of nested scopes; with and without names existing in runtime'),
    'C17': ('exhaustive enumeration of hierarchies of generic classes in synthetic stubs against substitution along original bases in runtime',
            'all declarations of 1-2 parameters x chains of 1-3 specializations x arguments; imported under all spellings'),
    'C18': ('stateless exploration of histories of queries (forks of the process), every answer compared with the reference one',
            'all callables of the standard library asked alone, in 8 total orders, with minimal imports; all ordered pairs (thorough triples) of queries sharing something'),
    'C19': ('stateless exploration of thread schedules of the real code under a controlled scheduler with cooperative locks',
            'all single preemptions at every line for colliding pairs of queries from a cold state, bounded pairs of preemptions, three threads; thorough: every instruction'),
    'C20': ('explicit-state exploration of histories of starts (saved files being the state), every answer compared with a cold start',
            'closure of states over versions of the library and of stubs, interpreter options, removal/copying of saved files; complete standard library cold against warm'),
    'C21': ('exhaustive enumeration of crash points, torn writes, failing operations and damaged files with an interposed C library',
            'every file operation killed/torn/failing, pairs of crashes (thorough triples), every line (thorough byte) truncation, helper death at every step'),
    'C22': ('stateless exploration of interleavings of file operations of starting processes under a controller (interposed C library)',
            'all single context switches and pairs of switches around modifications (thorough: all pairs, triples), crashes of one process, three processes, four initial states of the saved files'),
    'C23': ('exhaustive enumeration of permutations of directory listings and of hash seeds, answers compared with those of the natural order',
            'all permutations of every scanned directory of a synthetic library (thorough: full product), 64 (thorough 1024) hash seeds; complete standard library with 8 (thorough 96) combinations'),
    'C24': ('exhaustive enumeration of contexts of importing (entry points x start methods x saved files, kinds of workers, options, environment), answers and the context compared before and after',
            '24 entry points x 4 start methods x 3 states of the saved files; 6 kinds of workers x 4 start methods x early/late import; 15 sets of options and 12 environments (thorough: with every entry point)'),
    'C25': ('exhaustive enumeration of all reachable callables of the runtime and of families of user-defined callables and stub declarations, the kind of the result compared with that of the runtime',
            'all callables reachable from importable stdlib modules (attributes, inherited, of instances), user objects over bounded metadata, classes, wrappers, all forms of definitions and declarations in stubs'),
    'C26': ('exhaustive enumeration of overload sequences, calls and bind chains against union model',
            'all sequences of 2-3 alternatives over bounded shapes'),
    'C27': ('exhaustive exploration of sequences of operations with monitors of the state of the process and of user objects after each of them',
            'all callables of the standard library in two contexts; all sequences of 2 (thorough 3) of 13 operations on 99 kinds of user-defined callables'),
}
TECHNIQUES.update(json.loads((ROOT / 'tools' / 'techniques.json').read_text())
                  if (ROOT / 'tools' / 'techniques.json').exists() else {})
REASONS = {}


def main():
    checks, missing = [], []
    for p in properties.P:
        id_ = p['id']
        if id_ not in TECHNIQUES:
            missing.append({'property': id_, 'reason': REASONS.get(
                id_, 'check is under construction')})
            continue
        technique, note = TECHNIQUES[id_]
        text = (ROOT / 'checks' / f'{id_.lower()}.py').read_text()
        level = 'model_checking'
        for line in text.splitlines():
            if line.startswith("LEVEL = '"):
                level = eval(line.split('=', 1)[1])
        checks.append({
            'property': id_,
            'quick_cmd': f'/opt/venv/bin/python run.py {id_} quick',
            'thorough_cmd': f'/opt/venv/bin/python run.py {id_} thorough',
            'technique': 'model checking: ' + technique,
            'level': level, 'level_note': note})
    manifest = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
                'not_applicable': missing}
    (ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1)
                                        + '\n')


main()
