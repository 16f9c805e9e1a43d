"""C27: asking about callables has no side effects."""
import copy
import importlib
import itertools
import os
import pickle
import sys
import tempfile
import types
import warnings

from vlib import target, world

from .c18 import in_fork

LEVEL = 'model_checking'
RULE = ('state: observable state of the process (namespaces of all modules '
        'and classes, public containers of modules, import and warnings '
        'configuration, environment, signals, threads, children, files, '
        'random numbers, standard streams) and of objects of the user '
        '(functions, classes, instances, partial objects with everything '
        'reachable from them); transition: operation (query for a signature, '
        'or use of the obtained one); invariant: the state is the same '
        'except for modules being imported. Explored: all callables of the '
        'standard library with everything imported and with their module '
        'only, all sequences of operations up to the bound on user-defined '
        'callables of all kinds, chains of operations on signatures')
ASSUMPTIONS = [
    'attributes which modules create themselves when being looked at '
    '(module level "__getattr__", submodules, "__builtins__" being put by '
    'evaluation of text signatures by the interpreter) are not side effects',
    'private containers and caches of the standard library are not observed',
]
LIMIT = 6
PARTS = 8
BATCH = 20


def prepare(context):
    target.build(context.target, seed=context.seed)


def shards(tier):
    return [[mode, part] for mode in ('library', 'lean', 'user')
            for part in range(PARTS)]


class Output:
    """Monitor of everything written to standard streams."""

    def __init__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.errors = os.dup(2)
        self.file = tempfile.TemporaryFile(dir='.')
        os.dup2(self.file.fileno(), 1)
        os.dup2(self.file.fileno(), 2)

    def take(self):
        sys.stdout.flush()
        sys.stderr.flush()
        size = os.fstat(self.file.fileno()).st_size
        data = os.pread(self.file.fileno(), size, 0)
        os.ftruncate(self.file.fileno(), 0)
        os.lseek(self.file.fileno(), 0, os.SEEK_SET)
        return data.decode(errors='replace')

    def restore(self):
        os.dup2(self.errors, 1)
        os.dup2(self.errors, 2)
        os.close(self.errors)
        self.file.close()


def run(shard, report, spec):
    mode, part = shard
    warnings.simplefilter('ignore')
    output = Output()
    try:
        {'library': run_library, 'lean': run_lean, 'user': run_user}[mode](
                report, part, output, spec['tier'] == 'quick')
    finally:
        text = output.take()
        output.restore()
        if text:
            sys.stderr.write(text)


def use(base, value):
    """Everything a user may do with a callable, errors apart."""
    try:
        signature = base.signature_from_callable(value)
    except (TypeError, ValueError):
        return None
    for operation in (str, repr, hash, lambda value: value == copy.copy(value),
                      lambda value: value.expects(None),
                      lambda value: value.all_set(None),
                      lambda value: value.bind(None),
                      lambda value: value.bind(key=None)):
        try:
            operation(signature)
        except TypeError:
            pass
    return signature


def run_library(report, part, output, quick):
    import paradigm.base as base
    from vlib import expected
    callables = expected.Index(expected.import_modules()).callables
    mine = callables[part::PARTS]
    output.take()
    before = world.process()
    for start in range(0, len(mine), BATCH):
        batch = mine[start:start + BATCH]
        for module_name, path, value in batch:
            report.state((module_name, path))
            report.count('transitions')
            use(base, value)
        after = world.process()
        report.count('traces', len(batch))
        report.outcome('standard library, everything imported', len(batch))
        names = [f'{module_name}:{".".join(path)}'
                 for module_name, path, _ in batch]
        if not judge(report, 'library', names, before, after, output):
            return
        before = after


def judge(report, mode, names, before, after, output):
    changes = world.difference(before, after)
    text = output.take()
    if text:
        changes.append(f'output: {text[:300]}')
    for change in changes:
        if not report.violation(
                f'{mode}:{change}'[:200],
                f'after asking about some of {", ".join(names)}: {change}',
                {'callables': names}):
            return False
    return True


def run_lean(report, part, output, quick):
    import paradigm.base as base
    from vlib import expected
    for name in expected.module_names()[part::PARTS]:
        status, result = in_fork(lambda: ask_module(base, expected, name,
                                                    output))
        text = output.take()
        if status == 'error':
            report.violation(f'lean:{name}', f'{name}: {result}: {text}',
                             {'module': name})
            continue
        if result is None:
            report.outcome('module cannot be imported')
            continue
        count, changes, imported = result
        report.state(name)
        report.count('transitions', count)
        report.count('traces', count)
        report.outcome('standard library, only the module imported', count)
        if changes:
            # modules imported meanwhile may have effects of their own
            status, own = in_fork(lambda: import_only(name, imported, output))
            if status == 'ok':
                changes = [change for change in changes if change not in own]
        for change in changes:
            if not report.violation(
                    f'lean:{name}:{change}'[:200],
                    f'after asking about callables of {name}: {change}',
                    {'module': name}):
                return


def ask_module(base, expected, name, output):
    try:
        module = importlib.import_module(name)
    except BaseException:
        return None
    output.take()
    index = expected.Index([module])
    known = set(sys.modules)
    before = world.process()
    for _, _, value in index.callables:
        use(base, value)
    after = world.process()
    changes = world.difference(before, after)
    changes += [f'module {new} with side effects is imported'
                for new in sorted(set(sys.modules) - known)
                if new.split('.')[0] in ('this', 'antigravity', 'idlelib',
                                         'turtle', 'turtledemo', 'test')]
    text = output.take()
    if text:
        changes.append(f'output: {text[:300]}')
    return (len(index.callables), changes,
            [new for new in sys.modules if new not in known])


def import_only(name, imported, output):
    importlib.import_module(name)
    output.take()
    before = world.process()
    for other in imported:
        try:
            importlib.import_module(other)
        except BaseException:
            pass
    changes = world.difference(before, world.process())
    text = output.take()
    if text:
        changes.append(f'output: {text[:300]}')
    return changes


USER = '''
import abc, contextlib, dataclasses, enum, functools, typing
T = typing.TypeVar('T')
LOG = []
DEFAULT_LIST, DEFAULT_DICT = [1], {'a': [2]}


class Opaque:
    def __eq__(self, other): return self is other
    def __hash__(self): return 1


def plain(a, b=DEFAULT_LIST, *args, c: 'Undefined' = DEFAULT_DICT,
          **kwargs) -> 'typing.List[Undefined]':
    LOG.append('plain')


def bare(x, y=0): LOG.append('bare')


def unset(x, y): LOG.append('unset')


unset.__annotations__ = {}
unset.attribute = {'deep': [1]}


def outer(z):
    def inner(x: T, *, y=z) -> T:
        LOG.append(z)
    return inner


closure = outer(Opaque())


def decorated(function):
    @functools.wraps(function)
    def wrapper(*args, **kwargs):
        LOG.append('wrapper')
        return function(*args, **kwargs)
    return wrapper


wrapped = decorated(plain)
twice = decorated(decorated(bare))


@functools.lru_cache
def cached(x: int, y=()): LOG.append('cached')


@functools.singledispatch
def dispatched(x, y=()): LOG.append('dispatched')


@dispatched.register
def dispatched_int(x: int, y=()): LOG.append('dispatched int')


@contextlib.contextmanager
def managed(x: int):
    LOG.append('managed')
    yield


async def coroutine(x): LOG.append('coroutine')


def generator(x):
    LOG.append('generator')
    yield


class Descriptor:
    def __get__(self, instance, owner):
        LOG.append('descriptor')
        return bare


class Meta(type):
    def __call__(cls, *args, **kwargs):
        LOG.append('metaclass call')
        return super().__call__(*args, **kwargs)


class Base(typing.Generic[T]):
    attribute = DEFAULT_LIST

    def __init__(self, x: T, *, y=DEFAULT_DICT):
        LOG.append('initializer')

    def __init_subclass__(cls, **kwargs):
        LOG.append('subclass')

    def method(self, x: T = DEFAULT_LIST) -> 'Base': LOG.append('method')

    @classmethod
    def create(cls, z): LOG.append('class method')

    @staticmethod
    def static(z: int = 0): LOG.append('static method')

    @property
    def value(self): LOG.append('property')

    @functools.cached_property
    def lazy(self): LOG.append('cached property')

    part = functools.partialmethod(method, 1)

    def __call__(self, w): LOG.append('call')

    def __enter__(self): LOG.append('enter')

    def __len__(self):
        LOG.append('length')
        return 0

    def __bool__(self):
        LOG.append('truth')
        return False

    def __iter__(self):
        LOG.append('iteration')
        return iter(())


class Derived(Base[int]):
    def __new__(cls, *args, **kwargs):
        LOG.append('constructor')
        return super().__new__(cls)

    def method(self, x, extra=1): LOG.append('derived method')


class WithMeta(metaclass=Meta):
    def __init__(self, x): LOG.append('initializer with metaclass')


class Silent:
    pass


class Abstract(abc.ABC):
    @abc.abstractmethod
    def method(self, x): LOG.append('abstract')


class Described:
    dynamic = Descriptor()


class Slotted:
    def __call__(self, x=DEFAULT_LIST): LOG.append('slotted call')


class Dictionary(dict): pass


class Error(ValueError):
    def __init__(self, message, *, code=0): LOG.append('error')


class Color(enum.Enum):
    RED = 1


class Row(typing.NamedTuple):
    x: int
    y: typing.List[int] = []


class Typed(typing.TypedDict):
    x: int


@dataclasses.dataclass
class Data:
    x: int
    y: list = dataclasses.field(default_factory=lambda: LOG.append('data'))


class Proto(typing.Protocol):
    def method(self, x): LOG.append('protocol')


instance, derived = Base(1), Derived(2)
row, data, slotted = Row(1), Data(1), Slotted()
instance.own = lambda x: LOG.append('own')
class Partial(functools.partial):
    pass


def chain(cls, function, *steps):
    """Partial objects which are not flattened."""
    for args, keywords in steps:
        function = cls(function, *args, **keywords)
        function.attribute = args
    return function


PLAIN_STEPS = [((DEFAULT_LIST,), {'c': DEFAULT_DICT}), ((2,), {'d': 1}),
               ((), {'c': 2, 'e': DEFAULT_LIST})]
CHAINS = [chain(cls, function, *steps)
          for cls in (functools.partial, Partial)
          for function, steps in (
              (plain, PLAIN_STEPS), (plain, PLAIN_STEPS[::-1]),
              (plain, PLAIN_STEPS[:2]), (wrapped, PLAIN_STEPS[1:]),
              (Base, [((1,), {}), ((), {'y': 1}), ((), {'y': 2})]),
              (Derived, [((), {'y': 1}), ((), {'x': 2})]),
              (instance.method, [((), {'x': 1}), ((), {'x': 2})]),
              (Base.create, [((), {'z': 1}), ((), {'z': 2})]),
              (int, [((), {'base': 2}), ((), {'base': 3})]),
              (sorted, [((), {'key': len}), ((), {'reverse': True})]))]
QUERIES = [
    *CHAINS, plain, bare, unset, closure, wrapped, twice, cached, dispatched,
    dispatched_int, managed, coroutine, generator, Base, Derived,
    Base.method, Derived.method, instance.method, derived.method,
    Base.create, Derived.create, instance.create, Base.static,
    derived.static, Base.part, derived.part, instance, derived,
    instance.own, instance.__call__, Base.__init__, Derived.__new__,
    instance.__init__, super(Derived, derived).method,
    super(Derived, derived).__init__, WithMeta, Meta, Silent, Abstract,
    Abstract.method, Described, Slotted, slotted, slotted.__call__,
    Dictionary, Dictionary.fromkeys, Dictionary().get, Error, Error('x'),
    Color, Row, Row._make, row._replace, Typed, Data, data.__eq__, Proto,
    Proto.method, lambda x=DEFAULT_LIST: LOG.append('lambda'),
    functools.partial(plain, DEFAULT_LIST, c=DEFAULT_DICT),
    functools.partial(functools.partial(plain, 1), 2),
    functools.partial(Base, 1), functools.partial(Derived, y=2),
    functools.partial(WithMeta, 1), functools.partial(instance, 1),
    functools.partial(derived.method, DEFAULT_LIST),
    functools.partial(int, base=2), functools.partial(sorted, key=len),
    Base[int], Base.value, Described.dynamic, int, len, [].append, 'a'.join,
    dict.fromkeys, object, type, super, property(bare),
]
LOG.clear()
'''


def operations(base, module):
    """Operations on (callable, signature), the latter may be missing."""
    other = base.signature_from_callable(lambda x, *args, key=None: None)
    values = (module.DEFAULT_LIST, module.DEFAULT_DICT)

    def query(value, signature):
        try:
            return base.signature_from_callable(value)
        except (TypeError, ValueError):
            return signature

    def of_signature(function):
        def result(value, signature):
            if signature is None:
                return None
            try:
                found = function(signature)
            except (TypeError, pickle.PicklingError, AttributeError):
                return signature
            return (found if isinstance(found, base.PlainSignature)
                    or isinstance(found, base.OverloadedSignature)
                    else signature)
        return result

    return {
        'query': query,
        'str': of_signature(str),
        'repr': of_signature(repr),
        'hash': of_signature(hash),
        'equality': of_signature(lambda s: (s == other, other == s, s == s)),
        'expects': of_signature(lambda s: (s.expects(), s.expects(*values),
                                           s.expects(x=values[0]))),
        'all_set': of_signature(lambda s: (s.all_set(), s.all_set(*values),
                                           s.all_set(c=values[1]))),
        'bind': of_signature(lambda s: s.bind(values[0])),
        'bind key': of_signature(lambda s: s.bind(c=values[1])),
        'copy': of_signature(copy.copy),
        'deepcopy': of_signature(lambda s: copy.deepcopy(s) and s),
        'pickle': of_signature(lambda s: pickle.dumps(s) and s),
        'parts': of_signature(parts_of_signature),
    }


def parts_of_signature(signature):
    """Observable state of the signature."""
    return [(parameter.name, parameter.kind, id(parameter.annotation),
             getattr(parameter, 'has_default', None),
             id(parameter.default)
             if getattr(parameter, 'has_default', False) else None)
            for plain in getattr(signature, 'signatures', [signature])
            for parameter in plain.parameters] + [
        id(plain.returns)
        for plain in getattr(signature, 'signatures', [signature])]


def state_of_signature(signature):
    if signature is None:
        return None
    try:
        number = hash(signature)
    except TypeError:
        number = None
    return [parts_of_signature(signature), str(signature), repr(signature),
            number]


def run_user(report, part, output, quick):
    import paradigm.base as base
    module = types.ModuleType('user_world')
    sys.modules['user_world'] = module
    exec(compile(USER, 'user_world.py', 'exec', dont_inherit=True),
         vars(module))
    available = operations(base, module)
    roots = vars(module)
    output.take()
    roots.pop('__builtins__', None)
    length = 2 if quick else 3
    for index in range(part, len(module.QUERIES), PARTS):
        value = module.QUERIES[index]
        before = world.snapshot(roots)
        whole = world.process()
        first = available['query'](value, None)
        again = world.snapshot(roots)
        states = 1
        problems = world.user_difference(before, again)
        history = ['query']
        if not problems and first is not None:
            for history in itertools.product(available, repeat=length):
                signature, kept = first, []
                for name in history:
                    kept.append((signature, state_of_signature(signature)))
                    signature = available[name](value, signature)
                states += len(history)
                again = world.snapshot(roots)
                problems = world.user_difference(before, again)
                problems += [f'signature {old} has changed'
                             for signature, old in kept
                             if state_of_signature(signature) != old]
                if problems:
                    break
        report.state(index)
        report.count('states', states - 1)
        report.count('transitions', states)
        report.count('traces', states)
        report.outcome('user-defined callable', states)
        description = f'{index} {type(value).__name__} ' + str(
                getattr(value, '__qualname__', ''))
        for problem in problems:
            if not report.violation(
                    f'user:{description}:{problem}'[:200],
                    f'after {", ".join(history)} for {description}: '
                    f'{problem}', {'callable': description,
                                   'operations': list(history)}):
                return
        if not judge(report, 'user', [description], whole, world.process(),
                     output):
            return
