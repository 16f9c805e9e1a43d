"""C25: every callable gets a signature or a ValueError/TypeError."""
import abc
import builtins
import collections
import contextlib
import enum
import functools
import inspect
import io
import itertools
import operator
import sys
import types
import typing
import unittest.mock
import weakref

import typing_extensions

from vlib import describe, synthetic, target
from vlib.shapes import base

LEVEL = 'model_checking'
RULE = ('state: a callable built by a sequence of choices (what is defined, '
        'its metadata, its metaclass, the objects it refers to, wrappers put '
        'on it) or found in the standard library by a path of attributes; '
        'transition: one more choice or attribute, after which the signature '
        'is asked for; monitor: the answer is a well-formed signature, '
        'ValueError or TypeError, it is a signature when inspect obtains one '
        'for a callable of supported kind, and answers for the usual '
        'callables are the same as at the start after every family; '
        'trace: a family of adversaries asked in a single process')
ASSUMPTIONS = ['errors raised by the code of a user (which inspect.signature '
               'runs into as well) are not errors of the package',
               'metaclasses whose comparison or "__hash__" raises, or which '
               'hide "__mro__" and "__module__" of classes are not explored']
LIMIT = 8
TIMEOUT = 1500
PARTS = 8
SUPPORTED = (types.BuiltinFunctionType, types.FunctionType, types.MethodType,
             types.MethodWrapperType, types.MethodDescriptorType,
             types.WrapperDescriptorType, type)
ABSENT = object()
MODULES = [ABSENT, None, '', 'builtins', 'collections', 'missing', 'a.b', '.',
           '..', 'a..b', '__main__', 'paradigm', 'paradigm.base', 5, (), b'x',
           ['a'], 'os.path', 'typing', 'not identifier', 'é', '\0',
           'functools\n', types, 'sys', '__specializations', '_abc']
QUALNAMES = ['', 'len', 'dict.get', 'dict', '.', '..', 'a..b', '<lambda>',
             'f.<locals>.g', 'C.m', 'int.__new__', 'object',
             'object.__init__', 'é', 'Any', 'OrderedDict', 'OrderedDict.pop',
             'partial', 'x' * 10000, 'a.' * 2000]
ATTRIBUTES = ['__init__', '__new__', '__call__', '__signature__',
              '__text_signature__', '__module__', '__wrapped__', '__slots__',
              '__annotations__', '__mro_entries__', '__init_subclass__',
              '__get__', '__doc__']
ASKED = ['__init__', '__new__', '__call__', '__str__', '__eq__', '__dir__',
         '__init_subclass__', '__subclasshook__', '__class__',
         '__reduce_ex__', '__reduce__', '__sizeof__', '__hash__',
         '__format__', 'm', 'c', 's', 'mro', '__prepare__',
         '__instancecheck__']


def shards(tier):
    return ([['found', part] for part in range(PARTS)]
            + [['inherited', part] for part in range(PARTS)]
            + [['instances', 0]]
            + [['metadata', part] for part in range(PARTS)]
            + [['classes', part] for part in range(PARTS)]
            + [['objects', 0]]
            + [['arguments', part] for part in range(2)]
            + [['wrappers', part] for part in range(PARTS)]
            + [['defined', part] for part in range(PARTS)]
            + [['declared', 0]])


def prepare(context):
    context.extra = declarations().write(context.scratch)
    target.build(context.target, seed=context.seed,
                 extra_paths=context.extra)


def extra_paths(context):
    return context.extra


# answers

def defect_of(value):
    """Text on what is wrong with the answer, outcome."""
    try:
        signature = base.signature_from_callable(value)
    except (TypeError, ValueError) as error:
        outcome = type(error).__name__
        if isinstance(error, UnicodeError):
            return f'fails with {error!r}', outcome
        if not is_supported(value):
            return None, outcome
        # something should have been obtained if interpreter knows it
        try:
            known = inspect.signature(value)
        except BaseException:
            return None, outcome
        return (f'is reported as {outcome}: {describe.plain(error)[:200]}, '
                f'but the interpreter knows {known}'), outcome
    except BaseException as error:
        try:
            inspect.signature(value)
        except BaseException as other:
            if (type(other) is type(error)
                    and not isinstance(error, (KeyError, RecursionError,
                                               AssertionError, NameError))):
                # user's
                return None, 'error of the callable itself'
        return (f'fails with {type(error).__name__}: '
                f'{describe.plain(error)[:200]}'), type(error).__name__
    return shape_defect(signature), type(signature).__name__


def is_supported(value):
    # class can lie about itself
    return issubclass(type(value), SUPPORTED)


def shape_defect(signature):
    if isinstance(signature, base.PlainSignature):
        parameters = signature.parameters
        if not isinstance(parameters, tuple) or not all(
                isinstance(parameter, (base.OptionalParameter,
                                       base.RequiredParameter))
                for parameter in parameters):
            return f'has malformed parameters: {describe.plain(parameters)}'
        return None
    if not isinstance(signature, base.OverloadedSignature):
        return f'is given {describe.plain(signature)}'
    alternatives = signature.signatures
    if len(alternatives) < 2:
        return f'has {len(alternatives)} alternatives'
    for alternative in alternatives:
        if not isinstance(alternative, base.PlainSignature):
            return f'has alternative {describe.plain(alternative)}'
        if shape_defect(alternative):
            return shape_defect(alternative)
    return None


def check(report, key, value):
    """Whether can be continued."""
    report.count('states')
    report.count('transitions')
    defect, outcome = defect_of(value)
    report.outcome(f'{kind_of(value)}: {outcome}')
    if outcome not in ('ValueError', 'TypeError'):
        report.nontrivial(f'{kind_of(value)}: {outcome}')
    if defect is None:
        return True
    key = ' '.join(map(str, key))
    return report.violation(
            f'{key[:100]}: {defect[:60]}',
            f'signature of {describe_object(value)} ({key[:300]}) {defect}',
            {'key': key, 'defect': defect})


def kind_of(value):
    for cls in SUPPORTED:
        if issubclass(type(value), cls):
            return cls.__name__
    return 'partial' if type(value) is functools.partial else 'other'


def describe_object(value):
    try:
        return describe.plain(value)[:200]
    except BaseException:
        return 'object without representation'


# callables of the standard library

def run(shard, report, spec):
    family, part = shard
    before = answers_of_probes()
    report.count('traces')
    generator = {'found': found, 'inherited': inherited,
                 'instances': instances, 'metadata': metadata,
                 'classes': classes, 'objects': objects,
                 'arguments': arguments, 'wrappers': wrappers,
                 'defined': defined, 'declared': declared}[family]
    first = None
    for key, value in generator(part, spec['tier']):
        if first is None:
            first = key
            report.sample(f'{family}: {" ".join(map(str, key))[:200]}')
        if not check(report, (family, *key), value):
            return
    after = answers_of_probes()
    for name, text in before.items():
        report.count('transitions')
        if after[name] != text:
            report.violation(
                    f'{family} history: {name}',
                    f'{name} has signature {text}, but after queries of the '
                    f'family "{family}" it is {after[name]}',
                    {'family': family})


def answers_of_probes():
    probes = {'len': len, 'dict': dict, 'dict.get': dict.get,
              'OrderedDict': collections.OrderedDict, 'sorted': sorted,
              'open': open, 'object': object, 'type': type, 'int': int,
              'str.join': ' '.join, 'partial': functools.partial(int, '1'),
              'attrgetter': operator.attrgetter, 'run': check,
              'memoryview': memoryview, 'NamedTuple': typing.NamedTuple,
              'object.__init__': object.__init__,
              'dict.fromkeys': dict.fromkeys, 'StringIO.read': io.StringIO.read}
    return {name: describe.ask(base, value)[0]
            for name, value in probes.items()}


def found(part, tier):
    from checks import c18
    for index, (key, value) in enumerate(c18.enumerate_queries()):
        if index % PARTS == part:
            yield key, value


def inherited(part, tier):
    """What can be reached from classes through inheritance & metaclasses."""
    from checks import c18
    seen = set()
    kept = []
    index = 0
    for key, cls in c18.enumerate_queries():
        if not isinstance(cls, type):
            continue
        index += 1
        if index % PARTS != part:
            continue
        for name in sorted({*(() if tier == 'quick' else dir(cls)),
                            *dir(type(cls)), *ASKED}):
            try:
                value = getattr(cls, name)
            except Exception:
                continue
            if not callable(value) or isinstance(value, type):
                continue
            if id(value) in seen:
                continue
            seen.add(id(value))
            kept.append(value)
            yield (key[0], f'{key[1]}.{name}'), value


def instances(part, tier):
    import array
    import datetime
    import decimal
    import fractions
    import itertools
    import random
    import re
    import string
    import struct
    import threading
    import zlib
    values = [
        None, True, 1, 1.5, 1j, 'a', b'a', bytearray(b'a'), (), (1, 'a'), [],
        {}, set(), frozenset(), range(3), slice(1), memoryview(b'a'), ...,
        NotImplemented, iter([]), iter({}), iter({}.items()), iter(''),
        iter(range(3)), {}.keys(), {}.values(), {}.items(), object(),
        zip(), map(len, []), filter(None, []), enumerate([]), reversed([]),
        (item for item in ()), property(), staticmethod(len),
        classmethod(len), super(dict, {}), types, len, [].append, dict.get,
        object.__init__, (1).__add__, vars(dict)['fromkeys'], shards,
        types.MethodType(shards, 1), types.MappingProxyType({}),
        types.SimpleNamespace(), types.CellType(1), shards.__code__,
        sys._getframe(), sys.flags, sys.version_info, sys.stdout,
        types.GenericAlias(list, (int,)), int | str, typing.List[int],
        typing.Any, typing.Optional[int], typing.TypeVar('T'),
        typing.NewType('N', int), typing.Callable[[int], str],
        collections.OrderedDict(), collections.deque(),
        collections.Counter(), collections.defaultdict(list),
        collections.ChainMap(), collections.namedtuple('P', 'x y')(1, 2),
        collections.UserDict(), functools.partial(len),
        functools.lru_cache(shards), functools.singledispatch(shards),
        functools.cmp_to_key(max)(1), functools.partialmethod(len),
        functools.cached_property(len), array.array('i'),
        datetime.date(2000, 1, 1), datetime.datetime(2000, 1, 1),
        datetime.timedelta(1), datetime.timezone.utc, decimal.Decimal(1),
        decimal.getcontext(), fractions.Fraction(1), random.Random(1),
        re.compile('a'), re.match('a', 'a'), string.Template('a'),
        struct.Struct('i'), threading.Lock(), threading.RLock(),
        threading.Event(), threading.local(), io.StringIO(), io.BytesIO(),
        io.BufferedReader(io.BytesIO()), io.TextIOWrapper(io.BytesIO()),
        zlib.compressobj(), operator.attrgetter('a'),
        operator.itemgetter(0), operator.methodcaller('a'),
        weakref.ref(shards), weakref.WeakSet(), weakref.WeakKeyDictionary(),
        itertools.count(), itertools.chain(), itertools.cycle(''),
        itertools.tee([])[0], itertools.product(), itertools.repeat(1),
        contextlib.ExitStack(), contextlib.suppress(), enum.Enum('E', 'a'),
        enum.Enum('E', 'a').a, enum.Flag('F', 'a').a, inspect.signature(len),
        Exception(), OSError(), StopIteration(), BaseException(),
        ExceptionGroup('', [Exception()]), abc.ABC(), unittest.mock.call,
        inspect.Parameter('a', inspect.Parameter.POSITIONAL_ONLY)]
    for index, value in enumerate(values):
        names = sorted({*dir(type(value)), *dir(value)})
        if callable(value):
            yield (index, describe_object(value)[:60]), value
        for name in names:
            try:
                attribute = getattr(value, name)
            except Exception:
                continue
            if callable(attribute):
                yield (index, describe_object(value)[:60], name), attribute


# adversaries

def set_module(value, module):
    try:
        if module is ABSENT:
            del value.__module__
        else:
            value.__module__ = module
    except Exception:
        pass


def metadata(part, tier):
    for index, (module, qualname) in enumerate(
            itertools.product(MODULES, QUALNAMES)):
        if index % PARTS != part:
            continue
        key = ('ABSENT' if module is ABSENT else repr(module)[:20],
               repr(qualname)[:20])

        def function(self, a=1, b=1, *, c=1):
            pass

        def other(self, a=1, b=1, *, c=1):
            pass

        set_module(function, module)
        function.__qualname__ = qualname
        yield ('function', *key), function
        yield ('method', *key), types.MethodType(function, 5)
        yield ('partial', *key), functools.partial(function, 1)
        function.__name__ = qualname
        yield ('named function', *key), function
        for namespace in ({}, {'__init__': function}, {'__new__': other},
                          {'__call__': function},
                          {'__init__': function, '__new__': other}):
            for bases in ((), (dict,), (ValueError,),
                          (collections.OrderedDict,)):
                cls = type('C', bases, dict(namespace))
                set_module(cls, module)
                cls.__qualname__ = qualname
                names = ','.join([base.__name__ for base in bases]
                                 + list(namespace))
                yield ('class', names, *key), cls
                yield from attributes_of(cls, ('class', names, *key))
                if '__new__' in namespace:
                    continue
                try:
                    value = cls()
                except Exception:
                    continue
                yield from attributes_of(value, ('instance', names, *key))


def attributes_of(value, key, getter=getattr):
    for name in ASKED:
        try:
            attribute = getter(value, name)
        except Exception:
            continue
        try:
            if callable(attribute):
                yield (*key, name), attribute
        except Exception:
            continue


def make_metaclasses():
    class OddNames(type):
        __module__ = property(lambda self: 5)
        __name__ = property(lambda self: '')

    class OddCall(type):
        def __call__(cls, *args):
            return None

    class OddSignature(type):
        __signature__ = 'junk'

    class OddMRO(type):
        def mro(cls):
            return [cls, object]

    class OddTruth(type):
        def __bool__(cls):
            raise RuntimeError('bool')

        def __repr__(cls):
            raise RuntimeError('repr')

        def __len__(cls):
            return 0

    class OddChecks(type):
        def __instancecheck__(cls, other):
            raise RuntimeError('instance')

        def __subclasscheck__(cls, other):
            raise RuntimeError('subclass')

    class OddInit(type):
        __init__ = None

    class OddQualname(type):
        def __getattribute__(cls, name):
            return (5 if name == '__qualname__'
                    else super().__getattribute__(name))

    class OddAttributes(type):
        def __getattr__(cls, name):
            if name.startswith('__') and name.endswith('__'):
                return 5
            raise AttributeError(name)

    return [type, abc.ABCMeta, enum.EnumMeta, OddNames, OddCall, OddSignature,
            OddMRO, OddTruth, OddChecks, OddInit, OddQualname,
            OddAttributes]


def method(self, a, b=1):
    pass


class Callable:
    def __init__(self, *args):
        pass

    def __call__(self, x):
        pass


class Incomparable:
    def __eq__(self, other):
        raise RuntimeError('eq')

    def __hash__(self):
        raise RuntimeError('hash')

    def __call__(self, x):
        pass

    def m(self, a):
        pass


class Elementwise:
    __hash__ = None

    def __eq__(self, other):
        return Elementwise()

    def __bool__(self):
        raise ValueError('ambiguous')

    def m(self, a):
        pass


class Proxy:
    """Has any attribute."""

    def __getattr__(self, name):
        return Proxy()

    def __call__(self, *args, **kwargs):
        return Proxy()

    def m(self, a):
        pass


class Failing:
    def __getattr__(self, name):
        raise RuntimeError(name)

    def m(self, a):
        pass


class Liar:
    @property
    def __class__(self):
        return type(None)

    def __call__(self, x):
        pass


class Stranger:
    @property
    def __class__(self):
        return types.FunctionType

    def __call__(self, x):
        pass


class Unprintable:
    def __repr__(self):
        raise RuntimeError('repr')

    __str__ = __repr__

    def __call__(self, x):
        pass


def make_values():
    return [None, 5, 'x', method, functools.partial(method, 1),
            functools.partialmethod(method, 1), staticmethod(method),
            classmethod(method), Callable_instance(), len, int, list.append,
            object.__init__, property(method), functools.lru_cache(method),
            abc.abstractmethod(method), operator.attrgetter('x'),
            types.MethodType(method, 5), object(), [].append, dict.fromkeys,
            unittest.mock.Mock(), Incomparable(), Liar(), Stranger(), Proxy(),
            type, type.__call__, object.__new__, Unprintable(),
            functools.singledispatchmethod(method),
            functools.wraps(len)(lambda *args: None),
            functools.wraps(int)(lambda self: None)]


def Callable_instance():
    return Callable()


def classes(part, tier):
    index = 0
    for metaclass in make_metaclasses():
        meta_name = type.__getattribute__(metaclass, '__qualname__')
        meta_name = str(meta_name).rpartition('.')[2]
        for name in ATTRIBUTES:
            for position, value in enumerate(make_values()):
                index += 1
                if index % PARTS != part:
                    continue
                key = (meta_name, name, position)
                try:
                    cls = metaclass('C', (), {name: value})
                except Exception:
                    continue
                if callable(cls):
                    yield key, cls
                yield from attributes_of(cls, (*key, 'of class'))
                for count, bases in enumerate(((cls,), (cls, dict),
                                               (int, cls),
                                               (cls, typing.Generic))):
                    try:
                        derived = metaclass('D', bases, {})
                    except Exception:
                        continue
                    yield (*key, 'derived', count), derived
                try:
                    instance = cls()
                except Exception:
                    continue
                try:
                    is_callable = callable(instance)
                except Exception:
                    continue
                if is_callable:
                    yield (*key, 'instance'), instance
                yield from attributes_of(instance, (*key, 'of instance'))
        if part:
            continue
        try:
            class Usual(metaclass=metaclass):
                def m(self, a):
                    pass

                @classmethod
                def c(cls, a):
                    pass

                @staticmethod
                def s(a):
                    pass
        except Exception:
            continue
        yield (meta_name, 'usual'), Usual
        yield from attributes_of(Usual, (meta_name, 'usual'))
        with contextlib.suppress(Exception):
            yield from attributes_of(object.__new__(Usual),
                                     (meta_name, 'usual instance'))


def objects(part, tier):
    values = [Incomparable(), Elementwise(), Proxy(), Failing(), Liar(),
              Stranger(), Unprintable(), Callable(), unittest.mock.Mock(),
              unittest.mock.MagicMock(), unittest.mock.create_autospec(len),
              unittest.mock.create_autospec(dict), weakref.proxy(Callable),
              weakref.proxy(method), unittest.mock.NonCallableMock(),
              functools.singledispatch(method),
              typing_extensions.deprecated('text')(method),
              contextlib.contextmanager(method), typing.no_type_check(method),
              functools.total_ordering, typing.overload(method),
              types.coroutine(method), typing.final(method)]
    for index, value in enumerate(values):
        if callable(value):
            yield (index, type(value).__qualname__), value
        yield from attributes_of(value, (index, type(value).__qualname__),
                                 object.__getattribute__)
        yield from attributes_of(value, (index, type(value).__qualname__,
                                         'usual'))
    # functions with unusual code
    namespace = {}
    for index, text in enumerate((
            'async def f(a, *, b=1): pass', 'def f(a, /, b): yield',
            'async def f(): yield', 'f = lambda *_, **__: None',
            'def f(a: "undefined_" = 1) -> "missing": pass',
            'f = lambda self=self, /: self', 'f = type',
            'f = eval("lambda é: é")', 'def f[T: int](a: T, *b: T): pass',
            'class f[T]:\n def __init__(self, a: T): pass',
            'class f[**P]:\n def __call__(self, *a: P.args, **b: P.kwargs):'
            ' pass',
            'class f:\n async def __new__(cls, a): pass',
            'class f:\n __slots__ = ("a",)\n',
            'class f(BaseException):\n def __init__(self, a, b=2): pass',
            'class f(type):\n def __new__(cls, name, bases, ns, *, x): pass',
            'import typing\nclass f(typing.NamedTuple):\n a: int\n b: str = 1',
            'import typing\nclass f(typing.TypedDict):\n a: int',
            'import typing\nclass f(typing.Protocol):\n a: int',
            'import typing\nclass f(typing.Protocol):\n'
            ' def __init__(self, a): pass',
            'import dataclasses\n@dataclasses.dataclass\nclass f:\n'
            ' a: int\n b: list = dataclasses.field(default_factory=list)',
            'import dataclasses\n@dataclasses.dataclass(slots=True,'
            ' kw_only=True)\nclass f:\n a: int',
            'import enum\nclass f(enum.Enum):\n a = 1',
            'import enum\nclass f(enum.IntFlag):\n a = 1',
            'import ctypes\nclass f(ctypes.Structure):\n'
            ' _fields_ = [("a", ctypes.c_int)]',
            'import ctypes\nf = ctypes.CFUNCTYPE(ctypes.c_int)',
            'import ctypes\nf = ctypes.CFUNCTYPE(ctypes.c_int)(int)',
            'import ctypes\nf = ctypes.pythonapi.Py_IsInitialized',
            'import collections\nf = collections.namedtuple("f", "a b", '
            'defaults=(1,))')):
        namespace = {'self': 1, '__name__': 'unusual'}
        exec(compile(text, 'unusual.py', 'exec', dont_inherit=True),
             namespace)
        yield ('code', index), namespace['f']
        yield from attributes_of(namespace['f'], ('code', index))
        with contextlib.suppress(Exception):
            for name in ('__init__', '__new__', '__call__', '__get__',
                         '__reduce_ex__'):
                yield (('code', index, 'of instance', name),
                       getattr(namespace['f'](), name))


def arguments(part, tier):
    class User:
        def m(self, a):
            pass

    functions = make_values() + [
        [].append, 'x'.join, dict.get, (1).__add__, Callable, list[int],
        typing.List[int], typing.List, typing.Any, typing.NewType('N', int),
        typing.Callable, typing.Generic, typing.Protocol, typing.NamedTuple,
        typing_extensions.TypedDict, dict, open, sorted, type, User, User.m,
        collections.OrderedDict, functools.partial, super, property]
    selves = [5, None, Incomparable(), Elementwise(), Proxy(), Failing(),
              Liar(), Stranger(), Unprintable(), int, len, sys, User, User(),
              unittest.mock.Mock(), type, object(), functools.partial(len)]
    for index, function in enumerate(functions):
        if index % 2 != part:
            continue
        if callable(function):
            yield ('plain', index), function
        for position, value in enumerate(selves):
            for name, wrap in (
                    ('MethodType', types.MethodType),
                    ('partial', functools.partial),
                    ('partial of two',
                     lambda function, value: functools.partial(
                             function, value, value)),
                    ('partial by name',
                     lambda function, value: functools.partial(
                             function, a=value)),
                    ('partial by names',
                     lambda function, value: functools.partial(
                             function, value, self=value, b=value, key=value)),
            ):
                try:
                    result = wrap(function, value)
                except Exception:
                    continue
                yield (name, index, position), result


def named(function):
    @functools.wraps(function)
    def wrapper(*args, **kwargs):
        pass

    return wrapper


def wrappers(part, tier):
    """All chains of wrappers up to the depth."""
    class User:
        def __init__(self, a, *, b=1):
            pass

        def m(self, a, /, c, *args, d=2, **kwargs):
            pass

    leaves = [len, int, dict, dict.get, [].append, str.join, object.__init__,
              (1).__add__, sorted, open, method, Callable(), Callable, User,
              User.m, User(1).m, operator.attrgetter('x'), dict.fromkeys,
              vars(dict)['fromkeys'], type, object, typing.List,
              collections.OrderedDict.pop, io.StringIO().read, typing.cast]
    steps = [
        lambda value: types.MethodType(value, 5),
        lambda value: functools.partial(value),
        lambda value: functools.partial(value, 1),
        lambda value: functools.partial(value, key=1),
        staticmethod, classmethod,
        lambda value: classmethod(value).__get__(None, dict),
        lambda value: value.__call__,
        lambda value: value.__get__(1),
        lambda value: value.__func__,
        lambda value: value.__init__,
        lambda value: type(value),
        named, functools.lru_cache, functools.singledispatch,
        lambda value: functools.partialmethod(value, 1),
        lambda value: property(value).fget,
        lambda value: type('D', (value,), {}),
        lambda value: type('D', (), {'m': value})().m,
        lambda value: type('D', (), {'m': value}).m,
        lambda value: type('D', (), {'__init__': value}),
        lambda value: type('D', (), {'__new__': value}),
        lambda value: type('D', (type,), {'__call__': value})('E', (), {}),
        unittest.mock.create_autospec,
    ]
    cheap = steps[:-1]
    depth = 3 if tier == 'quick' else 4
    for index, leaf in enumerate(leaves):
        layer = [((), leaf)]
        for level in range(depth):
            layer = list(one_more(layer, steps if level < 2 else cheap,
                                  index, part, level))
            for key, value in layer:
                yield (index, *key), value


def one_more(layer, steps, index, part, level):
    for key, value in layer:
        for position, step in enumerate(steps):
            if level == 0 and (index + position) % PARTS != part:
                continue
            try:
                result = step(value)
                if not callable(result):
                    continue
            except Exception:
                continue
            yield (*key, position), result


# stubs

def defined(part, tier):
    """Callables with names of everything defined by stubs (as functions
    wrapping callables of the standard library have)."""
    from vlib import typeshed
    for index, (module, qualname) in enumerate(sorted({*typeshed.names()})):
        if index % PARTS != part:
            continue

        def function(self, a=1, *, b=2):
            pass

        function.__module__ = module
        function.__qualname__ = qualname
        cls = type('C', (), {'__init__': function})
        owner = type('D', (), {'m': function})
        for value in (cls, owner):
            value.__module__ = module
            value.__qualname__ = qualname
        for name, value in (
                ('function', function), ('class', cls),
                ('owner', owner), ('method', owner().m),
                ('bound', types.MethodType(function, 1)),
                ('partial', functools.partial(function, 1)),
                ('initializer', cls.__init__),
                ('slot wrapper', owner().__str__),
                ('class method', owner.__init_subclass__),
                ('builtin', owner().__reduce__)):
            yield (module, qualname, name), value


COMMON = '''
import functools
import sys
import typing as t
import collections.abc as cabc
import vdcl.leaf
import vdcl.leaf as leaf
from typing import (Any, Callable, ClassVar, Generic, Iterable, List,
                    NamedTuple, NewType, Optional, Protocol, Tuple, Type,
                    TypeVar, Union, cast, overload)
from typing_extensions import (Annotated, Concatenate, Final, Literal,
                               ParamSpec, Self, TypeAlias, TypeGuard)
P = ParamSpec('P')
T = TypeVar('T')
B = TypeVar('B', bound=Callable[[int], str])
F = TypeVar('F', bound=Callable[..., Any])
V = TypeVar('V', Callable[[int], str], Callable[[str], str])
N = TypeVar('N', int, str)
def g(x: int, *, y: str = ...) -> str: ...
async def ag(x: int) -> str: ...
@overload
def og(x: int) -> int: ...
@overload
def og(x: str) -> str: ...
class Plain:
    attribute: int
    def method(self, x: int) -> str: ...
    @classmethod
    def created(cls, x: int) -> Self: ...
    @staticmethod
    def static(x: int) -> str: ...
    @property
    def prop(self) -> int: ...
class Called:
    def __init__(self, z: int) -> None: ...
    def __call__(self, x: int, *, y: str = ...) -> str: ...
class OverloadedCalled:
    @overload
    def __call__(self, x: int) -> str: ...
    @overload
    def __call__(self, x: str) -> str: ...
class WithAttribute:
    __call__: Callable[[int, int], str]
class Derived(Called): ...
class Proto(Protocol):
    def __call__(self, x: int) -> str: ...
class Meta(type):
    def __call__(cls, x: int) -> str: ...
class WithMeta(metaclass=Meta): ...
class Gen(Generic[T]):
    def __call__(self, x: T) -> T: ...
CB = Callable[[int], str]
GCB = Callable[[T], T]
TA: TypeAlias = Callable[[int], str]
UN = Union[CB, None]
def deco(value: T) -> T: ...
def factory(x: int) -> Callable[[T], T]: ...
'''
# what variables are annotated with
ANNOTATIONS = [
    'Callable[..., str]', 'Callable[[int], str]', 'Callable[[int], None]',
    'Callable', 'Callable[P, str]', 'Callable[Concatenate[int, P], str]',
    'Callable[[Callable[[int], str]], Callable[..., T]]',
    't.Callable[[int], str]', 'cabc.Callable[[int], str]',
    'Optional[Callable[..., Any]]', 'Callable[[int], str] | None',
    'Union[Callable[[int], int], Callable[[str], str]]',
    "'Callable[[int], str]'", 'ClassVar[Callable[[int], str]]',
    'Final[Callable[[int], str]]', 'Final',
    'Annotated[Callable[[int], str], 1]', 'CB', 'GCB', 'GCB[int]', 'TA', 'UN',
    'Called', 'OverloadedCalled', 'Derived', 'Proto', 'WithAttribute',
    'Gen[int]', 'Gen', 'Plain', 'WithMeta', 'Type[Plain]', 'type[Plain]',
    'type', 'Any', 'object', 'int', 'B', 'F', 'V', 'T', 'N', 'None',
    'List[int]', 'list[int]', 'tuple[Callable[[int], str], ...]',
    'Literal[1]', 'Tuple[()]', 'TypeGuard[int]', 'Self',
    'functools.partial[int]', 'functools._lru_cache_wrapper[int]',
    'staticmethod[[int], str]', 'classmethod[Any, [int], str]', 'property',
    'Iterable[Callable[[int], str]]', '(Callable[[int], str])',
]
# what variables are assigned to
VALUES = [
    'g', 'ag', 'og', 'Plain.method', 'Plain.created', 'Plain.static',
    'Plain.prop', 'Plain.attribute', 'leaf.h', 'vdcl.leaf.h',
    'vdcl.leaf.Class.m', 'dict.get', 'str.join', 'len', 'print', 'dict',
    'object', 'Called', 'Plain', 'WithMeta', 'staticmethod(g)',
    'classmethod(g)', 'property(g)', 'functools.partial(g)', 'deco(g)',
    'Called(1)', 'cast(Any, g)', 'lambda x: x', '...', '1', '-1', 'None',
    '"text"', 'b""', '()', '(g,)', '[]', '{}', 'g if sys.platform else ag',
    'g or ag', 'not g', 'sys.platform', 'NewType("N", int)',
    'TypeVar("Z")', 'TypeVar("Z", bound=Callable[[int], str])',
    'TypeVar("Z", Callable[[int], str], Callable[[str], str])',
]
DECORATORS = ['g', 'deco', 'overload', 'staticmethod', 'classmethod',
              'property', 'functools.lru_cache', 'functools.lru_cache()',
              'factory(1)', 'functools.wraps(g)', 'leaf.h', 'Plain.static',
              'Called', 'Called(1)', 't.overload', 't.final',
              't.no_type_check']
FORMS = [
    ('function', '{name}: {item}', ANNOTATIONS),
    ('function', '{name}: {item} = ...', ANNOTATIONS),
    ('function', '{name} = {item}', ANNOTATIONS + VALUES),
    ('function', '{name}: Any = {item}', VALUES),
    ('function', '{name}: TypeAlias = {item}', ANNOTATIONS),
    ('function', '{name} = {name}_ = {item}', VALUES),
    ('function', '{name}_ = {item}\n{name} = {name}_', VALUES),
    ('function', '{name}_: {item}\n{name} = {name}_', ANNOTATIONS),
    ('function', 'if sys.version_info >= (3,):\n    {name}: {item}\n'
                 'else:\n    def {name}() -> int: ...', ANNOTATIONS),
    ('function', '{name}_ = {item}\n{name}_ = {item}\n{name}: {name}_',
     ANNOTATIONS),
    ('function', '{name}: {item}\ndef {name}(x: int) -> str: ...',
     ANNOTATIONS),
    ('function', 'def {name}(x: int) -> str: ...\n{name}: {item}',
     ANNOTATIONS),
    ('function', '@{item}\ndef {name}(x: int) -> str: ...', DECORATORS),
    ('function', '@{item}\nasync def {name}(x: int) -> str: ...',
     DECORATORS),
    ('function', 'def {name}(x: {item}, /, *args: {item}, k: {item} = ..., '
                 '**kwargs: {item}) -> {item}: ...', ANNOTATIONS),
    ('function', 'class {name}:\n    def __call__(self, x: {item}) -> {item}:'
                 ' ...', ANNOTATIONS),
    ('class', 'class {name}(metaclass={item}): ...', ['Meta', 'type']),
    ('class', '@{item}\nclass {name}:\n'
              '    def __init__(self, x: int) -> None: ...', DECORATORS),
    ('class', 'def {name}(x: {item}) -> {item}: ...', ANNOTATIONS),
    ('class', 'class {name}:\n    __init__: {item}', ANNOTATIONS),
    ('class', 'class {name}:\n    __new__: {item}', ANNOTATIONS),
    ('class', 'class {name}:\n    @{item}\n    def __init__(self, x: int) '
              '-> None: ...', DECORATORS),
    ('class', '{name}: {item}', ANNOTATIONS),
    ('class', '{name} = {item}', ANNOTATIONS + VALUES),
]
RUNTIME = {
    'function': 'def {name}(a, b=1, *, c=2): pass\n',
    'class': 'class {name}:\n    def __init__(self, a, b=1, *, c=2): pass\n'
}
NOT_METHODS = [form for kind, form, items in FORMS
               if kind == 'function' and (items is not ANNOTATIONS
                                          or form.startswith('class')
                                          or ' = {item}' in form)]


def declarations():
    """The same declarations on levels of modules and of classes."""
    result = synthetic.Project()
    result.add('vdcl', '', package=True)
    result.add('vdcl.leaf', 'def h(x): pass\nclass Class:\n'
                            '    def m(self, x): pass\n',
               stub='def h(x: int) -> str: ...\nclass Class:\n'
                    '    def m(self, x: int) -> str: ...\n')
    for index, (kind, form, items) in enumerate(FORMS):
        stub, runtime = [COMMON], ['']
        nested_stub, nested_runtime = ['class Owner:'], ['class Owner:']
        for position, item in enumerate(items):
            text = form.format(name=f'f{position}', item=item) + '\n'
            body = RUNTIME[kind].format(name=f'f{position}')
            stub.append(text)
            runtime.append(body)
            nested_stub.append(indented(text))
            nested_runtime.append(indented(body))
        result.add(f'vdcl.form{index}',
                   '\n'.join(runtime + nested_runtime),
                   stub='\n'.join(stub + nested_stub))
    stub, runtime = [COMMON], []
    for index, bodies in enumerate(ALIASES):
        # a single object in runtime is described as several ones
        for position, body in enumerate(bodies):
            name = f'a{index}_{position}'
            stub.append(body.format(name=name))
            runtime.append(f'class {name}:\n'
                           '    def __init__(self, *args): pass\n'
                           '    def m(self, *args): pass\n'
                           if not position else
                           f'{name} = a{index}_0\n')
    result.add('vdcl.aliases', '\n'.join(runtime), stub='\n'.join(stub))
    return result


ALIASES = list(itertools.product([
    'class {name}: ...',
    'class {name}:\n    def __init__(self, x: int) -> None: ...\n'
    '    def m(self, x: int) -> int: ...\n',
    'class {name}:\n    def __new__(cls, y: str) -> Self: ...\n',
    'class {name}(Called):\n    def m(self, y: str) -> str: ...\n',
    'def {name}(x: int) -> int: ...\n',
    '{name}: Type[Called]\n',
], repeat=3))


def indented(text):
    return ''.join(f'    {line}' for line in text.splitlines(True))


def declared(part, tier):
    import importlib
    for index, (kind, form, items) in enumerate(FORMS):
        module = importlib.import_module(f'vdcl.form{index}')
        for position, item in enumerate(items):
            name = f'f{position}'
            key = (form.format(name='f', item=item).replace('\n', '; '),
                   kind)
            value = getattr(module, name)
            yield key, value
            yield (*key, 'in class'), getattr(module.Owner, name)
            yield (*key, 'partial'), functools.partial(value, 1)
            if kind == 'class':
                yield (*key, 'initializer'), value.__init__
                yield (*key, 'derived'), type('D', (value,), {})
            elif form not in NOT_METHODS:
                # stubs contradict to runtime otherwise
                yield (*key, 'bound'), getattr(module.Owner(), name)
    module = importlib.import_module('vdcl.aliases')
    for index, bodies in enumerate(ALIASES):
        key = ('aliases',
               *[body.format(name='f').replace('\n', '; ')
                 for body in bodies])
        value = getattr(module, f'a{index}_0')
        yield key, value
        yield (*key, 'initializer'), value.__init__
        yield (*key, 'method'), value.m
        yield (*key, 'bound'), value().m
        yield (*key, 'partial'), functools.partial(value)
        yield (*key, 'derived'), type('D', (value,), {})
