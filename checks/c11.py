"""C11: methods lose exactly what the call supplies."""
import functools
import importlib
import inspect
import itertools
import types
import typing as t

from vlib import values as sample_values
from vlib.shapes import (KO, PK, PO, VK, VP, Param, accepts, attempt, base,
                         call_names, from_parameter, gen_shapes, header,
                         positionals_count, show, subsets)

from .c04 import Marker

LEVEL = 'model_checking'
RULE = ('state: (hierarchy of two or three user-defined classes with a kind '
        'of definition per level, access path) or (builtin object, its '
        'attribute); transition: obtaining the signature of the accessed '
        'method and comparing it with the declaration found by '
        'interpretation of the descriptor protocol; trace: real call of the '
        'method compared with the answer of the signature')
ASSUMPTIONS = ['first positional parameter is bound by the descriptor '
               'protocol of the interpreter']
PARTS = 16

KINDS = ('absent', 'function', 'class', 'static', 'bound', 'lambda',
         'builtin', 'partial', 'wrapped')


def shards(tier):
    return ([['shapes', i, PARTS] for i in range(PARTS)]
            + [['classes', i, 8] for i in range(8)]
            + [['builtin', i, 8] for i in range(8)]
            + [['derived', 0, 1]]
            + [['library', i, 8] for i in range(8)])


def run(shard, report, spec):
    mode, part, parts = shard
    quick = spec['tier'] == 'quick'
    globals()[f'run_{mode}'](part, parts, report, quick)


# signatures in a comparable form

def parts_of(signature):
    plains = (signature.signatures
              if isinstance(signature, base.OverloadedSignature)
              else [signature])
    return [plain_parts(s) for s in plains]


def plain_parts(signature):
    return (tuple((tuple(from_parameter(p)), p.annotation,
                   (p.default,) if getattr(p, 'has_default', False) else ())
                  for p in signature.parameters), signature.returns)


def identities(parts):
    return [(tuple((p, id(a), tuple(map(id, d))) for p, a, d in parameters),
             id(returns)) for parameters, returns in parts]


def without_first(parameters):
    """None if there is nothing to bind."""
    if not parameters:
        return None
    kind = parameters[0][0][1]
    if kind in (PO, PK):
        return parameters[1:]
    elif kind == VP:
        return parameters
    return None


def declared(shape, markers):
    return tuple(((p.name, p.kind, p.opt),
                  markers['annotation', p.name],
                  (markers['default', p.name],) if p.opt == 'd' else ())
                 for p in shape)


def make_markers(shape, label=''):
    markers = {'returns': Marker('returns' + label)}
    for p in shape:
        markers['annotation', p.name] = Marker(
                f'annotation of {p.name}{label}')
        markers['default', p.name] = Marker(f'default of {p.name}{label}')
    return markers


def text_of(shape, markers_name='markers'):
    return header(shape, default_of=lambda p: (
        f"{markers_name}['default', {p.name!r}]"), annotate=lambda p: (
        f"{markers_name}['annotation', {p.name!r}]"))


def expect(report, key, what, value, parameters, returns, case):
    """parameters is None if nothing can be bound."""
    report.count('transitions')
    result = attempt(base.signature_from_callable, value)
    report.outcome('bound' if parameters is not None else 'nothing to bind')
    if parameters is None:
        if result[0] == 'ok' or result[1] not in ('TypeError', 'ValueError'):
            return report.violation(f'no error:{key}', f'{what} can not be '
                                    f'bound, but gives {result[1:]}', case)
        return True
    if result[0] != 'ok' or not isinstance(result[1], base.PlainSignature):
        return report.violation(f'fails:{key}', f'{what}: {result[1:]}',
                                case)
    got = identities(parts_of(result[1]))
    if got != identities([(parameters, returns)]):
        return report.violation(
                f'differs:{key}', f'{what}: expected parameters '
                f'{[p for p, _, _ in parameters]} -> {returns}, got '
                f'{result[1]}', case)
    return True


# all parameter lists for all kinds of methods

METHODS_SOURCE = '''
class Namesake:
    def m(self, namesake): pass
    c = s = m
class C:
    def m({h}) -> markers['returns']: pass
    @classmethod
    def c({h}) -> markers['returns']: pass
    @staticmethod
    def s({h}) -> markers['returns']: pass
    class D:
        def m({h}) -> markers['returns']: pass
class E(C):
    pass
class F(Namesake, E):
    m, c, s = C.m, vars(C)['c'], vars(C)['s']
'''


def run_shapes(part, parts, report, quick):
    index = 0
    for shape in itertools.chain(
            gen_shapes(3 if quick else 4),
            gen_shapes(2, names=('self', 'cls', 'm'), vp_name='args',
                       vk_name='kwargs')):
        index += 1
        if index % parts != part:
            continue
        markers = make_markers(shape)
        namespace = {'markers': markers, '__name__': 'vuser.methods'}
        exec(METHODS_SOURCE.format(h=text_of(shape)), namespace)
        C, E, F, N = (namespace[n] for n in ('C', 'E', 'F', 'Namesake'))
        full = declared(shape, markers)
        bound = without_first(full)
        for key, value, parameters in (
                ('unbound', C.m, full), ('inherited unbound', E.m, full),
                ('bound', C().m, bound), ('inherited bound', E().m, bound),
                ('overridden bound', F().m, bound),
                ('nested', C.D().m, bound), ('nested unbound', C.D.m, full),
                ('class', C.c, bound), ('class of instance', C().c, bound),
                ('inherited class', E.c, bound),
                ('overridden class', F.c, bound),
                ('static', C.s, full), ('static of instance', C().s, full),
                ('inherited static', E().s, full),
                ('overridden static', F().s, full),
                ('bound to foreign', types.MethodType(C.m, N()), bound),
                ('bound to class', types.MethodType(C.m, N), bound),
                ('bound to None', types.MethodType(C.m, 0), bound),
                ('bound twice', types.MethodType(
                        types.MethodType(C.m, N()), N()),
                 None if bound is None else without_first(bound)),
                ('super', super(F, F()).m if False else super(E, F()).m,
                 bound), ('super class', super(E, F).c, bound)):
            what = f'{key} method {show(shape)}'
            report.state((shape, key))
            if not expect(report, key, what, value, parameters,
                          markers['returns'], {'shape': shape, 'key': key}):
                return
        report.sample(show(shape))
        # agreement with real calls
        for key, value in (('bound', C().m), ('class', C.c),
                           ('static', C.s), ('unbound', C.m),
                           ('super', super(E, F()).m)):
            signature = attempt(base.signature_from_callable, value)
            if signature[0] != 'ok':
                continue
            for count in range(positionals_count(shape) + 2):
                for keywords in subsets(call_names(shape)):
                    args, kwargs = (0,) * count, dict.fromkeys(keywords)
                    if (shape and shape[0].kind == PK
                            and shape[0].name in kwargs):
                        # not expressible with variadic keywords
                        continue
                    report.count('traces')
                    reference = accepts(value, args, kwargs)
                    if attempt(signature[1].all_set, *args,
                               **kwargs) != ('ok', reference):
                        if not report.violation(
                                f'calls:{key}', f'{key} method '
                                f'{show(shape)} called with {count} '
                                f'positionals and {keywords}: accepted: '
                                f'{reference}', {'shape': shape}):
                            return


# hierarchies: kinds of definitions per level

def level_definition(kind, level):
    """Text of the class body and parameter list visible unbound."""
    own = f'x{level}'
    markers = f'M[{level}]'
    shape = {
        'function': (Param('self', PK, 'r'), Param(own, PK, 'd')),
        'wrapped': (Param('me', PK, 'r'), Param(own, KO, 'r')),
        'class': (Param('cls', PK, 'r'), Param(own, PO, 'r')),
        'static': (Param(own, PK, 'r'), Param(f'y{level}', PK, 'd')),
        'bound': (Param('first', PK, 'r'), Param(own, PK, 'r')),
        'lambda': (Param('this', PK, 'r'), Param(own, PK, 'd')),
        'partial': (Param('self', PK, 'r'), Param(own, PK, 'r')),
    }.get(kind)
    if shape is not None and kind == 'class':
        shape = (Param('cls', PO, 'r'), Param(own, PO, 'r'))
    return shape


def define_levels(kinds, diamond):
    M = [make_markers(level_definition(kind, i) or (), f' {i}')
         for i, kind in enumerate(kinds)]
    namespace = {'M': M, 'functools': functools, 'types': types,
                 '__name__': 'vuser.hierarchies', '__builtins__':
                     __builtins__}
    source = []
    for level, kind in enumerate(kinds):
        if diamond:
            bases = ['', 'C0', 'C0', 'C1, C2'][level]
        else:
            bases = f'C{level - 1}' if level else ''
        source.append(f'class C{level}({bases}):\n pass')
        shape = level_definition(kind, level)
        if shape is None:
            if kind == 'builtin':
                source[-1] += '\n m = len'
            continue
        h = text_of(shape, f'M[{level}]')
        r = f"M[{level}]['returns']"
        if kind == 'function':
            source[-1] += f'\n def m({h}) -> {r}: pass'
        elif kind == 'wrapped':
            source[-1] += (f'\n def w({h}) -> {r}: pass\n'
                           ' @functools.wraps(w)\n'
                           ' def m(*args, **kwargs): pass')
        elif kind == 'class':
            source[-1] += f'\n @classmethod\n def m({h}) -> {r}: pass'
        elif kind == 'static':
            source[-1] += f'\n @staticmethod\n def m({h}) -> {r}: pass'
        elif kind == 'lambda':
            source[-1] += (f'\n m = lambda this, x{level}='
                           f"M[{level}]['default', 'x{level}']: 0")
        elif kind == 'bound':
            source[-1] += (f'\n class O:\n  def m({h}) -> {r}: pass\n'
                           ' m = O().m')
        elif kind == 'partial':
            source[-1] += (f'\n def p({h}) -> {r}: pass\n'
                           ' m = functools.partialmethod(p, 0)')
    exec('\n'.join(source), namespace)
    return [namespace[f'C{i}'] for i in range(len(kinds))], M


def run_classes(part, parts, report, quick):
    levels = 2 if quick else 3
    index = 0
    for count in range(1, levels + 1):
        for kinds in itertools.product(KINDS, repeat=count):
            index += 1
            if index % parts == part and not check_levels(kinds, False,
                                                          report):
                return
    for kinds in itertools.product(('absent', 'function', 'class', 'static')
                                   if quick else KINDS[:5], repeat=4):
        index += 1
        if index % parts == part and not check_levels(kinds, True, report):
            return


def check_levels(kinds, diamond, report):
    classes, M = define_levels(kinds, diamond)
    last = classes[-1]
    report.sample(f'{kinds} diamond={diamond}')

    def paths():
        for i, cls in enumerate(classes):
            yield f'C{i}.m', cls.__mro__, None, cls, lambda cls=cls: cls.m
            instance = cls()
            yield (f'C{i}().m', cls.__mro__, instance, cls,
                   lambda instance=instance: instance.m)
            if i:
                for j in range(i + 1):
                    if classes[j] not in cls.__mro__:
                        continue
                    rest = cls.__mro__[cls.__mro__.index(classes[j]) + 1:]
                    yield (f'super(C{j}, C{i}()).m', rest, instance, cls,
                           lambda j=j, instance=instance: super(
                                   classes[j], instance).m)
                    yield (f'super(C{j}, C{i}).m', rest, None, cls,
                           lambda j=j, cls=cls: super(classes[j], cls).m)

    for name, mro, instance, cls, get in paths():
        owner = next((c for c in mro if 'm' in vars(c)), None)
        if owner is None:
            continue
        level = classes.index(owner)
        kind = kinds[level]
        if name.startswith('super') and instance is None and kind not in (
                'class', 'static', 'function', 'lambda', 'bound'):
            continue
        report.state((kinds, diamond, name))
        value = get()
        case = {'kinds': kinds, 'diamond': diamond, 'path': name}
        what = f'{name} of {kinds}' + (' (diamond)' if diamond else '')
        if kind == 'builtin':
            if not same_as(report, 'builtin attribute', what, value, len,
                           case):
                return False
            continue
        shape = level_definition(kind, level)
        if kind == 'lambda':
            M[level]['returns'] = t.Any
            for p in shape:
                M[level]['annotation', p.name] = t.Any
        parameters = declared(shape, M[level])
        if kind in ('class', 'bound') or (instance is not None
                                          and kind != 'static'):
            parameters = parameters[1:]
        if kind == 'partial' and instance is not None:
            parameters = parameters[1:]
        if kind == 'partial' and instance is None:
            # function of functools with own parameters
            continue
        if not expect(report, kind, what, value, parameters,
                      M[level]['returns'], case):
            return False
    # shadowed by an instance attribute, replaced after being obtained
    instance = last()
    shape = (Param('own', PK, 'r'), Param('other', KO, 'd'))
    markers = make_markers(shape)
    namespace = {'markers': markers, '__name__': 'vuser.other'}
    exec(f"class O:\n def m({text_of(shape)}) -> markers['returns']: pass",
         namespace)
    O = namespace['O']
    full = declared(shape, markers)
    case = {'kinds': kinds, 'diamond': diamond, 'path': 'instance attribute'}
    for value, parameters, key in ((O.m, full, 'function'),
                                   (O().m, full[1:], 'bound'),
                                   (types.MethodType(O.m, instance),
                                    full[1:], 'bound to itself')):
        instance.m = value
        report.state((kinds, diamond, key))
        if not expect(report, f'shadowing:{key}', f'{key} shadowing {kinds}',
                      instance.m, parameters, markers['returns'], case):
            return False
    owner = next((c for c in last.__mro__ if 'm' in vars(c)), None)
    if owner is not None and kinds[classes.index(owner)] == 'function':
        level = classes.index(owner)
        value = last().m
        owner.m = O.m
        parameters = declared(level_definition('function', level),
                              M[level])[1:]
        if not expect(report, 'replaced', f'method of {kinds} obtained '
                      'before being replaced', value, parameters,
                      M[level]['returns'], case):
            return False
        if not expect(report, 'replacement', f'method of {kinds} which '
                      'replaces other one', last().m, full[1:],
                      markers['returns'], case):
            return False
    return True


def same_as(report, key, what, value, other, case):
    report.count('transitions')
    first = attempt(base.signature_from_callable, value)
    second = attempt(base.signature_from_callable, other)
    if first[:2] != second[:2]:
        return report.violation(key, f'{what}: {first[1:]}, while expected '
                                f'{second[1:]}', case)
    return True


# methods of builtin objects

def to_key(value, name):
    return f'{type(value).__module__}.{type(value).__qualname__}.{name}'


def run_builtin(part, parts, report, quick):
    for index, value in enumerate(sample_values.builtin_values()):
        if index % parts != part:
            continue
        cls = type(value)
        for name in dir(cls):
            raw = next((vars(c)[name] for c in cls.__mro__
                        if name in vars(c)), None)
            if not check_builtin(value, cls, name, raw, report):
                return
        report.sample(repr(cls))


DESCRIPTORS = (types.MethodDescriptorType, types.WrapperDescriptorType,
               types.FunctionType)


def check_builtin(value, cls, name, raw, report):
    got = attempt(lambda: getattr(value, name))
    if got[0] != 'ok' or not callable(got[1]):
        return True
    bound = got[1]
    case = {'class': repr(cls), 'name': name}
    what = f'{cls.__module__}.{cls.__qualname__} instance attribute {name}'
    if isinstance(raw, DESCRIPTORS):
        if getattr(bound, '__self__', None) is not value:
            return True
        report.state((cls, name))
        report.count('transitions')
        unbound = attempt(base.signature_from_callable, raw)
        result = attempt(base.signature_from_callable, bound)
        if unbound[0] != 'ok':
            report.outcome('no signature')
            if (result[0] != 'ok' and result[1] in ('ValueError',
                                                    'TypeError')):
                return True
            # interpreter may know more about the bound one
            return compare_with_inspect(report, what, bound, result, case)
        want = [(without_first(parameters), returns)
                for parameters, returns in parts_of(unbound[1])
                if without_first(parameters) is not None]
        report.outcome('bound')
        report.count('traces')
        if not want:
            return (result[0] != 'ok'
                    or report.violation(to_key(value, name), what, case))
        if result[0] != 'ok':
            return report.violation(to_key(value, name),
                                    f'{what}: {result[1:]}', case)
        if parts_of(result[1]) != want:
            return report.violation(
                    to_key(value, name), f'{what} has signature {result[1]}, '
                    f'while {raw!r} has {unbound[1]}', case)
        return True
    elif (isinstance(raw, types.ClassMethodDescriptorType)
          and not isinstance(value, type)):
        # already bound to the class, no matter how it is accessed
        return same_as(report, to_key(value, name), what, bound,
                       getattr(cls, name), case)
    return True


def compare_with_inspect(report, what, value, result, case):
    raw = attempt(inspect.signature, value)
    if raw[0] != 'ok':
        return report.violation('inspect', f'{what}: unexpected {result}',
                                case)
    names = [p.name for p in raw[1].parameters.values()]
    if result[0] != 'ok' or [p.name for p in getattr(
            result[1], 'parameters', ())] != names:
        return report.violation('inspect', f'{what}: expected parameters '
                                f'{names}, got {result[1:]}', case)
    return True


# methods of classes of the standard library bound to various objects

LIBRARY = '''
abc argparse ast asyncio.queues asyncio.locks calendar cmd code codecs
collections concurrent.futures.thread configparser contextlib csv datetime
decimal difflib dis email.message email.policy enum fractions ftplib functools
gettext graphlib html.parser http.client http.cookiejar http.cookies
http.server imaplib inspect io ipaddress json json.encoder json.decoder
logging logging.handlers mailbox multiprocessing.pool netrc numbers optparse
pathlib pdb pickle plistlib poplib pprint queue random sched selectors shelve
shlex smtplib socket socketserver sqlite3 ssl statistics string subprocess
symtable tarfile tempfile textwrap threading timeit tokenize trace traceback
types typing unittest.case unittest.loader unittest.mock unittest.runner
unittest.suite urllib.parse urllib.request uuid weakref wsgiref.handlers
xml.dom.minidom xml.etree.ElementTree xml.sax.handler zipfile
'''.split()


def library_methods():
    """Yields own methods of classes defined in Python."""
    for module_name in LIBRARY:
        module = importlib.import_module(module_name)
        for class_name, cls in sorted(vars(module).items()):
            if not (isinstance(cls, type)
                    and cls.__module__ == module_name):
                continue
            for name, member in vars(cls).items():
                if isinstance(member, (types.FunctionType, classmethod)):
                    yield f'{module_name}.{class_name}', cls, name, member


def run_library(part, parts, report, quick):
    for index, (path, cls, name, member) in enumerate(library_methods()):
        if index % parts != part:
            continue
        function = (member if isinstance(member, types.FunctionType)
                    else member.__func__)
        if not isinstance(function, types.FunctionType):
            continue
        report.state((path, name))

        # has other definition of the same name
        def override(self, *, overridden): pass

        if not name.isidentifier() or name in ('__class__', '__new__',
                                               '__init_subclass__',
                                               '__getattribute__',
                                               '__getattr__', '__class_getitem__',
                                               '__set_name__', '__del__'):
            continue
        Foreign = type('Foreign', (), {name: override})
        foreign = object.__new__(Foreign)
        receivers = [('foreign object', foreign), ('foreign class', Foreign),
                     ('number', 0), ('class itself', cls)]
        try:
            Derived = types.new_class('Derived', (cls,), {}, lambda space: (
                space.update({name: override})))
            derived = object.__new__(Derived)
        except Exception:
            report.outcome('can not be derived')
        else:
            receivers.append(('object of derived class', derived))
        if isinstance(member, classmethod):
            reference = attempt(base.signature_from_callable,
                                member.__get__(None, cls))
            for key, receiver in receivers:
                if not isinstance(receiver, type):
                    continue
                report.count('transitions')
                result = attempt(base.signature_from_callable,
                                 types.MethodType(function, receiver))
                if not library_agrees(report, path, name, key, result,
                                      reference):
                    return
            report.outcome('class method')
            report.count('traces')
            continue
        unbound = attempt(base.signature_from_callable, function)
        if unbound[0] != 'ok':
            report.outcome('no signature')
            continue
        want = [(without_first(parameters), returns)
                for parameters, returns in parts_of(unbound[1])
                if without_first(parameters) is not None]
        if not want:
            report.outcome('nothing to bind')
            continue
        for key, receiver in receivers:
            report.count('transitions')
            result = attempt(base.signature_from_callable,
                             types.MethodType(function, receiver))
            if result[0] != 'ok' or parts_of(result[1]) != want:
                if not report.violation(
                        f'library:{path}.{name}', f'{path}.{name} bound to '
                        f'{key} has signature {result[1:]}, while unbound '
                        f'one has {unbound[1]}',
                        {'class': path, 'name': name, 'bound to': key}):
                    return
        report.outcome('bound')
        report.count('traces')
        report.sample(f'{path}.{name}')


def library_agrees(report, path, name, key, result, reference):
    if result[0] == reference[0] and (result[0] != 'ok'
                                      or result[1] == reference[1]):
        return True
    return report.violation(
            f'library:{path}.{name}', f'class method {path}.{name} bound to '
            f'{key} has signature {result[1:]}, while bound to its own class '
            f'{reference[1:]}', {'class': path, 'name': name, 'bound to': key})


# classes derived from builtin ones

def run_derived(part, parts, report, quick):
    class L(list):
        def append(self, a, b): pass
        take = list.pop
        pop = list.append
        sort = staticmethod(sorted)
        clear = len
        __add__ = list.__mul__

        def __len__(self, *, k=0): pass

        @classmethod
        def copy(cls, q): pass

        def index(self): pass

    class P(L):
        append = list.append
        index = L.append

    class D(dict):
        @classmethod
        def fromkeys(cls, x, y, z): pass

    class E(dict):
        pass

    class I(int):
        from_bytes = int.to_bytes

    shadowed = L()
    shadowed.insert = [].append
    shadowed.count = [].__contains__
    shadowed.reverse = {}.get
    l, p = L(), P()
    table = (
        ('overridden', l.append, ('a', 'b')),
        ('overridden unbound', L.append, ('self', 'a', 'b')),
        ('super', super(L, l).append, [].append),
        ('super of super', super(P, p).append, ('a', 'b')),
        ('renamed', l.take, [].pop), ('renamed unbound', L.take, list.pop),
        ('swapped', l.pop, [].append), ('swapped unbound', L.pop,
                                        list.append),
        ('static', l.sort, sorted), ('builtin', l.clear, len),
        ('slot swapped', l.__add__, [].__mul__),
        ('slot overridden', l.__len__, ('k',)),
        ('slot super', super(L, l).__len__, [].__len__),
        ('class', l.copy, ('q',)), ('class unbound', L.copy, ('q',)),
        ('class super', super(L, l).copy, [].copy),
        ('restored', p.append, [].append),
        ('moved', p.index, ('a', 'b')),
        ('restored unbound', P.append, list.append),
        ('inherited', p.extend, [].extend),
        ('inherited unbound', P.extend, list.extend),
        ('shadowed', shadowed.insert, [].append),
        ('shadowed slot', shadowed.count, [].__contains__),
        ('shadowed by foreign', shadowed.reverse, {}.get),
        ('classmethod overridden', D.fromkeys, ('x', 'y', 'z')),
        ('classmethod overridden of instance', D().fromkeys,
         ('x', 'y', 'z')),
        ('classmethod super', super(D, D).fromkeys, dict.fromkeys),
        ('classmethod super of instance', super(D, D()).fromkeys,
         dict.fromkeys),
        ('classmethod inherited', E.fromkeys, dict.fromkeys),
        ('classmethod inherited of instance', E().fromkeys, dict.fromkeys),
        ('classmethod of instance', {}.fromkeys, dict.fromkeys),
        ('method instead of classmethod', I(1).from_bytes, (1).to_bytes),
        ('super classmethod of int', super(I, I(1)).from_bytes,
         int.from_bytes),
        ('metaclass slot', int.__call__, str.__call__),
        ('metaclass method', int.mro, str.mro),
        ('unbound of object', L.__repr__, list.__repr__),
        ('bound of object', l.__repr__, [].__repr__),
        ('object slot', l.__setattr__, [].__setattr__),
        ('class object slot', L.__setattr__, object.__setattr__),
    )
    for key, value, expected in table:
        report.state(key)
        case = {'key': key}
        if isinstance(expected, tuple):
            report.count('transitions')
            result = attempt(base.signature_from_callable, value)
            if (result[0] != 'ok'
                    or tuple(p.name for p in getattr(
                        result[1], 'parameters', ())) != expected):
                if not report.violation(f'derived:{key}', f'{key}: expected '
                                        f'parameters {expected}, got '
                                        f'{result[1:]}', case):
                    return
        elif not same_as(report, f'derived:{key}', key, value, expected,
                         case):
            return
    report.count('traces', len(table))
    report.outcome('derived', len(table))
