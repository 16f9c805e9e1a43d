"""Reference model of type stubs, written independently from the library.

Stub modules are interpreted symbolically the way Python would execute them:
every scope is a sequence of bindings (the last one wins, conditionals are
decided beforehand), names are looked up in the own scope, then in the module,
then in builtins; attributes of classes are looked up along their C3
linearization."""
import ast
import dataclasses
import importlib
import sys
import types
import typing

import typing_extensions

MISSING = object()


class Unknown(Exception):
    """The model does not know what it means."""


class NotFound(Unknown):
    pass


class Scope:
    def __init__(self, module, path, outer):
        self.module, self.path, self.outer = module, path, outer
        self.bindings = []

    def __repr__(self):
        return f'{self.module.name}:{".".join(self.path)}'

    def names(self):
        return {name for name, _ in self.bindings if name != '*'}


class Module:
    def __init__(self, name, package, path):
        self.name, self.package, self.path = name, package, path
        self.scope = Scope(self, (), None)
        self.exported = None

    def parent_name(self, level):
        parts = self.name.split('.')
        parts = parts[:len(parts) + (1 if self.package else 0) - level]
        return '.'.join(parts)


class Definition:
    """kind: module, class, functions, value (assignment or annotation)."""

    def __init__(self, kind, scope, name, nodes=(), body=None):
        self.kind, self.scope, self.name = kind, scope, name
        self.nodes, self.body = list(nodes), body
        # type variables substituted in an inherited definition
        self.substitution = {}
        self.inherited = False

    def inherit(self, substitution):
        result = Definition(self.kind, self.scope, self.name, self.nodes,
                            self.body)
        result.substitution = {**self.substitution, **substitution}
        result.inherited = True
        return result

    @property
    def path(self):
        return self.scope.path + (self.name,) if self.scope else ()

    @property
    def module(self):
        return self.scope.module if self.scope else self.body

    @property
    def key(self):
        return (self.module.name, self.path)

    def __repr__(self):
        return f'<{self.kind} {self.module.name}:{".".join(self.path)}>'


class Stubs:
    def __init__(self, files):
        """files: module name -> (is package, path)."""
        self.files = dict(files)
        self.modules = {}
        self.definitions = {}
        self.linearizations = {}

    @classmethod
    def standard(cls):
        from . import typeshed
        return cls({name: (package, path)
                    for name, package, path in typeshed.modules()})

    def module(self, name):
        if name not in self.modules:
            if name not in self.files:
                return None
            package, path = self.files[name]
            module = self.modules[name] = Module(name, package, path)
            self._execute(ast.parse(path.read_bytes()).body, module.scope)
        return self.modules[name]

    # execution

    def _execute(self, body, scope):
        bindings = scope.bindings
        for node in body:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                bindings.append((node.name, ('function', node)))
            elif isinstance(node, ast.ClassDef):
                inner = Scope(scope.module, scope.path + (node.name,), scope)
                bindings.append((node.name, ('class', node, inner)))
                self._execute(node.body, inner)
            elif isinstance(node, ast.Import):
                for alias in node.names:
                    if alias.asname is None:
                        bindings.append((alias.name.split('.')[0],
                                         ('module',
                                          alias.name.split('.')[0])))
                    else:
                        bindings.append((alias.asname,
                                         ('module', alias.name)))
            elif isinstance(node, ast.ImportFrom):
                name = node.module or ''
                if node.level:
                    parent = scope.module.parent_name(node.level)
                    name = parent + '.' + name if name else parent
                for alias in node.names:
                    bindings.append((alias.asname or alias.name,
                                     ('from', name, alias.name)))
            elif isinstance(node, ast.Assign):
                for target in node.targets:
                    for name_node in ast.walk(target):
                        if isinstance(name_node, ast.Name):
                            bindings.append((name_node.id,
                                             ('value', node)))
            elif isinstance(node, ast.AnnAssign):
                if isinstance(node.target, ast.Name):
                    bindings.append((node.target.id, ('value', node)))
            elif isinstance(node, ast.If):
                if self.condition(node.test, scope):
                    self._execute(node.body, scope)
                else:
                    self._execute(node.orelse, scope)
            elif isinstance(node, (ast.Expr, ast.Pass, ast.AugAssign,
                                   ast.Delete)):
                pass
            else:
                raise Unknown(ast.dump(node))

    def condition(self, node, scope):
        text = ast.unparse(node)
        return bool(eval(compile(ast.Expression(node), text, 'eval'),
                         {'sys': sys, 'TYPE_CHECKING': True}))

    # lookup

    def bound(self, scope, name):
        """Definition bound to the name in the very scope or None."""
        key = (id(scope), name)
        if key in self.definitions:
            result = self.definitions[key]
            if result is MISSING:
                raise NotFound(f'circular {name}')
            return result
        self.definitions[key] = MISSING
        try:
            result = self._bound(scope, name)
        except BaseException:
            del self.definitions[key]
            raise
        self.definitions[key] = result
        return result

    def _bound(self, scope, name):
        functions = []
        for bound_name, binding in reversed(scope.bindings):
            if bound_name == '*':
                if functions:
                    break
                module = self.module(binding[1])
                if module is None or name not in self.public_names(module):
                    continue
                found = self.bound(module.scope, name)
                if found is not None:
                    return found
                continue
            if bound_name != name:
                continue
            if binding[0] == 'function':
                node = binding[1]
                if is_overload(node):
                    functions.insert(0, node)
                    continue
                if not functions:
                    functions = [node]
                break
            if functions:
                break
            if binding[0] == 'class':
                _, node, inner = binding
                return Definition('class', scope, name, [node], inner)
            elif binding[0] == 'module':
                module = self.module(binding[1])
                if module is None:
                    raise NotFound(binding[1])
                return Definition('module', None, None, [], module)
            elif binding[0] == 'from':
                _, module_name, original = binding
                module = self.module(module_name)
                if module is not None:
                    if not (module is scope.module and original == name):
                        found = self.bound(module.scope, original)
                        if found is not None:
                            return found
                module = self.module(module_name + '.' + original)
                if module is not None:
                    return Definition('module', None, None, [], module)
                raise NotFound(f'{module_name}.{original}')
            else:
                node = binding[1]
                value = node.value
                if isinstance(value, (ast.Name, ast.Attribute)):
                    try:
                        found = self.resolve(value, scope)
                    except Unknown:
                        found = None
                    if (found is not None
                            and found.kind in ('class', 'functions',
                                               'module')):
                        return found
                return Definition('value', scope, name, [node])
        if functions:
            return Definition('functions', scope, name, functions)
        return None

    def public_names(self, module):
        if module.exported is None:
            names = set()
            explicit = None
            for name, binding in module.scope.bindings:
                if name == '*':
                    other = self.module(binding[1])
                    if other is not None and other is not module:
                        names |= self.public_names(other)
                elif name == '__all__':
                    node = binding[1]
                    if node.value is not None:
                        explicit = set(all_names(node.value))
                else:
                    names.add(name)
            if explicit is not None:
                for node in ast.walk(ast.parse(module.path.read_bytes())):
                    if (isinstance(node, ast.AugAssign)
                            and isinstance(node.target, ast.Name)
                            and node.target.id == '__all__'):
                        explicit |= set(all_names(node.value))
                module.exported = explicit
            else:
                module.exported = {name for name in names
                                   if not name.startswith('_')}
        return module.exported

    def lookup(self, name, scope):
        """Name used directly in the scope."""
        found = self.bound(scope, name)
        if found is None and scope.path:
            found = self.bound(scope.module.scope, name)
        if found is None:
            found = self.bound(self.module('builtins').scope, name)
        if found is None:
            raise NotFound(f'{name} in {scope!r}')
        return found

    def attribute(self, definition, name):
        if definition.kind == 'module':
            found = self.bound(definition.body.scope, name)
            if found is None:
                module = self.module(definition.body.name + '.' + name)
                if module is not None:
                    return Definition('module', None, None, [], module)
        elif definition.kind == 'class':
            for cls in self.linearize(definition):
                found = self.bound(cls.body, name)
                if found is None and name == '__new__' and (
                        self.is_named_tuple(cls)):
                    found = Definition('named tuple', cls.scope, cls.name,
                                       cls.nodes, cls.body)
                if found is not None:
                    if cls is not definition:
                        found = found.inherit(
                                self.substitutions(definition)[cls.key])
                    break
        else:
            found = None
        if found is None:
            raise NotFound(f'{name} of {definition!r}')
        return found

    def resolve(self, node, scope):
        if isinstance(node, ast.Name):
            return self.lookup(node.id, scope)
        elif isinstance(node, ast.Attribute):
            return self.attribute(self.resolve(node.value, scope), node.attr)
        raise Unknown(ast.dump(node))

    def find(self, module_name, path):
        """Definition at the path of the module or None."""
        module = self.module(module_name)
        if module is None:
            return None
        definition = Definition('module', None, None, [], module)
        try:
            for name in path:
                definition = self.attribute(definition, name)
        except NotFound:
            return None
        return definition

    # classes

    def bases(self, definition):
        """Definitions of base classes."""
        return [cls for cls, _, _ in self.specialized_bases(definition)]

    def specialized_bases(self, definition):
        """Base classes with nodes of their type arguments (if any) and the
        scope of these nodes."""
        result = []
        node, = definition.nodes
        for base in node.bases:
            scope = definition.scope
            while True:
                arguments = None
                if isinstance(base, ast.Subscript):
                    arguments = (base.slice.elts
                                 if isinstance(base.slice, ast.Tuple)
                                 else [base.slice])
                    base = base.value
                found = self.resolve(base, scope)
                if (found.kind == 'value' and arguments is None
                        and isinstance(found.nodes[0].value,
                                       (ast.Name, ast.Attribute,
                                        ast.Subscript))):
                    # alias of a specialization
                    base, scope = found.nodes[0].value, found.scope
                    continue
                break
            if found.kind == 'class':
                result.append((found, arguments, scope))
            elif found.key not in (('typing', ('Any',)),
                                   ('typing', ('Generic',)),
                                   ('typing', ('Protocol',)),
                                   ('typing', ('TypedDict',)),
                                   ('typing_extensions', ('Protocol',)),
                                   ('typing_extensions', ('TypedDict',))):
                raise Unknown(f'base {found!r}')
        return result

    def is_named_tuple(self, cls):
        return ('typing', ('NamedTuple',)) in [base.key
                                               for base in self.bases(cls)]

    def parameters(self, definition):
        """Keys of type variables a class is generic over."""
        node, = definition.nodes
        result = []
        for base in node.bases:
            if not isinstance(base, ast.Subscript):
                continue
            variables = self.type_variables(base.slice, definition.scope)
            found = self.resolve(base.value, definition.scope)
            if found.key in (('typing', ('Generic',)),
                             ('typing', ('Protocol',)),
                             ('typing_extensions', ('Protocol',))):
                return variables
            result += [v for v in variables if v not in result]
        return result

    def type_variables(self, node, scope):
        result = []
        if isinstance(node, (ast.Name, ast.Attribute)):
            try:
                found = self.resolve(node, scope)
            except Unknown:
                return result
            if self.is_type_variable(found):
                result.append(found.key)
        else:
            for child in ast.iter_child_nodes(node):
                result += [v for v in self.type_variables(child, scope)
                           if v not in result]
        return result

    def is_type_variable(self, definition):
        if definition.kind != 'value' or not definition.nodes:
            return False
        value = definition.nodes[0].value
        if not isinstance(value, ast.Call):
            return False
        try:
            found = self.resolve(value.func, definition.scope)
        except Unknown:
            return False
        return found.path in (('TypeVar',), ('ParamSpec',),
                              ('TypeVarTuple',))

    def substitutions(self, definition):
        """Type arguments of every ancestor (of the first way to it)."""
        result = {definition.key: {}}
        self._substitute(definition, {}, result)
        for cls in self.linearize(definition):
            result.setdefault(cls.key, {})
        return result

    def _substitute(self, definition, own, result):
        for base, arguments, scope in self.specialized_bases(definition):
            substitution = {}
            if arguments is not None:
                parameters = self.parameters(base)
                if (base.key == ('builtins', ('tuple',))
                        and len(arguments) == 2
                        and isinstance(arguments[1], ast.Constant)
                        and arguments[1].value is Ellipsis):
                    arguments = arguments[:1]
                if len(parameters) == len(arguments):
                    substitution = {
                        parameter: (argument, scope, own)
                        for parameter, argument in zip(parameters, arguments)
                    }
            result.setdefault(base.key, substitution)
            self._substitute(base, substitution, result)

    def linearize(self, definition):
        key = definition.key
        if key not in self.linearizations:
            bases = self.bases(definition)
            if not bases and key != ('builtins', ('object',)):
                bases = [self.find('builtins', ('object',))]
            self.linearizations[key] = [definition, *merge(
                    [self.linearize(base) for base in bases] + [bases])]
        return self.linearizations[key]


def merge(sequences):
    result = []
    sequences = [list(sequence) for sequence in sequences if sequence]
    while sequences:
        for sequence in sequences:
            candidate = sequence[0]
            if not any(candidate.key in [d.key for d in other[1:]]
                       for other in sequences):
                break
        else:
            raise Unknown('inconsistent hierarchy')
        result.append(candidate)
        sequences = [[d for d in sequence if d.key != candidate.key]
                     for sequence in sequences]
        sequences = [sequence for sequence in sequences if sequence]
    return result


def all_names(node):
    if isinstance(node, (ast.List, ast.Tuple)):
        return [element.value for element in node.elts
                if isinstance(element, ast.Constant)]
    return []


def decorators(node):
    return [ast.unparse(decorator) for decorator in node.decorator_list]


def is_overload(node):
    return any(text.rsplit('.', 1)[-1] == 'overload'
               for text in decorators(node))


# values


class Marker:
    """Stands for a class existing in stubs only."""


class Evaluator:
    def __init__(self, stubs):
        self.stubs = stubs
        self.markers = {}
        self.values = {}
        self.active = []

    def evaluate(self, node, scope, substitution={}):
        recur = lambda node: self.evaluate(node, scope, substitution)
        if isinstance(node, ast.Constant):
            return node.value
        elif isinstance(node, ast.Name):
            return self.of_definition(self.stubs.lookup(node.id, scope),
                                      substitution)
        elif isinstance(node, ast.Attribute):
            try:
                definition = self.stubs.resolve(node, scope)
            except NotFound:
                value = recur(node.value)
                try:
                    return getattr(value, node.attr)
                except AttributeError:
                    raise Unknown(ast.unparse(node))
            self._check_unambiguous(node, definition, scope)
            return self.of_definition(definition, substitution)
        elif isinstance(node, ast.Subscript):
            value, item = recur(node.value), recur(node.slice)
            try:
                return value[item]
            except TypeError:
                # is not generic in runtime
                return value
        elif isinstance(node, ast.Tuple):
            return tuple(map(recur, node.elts))
        elif isinstance(node, ast.List):
            return list(map(recur, node.elts))
        elif isinstance(node, ast.BinOp):
            left, right = recur(node.left), recur(node.right)
            if isinstance(node.op, ast.BitOr):
                if isinstance(left, int) and isinstance(right, int):
                    return left | right
                return typing.Union[left, right]
            raise Unknown(ast.unparse(node))
        elif isinstance(node, ast.UnaryOp):
            value = recur(node.operand)
            if isinstance(node.op, ast.USub):
                return -value
            raise Unknown(ast.unparse(node))
        elif isinstance(node, ast.Dict):
            return {recur(key): recur(value)
                    for key, value in zip(node.keys, node.values)}
        elif isinstance(node, ast.Call):
            function = recur(node.func)
            return function(*map(recur, node.args),
                            **{keyword.arg: recur(keyword.value)
                               for keyword in node.keywords})
        raise Unknown(ast.dump(node))

    def _check_unambiguous(self, node, definition, scope):
        # runtime factory may be an alias of a class in stubs
        outer = self.stubs.resolve(node.value, scope)
        if outer.kind == 'module':
            found = runtime(outer.body.name, (node.attr,))
            if (isinstance(found, types.FunctionType)
                    and found is not runtime(definition.module.name,
                                             definition.path)):
                raise Unknown(f'factory {ast.unparse(node)}')

    def of_definition(self, definition, substitution={}):
        key = definition.key
        if key in substitution:
            return self.evaluate(*substitution[key])
        if key not in self.values:
            if key in self.active:
                return typing.ForwardRef('.'.join(definition.path))
            self.active.append(key)
            try:
                self.values[key] = self._of_definition(definition)
            finally:
                self.active.remove(key)
        return self.values[key]

    def _of_definition(self, definition):
        if definition.key == ('_typeshed', ('Self',)):
            return typing_extensions.Self
        found = runtime(definition.module.name, definition.path)
        if found is not MISSING:
            return found
        if definition.kind == 'class':
            name = '.'.join(definition.path)
            return type('.'.join(definition.path), (Marker,),
                        {'__module__': definition.module.name,
                         '__qualname__': name,
                         '__class_getitem__': classmethod(
                                 lambda cls, item: Alias(cls, item)),
                         'generic': True})
        elif definition.kind == 'value':
            node, = definition.nodes
            if node.value is None:
                raise Unknown(f'value of {definition!r}')
            return self.evaluate(node.value, definition.scope)
        raise Unknown(repr(definition))


class Alias:
    """Specialization of a class existing in stubs only."""

    def __init__(self, origin, item):
        self.origin = origin
        self.arguments = item if isinstance(item, tuple) else (item,)

    def __call__(self):
        raise TypeError

    def __hash__(self):
        return hash(self.origin)

    def __eq__(self, other):
        return (isinstance(other, Alias) and self.origin is other.origin
                and self.arguments == other.arguments)

    def __or__(self, other):
        return typing.Union[self, other]

    __ror__ = __or__


def runtime(module_name, path):
    try:
        value = importlib.import_module(module_name)
    except ImportError:
        return MISSING
    for name in path:
        try:
            value = getattr(value, name)
        except AttributeError:
            return MISSING
    return value


PACKAGES = {*sys.stdlib_module_names, 'typing_extensions'}


def is_runtime_class(value):
    name = getattr(value, '__module__', None)
    if (not isinstance(name, str)
            or name.split('.')[0] not in PACKAGES
            or issubclass(value, Marker)):
        return False
    module = sys.modules.get(getattr(value, '__module__', None))
    for name in getattr(value, '__qualname__', '').split('.'):
        module = getattr(module, name, None)
    return module is value


def canonical(value, depth=0):
    """Structure of an annotation, leaves are identified by objects."""
    if depth > 30:
        return ('deep',)
    recur = lambda v: canonical(v, depth + 1)
    if isinstance(value, Alias):
        # arguments of classes existing in stubs only are not comparable,
        # since there is nothing to specialize in runtime
        return recur(value.origin)
    if value is None or value is type(None):
        return ('None',)
    if isinstance(value, typing.NewType):
        return ('newtype', value.__name__, recur(value.__supertype__))
    if isinstance(value, dataclasses.InitVar):
        return ('initvar', recur(value.type))
    if isinstance(value, (str, bytes, int)):
        return ('constant', type(value).__name__, value)
    if value is Ellipsis:
        return ('...',)
    if isinstance(value, (list, tuple)):
        return ('list', tuple(map(recur, value)))
    if isinstance(value, typing.ForwardRef):
        return ('forward', value.__forward_arg__)
    if isinstance(value, typing.TypeVar):
        return ('typevar', value.__name__, recur(value.__bound__),
                tuple(map(recur, value.__constraints__)),
                value.__covariant__, value.__contravariant__)
    for class_name in ('ParamSpec', 'TypeVarTuple'):
        for module in (typing, typing_extensions):
            if isinstance(value, getattr(module, class_name)):
                return (class_name, value.__name__)
    for class_name in ('ParamSpecArgs', 'ParamSpecKwargs'):
        for module in (typing, typing_extensions):
            if isinstance(value, getattr(module, class_name)):
                return (class_name, value.__origin__.__name__)
    origin = typing_extensions.get_origin(value)
    if origin is not None:
        arguments = typing_extensions.get_args(value)
        if origin is typing.Union or str(origin) == "<class 'types.UnionType'>":
            arms = frozenset(map(recur, arguments))
            return next(iter(arms)) if len(arms) == 1 else ('union', arms)
        if origin in (typing.Literal, typing_extensions.Literal):
            return ('literal', tuple((type(a).__name__, a)
                                     for a in arguments))
        bare = value in (typing.List, typing.Dict) if not arguments else False
        if (not arguments and not bare
                and getattr(value, '_name', None) != 'Tuple'
                and hasattr(value, '_nparams')):
            # unspecialized alias
            return recur(origin)
        if not arguments:
            if isinstance(value, type(typing.List)):
                return recur(origin)
            if value is typing.Tuple:
                return recur(tuple)
        origin = recur(origin)
        return (origin if origin[0] == 'stub class'
                else ('app', origin, tuple(map(recur, arguments))))
    if isinstance(value, type) and not is_runtime_class(value):
        return ('stub class', value.__name__.rsplit('.', 1)[-1])
    return ('object', id(value), repr(value))
