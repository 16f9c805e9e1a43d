"""Observable state of the process and of objects of the user."""
import functools
import gc
import os
import random
import signal
import sys
import threading
import types
import warnings

OWN = ('paradigm', 'vlib', 'checks', '__main__', '__mp_main__')
CONTAINERS = (dict, list, set)
# put by the interpreter into classes whose objects are copied
COPYING = ('__slotnames__',)
class_namespace = type.__dict__['__dict__'].__get__


def is_own(name):
    return name.split('.')[0] in OWN


def contents(value):
    if type(value) is dict:
        return [(key if isinstance(key, str) else id(key), id(item))
                for key, item in value.items()]
    return [id(item) for item in value] if type(value) is list else sorted(
            map(id, value))


def process():
    """Everything which belongs to the process, not to the library."""
    result = {}
    for name, module in list(sys.modules.items()):
        namespace = getattr(module, '__dict__', None)
        if is_own(name) or type(namespace) is not dict:
            continue
        result['module', name] = {key: id(value)
                                  for key, value in namespace.items()}
        for key, value in list(namespace.items()):
            # private ones and caches are details of implementation
            if (type(value) in CONTAINERS and not key.startswith('_')
                    and 'cache' not in key.lower()
                    and (name, key) != ('sys', 'modules')):
                result['contents', name, key] = contents(value)
    for cls in gc.get_objects():
        try:
            if type(cls) is not type and not issubclass(type(cls), type):
                continue
            module = type.__dict__['__module__'].__get__(cls)
            if not isinstance(module, str) or is_own(module):
                continue
            result['class', id(cls), module, cls.__qualname__] = {
                key: id(value)
                for key, value in class_namespace(cls).items()
                if key not in COPYING}
        except Exception:
            # proxies and classes being created
            continue
    result['path',] = list(sys.path)
    result['environment',] = dict(os.environ)
    result['working directory',] = os.getcwd()
    result['arguments',] = list(sys.argv)
    result['filters of warnings',] = list(map(id, warnings.filters))
    result['random numbers',] = hash(random.getstate())
    result['threads',] = sorted(thread.name
                                for thread in threading.enumerate())
    result['children',] = children()
    result['importers',] = [*map(id, sys.meta_path), *map(id, sys.path_hooks)]
    result['signals',] = [signal.getsignal(number)
                          for number in sorted(signal.valid_signals())]
    result['recursion limit',] = sys.getrecursionlimit()
    result['tracing',] = (sys.gettrace(), sys.getprofile())
    result['standard streams',] = [id(sys.stdin), id(sys.stdout),
                                   id(sys.stderr)]
    result['hooks',] = [id(sys.excepthook), id(sys.displayhook),
                        id(threading.excepthook), id(sys.unraisablehook)]
    result['files',] = sorted(
            (name, os.readlink(f'/proc/self/fd/{name}'))
            for name in os.listdir('/proc/self/fd')
            if os.path.exists(f'/proc/self/fd/{name}'))
    result['collector',] = (gc.isenabled(), gc.get_threshold(),
                            gc.get_debug())
    return result


def children():
    with open(f'/proc/self/task/{os.getpid()}/children') as file:
        return file.read().split()


def allowed(key, name, module):
    """Is it an attribute modules get when somebody looks at them."""
    return (name == '__builtins__'
            or '__getattr__' in vars(module)
            or isinstance(vars(module).get(name), types.ModuleType)
            and hasattr(module, '__path__'))


def difference(before, after):
    """Descriptions of changes which are visible to the user."""
    result = []
    for key, old in before.items():
        if key not in after:
            if key[0] == 'class':
                # collected as garbage
                continue
            result.append(f'{key}: gone')
            continue
        new = after[key]
        if old == new:
            continue
        if not isinstance(old, dict):
            result.append(f'{key}: changed' if key[0] == 'contents'
                          else f'{key}: {str(old)[:200]} -> {str(new)[:200]}')
            continue
        for name in sorted({*old, *new}):
            if old.get(name) == new.get(name):
                continue
            if (key[0] == 'module' and name not in old
                    and allowed(key, name, sys.modules[key[1]])):
                continue
            result.append(f'{key[0]} {key[-1]}: "{name}" is '
                          + ('new' if name not in old else 'gone'
                             if name not in new else 'changed'))
    return result


# objects of the user


def snapshot(roots):
    """State of everything reachable from the roots as long as it belongs to
    the user."""
    result, queue, seen = {}, list(roots.items()), set()
    while queue:
        path, value = queue.pop()
        if id(value) in seen:
            continue
        seen.add(id(value))
        parts = dict(parts_of(value))
        if not parts:
            continue
        result[path] = (type(value), {name: id(part)
                                      for name, part in parts.items()},
                        # keeps identities from being reused
                        list(parts.values()))
        queue += [(f'{path}.{name}', part) for name, part in parts.items()]
    return result


def parts_of(value):
    if isinstance(value, dict):
        for key, item in value.items():
            yield f'[{key!r}]', item
        yield 'order', ' '.join(map(str, value))
    elif isinstance(value, (list, tuple)):
        for index, item in enumerate(value):
            yield f'[{index}]', item
    elif isinstance(value, (set, frozenset)):
        yield 'members', ' '.join(sorted(map(repr, value)))
    elif isinstance(value, types.FunctionType):
        for name in ('__code__', '__defaults__', '__kwdefaults__',
                     '__annotations__', '__dict__', '__closure__',
                     '__type_params__'):
            yield name, getattr(value, name)
        for name in ('__name__', '__qualname__', '__module__', '__doc__'):
            yield name, getattr(value, name)
    elif isinstance(value, types.CellType):
        yield 'contents', value.cell_contents
    elif isinstance(value, types.MethodType):
        yield '__func__', value.__func__
        yield '__self__', value.__self__
    elif isinstance(value, (classmethod, staticmethod)):
        yield '__func__', value.__func__
        yield '__dict__', vars(value)
    elif isinstance(value, property):
        yield 'fget', value.fget
    elif isinstance(value, functools.partial):
        for name in ('func', 'args', 'keywords', '__dict__'):
            yield name, getattr(value, name)
    elif isinstance(value, type):
        if value.__module__ != 'user_world':
            return
        for name, item in class_namespace(value).items():
            if name not in COPYING:
                yield name, item
        for name in ('__bases__', '__name__', '__qualname__'):
            yield name, getattr(value, name)
        yield 'subclasses', tuple(type.__subclasses__(value))
    elif type(value).__module__ == 'user_world':
        for name, item in object.__getattribute__(value,
                                                  '__dict__').items():
            yield name, item
    elif hasattr(value, 'cache_info'):
        yield 'cache', str(value.cache_info())
        yield '__dict__', vars(value)


def user_difference(before, after):
    result = []
    for path in before.keys() | after.keys():
        if path not in after or path not in before:
            result.append(f'{path} is {"gone" if path in before else "new"}')
            continue
        old, new = before[path], after[path]
        if old[0] is not new[0]:
            result.append(f'{path} has another type')
        for name in old[1].keys() | new[1].keys():
            if old[1].get(name) != new[1].get(name):
                if old[1].get(name) is not None and equal_parts(
                        name, old, new):
                    continue
                result.append(f'{path}: "{name}" has changed')
    return sorted(result)


TRANSIENT = ('order', 'members', 'cache', 'subclasses', '__bases__',
             '__type_params__', '__name__', '__qualname__')


def equal_parts(name, old, new):
    # made anew each time it is asked for
    if name not in TRANSIENT or name not in new[1]:
        return False
    get = lambda state: state[2][list(state[1]).index(name)]
    return get(old) == get(new)
