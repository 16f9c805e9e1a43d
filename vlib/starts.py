"""Starts of processes importing the library from scratch copies of it.

Starting with the complete standard library takes seconds, so a tiny synthetic
one (with its own stubs) is used where the amount of starts matters.
"""
import errno
import json
import os
import shutil
import signal
import subprocess
import time
from pathlib import Path

from . import target

CUSTOMIZATION = '''
import sysconfig


def _patch(path, get_path=sysconfig.get_path, get_paths=sysconfig.get_paths,
           get_config_var=sysconfig.get_config_var):
    names = 'platstdlib', 'stdlib'
    sysconfig.get_path = lambda name, *args, **kwargs: (
        path if name in names else get_path(name, *args, **kwargs))
    sysconfig.get_paths = lambda *args, **kwargs: {
        **get_paths(*args, **kwargs), **dict.fromkeys(names, path)}
    sysconfig.get_config_var = lambda name: (
        None if name == 'DESTSHARED' else get_config_var(name))


_patch(%r)
'''
STUBS = {
    'builtins': '''
from typing import Any, Generic, Iterable, TypeVar, Union, overload
_T = TypeVar('_T')
_S = TypeVar('_S', bound=object)
_ClassInfo = Union[type, tuple[_ClassInfo, ...]]
class object:
    def __init__(self) -> None: ...
    def __eq__(self, __value: object) -> bool: ...
class type:
    def mro(self) -> list[type]: ...
class int:
    @overload
    def __new__(cls, __x: str = ...) -> int: ...
    @overload
    def __new__(cls, __x: str, base: int) -> int: ...
    def bit_length(self) -> int: ...
class bool(int): ...
class str:
    def upper(self) -> str: ...
class classmethod:
    def __init__(self, __f: object) -> None: ...
class staticmethod:
    def __init__(self, __f: object) -> None: ...
class tuple(Generic[_S]):
    def index(self, __value: _S) -> int: ...
class list(Generic[_T]):
    def append(self, __object: _T) -> None: ...
def len(__obj: object) -> int: ...
def isinstance(__obj: object, __class_or_tuple: _ClassInfo) -> bool: ...
def sorted(__iterable: Iterable[_T], *, key: None = ...,
           reverse: bool = ...) -> list[_T]: ...
''',
    'typing': '''
Any = object()
Generic: object
Iterable: object
Union: object
overload: object
class TypeVar: ...
''',
    'vone': '''
import sys
from typing import Generic, TypeVar
from vtwo import Base as _Base, helper
Alias = list[int]
_T = TypeVar('_T')
class _Private:
    def method(self) -> int: ...
class First(Generic[_T]):
    def __init__(self, x: _T, y: Alias = ...) -> None: ...
    def method(self, z: _Private) -> _T: ...
class Second(First[int], _Base):
    class Inner:
        def deep(self, *, key: str) -> First[str]: ...
    if sys.version_info >= (3,):
        def modern(self, a: _Base) -> None: ...
    else:
        def modern(self, b: int) -> None: ...
def function(a: int, *args: Alias, b: First[str]) -> _Private: ...
''',
    'vtwo': '''
import vpkg.sub
from vpkg import Leaf
class Base(Leaf):
    @classmethod
    def create(cls, n: int) -> Base: ...
    @staticmethod
    def static(n: vpkg.sub.Sub) -> "Leaf": ...
def helper(x: Leaf, y: vpkg.sub.Sub = ...) -> tuple[int, str]: ...
'''.replace('"Leaf"', 'Leaf'),
    'vpkg/__init__': '''
from vpkg.sub import *
class Leaf:
    def __init__(self, value: int) -> None: ...
''',
    'vpkg/sub': '''
class Sub:
    def __new__(cls, *args: int, **kwargs: str) -> Sub: ...
    def method(self, __x: Sub) -> bool: ...
def exported(x: Sub) -> Sub: ...
''',
}
SOURCES = {
    'vone': '''
from vtwo import Base as _Base, helper
class First:
    def __init__(self, x, y=()): pass
    def method(self, z): pass
class Second(First, _Base):
    class Inner:
        def deep(self, *, key): pass
    def modern(self, a): pass
def function(a, *args, b): pass
''',
    'vtwo': '''
import vpkg.sub
from vpkg import Leaf
class Base(Leaf):
    @classmethod
    def create(cls, n): pass
    @staticmethod
    def static(n): pass
def helper(x, y=None): pass
''',
    'vpkg/__init__': '''
from vpkg.sub import *
class Leaf:
    def __init__(self, value): pass
''',
    'vpkg/sub': '''
class Sub:
    def __new__(cls, *args, **kwargs): return super().__new__(cls)
    def method(self, x, /): pass
def exported(x): pass
''',
}
# prints answers for everything of the synthetic library
PROBE = '''
import json, sys
def main():
    import paradigm.base as base
    import vone, vtwo, vpkg.sub
    from vlib import describe
    queries = [len, int, bool, isinstance, sorted, list.append, [].append,
               'a'.upper, (1).bit_length, type.mro, tuple.index]
    for module in (vone, vtwo, vpkg, vpkg.sub):
        for name, value in sorted(vars(module).items()):
            if callable(value) and not name.startswith('__'):
                queries.append(value)
                if isinstance(value, type):
                    queries += [getattr(value, name) for name in vars(value)
                                if callable(getattr(value, name))
                                and not name.startswith('__')]
    queries += [vone.Second.Inner.deep, lambda x, y=1: 0]
    return [[describe.plain(query), describe.ask(base, query)[0]]
            for query in queries]
if __name__ == '__main__':
    json.dump(main(), sys.stdout)
'''
TIMEOUT = 100


class Template:
    """Library next to its environment, nothing is saved yet."""

    def __init__(self, directory: Path, stubs=STUBS, sources=SOURCES):
        self.directory = directory
        package = directory / 'target'
        package.mkdir(parents=True)
        target.copy_package(package)
        write_library(directory, stubs, sources)
        (directory / 'probe.py').write_text(PROBE)
        subprocess.run([target.PYTHON, '-m', 'compileall', '-q',
                        str(package)], check=False,
                       stdout=subprocess.DEVNULL)
        self.known = [str(path.relative_to(directory))
                      for path in package.rglob('*') if path.is_file()]

    def copy(self, directory: Path):
        shutil.rmtree(directory, ignore_errors=True)
        shutil.copytree(self.directory, directory, symlinks=True)
        (directory / 'fake' / 'sitecustomize.py').write_text(
                CUSTOMIZATION % str(directory / 'runtime'))
        (directory / 'known.txt').write_text(''.join(
                f'{directory / name}\n' for name in self.known))
        return Place(directory, self.known)


def write_library(directory, stubs, sources, version=None):
    import importlib.util
    checker = Path(importlib.util.find_spec('mypy').origin).parent
    fake = directory / 'fake'
    (fake / 'mypy' / 'typeshed' / 'stdlib').mkdir(parents=True,
                                                  exist_ok=True)
    for name in ('__init__.py', 'version.py'):
        shutil.copyfile(checker / name, fake / 'mypy' / name)
    if version is not None:
        (fake / 'mypy' / 'version.py').write_text(
                f'__version__ = {version!r}\n')
    (directory / 'runtime').mkdir(exist_ok=True)
    for root, suffix, texts in (
            (fake / 'mypy' / 'typeshed' / 'stdlib', '.pyi', stubs),
            (directory / 'runtime', '.py', sources)):
        for name, text in texts.items():
            path = root / (name + suffix)
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text(text)


class Result:
    def __init__(self, code, output, error, timeout):
        self.code, self.error, self.timeout = code, error, timeout
        try:
            self.answers = json.loads(output)
        except ValueError:
            self.answers = None

    def __repr__(self):
        return ('has not finished in time' if self.timeout else
                f'exit code {self.code}') + f', errors: {self.error[-700:]}'


def differences(answers, expected):
    """Readable description of wrong answers."""
    if answers is None:
        return 'there are no answers'
    elif len(answers) != len(expected):
        return f'{len(answers)} answers instead of {len(expected)}'
    return '; '.join(f'answer for {name} is\n{answer}\ninstead of\n{other}'
                     for (name, answer), (_, other) in zip(answers, expected)
                     if answer != other)[:900]


class Place:
    def __init__(self, directory: Path, known=()):
        self.directory = directory
        self._known = {str(directory / name) for name in known}

    @property
    def package(self):
        return self.directory / 'target'

    def saved(self):
        """Files made by the library: relative path to content."""
        return {str(path.relative_to(self.package)):
                (path.read_bytes(), path.stat().st_mtime_ns)
                for path in sorted(self.package.rglob('*'))
                if path.is_file() and not path.is_symlink()
                and str(path) not in self._known}

    def restore(self, saved):
        for path in list(self.package.rglob('*')):
            if str(path) not in self._known and (path.is_symlink()
                                                 or path.is_file()):
                path.unlink()
        for name, (content, modified) in saved.items():
            path = self.package / name
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_bytes(content)
            os.utime(path, ns=(modified, modified))

    def environment(self, shim=None, plan=None, seed=1, log=None,
                    control=None, **variables):
        result = target.environment(
                self.package, seed=seed,
                extra_paths=[self.directory / 'fake',
                             self.directory / 'runtime'], **variables)
        if shim is not None:
            counter = self.directory / 'counter'
            counter.write_bytes(bytes(8))
            result.update(LD_PRELOAD=str(shim),
                          VSHIM_ROOT=str(self.package),
                          VSHIM_KNOWN=str(self.directory / 'known.txt'),
                          VSHIM_COUNTER=str(counter))
            if plan is not None:
                result['VSHIM_PLAN'] = plan
            if log is not None:
                result['VSHIM_LOG'] = str(log)
            if control is not None:
                result['VSHIM_CONTROL'] = control
        return result

    def command(self, *options):
        return [target.PYTHON, '-W', 'always::UserWarning', *options,
                str(self.directory / 'probe.py')]

    def start(self, *, command=None, timeout=TIMEOUT, **options):
        return run(command or self.command(),
                   environment=self.environment(**options),
                   directory=self.directory, timeout=timeout)

    def count(self):
        return int.from_bytes((self.directory / 'counter').read_bytes(),
                              'little')


def run(command, environment, directory, timeout=TIMEOUT, **options):
    process = subprocess.Popen(command, env=environment, cwd=str(directory),
                               stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE,
                               start_new_session=True, **options)
    return finish(process, timeout)


def finish(process, timeout=TIMEOUT):
    late = False
    try:
        output, error = process.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        late = True
        kill(process)
        output, error = process.communicate()
    else:
        kill(process)
    return Result(process.returncode, output.decode(errors='replace'),
                  error.decode(errors='replace'), late)


def kill(process):
    try:
        os.killpg(process.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def build_shim(directory: Path):
    path = directory / 'shim.so'
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', str(path),
                    str(target.VERIF / 'vlib' / 'shim.c'), '-ldl'],
                   check=True, stderr=subprocess.DEVNULL)
    return path


def read_log(path):
    """[(number, operation, size, path)]"""
    result = []
    for line in Path(path).read_text().splitlines():
        number, name, size, file = line.split(' ', 3)
        result.append((int(number), name, int(size), file))
    return result
