"""Synthetic "standard library": modules with stubs written by checks.

The library under test looks for stubs in the type checker's package and for
modules in directories of the standard library, so both are extended without
touching installed ones: a fake type checker package precedes the real one and
the platform-dependent directory of the standard library is replaced by the
one with synthetic modules (it contains nothing else in virtual environments
and coincides with the platform-independent one outside of them).
"""
import ast
import importlib.util
import shutil
from pathlib import Path

FUTURE = 'from __future__ import annotations\n'
CUSTOMIZATION = '''
import sysconfig


def _patch(path, get_path=sysconfig.get_path, get_paths=sysconfig.get_paths):
    def patched_get_path(name, *args, **kwargs):
        return (path if name == 'platstdlib'
                else get_path(name, *args, **kwargs))

    def patched_get_paths(*args, **kwargs):
        return {**get_paths(*args, **kwargs), 'platstdlib': path}

    sysconfig.get_path = patched_get_path
    sysconfig.get_paths = patched_get_paths


_patch(%r)
'''


class Project:
    def __init__(self):
        self.modules = {}

    def add(self, name, text, *, stub=None, package=False):
        """Text is the same for runtime and stub if the latter is missing."""
        if name in self.modules:
            assert self.modules[name] == (text, stub, package), name
        self.modules[name] = (text, stub, package)
        parent, _, _ = name.rpartition('.')
        if parent:
            if parent not in self.modules:
                self.add(parent, '', package=True)
            assert self.modules[parent][2], parent

    def write(self, directory: Path):
        """Returns directories to be put in the beginning of import path."""
        runtime, fake = directory / 'runtime', directory / 'fake'
        checker = Path(importlib.util.find_spec('mypy').origin).parent
        runtime.mkdir(parents=True)
        (fake / 'mypy').mkdir(parents=True)
        for name in ('__init__.py', 'version.py'):
            shutil.copyfile(checker / name, fake / 'mypy' / name)
        stubs = fake / 'mypy' / 'typeshed' / 'stdlib'
        shutil.copytree(checker / 'typeshed' / 'stdlib', stubs)
        for name, (text, stub, package) in self.modules.items():
            parts = name.split('.')
            relative = (Path(*parts, '__init__') if package
                        else Path(*parts))
            for root, suffix, content in ((runtime, '.py', FUTURE + text),
                                          (stubs, '.pyi',
                                           runtime_only_dropped(
                                                  text if stub is None
                                                  else stub))):
                path = root / relative.with_name(relative.name + suffix)
                path.parent.mkdir(parents=True, exist_ok=True)
                path.write_text(content)
        (fake / 'sitecustomize.py').write_text(CUSTOMIZATION % str(runtime))
        return [str(fake), str(runtime)]


def runtime_only_dropped(text):
    return ''.join(line for line in text.splitlines(True)
                   if not line.rstrip().endswith('# runtime'))


class _Strip(ast.NodeTransformer):
    """Leaves classes and functions only, without annotations."""

    def _drop(self, node):
        return None

    visit_Import = visit_ImportFrom = visit_Assign = _drop
    visit_AnnAssign = visit_AugAssign = _drop

    def visit_FunctionDef(self, node):
        node.returns = None
        for argument in ast.walk(node.args):
            if isinstance(argument, ast.arg):
                argument.annotation = None
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_If(self, node):
        return None

    def visit_ClassDef(self, node):
        node.bases = []
        self.generic_visit(node)
        node.body = node.body or [ast.Pass()]
        return node


def stripped(text):
    """Source of runtime module which has no names of its stub except for
    functions and classes."""
    return ast.unparse(ast.fix_missing_locations(
            _Strip().visit(ast.parse(text)))) + '\n'
