"""Reading of the installed type stubs, independent from the library."""
import ast
import sys
from pathlib import Path


def root():
    import importlib.util
    spec = importlib.util.find_spec('mypy')
    return Path(spec.origin).parent / 'typeshed' / 'stdlib'


def modules():
    """Yields (module name, is package, path)."""
    base = root()
    for path in sorted(base.rglob('*.pyi')):
        parts = path.relative_to(base).with_suffix('').parts
        package = parts[-1] == '__init__'
        if package:
            parts = parts[:-1]
        yield '.'.join(parts), package, path


def names():
    """(module, qualified name) of everything defined by stubs (whatever the
    conditionals are)."""
    for module, _, path in modules():
        yield from _names(module, '', ast.parse(path.read_bytes()).body)


def _names(module, prefix, body):
    for node in body:
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield module, prefix + node.name
        elif isinstance(node, ast.ClassDef):
            yield module, prefix + node.name
            yield from _names(module, prefix + node.name + '.', node.body)
        elif isinstance(node, ast.If):
            yield from _names(module, prefix, node.body)
            yield from _names(module, prefix, node.orelse)
        elif isinstance(node, (ast.Assign, ast.AnnAssign)):
            targets = (node.targets if isinstance(node, ast.Assign)
                       else [node.target])
            for target in targets:
                if isinstance(target, ast.Name):
                    yield module, prefix + target.id
