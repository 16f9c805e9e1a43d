"""Scratch copies of the library under test, built from the working tree of /repo."""
import os
import shutil
import subprocess
import sys
from pathlib import Path

REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
VERIF = Path(__file__).resolve().parent.parent
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


class BuildFailed(Exception):
    pass


def package_files():
    """Relative paths of the package files git would not ignore."""
    result = subprocess.run(
            ['git', '-c', 'safe.directory=*', '-C', str(REPO), 'ls-files',
             '-co', '--exclude-standard', '-z', 'paradigm'],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    names = [n for n in result.stdout.decode().split('\0') if n]
    if result.returncode or not names:
        names = [str(p.relative_to(REPO))
                 for p in (REPO / 'paradigm').rglob('*')
                 if p.is_file() and '__pycache__' not in p.parts
                 and not p.name.startswith('_mypy_')]
    return sorted({n for n in names if (REPO / n).is_file()})


def copy_package(directory: Path) -> Path:
    """Copies sources of the package (without caches) to the directory."""
    for name in package_files():
        destination = directory / name
        destination.parent.mkdir(parents=True, exist_ok=True)
        shutil.copyfile(REPO / name, destination)
    return directory


def environment(directory: Path, *, seed: int = 0, extra_paths=(),
                **variables):
    result = {key: value for key, value in os.environ.items()
              if not key.startswith('PYTHON')}
    result['PYTHONPATH'] = os.pathsep.join(
            [*map(str, extra_paths), str(directory), str(VERIF)])
    result['PYTHONHASHSEED'] = str(seed % 4294967296)
    result['LC_ALL'] = 'C.UTF-8'
    result['PYTHONNOUSERSITE'] = '1'
    result.update(variables)
    return result


def build(directory: Path, *, seed: int = 0, extra_paths=(), timeout=300):
    """Imports the package once, which makes it save its caches."""
    try:
        process = subprocess.run(
                [PYTHON, '-W', 'ignore', '-c',
                 'import paradigm.base, sys; sys.stdout.write('
                 'paradigm.__file__)'],
                env=environment(directory, seed=seed,
                                extra_paths=extra_paths),
                cwd=str(directory), stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                timeout=timeout)
    except subprocess.TimeoutExpired:
        raise BuildFailed('importing the library does not finish')
    output = process.stdout.decode(errors='replace')
    if process.returncode:
        raise BuildFailed('importing the library fails: '
                          + process.stderr.decode(errors='replace')[-2000:])
    if not output.endswith(str(directory / 'paradigm' / '__init__.py')):
        raise RuntimeError(f'wrong package was imported: {output}')
