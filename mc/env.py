"""Process environment: thread limits, and an up-to-date native extension.

Importing this module must come first.  The Python sources of pyuoi are imported
from /repo/src directly.  The native optimizer (`pyuoi.lbfgs._lowlevel`) is taken
from /repo when its build stamp says it was built from the current sources, and
is otherwise compiled from the current sources into /verif/.build (git-ignored)
and loaded from there, so a check always sees the working tree.
"""
import os
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
           'NUMEXPR_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')

import fcntl
import glob
import hashlib
import importlib.abc
import importlib.util
import shutil
import subprocess
import sys
import sysconfig

sys.dont_write_bytecode = True

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
SRC = os.path.join(REPO, 'src')
if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)
EXT_SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')
MOD = 'pyuoi.lbfgs._lowlevel'


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _inputs():
    """The files build.sh stamps, in its order."""
    out = ['setup.py', 'pyproject.toml']
    for top in ('liblbfgs', 'compat', 'src'):
        for d, _, files in os.walk(os.path.join(REPO, top)):
            for f in files:
                rel = os.path.relpath(os.path.join(d, f), REPO)
                if rel == 'src/pyuoi/lbfgs/_lowlevel.c':
                    continue
                if f.endswith(('.pyx', '.pxd', '.pxi', '.h', '.c')) or \
                        f == 'pyproject.toml':
                    out.append(rel)
    return sorted(o for o in out if os.path.isfile(os.path.join(REPO, o)))


def _repo_stamp():
    lines = ''.join('%s  %s\n' % (_sha(os.path.join(REPO, r)), r)
                    for r in _inputs())
    return hashlib.sha256(lines.encode()).hexdigest() + '  -'


def native_sources():
    return [r for r in _inputs()
            if r.startswith(('liblbfgs', 'compat', 'src'))]


def _in_place_is_current():
    sos = glob.glob(os.path.join(SRC, 'pyuoi/lbfgs/_lowlevel*.so'))
    try:
        with open(os.path.join(REPO, 'build/vp-ext.sha256')) as f:
            stamp = f.read().strip()
    except OSError:
        return False
    return bool(sos) and stamp == _repo_stamp()


def build_ext(guarded=False):
    """Compile the extension from the current sources; returns the .so path.
    guarded: with the allocator of native/pyalloc.c."""
    kind = 'gext-' if guarded else 'ext-'
    alloc = os.path.join(VERIF, 'native', 'pyalloc.c')
    key = hashlib.sha256((''.join(
        _sha(os.path.join(REPO, r)) + r for r in native_sources()
    ) + (_sha(alloc) if guarded else '')).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, kind + key)
    so = os.path.join(out, '_lowlevel' + EXT_SUFFIX)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so):
            return so
        for old in glob.glob(os.path.join(BUILD, kind + '*')):
            shutil.rmtree(old, ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(os.path.join(REPO, 'liblbfgs'),
                        os.path.join(tmp, 'liblbfgs'))
        pyx = os.path.join(tmp, '_lowlevel.pyx')
        shutil.copy(os.path.join(SRC, 'pyuoi/lbfgs/_lowlevel.pyx'), pyx)
        import numpy
        cfile = os.path.join(tmp, '_lowlevel.c')
        subprocess.run([sys.executable, '-c',
                        'from Cython.Compiler.Main import compile as c,'
                        'CompilationOptions as O, default_options as d\n'
                        'import sys\n'
                        'r=c([sys.argv[1]],O(d,output_file=sys.argv[2]))\n'
                        'sys.exit(r.num_errors)', pyx, cfile],
                       check=True, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
        inc = ['-I' + os.path.join(tmp, 'liblbfgs'),
               '-I' + numpy.get_include(),
               '-I' + sysconfig.get_paths()['include']]
        cc = ['gcc', '-fPIC', '-O2', '-fwrapv', '-DNDEBUG', '-w'] + inc
        lib = os.path.join(tmp, 'lbfgs.o')
        subprocess.run(cc + (['-D%s=vp_%s' % (f, f) for f in (
            'malloc', 'free', 'calloc', 'realloc')] if guarded else [])
            + ['-c', os.path.join(tmp, 'liblbfgs', 'lbfgs.c'), '-o', lib],
            check=True)
        subprocess.run(cc + ['-shared', cfile, lib]
                       + ([alloc] if guarded else [])
                       + ['-o', os.path.join(tmp, os.path.basename(so)),
                          '-lm'], check=True)
        os.rename(tmp, out)
    return so


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == MOD:
            return importlib.util.spec_from_file_location(name, self.so)
        return None


def ensure_ext():
    if os.environ.get('VERIF_GUARDED_EXT'):
        sys.meta_path.insert(0, _Finder(os.environ['VERIF_GUARDED_EXT']))
    elif not _in_place_is_current():
        sys.meta_path.insert(0, _Finder(build_ext()))


import warnings
warnings.simplefilter('ignore')
ensure_ext()
try:
    import mpi4py
    mpi4py.rc.initialize = False
    mpi4py.rc.finalize = False
except ImportError:
    pass
import numpy as np                                            # noqa: E402
import pyuoi                                                  # noqa: E402
if not os.path.abspath(pyuoi.__file__).startswith(SRC + os.sep):
    raise SystemExit('pyuoi imported from %s' % pyuoi.__file__)
