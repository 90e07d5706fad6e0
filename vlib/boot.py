"""Bring up the intvalpy of /repo's working tree inside this process.

Python sources are imported from /repo directly.  The Cython extension is taken from /repo only when
the build stamp proves it was built from the present sources; otherwise (a changed .pyx, no .so) it is
rebuilt from /repo's .pyx into a scratch directory outside /repo and loaded from there.  Byte code is
neither read from nor written to /repo.
"""
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = '/repo'
PYX = 'intvalpy/kernel/interval_arithmetics.pyx'
MOD = 'intvalpy.kernel.interval_arithmetics'
SO = 'intvalpy/kernel/interval_arithmetics' + sysconfig.get_config_var('EXT_SUFFIX')


class BuildFailed(Exception):
    pass


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _sources():
    names = ['setup.py', 'pyproject.toml', 'intvalpy/_version.py']
    found = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'intvalpy')):
        for n in files:
            if n.endswith(('.pyx', '.pxd', '.pxi', '.h')):
                found.append(os.path.relpath(os.path.join(root, n), REPO))
    return names + sorted(found)


def stamp_is_current():
    stamp = os.path.join(REPO, 'build/ext.stamp')
    so = os.path.join(REPO, SO)
    if not (os.path.isfile(stamp) and os.path.isfile(so)):
        return False
    want = ['%s  %s' % (_sha(os.path.join(REPO, n)), n) for n in _sources()]
    want.append('%s  %s' % (_sha(so), SO))
    with open(stamp) as f:
        return f.read().split('\n')[:len(want)] == want


def build_ext(dest, cflags=None, ldflags=None, opt='-O2', cython_directives=None):
    """Cythonize /repo's .pyx and compile it into dest; returns the path of the shared object."""
    import numpy as np
    os.makedirs(dest, exist_ok=True)
    src = os.path.join(dest, 'src')
    shutil.copytree(os.path.join(REPO, 'intvalpy'), os.path.join(src, 'intvalpy'),
                    ignore=shutil.ignore_patterns('*.so', '*.cpp', '__pycache__'))
    cpp = os.path.join(dest, 'interval_arithmetics.cpp')
    cmd = [sys.executable, '-m', 'cython', '--cplus', '-3', '-o', cpp]
    for k, v in (cython_directives or {}).items():
        cmd += ['-X', '%s=%s' % (k, v)]
    env = dict(os.environ)
    for k in ('LD_PRELOAD', 'ASAN_OPTIONS', 'UBSAN_OPTIONS'):
        env.pop(k, None)
    r = subprocess.run(cmd + [os.path.join(src, PYX)], capture_output=True, text=True, cwd=src, env=env)
    if r.returncode:
        raise BuildFailed('cython: ' + r.stdout[-2000:] + r.stderr[-4000:])
    so = os.path.join(dest, os.path.basename(SO))
    cmd = ['g++', '-shared', '-fPIC', '-fno-strict-overflow', '-fwrapv', '-DNDEBUG', '-g', opt,
           '-I' + sysconfig.get_path('include'), '-I' + np.get_include()]
    cmd += list(cflags or []) + [cpp, '-o', so] + list(ldflags or [])
    if cflags and '-fsanitize=undefined' in ' '.join(cflags):
        cmd.remove('-fwrapv')
        cmd.remove('-fno-strict-overflow')
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    if r.returncode:
        raise BuildFailed('g++: ' + r.stderr[-4000:])
    shutil.rmtree(src)
    return so


class _Finder:
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == MOD:
            return importlib.util.spec_from_file_location(name, self.so)
        return None


def scratch():
    """The scratch directory of this check run (created once, removed at exit by the owner)."""
    d = os.environ.get('VERIF_SCRATCH')
    if not d:
        d = tempfile.mkdtemp(prefix='verif-')
        os.environ['VERIF_SCRATCH'] = d
        import atexit
        pid = os.getpid()

        def _rm():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(_rm)
    return d


def prepare(variant=None):
    """Return the path of the extension to use, building it when needed (called once, in the parent)."""
    so = os.environ.get('VERIF_EXT_SO')
    if so and variant is None:
        return so
    if variant == 'asan':
        so = build_ext(os.path.join(scratch(), 'ext-asan'),
                       cflags=['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=undefined,float-cast-overflow',
                               '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'],
                       ldflags=['-fsanitize=address,undefined'], opt='-O1')
        return so
    if stamp_is_current():
        so = os.path.join(REPO, SO)
    else:
        so = build_ext(os.path.join(scratch(), 'ext'))
    os.environ['VERIF_EXT_SO'] = so
    return so


def load(so=None):
    """Import intvalpy from /repo using extension `so`; returns the package."""
    so = so or prepare()
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), 'pyc')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('MPLCONFIGDIR', os.path.join(scratch(), 'mpl'))
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder(so))
    while REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import intvalpy
    assert intvalpy.__file__.startswith(REPO + '/'), intvalpy.__file__
    assert sys.modules[MOD].__file__ == so, sys.modules[MOD].__file__
    return intvalpy
