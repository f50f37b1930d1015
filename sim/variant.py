"""The library with its compiled helper modules loaded, missing or failing.

The compiled helpers are built from the current .pyx files into a scratch
directory.  `activate` makes a forked child import the library afresh in one of
the variants; the simulated models and scenarios are imported afresh with it.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from . import seams

NAMES = ('ckalman', 'cmlnlg_compute')
# variant: {helper module: None (loads) or the exception its import raises}
VARIANTS = {
    'ext': dict(ckalman=None, cmlnlg_compute=None),
    'pure': dict(ckalman=ImportError, cmlnlg_compute=ImportError),
    'ckalman': dict(ckalman=None, cmlnlg_compute=ImportError),
    'cmlnlg': dict(ckalman=ImportError, cmlnlg_compute=None),
    'gone': dict(ckalman=ModuleNotFoundError, cmlnlg_compute=ModuleNotFoundError),
}
_dir = None
_own = False


def build():
    """Compile the helpers; the directory is inherited by nested processes"""
    global _dir, _own
    if _dir is not None:
        return _dir
    d = os.environ.get('VP_EXT_DIR')
    if d and os.path.isdir(d):
        _dir = d
        return d
    d = tempfile.mkdtemp(prefix='vpext')
    pkg = os.path.join(d, 'pyparticleest', 'utils')
    os.makedirs(pkg)
    src = os.path.join(seams.LIB, 'utils')
    for p in (os.path.dirname(pkg), pkg):
        open(os.path.join(p, '__init__.py'), 'w').close()
    for f in os.listdir(src):
        if f.endswith(('.pyx', '.pxd', '.pxi')):
            shutil.copy(os.path.join(src, f), pkg)
    env = dict(os.environ, CFLAGS='-O1 -w -I%s' % np.get_include())
    tool = os.path.join(os.path.dirname(sys.executable), 'cythonize')
    procs = [subprocess.Popen([tool, '-q', '-i', os.path.join('pyparticleest', 'utils', n + '.pyx')],
                              cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
             for n in NAMES]
    logs = [p.communicate()[0] for p in procs]
    for p, n, l in zip(procs, NAMES, logs):
        if p.returncode != 0 or path(n, d) is None:
            shutil.rmtree(d, ignore_errors=True)
            raise RuntimeError('compiling %s failed: %s' % (n, l.decode()[-2000:]))
    _dir, _own = d, True
    os.environ['VP_EXT_DIR'] = d
    return d


def remove():
    global _dir, _own
    if _own:
        shutil.rmtree(_dir, ignore_errors=True)
        os.environ.pop('VP_EXT_DIR', None)
    _dir, _own = None, False


def path(name, d=None):
    pkg = os.path.join(d or _dir, 'pyparticleest', 'utils')
    for f in sorted(os.listdir(pkg)):
        if f.startswith(name + '.') and f.endswith('.so'):
            return os.path.join(pkg, f)
    return None


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, how):
        self.how = how
        self.tried, self.outcomes = [], []

    def find_spec(self, full, where=None, target=None):
        base, _, name = full.rpartition('.')
        if base != 'pyparticleest.utils' or name not in self.how:
            return None
        self.tried.append(name)
        e = self.how[name]
        if isinstance(e, list):
            # one outcome per attempt, the last one stays
            e = e.pop(0) if len(e) > 1 else e[0]
        self.outcomes.append(e)
        if e is not None:
            raise e('%s cannot be loaded' % full)
        return importlib.util.spec_from_file_location(full, path(name), loader=Loader(full, path(name)))


class Loader(importlib.machinery.ExtensionFileLoader):
    # a compiled module is initialised once per process
    cache = {}

    def create_module(self, spec):
        if self.name in self.cache:
            return self.cache[self.name]
        return super(Loader, self).create_module(spec)

    def exec_module(self, module):
        if self.name not in self.cache:
            super(Loader, self).exec_module(module)
            self.cache[self.name] = module


def purge():
    for n in list(sys.modules):
        if n.split('.')[0] == 'pyparticleest' or n in ('sim.models', 'sim.scen', 'sim.est', 'sim.pest'):
            del sys.modules[n]
            if n.startswith('sim.'):
                pkg = sys.modules.get('sim')
                if pkg is not None and hasattr(pkg, n[4:]):
                    delattr(pkg, n[4:])
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]


class Loaded(object):
    """Modules of one variant"""

    def __init__(self, how):
        purge()
        how = VARIANTS[how] if isinstance(how, str) else how
        self.finder = Finder(dict((k, list(e) if isinstance(e, list) else e) for k, e in how.items()))
        sys.meta_path.insert(0, self.finder)
        so = sys.stdout
        try:
            sys.stdout = open(os.devnull, 'w')
            self.scen = importlib.import_module('sim.scen')
            self.models = importlib.import_module('sim.models')
            self.est = importlib.import_module('sim.est')
            self.pest = importlib.import_module('sim.pest')
        finally:
            sys.stdout.close()
            sys.stdout = so

    def module(self, name):
        return importlib.import_module('pyparticleest.' + name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def activate(how):
    return Loaded(how)
