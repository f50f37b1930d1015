"""Seams between the library and everything that is not deterministic.

Must be imported before pyparticleest.  Owns

* the random source: every function of numpy.random goes through the current
  World, which counts draws, can make them fail, replace them by extreme (but
  legal) values, and pre-empt the running task,
* entropy from elsewhere (unseeded generators, random, os.urandom, clocks),
  which is replaced by a deterministic stream that differs between two runs
  that are supposed to agree,
* uninitialised memory (numpy.empty), filled with a value that differs between
  two runs that are supposed to agree,
* the model callbacks: subclasses made by `faulty` report every call to the
  current World, which can make it fail before, after or half way.

Without a World everything behaves as usual.
"""
import functools
import os
import random
import sys
import threading
import time

import numpy as np

REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(os.path.realpath(REPO), "pyparticleest") + os.sep

_tls = threading.local()


def world():
    return getattr(_tls, "world", None)


class Injected(Exception):
    """Failure of a model function, injected by the simulator"""


class InjectedBase(BaseException):
    """Same, but not derived from Exception"""


class BudgetExceeded(BaseException):
    """The library did not finish within the allowed number of operations"""


EXC = {
    'Injected': lambda: Injected('injected'),
    'InjectedBase': lambda: InjectedBase('injected'),
    'ValueError': lambda: ValueError('injected'),
    'MemoryError': lambda: MemoryError('injected'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('injected'),
    'LinAlgError': lambda: np.linalg.LinAlgError('injected'),
    'FloatingPointError': lambda: FloatingPointError('injected'),
    'IndexError': lambda: IndexError('injected'),
    'TypeError': lambda: TypeError('injected'),
    'AttributeError': lambda: AttributeError('injected'),
    'StopIteration': lambda: StopIteration('injected'),
    'NotImplementedError': lambda: NotImplementedError('injected'),
}


class World(object):
    """One simulated execution environment (per thread)"""

    def __init__(self, budget=None):
        self.depth = 0
        self.in_random = 0
        self.ops = 0               # model callbacks and random draws since arm()
        self.total = 0
        self.budget = budget
        self.faults = {}           # op index -> (when, exc name)
        self.fired = []            # exceptions that were raised
        self.hit = []              # what each fired fault hit
        self.counts = {}           # particles processed per outermost callback
        self.calls = {}
        self.hooks = []            # f(phase, model, name, args, kwargs, result)
        self.inner = []            # f(model, name, args, kwargs), nested calls too
        self.extreme = None        # (RandomState, probability)
        self.extremes = 0
        self.sched = None          # scheduler of interleaved tasks
        self.log = None            # list collecting names of operations

    def __enter__(self):
        self.prev = world()
        _tls.world = self
        return self

    def __exit__(self, *a):
        _tls.world = self.prev
        return False

    def arm(self, faults=()):
        """faults: list of (op index, when, exception name)"""
        self.ops = 0
        self.faults = {}
        for k, when, exc in faults:
            self.faults[int(k)] = (when, exc)

    def _raise(self, exc, what):
        e = EXC[exc]()
        self.fired.append(e)
        self.hit.append(what)
        raise e

    def tick(self, what):
        if self.sched is not None:
            self.sched.maybe_switch()
        k = self.ops
        self.ops += 1
        self.total += 1
        if self.log is not None:
            self.log.append(what)
        if self.budget is not None and self.total > self.budget:
            raise BudgetExceeded('%d operations' % self.total)
        return self.faults.get(k)

    # --- random draws -------------------------------------------------------
    def on_random(self, name, fn, a, k):
        if self.in_random:
            return fn(*a, **k)
        f = self.tick('rng:' + name)
        if f is not None:
            self._raise(f[1], ('rng', name))
        self.in_random = 1
        try:
            r = fn(*a, **k)
        finally:
            self.in_random = 0
        if self.extreme is not None and name in _UNIT:
            r = self._extreme(name, a, k, r)
        return r

    def _extreme(self, name, a, k, r):
        rs, p = self.extreme
        if name == 'uniform' and (a or set(k) - {'size'}):
            return r
        if rs.uniform() >= p:
            return r
        v = 0.0 if rs.uniform() < 0.5 else 1.0 - 2.0 ** -53
        if np.ndim(r) == 0:
            r = v
        elif np.size(r):
            if rs.uniform() < 0.5:
                r.flat[rs.randint(np.size(r))] = v
            else:
                r[...] = v
        self.extremes += 1
        return r

    # --- model callbacks ----------------------------------------------------
    def on_call(self, model, name, fn, a, k):
        f = self.tick(name)
        outer = self.depth == 0
        if outer:
            n = _count(name, a, k)
            self.counts[name] = self.counts.get(name, 0) + n
            self.calls[name] = self.calls.get(name, 0) + 1
        if f is not None and f[0] == 'before':
            self._raise(f[1], (name, 'before'))
        if f is not None and f[0] == 'torn':
            p = _array(name, a, k)
            if p is not None and len(p):
                # half of the work was done, in place, and it is garbage
                p[:(len(p) + 1) // 2] = -123.25
                self._raise(f[1], (name, 'torn'))
            self._raise(f[1], (name, 'before'))
        if outer:
            for h in self.hooks:
                h('enter', model, name, a, k, None)
        for h in self.inner:
            h(model, name, a, k)
        self.depth += 1
        try:
            r = fn(model, *a, **k)
        finally:
            self.depth -= 1
        if outer:
            for h in self.hooks:
                h('leave', model, name, a, k, r)
        if f is not None:
            self._raise(f[1], (name, 'after'))
        return r


_UNIT = ('rand', 'random', 'random_sample', 'uniform', 'ranf', 'sample')

# functions allowed to work in place on their first argument
_INPLACE = ('update', 'update_full', 'measure', 'measure_full')
_SIG = {
    'create_initial_estimate': ('N',),
    'sample_process_noise': ('particles', 'u', 't'),
    'sample_process_noise_full': ('ptraj', 'ancestors', 'ut', 'tt'),
    'update': ('particles', 'u', 't', 'noise'),
    'update_full': ('particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors', 'noise'),
    'measure': ('particles', 'y', 't'),
    'measure_full': ('particles', 'traj', 'uvec', 'yvec', 'tvec', 'ancestors'),
    'eval_1st_stage_weights': ('particles', 'u', 'y', 't'),
    'qsample': ('particles', 'u', 'y', 't'),
    'logp_q': ('particles', 'next_part', 'u', 'y', 't'),
    'propose_from_y': ('N', 'y', 't'),
    'logp_xnext': ('particles', 'next_part', 'u', 't'),
    'logp_xnext_full': ('part', 'past_trajs', 'pind', 'future_trajs', 'find', 'ut', 'yt', 'tt', 'cur_ind'),
    'logp_xnext_singlestep': ('part', 'past_trajs', 'pind', 'future_parts', 'find', 'ut', 'yt', 'tt', 'cur_ind'),
    'logp_xnext_max': ('particles', 'u', 't'),
    'logp_xnext_max_full': ('part', 'past_trajs', 'pind', 'uvec', 'yvec', 'tvec', 'cur_ind'),
    'propose_smooth': ('ptraj', 'anc', 'future_trajs', 'find', 'yt', 'ut', 'tt', 'cur_ind'),
    'logp_proposal': ('prop_part', 'ptraj', 'anc', 'future_trajs', 'find', 'yt', 'ut', 'tt', 'cur_ind'),
    'eval_logp_x0': ('particles', 't'),
    'sample_smooth': ('part', 'ptraj', 'anc', 'future_trajs', 'find', 'ut', 'yt', 'tt', 'cur_ind'),
    'cond_predict_single_step': ('part', 'past_trajs', 'pind', 'future_parts', 'find', 'ut', 'yt', 'tt', 'cur_ind'),
    'cond_sampled_initial': ('part', 't'),
    'pre_mhips_pass': ('st',),
    'post_smoothing': ('st',),
    'copy_ind': ('particles', 'new_ind'),
    # functions supplied by the user of the library's model classes
    'calc_f': ('particles', 'u', 't'),
    'calc_g': ('particles', 't'),
    'calc_Q': ('particles', 'u', 't'),
    'calc_R': ('particles', 't'),
    'get_pred_dynamics': None,
    'get_meas_dynamics': None,
    'get_lin_pred_dynamics': None,
    'get_nonlin_pred_dynamics': None,
    'get_cross_covariance': None,
    'get_lin_meas_dynamics': None,
    'get_rb_initial': ('xi_initial',),
    'calc_xi_next': None,
    'measure_nonlin': None,
    'logp_xnext_xi': None,
    'logp_xnext_xi_max': None,
    # parameter estimation
    'set_params': ('params',),
    'maximize': ('straj',),
    'maximize_weighted': ('straj', 'alltrajs', 'weights'),
    'eval_logp_y': None,
    'eval_logp_xnext': None,
    'get_pred_dynamics_grad': None,
    'get_meas_dynamics_grad': None,
    'get_initial_grad': None,
    'get_rb_initial_grad': None,
    'get_xi_intitial_grad': None,
    'eval_logp_x0_val_grad': None,
    'eval_logp_xnext_val_grad': None,
    'eval_logp_y_val_grad': None,
}


def arg(name, a, k, which):
    """Argument `which` of a call of the callback `name`"""
    if which in k:
        return k[which]
    i = _SIG[name].index(which)
    return a[i] if i < len(a) else None


def _first(name, a, k):
    return a[0] if a else k[_SIG[name][0]]


def _array(name, a, k):
    if name not in _INPLACE:
        return None
    p = _first(name, a, k)
    return p if isinstance(p, np.ndarray) and p.flags.writeable and p.dtype == float else None


def _count(name, a, k):
    """Number of particles the model processes in this call"""
    s = _SIG[name]
    if s is None:
        return 1
    try:
        if name in ('create_initial_estimate', 'propose_from_y'):
            return int(_first(name, a, k))
        if name == 'sample_process_noise_full':
            return len(arg(name, a, k, 'ancestors'))
        if name == 'propose_smooth':
            anc = arg(name, a, k, 'anc')
            ptraj = arg(name, a, k, 'ptraj')
            return len(anc) if ptraj is not None else len(arg(name, a, k, 'find'))
        if name == 'logp_xnext':
            return max(len(arg(name, a, k, 'particles')), len(arg(name, a, k, 'next_part')))
        if name in ('logp_xnext_full', 'logp_xnext_singlestep'):
            return max(len(arg(name, a, k, 'part')), len(arg(name, a, k, 'find')))
        return len(_first(name, a, k))
    except TypeError:
        return 1


def faulty(cls):
    """Class decorator: report every model callback to the current World"""
    for name in _SIG:
        fn = getattr(cls, name, None)
        if fn is None:
            continue
        setattr(cls, name, _wrapped(name, fn))
    return cls


def _wrapped(name, fn):
    @functools.wraps(fn)
    def call(self, *a, **k):
        w = world()
        if w is None:
            return fn(self, *a, **k)
        return w.on_call(self, name, fn, a, k)
    return call


# --- random source ------------------------------------------------------------
_RANDOM = ['beta', 'binomial', 'bytes', 'chisquare', 'choice', 'dirichlet',
           'exponential', 'f', 'gamma', 'geometric', 'gumbel', 'laplace',
           'logistic', 'lognormal', 'multinomial', 'multivariate_normal',
           'normal', 'permutation', 'poisson', 'power', 'rand', 'randint',
           'randn', 'random', 'random_integers', 'random_sample', 'ranf',
           'rayleigh', 'sample', 'shuffle', 'standard_cauchy',
           'standard_exponential', 'standard_gamma', 'standard_normal',
           'standard_t', 'triangular', 'uniform', 'vonmises', 'wald',
           'weibull', 'zipf']
real = {}


class Entropy(object):
    """Whatever a program can read that is not determined by its inputs"""
    value = 0
    fill = np.nan
    ifill = -(2 ** 40)

    @classmethod
    def set(cls, value, fill=None):
        cls.value = int(value)
        cls.rs = real['RandomState'](cls.value % (2 ** 32))
        if fill is not None:
            cls.fill = fill
        random.seed(cls.value + 17)
        cls.clock = 1.7e9 + 1000.0 * (cls.value % 1000003)

    @classmethod
    def int(cls):
        return int(cls.rs.randint(2 ** 31 - 1))

    @classmethod
    def time(cls):
        cls.clock += 0.001
        return cls.clock


def _install():
    nr = np.random
    for n in _RANDOM:
        if not hasattr(nr, n):
            continue
        fn = getattr(nr, n)
        real[n] = fn

        def call(*a, _n=n, _fn=fn, **k):
            w = world()
            if w is None:
                return _fn(*a, **k)
            return w.on_random(_n, _fn, a, k)
        functools.update_wrapper(call, fn, assigned=('__name__', '__doc__'), updated=())
        setattr(nr, n, call)
    for n in ('RandomState', 'seed', 'default_rng', 'get_state', 'set_state'):
        real[n] = getattr(nr, n)

    class RandomState(real['RandomState']):
        def __init__(self, seed=None):
            if seed is None:
                seed = Entropy.int()
            super().__init__(seed)

        def seed(self, seed=None):
            if seed is None:
                seed = Entropy.int()
            super().seed(seed)

    def seed(seed=None):
        if seed is None:
            seed = Entropy.int()
        real['seed'](seed)

    def default_rng(seed=None):
        if seed is None:
            seed = Entropy.int()
        return real['default_rng'](seed)
    nr.RandomState, nr.seed, nr.default_rng = RandomState, seed, default_rng
    for n in ('PCG64', 'PCG64DXSM', 'MT19937', 'Philox', 'SFC64', 'SeedSequence'):
        if not hasattr(nr, n):
            continue
        c = getattr(nr, n)
        real[n] = c

        def make(*a, _c=c, **k):
            if not a and not k:
                a = (Entropy.int(),)
            elif a and a[0] is None:
                a = (Entropy.int(),) + a[1:]
            return _c(*a, **k)
        setattr(nr, n, make)

    # clocks and system entropy, only for calls made by the library
    def lib_only(mod, name, repl):
        fn = getattr(mod, name)
        real[mod.__name__ + '.' + name] = fn

        def call(*a, **k):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(LIB):
                return repl(*a, **k)
            return fn(*a, **k)
        setattr(mod, name, call)
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        lib_only(time, n, lambda: Entropy.time())
    for n in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
        lib_only(time, n, lambda: int(Entropy.time() * 1e9))
    lib_only(os, 'urandom', lambda n: Entropy.rs.bytes(n))
    lib_only(os, 'getpid', lambda: 1000 + Entropy.value % 30000)

    # uninitialised memory
    real['empty'], real['empty_like'] = np.empty, np.empty_like

    def poison(r):
        if r.dtype.kind == 'f':
            r.fill(Entropy.fill)
        elif r.dtype.kind == 'i' and r.dtype.itemsize == 8:
            r.fill(Entropy.ifill)
        return r

    def empty(*a, **k):
        return poison(real['empty'](*a, **k))

    def empty_like(*a, **k):
        return poison(real['empty_like'](*a, **k))
    np.empty, np.empty_like = empty, empty_like


if 'pyparticleest' in sys.modules:
    raise ImportError('seams must be imported before pyparticleest')
_install()
Entropy.set(0)
if REPO not in sys.path:
    sys.path.insert(0, REPO)
