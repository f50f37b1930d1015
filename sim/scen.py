"""Scenarios: a model, data, a filter, a smoother and how they are driven"""
import hashlib
import pickle

import numpy as np

from . import seams
from . import models
from . import ref
from .models import align
from pyparticleest.filter import ParticleTrajectory
from pyparticleest.simulator import Simulator

FAMS = dict(HMM=models.HMM, LG=models.LG, ML=models.ML, MM=models.MM, HI=models.HI,
            LT=models.LT, Tag=models.Tag)

UNCOND = ('pf', 'apf', 'sir', 'pfy')
COND = ('cpf', 'cpfas', 'cpfyas', 'csiras')
ALLSM = ('ancestor', 'full', 'rs', 'rsas', 'mcmc', 'mhips', 'mhips_reduced', 'mhbp')
MHSM = ('mhips', 'mhips_reduced', 'mhbp')

FILTERS = dict(HMM=UNCOND + COND, LG=UNCOND + COND, Tag=UNCOND + COND,
               ML=('pf', 'apf'), MM=('pf', 'apf'), HI=('pf',), LT=('pf',))
SMOOTHERS = dict(HMM=ALLSM, LG=ALLSM, Tag=ALLSM,
                 ML=ALLSM,
                 MM=('ancestor', 'full', 'mcmc', 'mhips', 'mhips_reduced', 'mhbp'),
                 HI=('ancestor', 'full', 'rs', 'rsas', 'mcmc', 'mhips_reduced'),
                 LT=('ancestor', 'full'))


def pick(r, seq):
    return seq[int(r.randint(len(seq)))]


def gen_model(r, fam):
    seed = int(r.randint(1 << 30))
    if fam == 'HMM':
        return dict(S=int(r.randint(2, 5)), seed=seed, Y=int(r.randint(2, 4)),
                    sparse=float(pick(r, (0.0, 0.0, 0.3))), conc=float(pick(r, (0.3, 1.0, 3.0))))
    if fam == 'LG':
        n = int(r.randint(1, 4))
        return dict(n=n, ny=int(r.randint(1, n + 1)), seed=seed, noise=pick(r, ('const', 'calc', 'const', 'calc', 'q', 'r', 'set')),
                    nonlin=float(pick(r, (0.0, 0.4))), fixed=pick(r, ('',) * 12 + ('f', 'f', 'g')), x0=bool(r.uniform() < 0.9),
                    shape=pick(r, ('scale', 'corr', 'both')))
    if fam in ('ML', 'MM'):
        return dict(lxi=int(r.randint(1, 3)), lz=int(r.randint(1, 3)), ny=int(r.randint(1, 3)),
                    seed=seed, dep=''.join(c for c in 'afqAFZChR' if r.uniform() < 0.5),
                    cross=pick(r, ('', 'const', 'dep')), idep=bool(r.uniform() < 0.3))
    if fam == 'HI':
        return dict(lxi=int(r.randint(1, 3)), lz=int(r.randint(1, 3)), ny=int(r.randint(1, 3)),
                    seed=seed, dep=''.join(c for c in 'AFZChR' if r.uniform() < 0.5), idep=bool(r.uniform() < 0.3))
    if fam == 'LT':
        return dict(n=int(r.randint(1, 4)), ny=int(r.randint(1, 3)), seed=seed,
                    dep=''.join(c for c in 'AfQChR' if r.uniform() < 0.5))
    if fam == 'Tag':
        return dict(gain=float(pick(r, (0.5, 1.5, 4.0))))
    raise KeyError(fam)


def gen_base(r, fams=('HMM', 'LG', 'ML', 'MM', 'HI', 'LT', 'Tag'), filters=None, smoothers=None,
             Tmax=7, Nmax=9, Mmax=5, miss=None, no_smoother=0.2):
    """A random configuration"""
    fam = pick(r, fams)
    fl = [f for f in FILTERS[fam] if filters is None or f in filters]
    sm = [s for s in SMOOTHERS[fam] if smoothers is None or s in smoothers]
    T = int(pick(r, (1, 2, 3, 4, 5, 6, Tmax)))
    mk = gen_model(r, fam)
    if fam in ('LG', 'ML', 'MM', 'LT') and r.uniform() < 0.08:
        mk['iint'] = True
    if fam == 'LG' and r.uniform() < 0.08:
        # the initial state is known
        mk['P0'] = False
    cfg = dict(fam=fam, mk=mk, filter=pick(r, fl),
               N=int(r.randint(1, Nmax + 1)), res=float(pick(r, (0.0, 0.3, 0.5, 0.67, 0.9, 1.0))),
               T=T, mf=bool(r.randint(2)), unone=bool(r.uniform() < 0.15),
               yseed=int(r.randint(1 << 30)), seed=int(r.randint(1 << 30)),
               smoother=(None if r.uniform() < no_smoother or not sm else pick(r, sm)),
               M=int(r.randint(1, Mmax + 1)), so=None)
    if cfg['filter'] in COND:
        cfg['N'] = max(cfg['N'], 2)
    if fam == 'LT':
        cfg['N'] = 1
        cfg['M'] = 1
    if fam == 'Tag':
        cfg['unone'] = False
    p = pick(r, (0.0, 0.0, 0.2, 0.5, 1.0)) if miss is None else pick(r, miss)
    cfg['miss'] = [int(i) for i in range(T) if r.uniform() < p]
    if r.uniform() < 0.08:
        cfg['yint'] = True
    if cfg['filter'] == 'apf' and fam == 'LT':
        cfg['filter'] = 'pf'
    cfg['so'] = gen_so(r, cfg)
    if cfg['mf'] and cfg['filter'] in ('pfy', 'cpfyas') and 0 in cfg['miss'] and fam != 'Tag':
        pass
    return cfg


def gen_so(r, cfg):
    s = cfg['smoother']
    if s in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp'):
        return dict(R=int(r.randint(0, 4))) if s == 'mcmc' else dict(R=int(r.randint(1, 4)))
    if s == 'rs' and r.uniform() < 0.6:
        return dict(R=int(r.randint(0, 6)))
    if s == 'rsas' and r.uniform() < 0.5:
        return dict(ratio=float(pick(r, (0.5, 1.0, 3.0))), P1=float(pick(r, (0.3, 1.0))))
    return None


def model(cfg):
    m = FAMS[cfg['fam']](**cfg['mk'])
    return m


def data(cfg, m):
    """Inputs and measurements of the configuration"""
    r = np.random.RandomState(cfg['yseed'])
    T, mf, fam = cfg['T'], cfg['mf'], cfg['fam']
    nu = T - 1 if mf else T
    if fam == 'Tag':
        u = [1000 + k for k in range(nu)]
        off = 0 if mf else 1
        y = [2000 + k + off for k in range(T)]
    elif fam == 'HMM':
        u = [int(v) for v in r.randint(0, 3, size=nu)]
        y = [int(v) for v in r.randint(0, m.Y, size=T)]
    else:
        u = [np.array([float(v)]) for v in r.normal(size=nu)]
        y = m.simulate(r, u, T, mf)
        if cfg.get('yarr'):
            y = [np.atleast_1d(v) for v in y]
    if cfg.get('unone'):
        u = [None] * nu
        if fam not in ('HMM', 'Tag'):
            y = m.simulate(np.random.RandomState(cfg['yseed']), u, T, mf)
    if cfg.get('yint') and fam not in ('HMM', 'Tag'):
        # counts and the like are recorded as integers
        y = [np.rint(3.0 * np.asarray(v)).astype(int) for v in y]
    for i in cfg['miss']:
        if i < T:
            y[i] = None
    return u, y


def reference(cfg, m, u, y, which=None):
    """Reference trajectory for the conditional filters"""
    s = (which if which is not None else cfg['seed']) + 12345
    state = np.random.get_state()
    w = seams.world()
    seams._tls.world = None
    try:
        np.random.seed(s % (2 ** 32))
        sim = Simulator(m, inputs(cfg, list(u)), list(y))
        sim.simulate(6, 1, filter='pf', smoother='ancestor', res=0.67, meas_first=cfg['mf'])
    finally:
        np.random.set_state(state)
        seams._tls.world = w
    if hasattr(m, 'exempt'):
        m.exempt = list(m.exempt) + [float(s.pa.part[0, 0]) for s in sim.straj.traj]
    return sim.straj.traj


def filter_options(cfg, m, u, y):
    if cfg['filter'] in COND:
        return dict(cond_traj=reference(cfg, m, u, y))
    return {}


def inputs(cfg, u):
    """Systems without inputs may leave them out"""
    return None if cfg.get('unone') and cfg['seed'] % 2 else u


def steps(cfg, u, y):
    """Online calls that process the data"""
    if cfg['mf']:
        return [('measure', y[0])] + [('forward', u[i - 1], y[i]) for i in range(1, len(y))]
    return [('forward', u[i], y[i]) for i in range(len(y))]


def apply(pt, s):
    if s[0] == 'measure':
        return pt.measure(s[1])
    return pt.forward(s[1], s[2])


def trajectory(cfg, m, fo, T=None):
    if cfg.get('dres') and cfg['res'] == 2.0 / 3.0:
        # the default threshold is 2/3
        return ParticleTrajectory(m, cfg['N'], filter=cfg['filter'], filter_options=fo, T=T)
    return ParticleTrajectory(m, cfg['N'], cfg['res'], filter=cfg['filter'], filter_options=fo, T=T)


def smooth(cfg, pt, m=None):
    """Run the configured smoother (None if there is none)"""
    if cfg['smoother'] is None:
        return None
    m = pt.pf.model if m is None else m
    relax(m, cfg['smoother'])
    so = cfg['so']
    return pt.perform_smoothing(cfg['M'], method=cfg['smoother'],
                                smoother_options=None if so is None else dict(so))


def relax(m, smoother):
    if hasattr(m, 'strict'):
        # the other Metropolis-Hastings smoothers replace the parents of what is kept
        m.strict = smoother not in ('mhips', 'mhips_reduced')


def simulate(cfg, sim, fo):
    relax(sim.model, cfg['smoother'])
    so = cfg['so']
    return sim.simulate(cfg['N'], cfg['M'] if cfg['smoother'] else 0, filter=cfg['filter'],
                        filter_options=fo, smoother=cfg['smoother'] or None,
                        smoother_options=None if so is None else dict(so),
                        res=cfg['res'], meas_first=cfg['mf'])


def gen_faults(r, cfg, p=0.3, exc=None, span=14):
    """Fault schedule: {call number: [[op, when, exception], ...]}"""
    out = {}
    if r.uniform() < 0.4:
        return out
    names = exc or ['Injected', 'ValueError', 'MemoryError', 'KeyboardInterrupt', 'LinAlgError',
                    'FloatingPointError', 'IndexError', 'TypeError', 'InjectedBase',
                    'StopIteration', 'AttributeError', 'NotImplementedError']
    for i in range(cfg['T']):
        if r.uniform() < p:
            out[str(i)] = [[int(r.randint(span)), pick(r, ('before', 'after', 'torn')), pick(r, names)]
                           for _ in range(int(r.randint(1, 3)))]
    return out


def gen_extreme(r, p=0.3):
    return [int(r.randint(1 << 30)), float(pick(r, (0.1, 0.5, 1.0)))] if r.uniform() < p else None


def attempt(w, fn, faults, st):
    """Run fn, failing on the way as scheduled, until it succeeds.

    Every scheduled failure is a separate attempt.  Returns fn's result."""
    for f in faults:
        n = len(w.fired)
        w.arm([f])
        try:
            r = fn()
        except seams.BudgetExceeded:
            raise
        except BaseException as e:
            if len(w.fired) > n and e is w.fired[-1]:
                st.probes['failed attempt'] += 1
                continue
            if len(w.fired) > n:
                # the injected failure was replaced by another one
                st.probes['failure translated'] += 1
                continue
            raise
        finally:
            w.arm()
        return r
    w.arm()
    return fn()


class Drive(object):
    """One online run; iterate over `calls` and apply them with failures"""

    def __init__(self, cfg, st, budget=2000000, T=None):
        self.cfg, self.st = cfg, st
        self.m = model(cfg)
        self.u, self.y = data(cfg, self.m)
        real_seed(cfg['seed'])
        self.fo = filter_options(cfg, self.m, self.u, self.y)
        self.w = seams.World(budget=budget)
        if cfg.get('ext'):
            self.w.extreme = (seams.real['RandomState'](cfg['ext'][0]), cfg['ext'][1])
        self.calls = steps(cfg, self.u, self.y)
        self.pt = trajectory(cfg, self.m, self.fo, T=T)
        self.flags = []

    def step(self, i, call=None):
        s = self.calls[i] if call is None else call
        f = self.cfg.get('faults', {}).get(str(i), [])
        with self.w:
            r = attempt(self.w, lambda: apply(self.pt, s), f, self.st)
        self.st.steps += 1
        if s[0] == 'forward':
            self.flags.append(bool(r))
        return r

    def smooth(self):
        f = self.cfg.get('sfaults', [])
        with self.w:
            r = attempt(self.w, lambda: smooth(self.cfg, self.pt), f, self.st)
        return r

    def done(self):
        self.st.runs += 1
        self.st.world(self.w)
        wellformed(self.pt, self.cfg['N'])
        self.st.trace(digest(snap_pt(self.pt)))


def real_seed(s):
    seams.real['seed'](int(s) % (2 ** 32))


def weights(step):
    """Normalised weights of a recorded step"""
    w = np.asarray(step.pa.w, dtype=float)
    return ref.normalise(w)


def wellformed(pt, N):
    from .engine import need
    for t, s in enumerate(pt.traj):
        p, w, a = s.pa.part, s.pa.w, s.ancestors
        need(isinstance(p, np.ndarray) and len(p) == N, 'malformed', 'step', t, 'has', np.shape(p), 'particles')
        need(np.shape(w) == (N,), 'malformed', 'step', t, 'has weights of shape', np.shape(w))
        need(np.shape(a) == (N,) and np.asarray(a).dtype.kind in 'iu', 'malformed',
             'step', t, 'ancestors', a)
        need((np.asarray(a) >= 0) & (np.asarray(a) < N), 'malformed', 'step', t, 'ancestors', a)
        need(np.isfinite(np.asarray(p, dtype=float)), 'malformed', 'step', t, 'particles', p)


# --- comparing ------------------------------------------------------------------

def canon(o, out):
    """Feed a canonical byte representation of o to out(bytes)"""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            out(b'O%d' % len(o))
            for v in o.ravel():
                canon(v, out)
        else:
            out(('A%s%s' % (o.dtype.str, o.shape)).encode())
            out(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (list, tuple)):
        out(b'L%d' % len(o))
        for v in o:
            canon(v, out)
    elif isinstance(o, dict):
        out(b'D%d' % len(o))
        for k in sorted(o, key=str):
            out(str(k).encode())
            canon(o[k], out)
    elif isinstance(o, (float, np.floating)):
        out(b'F' + np.float64(o).tobytes())
    elif isinstance(o, (bool, np.bool_)):
        out(b'B%d' % int(o))
    elif isinstance(o, (int, np.integer)):
        out(b'I%d' % int(o))
    elif o is None:
        out(b'N')
    elif isinstance(o, str):
        out(b'S' + o.encode())
    elif isinstance(o, bytes):
        out(b'Y' + o)
    else:
        raise TypeError(type(o))


def digest(*o):
    h = hashlib.sha256()
    canon(o, h.update)
    return h.hexdigest()[:20]


def cp(v):
    """Copy of one recorded value"""
    return np.copy(v) if isinstance(v, np.ndarray) else v


def snap_steps(traj):
    out = []
    for s in traj:
        out.append((np.copy(s.pa.part), None if s.pa.w is None else np.copy(s.pa.w),
                    None if s.ancestors is None else np.array(s.ancestors)))
    return out


def snap_pt(pt):
    """Everything recorded so far"""
    n = len(pt.traj)
    return dict(steps=snap_steps(pt.traj), ind=int(pt.ind),
                u=[cp(v) for v in pt.uvec[:max(n - 1, 0)]], y=[cp(v) for v in pt.yvec[:n]],
                t=[float(v) for v in pt.tvec[:n]])


def snap_straj(st):
    if st is None:
        return None
    n = len(st.traj)
    return dict(steps=[s[0] for s in snap_steps(st.traj)], u=[cp(v) for v in st.u[:n - 1]],
                y=[cp(v) for v in st.y[:n]], t=[float(v) for v in st.t[:n]])


def result(pt, st):
    return [snap_pt(pt), snap_straj(st)]


def same(a, b):
    return digest(a) == digest(b)


def diff(a, b, path=''):
    """First difference between two snapshots, as text"""
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        return '%s: %r / %r' % (path, a, b)
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return '%s.%s missing' % (path, k)
            d = diff(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d / %d entries' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if digest(a) != digest(b):
        return '%s: %s / %s' % (path, str(a)[:200], str(b)[:200])
    return None


def deep(o):
    """Independent copy of plain data (lists, dicts, arrays, steps)"""
    return pickle.loads(pickle.dumps(o))


def freeze(o):
    """Comparable form of caller owned data, including reference trajectories"""
    if isinstance(o, dict):
        return dict((k, freeze(v)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return [freeze(v) for v in o]
    if isinstance(o, np.ndarray) and o.dtype == object:
        return [freeze(v) for v in o]
    if hasattr(o, 'pa'):
        return [np.copy(o.pa.part), np.copy(o.pa.w), None if o.ancestors is None else np.array(o.ancestors)]
    return cp(o)
