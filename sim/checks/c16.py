"""Compiled and pure-Python helpers are interchangeable"""
import numpy as np
import scipy.linalg

from .. import seams, variant
from .. import scen as scn
from ..engine import fail, need
from ..scen import pick
from . import c15

ID = 'C16'
RULE = ('one seeded run (filter and smoother, or estimation with the optimiser replaced by seeded probes, or a '
        'program of helper calls whose results feed later calls) with both helper modules in Python, repeated with '
        'the same random stream, data and failures while a seeded subset of the extension imports succeeds, fails '
        'or fails only at some attempts; every recorded value, argument after each helper call, and the number of '
        'random draws is compared; non-trivial: a compiled helper was in use and data were processed')
STATES = 'distinct (kind, model family, import outcome, filter, smoother or helper) compared'
QUICK, THOROUGH = 1200, 600
RTOL = 1e-6
OUT = (None, 'ImportError', 'ModuleNotFoundError', 'Broken')


class Broken(ImportError):
    pass


EXC = dict(ImportError=ImportError, ModuleNotFoundError=ModuleNotFoundError, Broken=Broken)
MODULES = ('filter', 'smoother', 'simulator', 'interfaces', 'models.ltv', 'models.nlg', 'models.mlnlg', 'models.rbpf',
           'models.hierarchial', 'paramest.paramest', 'paramest.interfaces', 'paramest.gradienttest',
           'utils.intrument', 'utils.kalman', 'utils.mlnlg_compute')


def prepare():
    variant.build()


def cleanup():
    variant.remove()


def gen_how(r):
    def one():
        if r.uniform() < 0.5:
            return pick(r, OUT)
        return [pick(r, OUT) for _ in range(int(r.randint(2, 6)))]
    k = int(r.randint(6))
    if k == 0:
        return dict(ckalman=None, cmlnlg_compute=None)
    if k == 1:
        return dict(ckalman=None, cmlnlg_compute=pick(r, OUT[1:]))
    if k == 2:
        return dict(ckalman=pick(r, OUT[1:]), cmlnlg_compute=None)
    return dict(ckalman=one(), cmlnlg_compute=one())


def how(h):
    f = lambda e: [EXC.get(x) for x in e] if isinstance(e, list) else EXC.get(e)
    return dict((k, f(v)) for k, v in h.items())


def gen(r, i):
    kind = pick(r, ('run', 'run', 'est', 'helpers'))
    cfg = dict(kind=kind)
    hows = [dict(ckalman=None, cmlnlg_compute=None), gen_how(r)]
    if kind == 'run':
        c = scn.gen_base(r, fams=('LG', 'ML', 'MM', 'HI', 'LT', 'LG', 'ML', 'MM', 'HI'), Tmax=6, Nmax=6, Mmax=3,
                         no_smoother=0.1)
        if c['res'] in (0.0, 1.0, 0.5):
            c['res'] = {0.0: 0.0, 1.0: 0.97, 0.5: 0.513}[c['res']]   # away from exact ties
        c['faults'] = scn.gen_faults(r, c, p=0.1)
        if c['fam'] in ('ML', 'MM') and r.uniform() < 0.3:
            c['mk']['none'] = pick(r, ('f', 'F', 'fF', 'h', 'hF', 'C', 'Cf'))
    elif kind == 'est':
        while True:
            c = c15.gen(r, i)
            if c['cls'] != 'PHM' or r.uniform() < 0.1:
                break
        c['iters'] = min(c['iters'], 2)
        c['probes'] = [[float(v) for v in r.uniform(-0.6, 0.6, size=len(c['p0']))] for _ in range(2)]
        if c['cls'] in ('PMLG', 'PMMG', 'PML', 'PMM') and r.uniform() < 0.4:
            c['mk']['ints'] = [k for k in ('Axi', 'Az', 'fxi', 'fz', 'C', 'h') if r.uniform() < 0.9]
            c['mk']['dep'] = ''.join(x for x in c['mk']['dep'] if x not in 'afAF' or r.uniform() < 0.2)
    else:
        c = dict(seed=int(r.randint(1 << 30)), n=int(r.randint(1, 4)), ny=int(r.randint(1, 4)),
                 lxi=int(r.randint(1, 4)), N=int(r.randint(1, 5)), P=int(r.randint(1, 4)),
                 ops=[[pick(r, sorted(OPS)), int(r.randint(1 << 20))] for _ in range(int(r.randint(1, 15)))])
        hows = [dict(ckalman=None, cmlnlg_compute=None)]
    cfg['c'] = c
    cfg['hows'] = hows
    return cfg


def shrink(cfg):
    if len(cfg['hows']) > 1:
        for h in cfg['hows']:
            yield dict(cfg, hows=[h])
    c = cfg['c']
    if cfg['kind'] == 'helpers':
        for k in range(len(c['ops'])):
            if len(c['ops']) > 1:
                yield dict(cfg, c=dict(c, ops=c['ops'][:k] + c['ops'][k + 1:]))
        for k in ('n', 'ny', 'lxi', 'N', 'P'):
            if c[k] > 1:
                yield dict(cfg, c=dict(c, **{k: c[k] - 1}))
    elif cfg['kind'] == 'est':
        for d in c15.shrink(c):
            if len(d['p0']) != len(c['p0']):
                d['probes'] = [p[:len(d['p0'])] for p in d['probes']]
            yield dict(cfg, c=d)
        if c['miss']:
            yield dict(cfg, c=dict(c, miss=[]))
    else:
        for k, v in (('T', c['T'] - 1), ('N', c['N'] - 1), ('M', c['M'] - 1)):
            if v >= 1 and not (k == 'N' and c['filter'] in scn.COND and v < 2):
                yield dict(cfg, c=dict(c, **{k: v, 'faults': {}}))
        if c['faults']:
            yield dict(cfg, c=dict(c, faults={}))
        if c['smoother']:
            yield dict(cfg, c=dict(c, smoother=None))


def valid(cfg):
    c = cfg['c']
    if cfg['kind'] == 'est':
        return c15.valid(c) and all(len(p) == len(c['p0']) for p in c['probes'])
    if cfg['kind'] == 'run':
        k = c['mk']
        return not ('h' in k.get('none', '') and 'C' in k.get('none', ''))
    return True


# --- comparing up to rounding ---------------------------------------------------------

def near(a, b, path, scale=None):
    """First difference between two nested results beyond rounding"""
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(a) != sorted(b):
            return '%s: %s / %s' % (path, a, b)
        for k in sorted(a):
            d = near(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return '%s: %s / %s' % (path, str(a)[:200], str(b)[:200])
        for k, (x, y) in enumerate(zip(a, b)):
            d = near(x, y, '%s[%d]' % (path, k))
            if d:
                return d
        return None
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return None if (type(a) is type(b) and a == b) else '%s: %r / %r' % (path, a, b)
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return '%s: shapes %s / %s' % (path, x.shape, y.shape)
    if x.dtype == object:
        return near(list(x), list(y), path)
    x, y = x.astype(float), y.astype(float)
    fin = np.isfinite(x)
    ok = np.array_equal(fin, np.isfinite(y)) and np.array_equal(np.nan_to_num(x[~fin]), np.nan_to_num(y[~fin]))
    if ok and np.any(fin):
        x, y = x[fin], y[fin]
        ok = np.all(np.abs(x - y) <= RTOL * (1.0 + np.max(np.abs(x))))
    return None if ok else '%s: %s / %s' % (path, np.asarray(a).tolist(), np.asarray(b).tolist())


# --- whole runs ------------------------------------------------------------------------

def do_run(V, c, st):
    d = V.scen.Drive(c, st)
    for k in range(len(d.calls)):
        d.step(k)
    s = d.smooth()
    out = V.scen.result(d.pt, s)
    out.append(d.flags)
    if s is not None:
        out.append(s.get_smoothed_estimates())
    out.append(float(np.random.uniform()))
    st.world(d.w)
    return out, len(d.pt.traj)


class Probe(object):
    """Replaces the numerical search: evaluates what it is given at seeded points"""

    def __init__(self, c):
        self.c, self.seen = c, []

    def clip(self, x):
        b = self.c['bounds']
        if self.c['cls'] == 'PHM':
            x = np.clip(np.asarray(x) + 0.5, 0.05, 0.95)
        if b is None:
            return x
        return np.array([min(max(v, -np.inf if lo is None else lo), np.inf if hi is None else hi)
                         for v, (lo, hi) in zip(x, b)])

    def minimize(self, fun, x0, *a, **k):
        jac = k.get('jac', None)
        pts = [np.ravel(np.copy(x0))] + [self.clip(np.array(p)) for p in self.c['probes']]
        for p in pts:
            v = fun(np.copy(p))
            self.seen.append([np.ravel(np.asarray(x, dtype=float)) for x in (v if isinstance(v, tuple) else (v,))])
            if callable(jac):
                self.seen.append(np.ravel(jac(np.copy(p))))

        class R(object):
            x = self.clip(pts[len(self.seen) % 2 + 1] * 0.7)
            fun = 0.0
            success = True
        return R


def do_est(V, c, st):
    import scipy.optimize
    pest = V.pest
    kw = dict(c['mk'])
    b = c['bounds']
    kw['bounds'] = None if b is None else [tuple(v) for v in b]
    m = pest.CLASSES[c['cls']](**kw)
    m.col = c['col']
    base = V.scen.FAMS[pest.BASE[c['cls']]](**dict((k, v) for k, v in c['mk'].items()
                                                   if k not in ('slots', 'how', 'ints')))
    u, y = V.scen.data(c, base)
    pe = V.module('paramest.paramest')
    e = pe.ParamEstimation(m, u, y)
    pr = Probe(c)
    real = scipy.optimize.minimize
    w = seams.World(budget=4000000)
    est = []

    def hook(phase, model, name, a, k, res):
        if name == 'maximize' and phase == 'enter':
            est.append(V.scen.snap_straj(seams.arg(name, a, k, 'straj')))
    w.hooks.append(hook)
    V.scen.real_seed(c['seed'])
    scipy.optimize.minimize = pr.minimize
    try:
        with w:
            p, Q = e.maximize(np.array(c['p0']), c['N'], c['M'], max_iter=c['iters'], meas_first=c['mf'],
                              filter=c['filter'], smoother=c['smoother'],
                              smoother_options=None if c['so'] is None else dict(c['so']))
    finally:
        scipy.optimize.minimize = real
    need(len(pr.seen) >= 3 * c['iters'], 'probes', 'the objective was evaluated', len(pr.seen), 'times')
    st.world(w)
    return [est, pr.seen, np.ravel(p), float(np.random.uniform())], c['T']


# --- helper programs ---------------------------------------------------------------------

def spd(r, n):
    a = r.normal(size=(n, n))
    return a.dot(a.T) + (0.2 + r.uniform()) * np.eye(n)


class Prog(object):
    """Inputs of one implementation; the same seeds give the same inputs"""

    def __init__(self, c, kal, mc):
        self.c, self.kal, self.mc = c, kal, mc
        r = np.random.RandomState(c['seed'])
        n, ny = c['n'], c['ny']
        self.kf = kal.KalmanSmoother(n, A=r.normal(size=(n, n)) * 0.7, C=r.normal(size=(ny, n)), Q=spd(r, n),
                                     R=spd(r, ny), f_k=r.normal(size=(n, 1)) if r.uniform() < 0.5 else None,
                                     h_k=r.normal(size=(ny, 1)) if r.uniform() < 0.5 else None)
        # the state lies inside larger arrays, as in the models
        self.store = np.zeros((2, n + n * n + 3))
        self.z = self.store[1, 1:1 + n].reshape((n, 1))
        self.P = self.store[1, 1 + n:1 + n + n * n].reshape((n, n))
        self.z[:] = r.normal(size=(n, 1))
        self.P[:] = spd(r, n)


def arr(r, a):
    """The same values with another memory layout or type"""
    k = int(r.randint(5))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.zeros(tuple(2 * s for s in a.shape))
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 2:
        return np.rint(2 * a)
    return np.array(a)


def mats(r, c):
    n, ny = c['n'], c['ny']
    A, f, Q = arr(r, r.normal(size=(n, n))), arr(r, r.normal(size=(n, 1))), spd(r, n)
    return A, f, Q


def meas(r, c, scalar=False):
    n, ny = c['n'], (1 if scalar else c['ny'])
    y = arr(r, r.normal(size=(ny, 1)))
    C = arr(r, r.normal(size=(ny, n))) if r.uniform() < 0.8 else None
    h = arr(r, r.normal(size=(ny, 1))) if r.uniform() < 0.7 else None
    R = spd(r, ny)
    if r.uniform() < 0.1:
        R = -10.0 * R if r.uniform() < 0.5 else np.zeros((ny, ny))    # not a covariance
    return y, C, h, R


def o_predict(p, r):
    return p.kf.predict, [p.z, p.P], {}


def o_predict_full(p, r):
    A, f, Q = mats(r, p.c)
    if r.uniform() < 0.5:
        return p.kf.predict_full, [], dict(z=p.z, P=p.P, A=A, f_k=f, Q=Q)
    return p.kf.predict_full, [p.z, p.P, A, f, Q], {}


def o_predict_inplace(p, r):
    A, f, Q = mats(r, p.c)
    if r.uniform() < 0.1:
        Q = spd(r, p.c['n'] + 1)
    return p.kf.predict_full_inplace, [p.z, p.P, A, f, Q], {}


def o_diff(p, r):
    y, C, h, _ = meas(r, p.c)
    return p.kf.measurement_diff, [y, p.z, C, h] if r.uniform() < 0.8 else [y, p.z, C], {}


def o_measure(p, r):
    return p.kf.measure, [arr(r, r.normal(size=(p.c['ny'], 1))), p.z, p.P], {}


def o_measure_full(p, r):
    y, C, h, R = meas(r, p.c)
    if r.uniform() < 0.5:
        return p.kf.measure_full, [], dict(y=y, z=p.z, P=p.P, C=C, h_k=h, R=R)
    return p.kf.measure_full, [y, p.z, p.P, C, h, R], {}


def o_measure_scalar(p, r):
    y, C, h, R = meas(r, p.c, True)
    R = np.abs(R) + 0.1
    return p.kf.measure_full_scalar, [], dict(y=y, z=p.z, P=p.P, C=C, h_k=h, R=R)


def o_set(p, r):
    A, f, Q = mats(r, p.c)
    y, C, h, R = meas(r, p.c)
    full = dict(A=A, C=C, Q=Q, R=spd(r, p.c['ny']), f_k=f, h_k=h)
    return p.kf.set_dynamics, [], dict((k, v) for k, v in full.items() if r.uniform() < 0.4)


def o_smooth(p, r):
    A, f, Q = mats(r, p.c)
    n = p.c['n']
    return p.kf.smooth, [p.z, p.P, r.normal(size=(n, 1)), spd(r, n), A, f, Q], {}


def o_logn(p, r):
    n = p.c['n']
    e = r.normal(size=pick(r, ((n, 1), (n,), (1, n))))
    S = spd(r, n)
    if r.uniform() < 0.1:
        S[:] = 0.0
    return p.kal.lognormpdf, [arr(r, e), S], {}


def o_cho(p, r):
    n = p.c['n']
    S = scipy.linalg.cho_factor(spd(r, n), lower=bool(r.randint(2)))
    return p.kal.lognormpdf_cho, [r.normal(size=pick(r, ((n, 1), (n,)))), S], {}


def o_cho_vec(p, r):
    n = p.c['n']
    S = scipy.linalg.cho_factor(spd(r, n), lower=bool(r.randint(2)))
    return p.kal.lognormpdf_cho_vec, [arr(r, r.normal(size=(p.c['N'], n, 1))), S], {}


def o_vec(p, r):
    n, N = p.c['n'], p.c['N']
    return p.kal.lognormpdf_vec, [arr(r, r.normal(size=(N, n, 1))), np.asarray([spd(r, n) for _ in range(N)])], {}


def o_scalar(p, r):
    return p.kal.lognormpdf_scalar, [arr(r, r.normal(size=pick(r, ((p.c['N'],), (p.c['N'], 1))))),
                                     np.array([[0.1 + r.uniform()]])], {}


def o_logprod(p, r):
    n = p.c['n']
    S = scipy.linalg.cho_factor(spd(r, n))
    return p.mc.compute_logprod_derivative, [S, arr(r, spd(r, n)), spd(r, n), arr(r, r.normal(size=(n, n)))], {}


def flt(r, *shape):
    """Double precision array of any layout"""
    a = r.normal(size=shape)
    k = int(r.randint(4))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.zeros(shape[:-1] + (2 * shape[-1],))
        b[..., ::2] = a
        return b[..., ::2]
    return a


def o_grad_f(p, r):
    c = p.c
    N, P, dim = c['N'], c['P'], c['lxi'] + c['n']
    return p.mc.compute_l2_grad_f, [N, P, dim, flt(r, N, P, dim, dim), flt(r, N, dim, 1), flt(r, N, P, dim, 1),
                                    flt(r, dim, dim)], {}


def o_grad_A(p, r):
    c = p.c
    N, P, lxi, lz = c['N'], c['P'], c['lxi'], c['n']
    dim = lxi + lz
    Pn, Pl = np.asarray([spd(r, lz) for _ in range(N)]), np.asarray([spd(r, lz) for _ in range(N)])
    return p.mc.compute_l2_grad_A, [N, P, dim, flt(r, N, P, dim, dim), flt(r, N, dim, 1), lxi, Pn, flt(r, N, lz, 1), Pl,
                                    flt(r, N, lz, lz), flt(r, N, dim, lz), flt(r, N, P, dim, lz), flt(r, dim, dim),
                                    flt(r, dim, lz)], {}


def o_pred_err(p, r):
    c = p.c
    N, lz = c['N'], c['n']
    dim = c['lxi'] + lz
    return p.mc.compute_pred_err, [N, dim, flt(r, N, dim, 1), flt(r, N, dim, 1), flt(r, N, dim, lz), flt(r, N, lz, 1),
                                   flt(r, N, dim, 1)], {}


def o_l2(p, r):
    c = p.c
    N, lxi, lz = c['N'], c['lxi'], c['n']
    dim = lxi + lz
    Pn, Pl = np.asarray([spd(r, lz) for _ in range(N)]), np.asarray([spd(r, lz) for _ in range(N)])
    return p.mc.compute_l2, [N, lxi, dim, flt(r, N, dim, 1), Pn, flt(r, N, dim, lz), Pl, flt(r, N, lz, lz),
                             flt(r, N, dim, dim)], {}


OPS = dict((k[2:], v) for k, v in list(globals().items()) if k.startswith('o_'))


def plain(o):
    if isinstance(o, (tuple, list)):
        return [plain(v) for v in o]
    if isinstance(o, dict):
        return dict((k, plain(v)) for k, v in o.items())
    if isinstance(o, np.ndarray):
        return np.array(o, dtype=float)
    if isinstance(o, (np.generic, bool, int)):
        return float(o)
    return o


def outcome(p, op, seed):
    """Result, arguments and state after one call"""
    fn, a, k = OPS[op](p, np.random.RandomState(seed))
    try:
        res = plain(fn(*a, **k))
    except Exception as e:
        res = type(e).__name__
    return [res, plain(a), plain(k), plain(p.store), plain(dict((n, getattr(p.kf, n)) for n in
            ('A', 'C', 'Q', 'R', 'f_k', 'h_k', 'lz')))]


def do_helpers(cfg, st):
    c = cfg['c']
    both = []
    for h in ('pure', 'ext'):
        V = variant.activate(h)
        names = ('utils.kalman', 'utils.mlnlg_compute') if h == 'pure' else ('utils.ckalman', 'utils.cmlnlg_compute')
        both.append(Prog(c, *[V.module(n) for n in names]))
    a, b = both
    for op, seed in c['ops']:
        x, y = outcome(a, op, seed), outcome(b, op, seed)
        d = near(x, y, op)
        if d:
            fail('helper', 'python / compiled', d)
        st.state('helper', op, isinstance(x[0], str), c['n'], c['N'])
        st.trace(op, scn.digest(x))
        st.probes['helper calls compared'] += 1
        if isinstance(x[0], str):
            st.probes['failing helper calls compared'] += 1
        # keep the state in bounds for the next operation
        for p in both:
            if not np.all(np.isfinite(p.P)) or np.max(np.abs(p.P)) > 1e3 or np.linalg.eigvalsh(p.P + p.P.T)[0] < 1e-3 \
                    or np.max(np.abs(p.z)) > 1e3:
                p.P[:] = np.eye(len(p.P))
                p.z[:] = 0.5
        st.steps += 1
    st.runs += 1
    st.nontrivial = True


def run(cfg, st):
    if cfg['kind'] == 'helpers':
        return do_helpers(cfg, st)
    c = cfg['c']
    do = do_run if cfg['kind'] == 'run' else do_est
    V = variant.activate('pure')
    mods = [n for n in MODULES if importable(V, n)]
    base, T = do(V, c, st)
    st.runs += 1
    st.steps += T
    for h in cfg['hows']:
        V = variant.activate(how(h))
        for n in mods:
            load(V, n, h)
        used = [which(V, n, 'kalman') for n in ('ltv', 'nlg', 'rbpf', 'mlnlg', 'hierarchial')]
        used.append(which(V, 'mlnlg', 'mlnlg_compute'))
        got, _ = do(V, c, st)
        d = near(base, got, 'result')
        if d:
            fail('differs', 'with import outcomes', h, ':', d)
        st.runs += 1
        st.steps += T
        st.state(cfg['kind'], c['fam'], c.get('cls'), tuple(used), c['filter'], c['smoother'])
        st.faults['extension import failed'] += sum(e is not None for e in V.finder.outcomes)
        if any(used):
            st.nontrivial = True
            st.probes['compared with compiled helpers'] += 1
        if any(used) and not all(used):
            st.probes['compared with some compiled helpers'] += 1
    st.trace(scn.digest(base))


def importable(V, n):
    try:
        V.module(n)
    except ImportError:
        return False
    return True


def load(V, n, h):
    try:
        V.module(n)
    except Exception as e:
        fail('import', n, 'with import outcomes', h, ':', type(e).__name__, e)


def which(V, n, attr):
    """Does the model module use the compiled helper?"""
    m = getattr(V.module('models.' + n), attr, None)
    return getattr(m, '__name__', '').rpartition('.')[2].startswith('c')
