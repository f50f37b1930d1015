"""Models whose matrices depend on parameters, for the numeric M-step"""
import numpy as np

from . import models, ref
from .seams import faulty
from .scen import pick
from pyparticleest.paramest import interfaces as pi

COV = ('Q', 'R', 'Qall', 'P0', 'Qt', 'Rt')


class Param(object):
    """Slots: list of (what, seed).  Means get + theta * D, covariances * exp(theta)."""

    def setup_slots(self, slots):
        self.slots = [tuple(s) for s in slots]
        self.base = self.read()
        self.dirs = []
        for what, seed in self.slots:
            r = np.random.RandomState(seed)
            self.dirs.append(None if what in COV else
                             0.7 * r.normal(size=np.shape(self.base[what])))
        self.params = np.zeros(len(self.slots))
        self.col = False

    def values(self, p):
        v = dict((k, np.copy(x)) for k, x in self.base.items())
        for (what, _), d, th in zip(self.slots, self.dirs, np.ravel(p)):
            for k in self.expand(what):
                v[k] = v[k] * np.exp(th) if d is None else v[k] + th * d
        return v

    def expand(self, what):
        return (what,)

    def set_params(self, params):
        p = np.array(params, dtype=float).ravel()
        self.params = p.reshape((-1, 1)) if self.col else p
        self.write(self.values(p))

    def dval(self, j, what, fn):
        """Derivative of fn() w.r.t. parameter j (fn is affine in what is added)"""
        name, d = self.slots[j][0], self.dirs[j]
        if what not in self.expand(name):
            return np.zeros_like(fn())
        if d is None:
            return fn()
        keep = self.peek(what)
        a = fn()
        self.poke(what, keep + d)
        b = fn()
        self.poke(what, keep)
        return b - a

    def has(self, *names):
        return any(k in names for w, _ in self.slots for k in self.expand(w))


# --- linear time varying -----------------------------------------------------------

class _PLT(Param):

    def read(self):
        b = dict((k, np.copy(v)) for k, v in self.tab.items())
        b['z0'], b['P0'] = np.copy(self.z0), np.copy(self.P0)
        return b

    def write(self, v):
        for k in self.tab:
            self.tab[k] = v[k]
        self.z0, self.P0 = v['z0'], v['P0']
        c = lambda n: None if n in self.dep else self.tab[n][0]
        if self.how == 'set':
            self.kf.set_dynamics(A=c('A'), C=c('C'), Q=c('Q'), R=c('R'), f_k=c('f'), h_k=c('h'))

    def peek(self, k):
        return self.tab[k]

    def poke(self, k, v):
        self.tab[k] = v

    def get_pred_dynamics_grad(self, u, t):
        if not self.has('A', 'f', 'Q'):
            return (None, None, None)
        out = []
        for k in ('A', 'f', 'Q'):
            if not self.has(k):
                out.append(None)
            else:
                out.append(np.asarray([self.dval(j, k, lambda: self.val(k, t, u)) for j in range(len(self.slots))]))
        return tuple(out)

    def get_meas_dynamics_grad(self, y, t):
        if not self.has('C', 'h', 'R'):
            return (None, None, None)
        out = []
        for k in ('C', 'h', 'R'):
            if not self.has(k):
                out.append(None)
            else:
                out.append(np.asarray([self.dval(j, k, lambda: self.val(k, t)) for j in range(len(self.slots))]))
        return tuple(out)

    def get_initial_grad(self):
        n = len(self.slots)
        if not self.has('z0', 'P0'):
            return super(_PLT, self).get_initial_grad()
        return (np.asarray([d if s[0] == 'z0' else np.zeros_like(self.z0) for s, d in zip(self.slots, self.dirs)]),
                np.asarray([self.P0 if s[0] == 'P0' else np.zeros_like(self.P0) for s in self.slots]).reshape(
                    (n,) + self.P0.shape))

    def objective(self, p, est, y, u):
        """Expected complete-data log-likelihood of smoothed moments (means and joint covariance)"""
        mean, cov, idx = est
        v = self.values(p)
        keep = self.tab
        self.tab = dict((k, v[k]) for k in keep)
        try:
            tot = quad(mean, cov, [(np.eye(len(mean[idx[0]])), idx[0])], v['z0'].ravel(), v['P0'])
            for t in range(len(idx)):
                if y[t] is not None:
                    tot += quad(mean, cov, [(-self.val('C', t), idx[t])],
                                self.val('h', t).ravel() - np.ravel(y[t]), self.val('R', t))
                if t + 1 < len(idx):
                    tot += quad(mean, cov, [(np.eye(self.n), idx[t + 1]), (-self.val('A', t), idx[t])],
                                self.val('f', t, u[t]).ravel(), self.val('Q', t))
        finally:
            self.tab = keep
        return tot

    def moments(self, p, y, u):
        """Smoothed joint distribution and log-likelihood of the data"""
        v = self.values(p)
        keep = (self.tab, self.z0, self.P0)
        self.tab = dict((k, v[k]) for k in self.tab)
        self.z0, self.P0 = v['z0'], v['P0']
        try:
            T = len(y)
            J = self.joint(u, T)
            m, P, ll = J.condition([('z', t) for t in range(T)],
                                   [(('y', t), y[t]) for t in range(T) if y[t] is not None])
        finally:
            self.tab, self.z0, self.P0 = keep
        n = self.n
        return (m, P, [slice(t * n, (t + 1) * n) for t in range(T)]), ll


def quad(mean, cov, terms, const, S):
    """E log N(sum A x - const; 0, S) without the 2 pi, x ~ N(mean, cov)"""
    G = np.zeros((len(np.atleast_2d(S)), len(mean)))
    for A, i in terms:
        G[:, i] += A
    r = G.dot(mean) - const
    S = np.atleast_2d(S)
    E = np.outer(r, r) + G.dot(cov).dot(G.T)
    return -0.5 * (np.linalg.slogdet(S)[1] + np.trace(np.linalg.solve(S, E)))


@faulty
class PLT(_PLT, models.LT, pi.ParamEstBaseNumeric, pi.ParamEstInterface):
    def __init__(self, slots, how='dep', bounds=None, **kw):
        self.how = how
        models.LT.__init__(self, **kw)
        self.param_bounds = bounds
        self.setup_slots(slots)


@faulty
class PLTG(_PLT, models.LT, pi.ParamEstBaseNumericGrad, pi.ParamEstInterface_GradientSearch):
    def __init__(self, slots, how='dep', bounds=None, **kw):
        self.how = how
        models.LT.__init__(self, **kw)
        self.param_bounds = bounds
        self.setup_slots(slots)


# --- mixed linear/nonlinear --------------------------------------------------------

class _PML(Param):

    def expand(self, what):
        return ('Qxi', 'Qz', 'Qxiz') if what == 'Qall' else (what,)

    def read(self):
        b = dict((k, np.copy(v)) for k, v in self.tab.items())
        b['z0'], b['P0'] = np.copy(self.z0), np.copy(self.Pz0)
        b['xi0'], b['Pxi0'] = np.copy(self.xi0), np.copy(self.Pxi0)
        return b

    def write(self, v):
        for k in self.tab:
            self.tab[k] = v[k]
        self.z0, self.Pz0, self.xi0, self.Pxi0 = v['z0'], v['P0'], v['xi0'], v['Pxi0']
        ints = getattr(self, 'ints', ())
        par = [w for w, _ in self.slots]
        c = lambda n: (None if self.FLAGS[n] in self.dep + self.none else
                       self.tab[n][0].astype(int) if n in ints and n not in par else self.tab[n][0])
        self.set_dynamics(Az=c('Az'), fz=c('fz'), Qz=c('Qz'), R=c('R'), Axi=c('Axi'), fxi=c('fxi'), Qxi=c('Qxi'),
                          Qxiz=0.6 * self.tab['Qxiz'][0] if self.cross == 'const' else None,
                          C=c('C'), h=c('h'))

    def integers(self, names):
        """Constant matrices `names` get integer entries and type"""
        if not names:
            return
        self.ints = [k for k in names if self.FLAGS[k] not in self.dep + self.none]
        for k in self.ints:
            self.base[k] = np.rint(self.base[k])
        for j, (what, _) in enumerate(self.slots):
            if what in self.ints:
                self.dirs[j] = np.rint(1.5 * self.dirs[j]) + (1.0 if what in ('fxi', 'fz') else 0.0)
        self.set_params(self.params)

    def whole(self, g, *names):
        # gradients of integer matrices are given as integers
        if g is not None and getattr(self, 'ints', None) and all(k in self.ints for k in names):
            return np.rint(g).astype(int)
        return g

    def peek(self, k):
        return self.tab[k]

    def poke(self, k, v):
        self.tab[k] = v

    def get_pred_dynamics_grad(self, particles, u, t):
        n = range(len(self.slots))
        xi = [p[:self.lxi] for p in particles]
        g = lambda x, j, k: self.dval(j, k, lambda: self.val(k, x, t, u))
        A = f = Q = None
        if self.has('Axi', 'Az'):
            A = np.asarray([[np.vstack((g(x, j, 'Axi'), g(x, j, 'Az'))) for j in n] for x in xi])
        if self.has('fxi', 'fz'):
            f = np.asarray([[np.vstack((g(x, j, 'fxi'), g(x, j, 'fz'))) for j in n] for x in xi])
        if self.has('Qxi'):
            def q(x, j):
                if self.slots[j][0] != 'Qall':
                    return np.zeros((self.lxi + self.kf.lz,) * 2)
                s = self.sys(x, u, t)
                return np.block([[s['Qxi'], s['Qxiz']], [s['Qxiz'].T, s['Qz']]])
            Q = np.asarray([[q(x, j) for j in n] for x in xi])
        return (self.whole(A, 'Axi', 'Az'), self.whole(f, 'fxi', 'fz'), Q)

    def get_meas_dynamics_grad(self, particles, y, t):
        n = range(len(self.slots))
        xi = [p[:self.lxi] for p in particles]
        out = []
        for k in ('C', 'h', 'R'):
            if not self.has(k):
                out.append(None)
            else:
                out.append(np.asarray([[self.dval(j, k, lambda: self.val(k, x, t)) for j in n] for x in xi]))
        return tuple(out)

    def get_rb_initial_grad(self, xi0):
        if not self.has('z0', 'P0'):
            return super(_PML, self).get_rb_initial_grad(xi0)
        z, P = [], []
        for x in xi0:
            # what the moments are multiplied by, z0 and P0 enter linearly
            a, b = self.zinit(x, np.ones(len(self.z0)), np.ones_like(self.Pz0))
            z.append(np.asarray([d * a[:, None] if s[0] == 'z0' else 0.0 * self.z0
                                 for s, d in zip(self.slots, self.dirs)]))
            P.append(np.asarray([self.Pz0 * b if s[0] == 'P0' else 0.0 * self.Pz0 for s in self.slots]))
        return (z, P)

    def get_xi_intitial_grad(self, N):
        if not self.has('xi0'):
            return super(_PML, self).get_xi_intitial_grad(N)
        x = np.asarray([d if s[0] == 'xi0' else np.zeros_like(self.xi0) for s, d in zip(self.slots, self.dirs)])
        return ([x] * N, [np.zeros((len(self.slots),) + self.Pxi0.shape)] * N)

    def objective(self, p, trajs, y, u):
        """Average over trajectories (xis, mean, cov, idx) of the linear states"""
        v = self.values(p)
        keep = self.tab
        self.tab = dict((k, v[k]) for k in keep)
        tot = 0.0
        try:
            for xis, mean, cov, idx in trajs:
                tot += -0.5 * (np.linalg.slogdet(v['Pxi0'])[1] + (xis[0] - v['xi0'].ravel()).dot(
                    np.linalg.solve(v['Pxi0'], xis[0] - v['xi0'].ravel())))
                lz = len(v['z0'])
                z0, P0 = self.zinit(xis[0], v['z0'], v['P0'])
                tot += quad(mean, cov, [(np.eye(lz), idx[0])], z0, P0)
                for t in range(len(idx)):
                    if y[t] is not None:
                        C, h, R = self.meas(xis[t], t)
                        tot += quad(mean, cov, [(-C, idx[t])], h.ravel() - np.ravel(y[t]), R)
                    if t + 1 < len(idx):
                        s = self.sys(xis[t], u[t], t)
                        Q = np.block([[s['Qxi'], s['Qxiz']], [s['Qxiz'].T, s['Qz']]])
                        E = np.vstack((np.zeros((self.lxi, lz)), np.eye(lz)))
                        A = np.vstack((s['Axi'], s['Az']))
                        c = np.concatenate((s['fxi'].ravel() - xis[t + 1], s['fz'].ravel()))
                        tot += quad(mean, cov, [(E, idx[t + 1]), (-A, idx[t])], c, Q)
        finally:
            self.tab = keep
        return tot / len(trajs)

    def moments(self, p, sest, y, u):
        """Exact distribution of the linear states given each nonlinear path"""
        v = self.values(p)
        keep = (self.tab, self.z0, self.Pz0)
        self.tab = dict((k, v[k]) for k in self.tab)
        self.z0, self.Pz0 = v['z0'], v['P0']
        T, lz = len(y), len(v['z0'])
        out = []
        try:
            for j in range(sest.shape[1]):
                xis = sest[:, j, :self.lxi]
                J = self.joint(xis, u, None)
                obs = [(('y', t), y[t]) for t in range(T) if y[t] is not None]
                obs += [(('xi', t), xis[t]) for t in range(1, T)]
                m, P, _ = J.condition([('z', t) for t in range(T)], obs)
                out.append((xis, m, P, [slice(t * lz, (t + 1) * lz) for t in range(T)]))
        finally:
            self.tab, self.z0, self.Pz0 = keep
        return out


def _ml(base, mstep, interface, name):
    class C(_PML, base, mstep, interface):
        def __init__(self, slots, bounds=None, ints=(), **kw):
            base.__init__(self, **kw)
            self.param_bounds = bounds
            self.setup_slots(slots)
            self.integers(ints)
    C.__name__ = C.__qualname__ = name
    return faulty(C)


PML = _ml(models.ML, pi.ParamEstBaseNumeric, pi.ParamEstInterface, 'PML')
PMLG = _ml(models.ML, pi.ParamEstBaseNumericGrad, pi.ParamEstInterface_GradientSearch, 'PMLG')
PMM = _ml(models.MM, pi.ParamEstBaseNumeric, pi.ParamEstInterface, 'PMM')
PMMG = _ml(models.MM, pi.ParamEstBaseNumericGrad, pi.ParamEstInterface_GradientSearch, 'PMMG')


# --- nonlinear and finite state -------------------------------------------------------

class _Plain(Param):
    """States are fully sampled: densities of single particles are all there is"""

    def peek(self, k):
        return getattr(self, k)

    def poke(self, k, v):
        setattr(self, k, v)

    def objective(self, p, sest, y, u):
        keep = np.copy(self.params)
        col, self.col = self.col, False
        self.set_params(p)
        try:
            tot = 0.0
            T, M = sest.shape[:2]
            for j in range(M):
                tot += self.d_init(sest[0, j])
                for t in range(T):
                    if y[t] is not None:
                        tot += self.d_meas(sest[t, j], y[t], t)
                    if t + 1 < T:
                        tot += self.d_trans(sest[t, j], sest[t + 1, j], u[t], t)
        finally:
            self.col = col
            self.set_params(keep)
        return tot / M


@faulty
class PLG(_Plain, models.LG, pi.ParamEstBaseNumeric, pi.ParamEstInterface):
    NAMES = ('A', 'B', 'C', 'D', 'Qt', 'Rt', 'x0', 'Fc')

    def __init__(self, slots, bounds=None, **kw):
        models.LG.__init__(self, **kw)
        self.param_bounds = bounds
        self.setup_slots(slots)

    def read(self):
        return dict((k, np.copy(getattr(self, k))) for k in self.NAMES)

    def write(self, v):
        for k in self.NAMES:
            setattr(self, k, v[k])
        if not self.cQ:
            self.set_Q(self.Qt[0])
        if not self.cR:
            self.set_R(self.Rt[0])
        if 'f' in self.fixed:
            self.f = np.copy(self.Fc)
        if 'g' in self.fixed:
            self.g = np.copy(self.D[0])

    def d_init(self, x):
        if not np.any(self.Px0):
            return 0.0 if np.array_equal(np.ravel(x), np.ravel(self.x0)) else -np.inf
        return ref.logn(x, self.x0, self.Px0)


@faulty
class PHM(_Plain, models.HMM, pi.ParamEstBaseNumeric, pi.ParamEstInterface):
    """Transition matrix (1 - a) Pa + a Pb, likelihood exp(b * log V)"""

    def __init__(self, slots, bounds=None, **kw):
        models.HMM.__init__(self, **kw)
        r = np.random.RandomState(slots[0][1])
        self.Pa, self.Pb = np.copy(self.P), r.dirichlet(np.ones(self.S), size=(self.K, self.S))
        self.qa, self.qb = np.copy(self.p0), r.dirichlet(np.ones(self.S))
        self.slots = [tuple(s) for s in slots]
        self.params = np.full(len(slots), 0.5)
        self.param_bounds = bounds
        self.col = False

    def set_params(self, params):
        p = np.array(params, dtype=float).ravel()
        self.params = p.reshape((-1, 1)) if self.col else p
        self.P = (1.0 - p[0]) * self.Pa + p[0] * self.Pb
        if len(p) > 1:
            self.p0 = (1.0 - p[1]) * self.qa + p[1] * self.qb

    def d_init(self, x):
        return float(np.log(self.p0[int(x[0])]))


CLASSES = dict(PLT=PLT, PLTG=PLTG, PML=PML, PMLG=PMLG, PMM=PMM, PMMG=PMMG, PLG=PLG, PHM=PHM)
BASE = dict(PLT='LT', PLTG='LT', PML='ML', PMLG='ML', PMM='MM', PMMG='MM', PLG='LG', PHM='HMM')
SLOTS = dict(LT=('A', 'f', 'Q', 'C', 'h', 'R', 'z0', 'P0'),
             ML=('Axi', 'fxi', 'Az', 'fz', 'Qall', 'C', 'h', 'R', 'z0', 'P0', 'xi0'),
             MM=('Axi', 'fxi', 'Az', 'fz', 'Qall', 'C', 'h', 'R', 'z0', 'P0', 'xi0'),
             LG=('A', 'B', 'C', 'D', 'Qt', 'Rt', 'x0', 'Fc'), HMM=('P', 'p0'))
# one of these alone makes the objective quadratic
QUAD = ('A', 'f', 'C', 'h', 'z0', 'Axi', 'fxi', 'Az', 'fz', 'xi0', 'B', 'D', 'x0', 'Fc')
GROUP = dict(A='dyn', f='dyn', Axi='dyn', fxi='dyn', Az='dyn', fz='dyn', B='dyn', Fc='dyn',
             C='out', h='out', D='out')
