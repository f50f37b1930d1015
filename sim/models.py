"""Simulated models.

Small state-space models whose exact behaviour is known, written against the
interfaces of pyparticleest.  They are the "deployment" the simulator runs the
library in: everything the library calls goes through them.  Every class is
decorated with `faulty`, so that the simulator sees (and can fail) each call.
"""
import numpy as np

from . import seams
from .seams import faulty
from . import ref

from pyparticleest import interfaces
from pyparticleest.models import nlg, mlnlg, hierarchial, ltv


def _log(p):
    with np.errstate(divide='ignore'):
        return np.log(p)


def spd(r, n, scale=1.0):
    M = r.normal(size=(n, n))
    return scale * (0.3 * np.eye(n) + 0.25 * M.dot(M.T))


def whole(m, P):
    """Moments of about the same size, stored as integers"""
    n = len(P)
    return np.rint(2.0 * np.asarray(m)).astype(int), 2 * np.eye(n, dtype=int) + np.ones((n, n), dtype=int)


@faulty
class HMM(interfaces.ParticleFiltering, interfaces.AuxiliaryParticleFiltering,
          interfaces.FFBSiRS, interfaces.SampleProposer):
    """Finite state Markov model; every density is a table.

    Particles are (N, 1) arrays holding the index of the state.  Transitions
    depend on the input and the time stamp, likelihoods on the measurement and
    the time stamp.  The measurement `Y` (one past the last symbol) carries no
    information.
    """

    def __init__(self, S=3, seed=0, K=3, Y=3, sparse=0.0, conc=1.0, wild=None):
        r = np.random.RandomState(seed)
        self.S, self.K, self.Y = S, K, Y

        def table(shape, zero):
            p = r.gamma(conc, size=shape) + 0.02
            if zero:
                mask = r.uniform(size=shape) < zero
                # never a row with only zeros
                keep = r.randint(shape[-1], size=shape[:-1])
                np.put_along_axis(mask, keep[..., None], False, -1)
                p[mask] = 0.0
            return p / p.sum(-1, keepdims=True)

        self.p0 = table((S,), 0.0)
        self.P = table((K, S, S), sparse)
        # log-likelihoods log p(y | x) : (K, S, Y + 1)
        L = table((K, S, Y), sparse)
        self.lL = np.concatenate((_log(L), np.zeros((K, S, 1))), axis=-1)
        self.wild = wild or {}
        self.V = r.uniform(0.2, 1.0, size=(K, Y + 1, S))     # first stage weights
        self.V[:, Y] = 1.0
        self.Qs = table((K, S, S), 0.0)                  # smoothing proposals
        self.Q0 = table((S, S), 0.0)
        self.Qf = table((K, Y + 1, S, S), 0.0)           # filter proposals

    # --- tables -------------------------------------------------------------
    def tk(self, u, t):
        return (int(t) * 5 + (0 if u is None else int(u)) * 3) % self.K

    def trans(self, u, t):
        return self.P[self.tk(u, t)]

    def loglik(self, y, t):
        l = self.lL[int(t) % self.K][:, int(y)]
        w = self.wild.get(str(int(t)))
        if w is not None:
            l = l + np.asarray(w, dtype=float)
        return l

    @staticmethod
    def draw(p, u):
        c = np.cumsum(p, axis=-1)
        c = c / c[..., -1:]
        return np.minimum((u[:, None] >= c).sum(-1), p.shape[-1] - 1)

    @staticmethod
    def x(part):
        return part[:, 0].astype(int)

    # --- filtering ----------------------------------------------------------
    def create_initial_estimate(self, N):
        u = np.random.uniform(size=N)
        return self.draw(np.broadcast_to(self.p0, (N, self.S)), u).astype(float)[:, None]

    def sample_process_noise(self, particles, u, t):
        return np.random.uniform(size=len(particles))

    def update(self, particles, u, t, noise):
        particles[:, 0] = self.draw(self.trans(u, t)[self.x(particles)], noise)
        return particles

    def measure(self, particles, y, t):
        return self.loglik(y, t)[self.x(particles)]

    def eval_1st_stage_weights(self, particles, u, y, t):
        return np.log(self.V[self.tk(u, t)][int(y)][self.x(particles)])

    # --- smoothing ----------------------------------------------------------
    def logp_xnext(self, particles, next_part, u, t):
        return _log(self.trans(u, t))[self.x(particles), self.x(next_part)]

    def logp_xnext_max(self, particles, u, t):
        return np.log(self.trans(u, t).max())

    def eval_logp_x0(self, particles, t):
        return np.log(self.p0)[self.x(particles)]

    def sprop(self, prev, nxt, cur_ind):
        """Smoothing proposal tables, q(x | previous, next)"""
        if prev is None:
            return self.Q0[nxt]
        return self.Qs[int(cur_ind) % self.K][(prev + nxt) % self.S]

    def _prop(self, ptraj, anc, future_trajs, find, n, cur_ind):
        nxt = (self.x(future_trajs[0].pa.part[find]) if future_trajs is not None
               else np.zeros(n, dtype=int))
        prev = self.x(ptraj[-1].pa.part[anc]) if ptraj is not None else None
        return self.sprop(prev, nxt, cur_ind)

    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        n = len(anc) if ptraj is not None else len(find)
        p = self._prop(ptraj, anc, future_trajs, find, n, cur_ind)
        return self.draw(p, np.random.uniform(size=n)).astype(float)[:, None]

    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        n = len(prop_part)
        p = self._prop(ptraj, anc, future_trajs, find, n, cur_ind)
        return np.log(p[np.arange(n), self.x(prop_part)])

    # --- proposal based filters ----------------------------------------------
    def qtab(self, u, y, t):
        return self.Qf[self.tk(u, t)][self.Y if y is None else int(y)]

    def qsample(self, particles, u, y, t):
        p = self.qtab(u, y, t)[self.x(particles)]
        return self.draw(p, np.random.uniform(size=len(particles))).astype(float)[:, None]

    def logp_q(self, particles, next_part, u, y, t):
        return np.log(self.qtab(u, y, t)[self.x(particles), self.x(next_part)])

    def ydens(self, y, t):
        p = np.exp(self.loglik(y, t)) if y is not None else np.ones(self.S)
        return p / p.sum()

    def propose_from_y(self, N, y, t):
        p = np.broadcast_to(self.ydens(y, t), (N, self.S))
        return self.draw(p, np.random.uniform(size=N)).astype(float)[:, None]

    # --- densities of single particles, for the oracles -------------------------
    def d_trans(self, x, xn, u, t):
        return float(_log(self.trans(u, t))[int(x[0]), int(xn[0])])

    def d_meas(self, x, y, t):
        return float(self.loglik(y, t)[int(x[0])])

    def d_q(self, x, xn, u, y, t):
        return float(np.log(self.qtab(u, y, t)[int(x[0]), int(xn[0])]))

    def d_first(self, x, u, y, t):
        return float(np.log(self.V[self.tk(u, t)][int(y)][int(x[0])]))

    # --- reference ------------------------------------------------------------
    def posterior_paths(self, u, y, meas_first, p0=None):
        """Exact joint posterior of the whole path, array of shape (S,)*T"""
        ys, us = align(u, y, meas_first)
        p = np.copy(self.p0 if p0 is None else p0)
        if ys[0] is not None:
            p = p * np.exp(self.loglik(ys[0], 0))
        for t in range(len(ys) - 1):
            p = p[..., :, None] * self.trans(us[t], t)
            if ys[t + 1] is not None:
                p = p * np.exp(self.loglik(ys[t + 1], t + 1))
        return p / p.sum()


def align(u, y, meas_first):
    """(measurement of each state, input leaving each state)"""
    if meas_first:
        return list(y), list(u[:len(y) - 1])
    return [None] + list(y), list(u[:len(y)])


@faulty
class LG(nlg.NonlinearGaussianInitialGaussian, interfaces.AuxiliaryParticleFiltering,
         interfaces.SampleProposer):
    """Linear Gaussian system expressed as a nonlinear Gaussian model.

    With nonlin > 0 the dynamics become nonlinear and (with noise='calc') the
    noise covariances depend on the state.
    """

    # noise: covariances constant ('const'), constant but set afterwards ('set'),
    # or returned for each particle: both ('calc'), process ('q'), measurement ('r')
    # fixed: 'f' or 'g' are constants given once; point: known initial state
    # shape: what of the covariances depends on the state ('scale', 'corr', 'both')
    def __init__(self, n=1, ny=1, seed=0, noise='const', nonlin=0.0, inputs=2.0,
                 P0=True, fixed='', x0=True, iint=False, shape='scale'):
        r = np.random.RandomState(seed)
        self.n, self.ny = n, ny
        self.shape = shape
        self.fixed = fixed
        self.cQ, self.cR = noise in ('calc', 'q'), noise in ('calc', 'r')
        self.nonlin = nonlin
        self.noise = noise
        K = self.K = 3
        self.A = 0.9 * np.eye(n) + 0.25 * r.normal(size=(K, n, n))
        self.B = inputs * r.normal(size=(K, n))
        self.C = r.normal(size=(K, ny, n))
        for k in range(K):
            for i in range(min(n, ny)):
                self.C[k, i, i] += 1.0
        self.D = r.normal(size=(K, ny))
        if 'f' in fixed:
            self.A = self.A * 0.0
            self.B = self.B * 0.0
        if 'g' in fixed:
            self.C = self.C * 0.0
            self.D[:] = self.D[0]
        self.Fc = r.normal(size=n) if 'f' in fixed else np.zeros(n)
        if self.cQ:
            self.Qt = np.asarray([spd(r, n, s) for s in (0.6, 1.0, 1.7)])
        else:
            self.Qt = np.repeat(spd(r, n)[None], K, 0)
        if self.cR:
            self.Rt = np.asarray([spd(r, ny, s) for s in (1.5, 0.6, 1.0)])
        else:
            self.Rt = np.repeat(spd(r, ny)[None], K, 0)
        m0 = r.normal(size=n)
        Px0 = spd(r, n, 1.5)
        if iint:
            # the initial state is stored as integers
            m0, Px0 = whole(m0, Px0)
        kw = {}
        if x0:
            kw['x0'] = m0
        elif not P0:
            kw['lxi'] = n
        if P0:
            kw['Px0'] = Px0
        if not self.cQ:
            kw['Q'] = self.Qt[0] if noise != 'set' else 3.0 * np.eye(n)
        if not self.cR:
            kw['R'] = self.Rt[0] if noise != 'set' else 3.0 * np.eye(ny)
        if 'f' in fixed:
            kw['f'] = self.Fc
        if 'g' in fixed:
            kw['g'] = self.D[0]
        super(LG, self).__init__(**kw)
        if noise == 'set':
            self.set_Q(self.Qt[0])
            self.set_R(self.Rt[0])

    # --- dynamics -------------------------------------------------------------
    def fx(self, x, u, t):
        k = int(t) % self.K
        uu = 0.0 if u is None else float(np.ravel(u)[0])
        f = x.dot(self.A[k].T) + self.B[k] * uu + self.Fc
        if self.nonlin and 'f' not in self.fixed:
            f = f + self.nonlin * np.sin(2.0 * x)
        return f

    def gx(self, x, t):
        k = int(t) % self.K
        g = x.dot(self.C[k].T) + self.D[k]
        if self.nonlin and 'g' not in self.fixed:
            g = g + self.nonlin * np.cos(x[:, :1])
        return g

    def _scale(self, x, calc):
        if self.nonlin and calc:
            return 1.0 + 0.5 * np.tanh(x[:, 0]) ** 2
        return np.ones(len(x))

    def _vary(self, x, calc, P):
        """Covariances P[k] of each particle"""
        P = np.repeat(P[None], len(x), 0)
        if self.shape != 'corr':
            P = self._scale(x, calc)[:, None, None] * P
        if self.shape != 'scale' and self.nonlin and calc:
            c = (np.cos(0.8 * x[:, 0]) ** 2)[:, None, None]
            P = c * P + (1.0 - c) * P * np.eye(P.shape[-1])
        return P

    def Qx(self, x, u, t):
        return self._vary(x, self.cQ, self.Qt[int(t) % self.K])

    def Rx(self, x, t):
        return self._vary(x, self.cR, self.Rt[int(t) % self.K])

    def calc_f(self, particles, u, t):
        if 'f' in self.fixed:
            return super(LG, self).calc_f(particles, u, t)
        return self.fx(particles, u, t)

    def calc_g(self, particles, t):
        if 'g' in self.fixed:
            return super(LG, self).calc_g(particles, t)
        return self.gx(particles, t)

    def calc_Q(self, particles, u, t):
        if not self.cQ:
            return super(LG, self).calc_Q(particles, u, t)
        return self.Qx(particles, u, t)

    def calc_R(self, particles, t):
        if not self.cR:
            return super(LG, self).calc_R(particles, t)
        return self.Rx(particles, t)

    # --- proposal based filters ------------------------------------------------
    def _qmom(self, x, u, y, t):
        """Proposal: prediction moved towards the measurement, inflated"""
        f = self.fx(x, u, t)
        if y is not None:
            k = (int(t) + 1) % self.K
            C, Q = self.C[k], self.Qt[int(t) % self.K]
            L = 0.5 * Q.dot(C.T).dot(np.linalg.inv(C.dot(Q).dot(C.T) + self.Rt[k]))
            f = f + (np.ravel(y) - f.dot(self.C[k].T) - self.D[k]).dot(L.T)
        return f, 1.4 * self.Qt[int(t) % self.K]

    def qsample(self, particles, u, y, t):
        m, P = self._qmom(particles, u, y, t)
        return m + np.random.normal(size=m.shape).dot(np.linalg.cholesky(P).T)

    def logp_q(self, particles, next_part, u, y, t):
        m, P = self._qmom(particles, u, y, t)
        d = next_part - m
        return -0.5 * (self.n * ref.LOG2PI + np.linalg.slogdet(P)[1]
                       + np.sum(d * np.linalg.solve(P, d.T).T, 1))

    def propose_from_y(self, N, y, t):
        k = int(t) % self.K
        Ci = np.linalg.pinv(self.C[k])
        if y is None or 'g' in self.fixed:
            return 3.0 * np.random.normal(size=(N, self.n))
        m = Ci.dot(np.ravel(y) - self.D[k])
        L = np.linalg.cholesky(self.Rt[k])
        return m + np.random.normal(size=(N, self.ny)).dot(L.T).dot(Ci.T)

    # --- densities of single particles, for the oracles -------------------------
    def d_trans(self, x, xn, u, t):
        x = np.asarray(x)[None]
        return ref.logn(xn, self.fx(x, u, t)[0], self.Qx(x, u, t)[0])

    def d_meas(self, x, y, t):
        x = np.asarray(x)[None]
        return ref.logn(y, self.gx(x, t)[0], self.Rx(x, t)[0])

    def d_q(self, x, xn, u, y, t):
        m, P = self._qmom(np.asarray(x)[None], u, y, t)
        return ref.logn(xn, m[0], P)

    def d_first(self, x, u, y, t):
        x = np.asarray(x)[None]
        f = self.fx(x, u, t)
        return ref.logn(y, self.gx(f, t + 1)[0], self.Rx(f, t + 1)[0])

    def simulate(self, r, u, T, meas_first):
        """Data from the system (r: RandomState)"""
        x = self.x0.ravel() + np.linalg.cholesky(self.Px0 + 1e-12 * np.eye(self.n)).dot(r.normal(size=self.n))
        ys = []
        for t in range(T + (0 if meas_first else 1)):
            if t or meas_first:
                ys.append(self.gx(x[None], t)[0]
                          + np.linalg.cholesky(self.Rx(x[None], t)[0]).dot(r.normal(size=self.ny)))
            if t < len(u):
                x = self.fx(x[None], u[t], t)[0] + np.linalg.cholesky(self.Qx(x[None], u[t], t)[0]).dot(r.normal(size=self.n))
        return ys

    def joint(self, us, nstates):
        """Exact joint distribution (linear case) of x0.. and y0.."""
        J = ref.Joint()
        J.put(('x', 0), self.x0.ravel(), noise=J.noise(self.Px0))
        for t in range(nstates):
            k = t % self.K
            J.put(('y', t), self.D[k], [(self.C[k], ('x', t))], J.noise(self.Rt[k]))
            if t + 1 < nstates:
                uu = 0.0 if us[t] is None else float(np.ravel(us[t])[0])
                J.put(('x', t + 1), self.B[k] * uu + self.Fc, [(self.A[k], ('x', t))], J.noise(self.Qt[k]))
        return J


class _Mixed(object):
    """Matrices of a mixed linear/nonlinear model, as functions of xi and t"""

    NAMES = ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'C', 'h', 'R', 'Qxiz')

    def build(self, lxi, lz, ny, seed, dep, cross, none='', flat=False, idep=False):
        r = np.random.RandomState(seed)
        # the initial linear states depend on the nonlinear ones
        self.idep = idep and not flat
        # strings of characters: what depends on xi/t, what is left out
        dep = ''.join(c for c in dep if c not in none)
        self.dep, self.none = dep, none
        self.cross = cross           # '', 'const' or 'dep'
        self.ny = ny
        K = self.K = 3
        t = {}
        t['Axi'] = r.normal(size=(K, lxi, lz)) * 0.7
        t['fxi'] = r.normal(size=(K, lxi, 1))
        t['Az'] = 0.8 * np.eye(lz) + 0.2 * r.normal(size=(K, lz, lz))
        t['fz'] = r.normal(size=(K, lz, 1))
        t['C'] = r.normal(size=(K, ny, lz))
        t['h'] = r.normal(size=(K, ny, 1))
        t['R'] = np.asarray([spd(r, ny) for _ in range(K)])
        # noise covariances of the different time steps differ by a scaling of
        # the states, so that any mixture of constant and varying parts is a
        # covariance
        Q = spd(r, lxi + lz)
        D = 1.0 + r.uniform(0.0, 0.8, size=(K, lxi + lz))
        D[0] = 1.0
        if cross == 'const':
            D[:] = D[:, :1]
        self.Dxi, self.Dz = D[:, :lxi], D[:, lxi:]
        Q = Q * D[:, :, None] * D[:, None, :]
        t['Qxi'] = Q[:, :lxi, :lxi]
        t['Qz'] = Q[:, lxi:, lxi:]
        t['Qxiz'] = Q[:, :lxi, lxi:]
        self.tab = t
        self.wx = r.normal(size=lxi) * (0.0 if flat else 1.0)
        self.flat = flat             # nothing is nonlinear in xi
        self.B = r.normal(size=(lxi, 1))
        for n, c in self.FLAGS.items():
            if c in none:
                t[n] = np.zeros_like(t[n])

    FLAGS = dict(Axi='a', fxi='f', Qxi='q', Az='A', fz='F', Qz='Z', C='C', h='h', R='R')

    def val(self, name, xi, t, u=None):
        """Matrix `name` for one nonlinear state"""
        tab = self.tab[name]
        if name == 'Qxiz':
            if not self.cross:
                return np.zeros_like(tab[0])
            if self.cross == 'const':
                return 0.6 * tab[0]
            k = int(t) % self.K
            a = self.Dxi[k if 'q' in self.dep else 0]
            b = self.Dz[k if 'Z' in self.dep else 0]
            s = np.sqrt(self._sc('Qxi', xi, t) * self._sc('Qz', xi, t))
            w = 0.5 + 0.5 * np.cos(np.dot(self.wx, np.ravel(xi)))
            return 0.6 * tab[0] * s * w * a[:, None] * b[None, :]
        if self.FLAGS[name] not in self.dep:
            return tab[0]
        k = int(t) % self.K
        m = tab[k]
        if name in ('Qxi', 'Qz', 'R'):
            m = m * self._sc(name, xi, t)
            # shape as well as size, jointly with Qxiz a covariance
            w = np.cos(1.3 * np.dot(self.wx, np.ravel(xi)))
            c = 0.5 + 0.5 * w if name == 'R' else 0.8 + 0.2 * w
            return c * m + (1.0 - c) * m * np.eye(len(m))
        # every element in its own way
        w = np.dot(self.wx, np.ravel(xi)) + 0.9 * np.arange(m.size).reshape(m.shape)
        if name in ('Axi', 'Az', 'C'):
            m = m * (1.0 + 0.3 * np.sin(w))
        elif name in ('fxi', 'fz', 'h'):
            m = m + 0.8 * np.sin(w)
            if name == 'fxi':
                m = m + 0.3 * np.reshape(xi, (-1, 1))
        if name == 'fxi' and u is not None:
            m = m + self.B * float(np.ravel(u)[0])
        return m

    def _sc(self, name, xi, t):
        if self.FLAGS[name] not in self.dep:
            return 1.0
        return 1.0 + 0.4 * np.cos(np.dot(self.wx, np.ravel(xi))) ** 2

    def vals(self, name, particles, t, u=None):
        """What the model's hook returns: None for constant parts"""
        if name == 'Qxiz':
            if self.cross != 'dep':
                return None
        elif self.FLAGS[name] not in self.dep:
            return None
        return np.asarray([self.val(name, p[:self.lxi], t, u) for p in particles])

    def zinit(self, xi, z0=None, P0=None):
        """Moments of the initial linear states, given the nonlinear ones"""
        z0 = np.ravel(self.z0 if z0 is None else z0)
        P0 = self.Pz0 if P0 is None else P0
        if not self.idep:
            return z0, P0
        w = np.dot(self.wx, np.ravel(xi))
        return (z0 * (1.0 + 0.5 * np.sin(w + 0.9 * np.arange(len(z0)))),
                P0 * (1.0 + 0.4 * np.cos(w) ** 2))

    def zinits(self, xis):
        z, P = zip(*[self.zinit(x) for x in xis])
        return np.asarray(z)[:, :, None], np.asarray(P)

    def sys(self, xi, u, t):
        g = lambda n: self.val(n, xi, t, u)
        return dict((n, g(n)) for n in ('Axi', 'fxi', 'Qxi', 'Az', 'fz', 'Qz', 'Qxiz'))

    def meas(self, xi, t):
        return self.val('C', xi, t), self.val('h', xi, t), self.val('R', xi, t)

    def joint(self, xis, us, ys, zinit=None, informative=True):
        """Joint distribution of the linear states along the nonlinear path
        xis[0..T-1], together with the path itself and the measurements"""
        J = ref.Joint()
        z0, P0 = zinit if zinit is not None else self.zinit(xis[0])
        J.put(('z', 0), z0, noise=J.noise(P0))
        for t in range(len(xis)):
            C, h, R = self.meas(xis[t], t)
            J.put(('y', t), h, [(C, ('z', t))], J.noise(R))
            if t + 1 < len(xis):
                s = self.sys(xis[t], us[t], t)
                lxi = len(s['fxi'])
                Q = np.block([[s['Qxi'], s['Qxiz']], [s['Qxiz'].T, s['Qz']]])
                W = J.noise(Q)
                J.put(('xi', t + 1), s['fxi'], [(s['Axi'], ('z', t))], W[:lxi])
                J.put(('z', t + 1), s['fz'], [(s['Az'], ('z', t))], W[lxi:])
        return J


class _MLBase(_Mixed):

    def setup(self, lxi, lz, ny, seed, dep, cross, P0=True, none='', flat=False, iint=False, idep=False,
              X0=True):
        self.build(lxi, lz, ny, seed, dep, cross, none, flat, idep)
        r = np.random.RandomState(seed + 77)
        self.xi00, self.z00 = r.normal(size=lxi), r.normal(size=lz)
        t = self.tab
        c = lambda n: None if self.FLAGS[n] in self.dep + none else t[n][0]
        Pxi0, Pz0 = spd(r, lxi), spd(r, lz)
        if iint:
            (self.xi00, Pxi0), (self.z00, Pz0) = whole(self.xi00, Pxi0), whole(self.z00, Pz0)
        return dict(xi0=self.xi00, z0=self.z00, Pxi0=Pxi0 if X0 else None, Pz0=Pz0 if P0 else None,
                    Axi=c('Axi'), fxi=c('fxi'), Qxi=c('Qxi'), Az=c('Az'),
                    fz=c('fz'), Qz=c('Qz'), C=c('C'), h=c('h'), R=c('R'),
                    Qxiz=0.6 * t['Qxiz'][0] if cross == 'const' else None)

    def create_initial_estimate(self, N):
        part = super(_MLBase, self).create_initial_estimate(N)
        if self.idep:
            xi = part[:, :self.lxi]
            self.set_states(part, xi, *self.zinits(xi))
        return part

    def get_rb_initial(self, xi0):
        if self.idep:
            return self.zinits(xi0)
        return super(_MLBase, self).get_rb_initial(xi0)

    # what does not vary is left to the hooks of the library
    def get_nonlin_pred_dynamics(self, particles, u, t):
        if not set('afq') & set(self.dep):
            return super(_MLBase, self).get_nonlin_pred_dynamics(particles, u, t)
        return tuple(self.vals(n, particles, t, u) for n in ('Axi', 'fxi', 'Qxi'))

    def get_lin_pred_dynamics(self, particles, u, t):
        if not set('AFZ') & set(self.dep):
            return super(_MLBase, self).get_lin_pred_dynamics(particles, u, t)
        return tuple(self.vals(n, particles, t, u) for n in ('Az', 'fz', 'Qz'))

    def get_meas_dynamics(self, particles, y, t):
        if not set('ChR') & set(self.dep) and y is not None:
            return super(_MLBase, self).get_meas_dynamics(particles, np.reshape(y, (-1, 1)), t)
        return (None if y is None else np.asarray(y).reshape((-1, 1)),) + \
            tuple(self.vals(n, particles, t) for n in ('C', 'h', 'R'))

    def get_cross_covariance(self, particles, u, t):
        if self.cross != 'dep':
            return super(_MLBase, self).get_cross_covariance(particles, u, t)
        return self.vals('Qxiz', particles, t)

    def simulate(self, r, u, T, meas_first):
        xi = self.xi0.ravel() + ref.psd_sqrt(self.Pxi0).dot(r.normal(size=self.lxi))
        z0, P0 = self.zinit(xi)
        z = z0 + ref.psd_sqrt(P0).dot(r.normal(size=len(z0)))
        ys = []
        for t in range(T + (0 if meas_first else 1)):
            if t or meas_first:
                C, h, R = self.meas(xi, t)
                ys.append((C.dot(z) + h.ravel() + np.linalg.cholesky(R).dot(r.normal(size=self.ny))))
            if t < len(u):
                s = self.sys(xi, u[t], t)
                Q = np.block([[s['Qxi'], s['Qxiz']], [s['Qxiz'].T, s['Qz']]])
                w = ref.psd_sqrt(Q).dot(r.normal(size=len(Q)))
                xi, z = (s['Axi'].dot(z) + s['fxi'].ravel() + w[:self.lxi],
                         s['Az'].dot(z) + s['fz'].ravel() + w[self.lxi:])
        return ys


@faulty
class ML(_MLBase, mlnlg.MixedNLGaussianSampledInitialGaussian):
    """Mixed linear/nonlinear model, linear states sampled when smoothing"""

    def __init__(self, lxi=1, lz=1, ny=1, seed=0, dep='f', cross='', P0=True, none='', flat=False, iint=False,
                 idep=False, X0=True):
        kw = self.setup(lxi, lz, ny, seed, dep, cross, P0, none, flat, iint, idep, X0)
        super(ML, self).__init__(**kw)


@faulty
class MM(_MLBase, mlnlg.MixedNLGaussianMarginalizedInitialGaussian):
    """Mixed linear/nonlinear model, linear states marginalized"""

    def __init__(self, lxi=1, lz=1, ny=1, seed=0, dep='f', cross='', P0=True, none='', flat=False, iint=False,
                 idep=False, X0=True):
        kw = self.setup(lxi, lz, ny, seed, dep, cross, P0, none, flat, iint, idep, X0)
        super(MM, self).__init__(**kw)


@faulty
class HI(_Mixed, hierarchial.HierarchicalRSBase):
    """Hierarchical model: the nonlinear states evolve on their own"""

    def __init__(self, lxi=1, lz=1, ny=1, seed=0, dep='F', cross='', P0=True, flat=False, idep=False):
        self.build(lxi, lz, ny, seed, dep, '', flat=flat, idep=idep)
        r = np.random.RandomState(seed + 77)
        self.lxi = lxi
        self.xi0, self.Pxi0 = r.normal(size=lxi), spd(r, lxi)
        self.z0, self.Pz0 = r.normal(size=lz).reshape((-1, 1)), spd(r, lz)
        self.gn = r.normal(size=lxi)
        self.Rn = 0.8
        t = self.tab
        c = lambda n: None if self.FLAGS[n] in dep else t[n][0]
        super(HI, self).__init__(len_xi=lxi, len_z=lz, Az=c('Az'), fz=c('fz'), Qz=c('Qz'),
                                 C=c('C'), hz=c('h'), R=c('R'))

    # y[0] observes the nonlinear state, y[1:] the linear ones
    def get_lin_pred_dynamics(self, particles, u, t):
        return tuple(self.vals(n, particles, t, u) for n in ('Az', 'fz', 'Qz'))

    def get_lin_meas_dynamics(self, particles, y, t):
        return (None if y is None else np.asarray(y, dtype=float)[1:].reshape((-1, 1)),) + \
            tuple(self.vals(n, particles, t) for n in ('C', 'h', 'R'))

    def gxi(self, xi):
        return (0.0 if self.flat else np.sin(xi.dot(self.gn))) + xi[..., 0]

    def measure_nonlin(self, particles, y, t):
        d = float(np.ravel(y)[0]) - self.gxi(particles[:, :self.lxi])
        return -0.5 * (ref.LOG2PI + np.log(self.Rn) + d * d / self.Rn)

    def fx(self, xi, u, t):
        f = 0.7 * xi + self.tab['fxi'][int(t) % self.K].ravel()
        if not self.flat:
            f = f + 0.5 * np.sin(xi)
        if u is not None:
            f = f + self.B.ravel() * float(np.ravel(u)[0])
        return f

    def Qx(self, t):
        return self.tab['Qxi'][int(t) % self.K]

    def sample_process_noise(self, particles, u, t):
        return np.random.normal(size=(len(particles), self.lxi)).dot(np.linalg.cholesky(self.Qx(t)).T)

    def calc_xi_next(self, particles, u, t, noise):
        return self.fx(particles[:, :self.lxi], u, t) + noise

    def logp_xnext_xi(self, particles, next_xi, u, t):
        d = np.reshape(next_xi, (len(next_xi), -1))[:, :self.lxi] - self.fx(particles[:, :self.lxi], u, t)
        Q = self.Qx(t)
        return -0.5 * (self.lxi * ref.LOG2PI + np.linalg.slogdet(Q)[1]
                       + np.sum(d * np.linalg.solve(Q, d.T).T, 1))

    def logp_xnext_xi_max(self, particles, u, t):
        Q = self.Qx(t)
        return np.full(len(particles), -0.5 * (self.lxi * ref.LOG2PI + np.linalg.slogdet(Q)[1]))

    def create_initial_estimate(self, N):
        lz = len(self.z0)
        part = np.zeros((N, self.lxi + lz + lz * lz))
        part[:, :self.lxi] = self.xi0 + np.random.normal(size=(N, self.lxi)).dot(np.linalg.cholesky(self.Pxi0).T)
        for p in part:
            z, P = self.zinit(p[:self.lxi])
            p[self.lxi:self.lxi + lz] = z
            p[self.lxi + lz:] = np.ravel(P)
        return part

    def get_rb_initial(self, xi_initial):
        return self.zinits(xi_initial)

    def cond_sampled_initial(self, part, t):
        xi = part[:, :self.lxi]
        z, P = self.get_rb_initial(xi)
        particles = np.zeros_like(part)
        self.set_states(particles, xi, z, P)
        return particles

    def eval_logp_x0(self, particles, t):
        d = particles[:, :self.lxi] - self.xi0
        return -0.5 * (self.lxi * ref.LOG2PI + np.linalg.slogdet(self.Pxi0)[1]
                       + np.sum(d * np.linalg.solve(self.Pxi0, d.T).T, 1))

    # one measurement consists of (nonlinear, linear...) parts
    def joint(self, xis, us, ys):
        J = ref.Joint()
        z0, P0 = self.zinit(xis[0])
        J.put(('z', 0), z0, noise=J.noise(P0))
        for t in range(len(xis)):
            C, h, R = self.meas(xis[t], t)
            J.put(('y', t), h, [(C, ('z', t))], J.noise(R))
            if t + 1 < len(xis):
                s = self.sys(xis[t], us[t], t)
                J.put(('z', t + 1), s['fz'], [(s['Az'], ('z', t))], J.noise(s['Qz']))
        return J

    def simulate(self, r, u, T, meas_first):
        xi = self.xi0 + np.linalg.cholesky(self.Pxi0).dot(r.normal(size=self.lxi))
        z0, P0 = self.zinit(xi)
        z = z0 + np.linalg.cholesky(P0).dot(r.normal(size=len(z0)))
        ys = []
        for t in range(T + (0 if meas_first else 1)):
            if t or meas_first:
                C, h, R = self.meas(xi, t)
                ylin = C.dot(z) + h.ravel() + np.linalg.cholesky(R).dot(r.normal(size=self.ny))
                ys.append(np.append(self.gxi(xi) + np.sqrt(self.Rn) * r.normal(), ylin))
            if t < len(u):
                s = self.sys(xi, u[t], t)
                xi, z = (self.fx(xi, u[t], t) + np.linalg.cholesky(self.Qx(t)).dot(r.normal(size=self.lxi)),
                         s['Az'].dot(z) + s['fz'].ravel() + np.linalg.cholesky(s['Qz']).dot(r.normal(size=len(z))))
        return ys


@faulty
class LT(ltv.LTV):
    """Linear time varying model"""

    def __init__(self, n=1, ny=1, seed=0, dep='AfQChR', none='', iint=False):
        r = np.random.RandomState(seed)
        dep = ''.join(c for c in dep if c not in none)
        self.n, self.ny, self.dep = n, ny, dep
        K = self.K = 3
        t = self.tab = {}
        t['A'] = 0.8 * np.eye(n) + 0.25 * r.normal(size=(K, n, n))
        t['f'] = r.normal(size=(K, n, 1))
        t['Q'] = np.asarray([spd(r, n) for _ in range(K)])
        t['C'] = r.normal(size=(K, ny, n))
        t['h'] = r.normal(size=(K, ny, 1))
        t['R'] = np.asarray([spd(r, ny) for _ in range(K)])
        self.B = r.normal(size=(n, 1))
        for c in none:
            t[c] = np.zeros_like(t[c])
        c = lambda n: None if n in dep + none else t[n][0]
        z0, P0 = r.normal(size=n), spd(r, n)
        if iint:
            z0, P0 = whole(z0, P0)
        super(LT, self).__init__(z0=z0, P0=P0, A=c('A'), C=c('C'),
                                 Q=c('Q'), R=c('R'), f=c('f'), h=c('h'))

    def val(self, name, t, u=None):
        if name not in self.dep:
            return self.tab[name][0]
        m = self.tab[name][int(t) % self.K]
        if name == 'f' and u is not None:
            m = m + self.B * float(np.ravel(u)[0])
        return m

    def vals(self, name, t, u=None):
        return self.val(name, t, u) if name in self.dep else None

    def get_pred_dynamics(self, u, t):
        if not set('AfQ') & set(self.dep):
            return super(LT, self).get_pred_dynamics(u, t)
        return tuple(self.vals(n, t, u) for n in ('A', 'f', 'Q'))

    def get_meas_dynamics(self, y, t):
        if not set('ChR') & set(self.dep) and y is not None:
            return super(LT, self).get_meas_dynamics(np.reshape(y, (-1, 1)), t)
        return (None if y is None else np.asarray(y).reshape((-1, 1)),) + \
            tuple(self.vals(n, t) for n in ('C', 'h', 'R'))

    def joint(self, us, nstates):
        J = ref.Joint()
        J.put(('z', 0), self.z0.ravel(), noise=J.noise(self.P0))
        for t in range(nstates):
            J.put(('y', t), self.val('h', t), [(self.val('C', t), ('z', t))], J.noise(self.val('R', t)))
            if t + 1 < nstates:
                J.put(('z', t + 1), self.val('f', t, us[t]), [(self.val('A', t), ('z', t))],
                      J.noise(self.val('Q', t)))
        return J

    def simulate(self, r, u, T, meas_first):
        z = self.z0.ravel() + np.linalg.cholesky(self.P0).dot(r.normal(size=self.n))
        ys = []
        for t in range(T + (0 if meas_first else 1)):
            if t or meas_first:
                ys.append(self.val('C', t).dot(z) + self.val('h', t).ravel()
                          + np.linalg.cholesky(self.val('R', t)).dot(r.normal(size=self.ny)))
            if t < len(u):
                z = (self.val('A', t).dot(z) + self.val('f', t, u[t]).ravel()
                     + np.linalg.cholesky(self.val('Q', t)).dot(r.normal(size=self.n)))
        return ys


class Misuse(Exception):
    """The library called a model function with data that do not belong together"""


def _need(ok, *what):
    if not np.all(ok):
        raise Misuse(' '.join(str(w) for w in what))


@faulty
class Tag(interfaces.ParticleFilteringNonMarkov, interfaces.AuxiliaryParticleFiltering,
          interfaces.FFBSiRSNonMarkov, interfaces.SampleProposer):
    """History dependent model whose particles carry their own identity.

    A particle is [id, id of its parent, time index].  Inputs are 1000 + k,
    measurements 2000 + k.  Every callback verifies that particles, histories,
    inputs, measurements and time stamps belong together.
    """

    def __init__(self, gain=1.5, strict=True):
        self.next_id = 1.0
        self.gain = gain
        self.strict = strict      # lineages have to be genuine
        self.exempt = []          # ids whose parent may have been replaced
        self.born = {}            # id -> (parent, time) of all particles ever made
        self.truth = None          # the trajectory whose recorded ancestors are the truth

    def fresh(self, n, parents, t):
        p = np.zeros((n, 3))
        pp = np.broadcast_to(parents, (n,))
        for i in range(n):
            self.born[self.next_id + i] = (float(pp[i]), float(t))
        p[:, 0] = self.next_id + np.arange(n)
        p[:, 1] = parents
        p[:, 2] = t
        self.next_id += n
        return p

    def chk(self, what, k, ut=None, yt=None, tt=None):
        """Recorded data up to and including index k"""
        if ut is not None:
            for j, v in enumerate(ut[:k + 1]):
                _need(v == 1000 + j, what, 'input', j, 'is', v)
        if yt is not None:
            for j, v in enumerate(yt[:k + 1]):
                _need(v is None or v == 2000 + j, what, 'measurement', j, 'is', v)
        if tt is not None:
            for j, v in enumerate(tt[:k + 1]):
                _need(v == j, what, 'time stamp', j, 'is', v)

    def parents(self, what, part, past, anc):
        """part[i] descends from past[-1].pa.part[anc[i]]"""
        if not self.strict or past is None or len(past) == 0:
            return
        par = part[:, 1]
        ids = past[-1].pa.part[anc][:, 0]
        ok = (par == ids) | (par < 0) | np.isin(part[:, 0], self.exempt)
        _need(ok, what, 'particles', part[:, 0], 'with parents', par, 'paired with', ids)
        k = len(past)
        if self.truth is None or k >= len(self.truth.traj) or past[-1] is not self.truth.traj[k - 1]:
            return
        # particles proposed from the measurement carry no parent, the record names it
        s = self.truth.traj[k]
        where = dict((float(v), j) for j, v in enumerate(s.pa.part[:, 0]))
        for i in range(len(part)):
            j = where.get(float(part[i, 0]))
            if j is not None:
                exp = past[-1].pa.part[s.ancestors[j], 0]
                _need(ids[i] == exp, what, 'particle', part[i, 0], 'with recorded ancestor', exp,
                      'paired with', ids[i])

    def lineage(self, what, past):
        if self.strict and past is not None:
            for j in range(1, len(past)):
                self.parents(what, past[j].pa.part, past[:j], past[j].ancestors)

    def times(self, what, part, t):
        _need(part[:, 2] == t, what, 'particles of time', part[:, 2], 'instead of', t)

    def hist(self, what, past, k):
        n = 0 if past is None else len(past)
        _need(n == k, what, 'history has', n, 'steps instead of', k)
        for j in range(n):
            self.times(what, past[j].pa.part, j)

    # --- filtering ------------------------------------------------------------
    def create_initial_estimate(self, N):
        return self.fresh(N, -1, 0)

    def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
        k = len(ut) - 1
        w = 'sample_process_noise'
        _need(len(tt) == k + 1, w, 'lengths')
        self.chk(w, k, ut=ut, tt=tt)
        self.hist(w, ptraj, k + 1)
        self.lineage(w, ptraj)
        return np.vstack((ptraj[-1].pa.part[ancestors][:, 0], np.random.normal(size=len(ancestors)))).T

    def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
        k = len(uvec) - 1
        w = 'update'
        _need(len(yvec) == k + 1 and len(tvec) == k + 1, w, 'lengths')
        self.chk(w, k, uvec, yvec, tvec)
        self.hist(w, traj, k + 1)
        self.times(w, particles, k)
        ids = traj[-1].pa.part[ancestors][:, 0]
        _need(particles[:, 0] == ids, w, 'particles', particles[:, 0], 'instead of', ids)
        _need(noise[:, 0] == ids, w, 'noise of', noise[:, 0], 'instead of', ids)
        particles[:] = self.fresh(len(particles), particles[:, 0], k + 1)
        return particles

    def loglik(self, part, k):
        return self.gain * np.sin(7.0 * part[:, 0] + 3.0 * k)

    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        k = len(yvec) - 1
        w = 'measure'
        _need(len(tvec) == k + 1, w, 'lengths')
        _need(yvec[-1] is not None, w, 'called without measurement')
        self.chk(w, k, yt=yvec, tt=tvec)
        self.times(w, particles, k)
        n = 0 if traj is None else len(traj)
        if n == k + 1 and n and np.all(traj[-1].pa.part[:, 2] == k):
            # measurement update of the current estimate
            past = traj[:-1]
        else:
            past = traj
        self.hist(w, past, k)
        if past is not None and len(past):
            self.parents(w, particles, past, ancestors)
        return self.loglik(particles, k)

    def eval_1st_stage_weights(self, particles, u, y, t):
        w = '1st stage weights'
        self.times(w, particles, t)
        _need(u == 1000 + t, w, 'input', u)
        _need(y == 2001 + t, w, 'measurement', y)
        return 0.7 * np.cos(5.0 * particles[:, 0])

    # --- proposal based filters -----------------------------------------------
    def qsample(self, particles, u, y, t):
        w = 'qsample'
        self.times(w, particles, t)
        _need(u == 1000 + t, w, 'input', u)
        _need(y is None or y == 2001 + t, w, 'measurement', y)
        np.random.normal(size=len(particles))
        return self.fresh(len(particles), particles[:, 0], t + 1)

    def pairs(self, what, particles, next_part):
        if self.strict:
            ok = ((particles[:, 0] == next_part[:, 1]) | (next_part[:, 1] < 0)
                  | np.isin(next_part[:, 0], self.exempt))
            _need(ok, what, 'particles', next_part[:, 0], 'with parents', next_part[:, 1],
                  'paired with', particles[:, 0])

    def logp_q(self, particles, next_part, u, y, t):
        w = 'logp_q'
        self.times(w, particles, t)
        self.times(w, next_part, t + 1)
        _need(u == 1000 + t, w, 'input', u)
        _need(y is None or y == 2001 + t, w, 'measurement', y)
        self.pairs(w, particles, next_part)
        return 0.2 * np.cos(next_part[:, 0])

    def trans(self, part, nxt):
        return 0.4 * np.cos(3.0 * part[:, 0] + 5.0 * nxt[:, 0])

    def logp_xnext(self, particles, next_part, u, t):
        w = 'logp_xnext'
        self.times(w, particles, t)
        self.times(w, next_part, t + 1)
        _need(u == 1000 + t, w, 'input', u)
        return self.trans(particles, next_part)

    def measure(self, particles, y, t):
        w = 'measure'
        self.times(w, particles, t)
        _need(y == 2000 + t, w, 'measurement', y)
        return self.loglik(particles, t)

    def propose_from_y(self, N, y, t):
        _need(y is None or y == 2000 + t, 'propose_from_y', 'measurement', y, 'at', t)
        np.random.normal(size=N)
        return self.fresh(N, -1, t)

    # --- smoothing --------------------------------------------------------------
    def future(self, what, nxt, k, ut, yt, tt):
        self.times(what, nxt, k + 1)
        self.chk(what, k, ut, yt, tt)
        _need(tt[k + 1] == k + 1, what, 'next time stamp', tt[k + 1])
        _need(yt[k + 1] is None or yt[k + 1] == 2001 + k, what, 'next measurement', yt[k + 1])

    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        w = 'logp_xnext_full'
        self.times(w, part, cur_ind)
        self.hist(w, past_trajs, cur_ind)
        self.parents(w, part, past_trajs, pind)
        for j, s in enumerate(future_trajs):
            self.times(w, s.pa.part, cur_ind + 1 + j)
        nxt = future_trajs[0].pa.part[find]
        self.future(w, nxt, cur_ind, ut, yt, tt)
        return self.trans(part, nxt)

    def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        w = 'logp_xnext_singlestep'
        self.times(w, part, cur_ind)
        self.hist(w, past_trajs, cur_ind)
        self.parents(w, part, past_trajs, pind)
        nxt = future_parts[find]
        self.future(w, nxt, cur_ind, ut, yt, tt)
        return self.trans(part, nxt)

    def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
        w = 'logp_xnext_max'
        self.times(w, part, cur_ind)
        self.hist(w, past_trajs, cur_ind)
        self.parents(w, part, past_trajs, pind)
        self.chk(w, cur_ind, uvec, yvec, tvec)
        return 0.4

    def eval_logp_x0(self, particles, t):
        self.times('eval_logp_x0', particles, 0)
        _need(t == 0, 'eval_logp_x0', 'time', t)
        return np.zeros(len(particles))

    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        w = 'propose_smooth'
        self.hist(w, ptraj, cur_ind)
        if future_trajs is not None:
            self.future(w, future_trajs[0].pa.part[find], cur_ind, ut, yt, tt)
        n = len(anc) if ptraj is not None else len(find)
        par = ptraj[-1].pa.part[anc][:, 0] if ptraj is not None else -1
        np.random.normal(size=n)
        return self.fresh(n, par, cur_ind)

    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        w = 'logp_proposal'
        self.times(w, prop_part, cur_ind)
        self.hist(w, ptraj, cur_ind)
        self.parents(w, prop_part, ptraj, anc)
        if future_trajs is not None:
            self.future(w, future_trajs[0].pa.part[find], cur_ind, ut, yt, tt)
        return np.zeros(len(prop_part))

    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        w = 'sample_smooth'
        self.times(w, part, cur_ind)
        self.hist(w, ptraj, cur_ind)
        self.parents(w, part, ptraj, anc)
        if future_trajs is not None:
            self.future(w, future_trajs[0].pa.part[find], cur_ind, ut, yt, tt)
        else:
            self.chk(w, cur_ind - 1, ut, yt, tt)
        return np.copy(part)
