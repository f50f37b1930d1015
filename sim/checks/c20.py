"""The Kalman toolbox is exact under any sequence of calls"""
import copy
import pickle

import numpy as np
import scipy.linalg

from .. import variant, ref
from .. import scen as scn
from ..engine import fail, need
from ..scen import pick
from ..models import spd

ID = 'C20'
RULE = ('one seeded track of a single Kalman filter object (its own matrices, partly replaced while it runs, or '
        'matrices passed with each call; estimates inside larger arrays; several, unrelated, scalar, missing and '
        'refused measurements; the object pickled, copied or shared with another track in between) followed by a '
        'backward pass, every estimate, likelihood and lag-one covariance compared with conditioning the joint '
        'distribution of the whole history; non-trivial: at least one measurement and one prediction')
STATES = 'distinct (helpers, dimensions, operation, own or passed matrices, layout) compared'
QUICK, THOROUGH = 3000, 600
TOL = 1e-7
OPS = ('measure', 'measure', 'full', 'full', 'scalar', 'blind', 'refused', 'diff', 'density', 'swap', 'other')


def prepare():
    variant.build()


def cleanup():
    variant.remove()


def gen(r, i):
    steps = []
    for _ in range(int(r.randint(1, 8))):
        ops = [[pick(r, OPS), int(r.randint(1 << 20))] for _ in range(int(pick(r, (0, 1, 1, 2, 3))))]
        steps.append([ops, pick(r, ('predict', 'full', 'inplace')), int(r.randint(1 << 20)),
                      [k for k in ('A', 'C', 'Q', 'R', 'f_k', 'h_k') if r.uniform() < 0.25]])
    return dict(variant=pick(r, ('pure', 'ext')), n=int(r.randint(1, 5)), ny=int(r.randint(1, 4)),
                seed=int(r.randint(1 << 30)), steps=steps, fh=[bool(r.randint(2)), bool(r.randint(2))],
                late=[k for k in ('A', 'C', 'Q', 'R') if r.uniform() < 0.2],
                layout=int(r.randint(4)), smooth=bool(r.uniform() < 0.7), point=bool(r.uniform() < 0.1))


def valid(cfg):
    return cfg['n'] >= 1 and cfg['ny'] >= 1 and cfg['variant'] in ('pure', 'ext') and len(cfg['steps']) > 0


def shrink(cfg):
    for k in range(len(cfg['steps'])):
        if len(cfg['steps']) > 1:
            yield dict(cfg, steps=cfg['steps'][:k] + cfg['steps'][k + 1:])
        s = cfg['steps'][k]
        for j in range(len(s[0])):
            yield dict(cfg, steps=cfg['steps'][:k] + [[s[0][:j] + s[0][j + 1:]] + s[1:]] + cfg['steps'][k + 1:])
        if s[3]:
            yield dict(cfg, steps=cfg['steps'][:k] + [s[:3] + [[]]] + cfg['steps'][k + 1:])
    for k in ('n', 'ny'):
        if cfg[k] > 1:
            yield dict(cfg, **{k: cfg[k] - 1})
    if cfg['layout']:
        yield dict(cfg, layout=0)
    if cfg['late']:
        yield dict(cfg, late=[])


def close(got, exp, kind, *what):
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    got = got.reshape(exp.shape) if got.size == exp.size else got
    need(got.shape == exp.shape, kind, *what + ('shape', got.shape, 'instead of', exp.shape))
    tol = TOL * (1.0 + np.max(np.abs(exp), initial=0.0))
    need(np.all(np.abs(got - exp) <= tol), kind, *what + (got.tolist(), 'instead of', exp.tolist()))


class Mats(object):
    """Matrices of the system; `own` are those held by the object"""

    def __init__(self, r, n, ny):
        self.r, self.n, self.ny = r, n, ny

    def new(self, k):
        r, n, ny = self.r, self.n, self.ny
        if k == 'A':
            return 0.8 * np.eye(n) + 0.3 * r.normal(size=(n, n))
        if k == 'C':
            return r.normal(size=(ny, n))
        if k == 'Q':
            return spd(r, n)
        if k == 'R':
            return spd(r, ny)
        return r.normal(size=(n if k == 'f_k' else ny, 1))


class Track(object):

    def __init__(self, cfg, r, kal, kf=None):
        n, ny = cfg['n'], cfg['ny']
        self.n, self.ny, self.r, self.kal, self.cfg = n, ny, r, kal, cfg
        self.mk = Mats(r, n, ny)
        self.J, self.obs, self.t, self.nobs, self.ll = ref.Joint(), [], 0, 0, 0.0
        lay = cfg['layout']
        self.store = np.full((3, n + n * n + 4), 7.5)
        if lay == 0:
            self.z, self.P = np.zeros((n, 1)), np.zeros((n, n))
        elif lay == 1:
            self.P = np.zeros((n, n), order='F')
            self.z = np.zeros((n, 1))
        elif lay == 2:
            self.z = self.store[1, 2:2 + n].reshape((n, 1))
            self.P = self.store[1, 2 + n:2 + n + n * n].reshape((n, n))
        else:
            self.z = self.store[:n, :1] if n <= 3 else np.zeros((n, 1))
            self.P = np.zeros((2 * n, 2 * n))[::2, ::2]
        self.z[:] = r.normal(size=(n, 1))
        self.P[:] = 0.0 if cfg['point'] else spd(r, n)
        self.J.put(('z', 0), self.z, noise=self.J.noise(self.P))
        self.hist = []
        self.pred = []

    def check(self, *what):
        m, P, ll = self.J.condition([('z', self.t)], self.obs)
        close(self.z, m, 'mean', *what)
        close(self.P, P, 'covariance', *what)
        return ll

    def measured(self, y, C, h, R, got, *what):
        """The likelihood is the one given everything before"""
        name = ('y', self.nobs)
        self.nobs += 1
        terms = [] if C is None else [(C, ('z', self.t))]
        self.J.put(name, np.zeros(len(y)) if h is None else h, terms, self.J.noise(R))
        self.obs.append((name, np.ravel(y)))
        ll = self.check(*what)
        need(np.size(got) == 1, 'likelihood', 'has', np.size(got), 'entries')
        close(float(np.ravel(got)[0]), ll - self.ll, 'likelihood', *what)
        self.ll = ll


def keep(*arrays):
    return [None if a is None else np.array(a) for a in arrays]


def same(arrays, before, what):
    for a, b in zip(arrays, before):
        need((a is None and b is None) or np.array_equal(a, b), 'argument', what, 'changed an argument:', b, '->', a)


def densities(tr, r, kal, st):
    """Log-densities of the toolbox against the definition"""
    n, N = int(r.randint(1, 5)), int(r.randint(1, 5))
    e = r.normal(size=(N, n, 1)) * float(pick(r, (1.0, 30.0)))
    S = [spd(r, n) for _ in range(N)]
    exp = np.array([ref.logn(e[i], np.zeros(n), S[i]) for i in range(N)])
    one = np.array([ref.logn(e[i], np.zeros(n), S[0]) for i in range(N)])
    cho = scipy.linalg.cho_factor(S[0], lower=bool(r.randint(2)))
    b = keep(e, *S)
    close(kal.lognormpdf(e[0], S[0]), exp[:1], 'density', 'lognormpdf')
    close(kal.lognormpdf(e[0].ravel(), S[0]), exp[:1], 'density', 'lognormpdf')
    close(kal.lognormpdf_cho(e[0], cho), exp[:1], 'density', 'lognormpdf_cho')
    close(kal.lognormpdf_cho_vec(e, cho), one, 'density', 'lognormpdf_cho_vec')
    close(kal.lognormpdf_vec(e, S), exp, 'density', 'lognormpdf_vec')
    s = np.array([[0.1 + 3.0 * r.uniform()]])
    close(kal.lognormpdf_scalar(e[:, 0], s), [ref.logn(v, [0.0], s) for v in e[:, 0, 0]], 'density',
          'lognormpdf_scalar')
    same([e] + S, b, 'a density')


def run(cfg, st):
    V = variant.activate(cfg['variant'])
    kal = V.module('utils.kalman' if cfg['variant'] == 'pure' else 'utils.ckalman')
    r = np.random.RandomState(cfg['seed'])
    tr = Track(cfg, r, kal)
    n, ny = tr.n, tr.ny
    own = dict((k, tr.mk.new(k)) for k in ('A', 'C', 'Q', 'R'))
    own['f_k'] = tr.mk.new('f_k') if cfg['fh'][0] else None
    own['h_k'] = tr.mk.new('h_k') if cfg['fh'][1] else None
    kf = kal.KalmanSmoother(n, **dict((k, v) for k, v in own.items() if k not in cfg['late'] and v is not None))
    if cfg['late']:
        kf.set_dynamics(**dict((k, own[k]) for k in cfg['late']))
    other = None
    for s, (ops, how, seed, repl) in enumerate(cfg['steps']):
        rr = np.random.RandomState(seed)
        tr.mk.r = rr
        for op, oseed in ops:
            r2 = np.random.RandomState(oseed)
            tr.mk.r = r2
            what = (op, 'at step', s)
            st.steps += 1
            st.state(cfg['variant'], n, ny, op, cfg['layout'])
            if op == 'swap':
                # the object survives being stored or copied
                kf = pickle.loads(pickle.dumps(kf)) if r2.randint(2) else copy.deepcopy(kf)
                st.faults['object restored'] += 1
                continue
            if op == 'density':
                densities(tr, r2, kal, st)
                continue
            if op == 'other':
                # another object and another estimate, which must not matter
                o = kal.KalmanSmoother(n, A=tr.mk.new('A'), Q=tr.mk.new('Q'), C=tr.mk.new('C'), R=tr.mk.new('R'))
                o.set_dynamics(f_k=tr.mk.new('f_k'), h_k=tr.mk.new('h_k'))
                z, P = r2.normal(size=(n, 1)), spd(r2, n)
                o.measure(r2.normal(size=(ny, 1)), z, P)
                o.predict(z, P)
                kf.predict_full_inplace(z, P, tr.mk.new('A'), tr.mk.new('f_k'), tr.mk.new('Q'))
                tr.check(*what)
                st.faults['other track in between'] += 1
                continue
            if op == 'diff':
                y, h = r2.normal(size=(ny, 1)), (tr.mk.new('h_k') if r2.randint(2) else None)
                C = tr.mk.new('C') if r2.randint(3) else None
                if r2.randint(3) == 0:
                    y = np.rint(3 * y).astype(int)
                b = keep(y, tr.z, C, h)
                got = kf.measurement_diff(y, tr.z, C, h)
                exp = y - (0.0 if C is None else C.dot(tr.z)) - (0.0 if h is None else h)
                close(got, exp, 'difference', *what)
                same([y, tr.z, C, h], b, op)
                continue
            y = r2.normal(size=(ny, 1)) * 2.0
            if r2.randint(5) == 0:
                y = np.rint(y).astype(int)
            if op == 'measure':
                b = keep(y, *own.values())
                got = kf.measure(y, tr.z, tr.P)
                same([y] + list(own.values()), b, op)
                tr.measured(y, own['C'], own['h_k'], own['R'], got, *what)
            elif op == 'refused':
                C, R = tr.mk.new('C'), -50.0 * np.eye(ny) - 20.0 * np.eye(ny) * np.max(np.abs(tr.P)) * n * n
                b = keep(tr.z, tr.P)
                try:
                    kf.measure_full(y, tr.z, tr.P, C, None, R)
                except np.linalg.LinAlgError:
                    pass
                else:
                    fail('refused', 'a measurement with negative covariance is accepted')
                same([tr.z, tr.P], b, 'a refused measurement')
                st.faults['measurement refused'] += 1
            else:
                C = None if op == 'blind' else tr.mk.new('C')
                h = tr.mk.new('h_k') if r2.randint(2) else None
                R = tr.mk.new('R')
                if op == 'scalar' or (op == 'blind' and r2.randint(2)):
                    C, h, R, y = [None if v is None else v[:1] for v in (C, h, R, y)]
                    R = R[:, :1]
                    fn = kf.measure_full_scalar
                else:
                    fn = kf.measure_full
                b = keep(y, C, h, R)
                got = fn(y, tr.z, tr.P, C, h, R) if r2.randint(2) else fn(y=y, z=tr.z, P=tr.P, C=C, h_k=h, R=R)
                same([y, C, h, R], b, op)
                tr.measured(y, C, h, R, got, *what)
        # to the next step
        tr.mk.r = rr
        new = dict((k, tr.mk.new(k)) for k in repl)
        if new:
            kf.set_dynamics(**new)
            own.update(new)
        z0, P0 = keep(tr.z, tr.P)
        if how == 'predict':
            A, f, Q = own['A'], own['f_k'], own['Q']
            z, P = kf.predict(tr.z, tr.P)
        else:
            A, f, Q = tr.mk.new('A'), tr.mk.new('f_k'), tr.mk.new('Q')
            if how == 'full':
                z, P = kf.predict_full(tr.z, tr.P, A, f, Q)
            else:
                b = keep(A, f, Q)
                z, P = kf.predict_full_inplace(tr.z, tr.P, A, f, Q)
                same([A, f, Q], b, how)
                need(z is tr.z and P is tr.P, 'inplace', 'other arrays returned')
        if how != 'inplace':
            same([tr.z, tr.P], [z0, P0], how)
            need(not np.shares_memory(z, tr.z) and not np.shares_memory(P, tr.P), 'argument', how,
                 'returns the storage of its argument')
            tr.z[:], tr.P[:] = z, P
        f = np.zeros((n, 1)) if f is None else f
        tr.hist.append((z0, P0, np.array(A), np.array(f), np.array(Q)))
        tr.J.put(('z', tr.t + 1), f, [(A, ('z', tr.t))], tr.J.noise(Q))
        tr.t += 1
        st.steps += 1
        tr.check('prediction', how, 'at step', s)
        st.state(cfg['variant'], n, how, bool(own['f_k'] is None), cfg['layout'])
    if cfg['layout'] == 2:
        need(np.all(tr.store[[0, 2]] == 7.5) and np.all(tr.store[1, :2] == 7.5) and np.all(tr.store[1, -2:] == 7.5),
             'inplace', 'memory around the estimate was written')
    if cfg['smooth']:
        zs, Ps = keep(tr.z, tr.P)
        for t in range(tr.t - 1, -1, -1):
            h = tr.hist[t]
            b = keep(zs, Ps, *h)
            z, P, M = kf.smooth(h[0], h[1], zs, Ps, *h[2:])
            same([zs, Ps] + list(h), b, 'smooth')
            m, C, _ = tr.J.condition([('z', t), ('z', t + 1)], tr.obs)
            close(z, m[:n], 'smoothed', 'mean, step', t)
            close(P, C[:n, :n], 'smoothed', 'covariance, step', t)
            close(M, C[:n, n:], 'smoothed', 'covariance with the next state, step', t)
            zs, Ps = z, P
            st.steps += 1
    st.trace(scn.digest([np.round(tr.z, 6), np.round(tr.P, 6), round(tr.ll, 6)]))
    st.runs += 1
    st.nontrivial = tr.nobs > 0
