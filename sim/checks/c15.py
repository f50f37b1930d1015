"""Numeric M-step: objective, bounds, likelihood over the iterations"""
import copy

import numpy as np
import scipy.optimize

from .. import models, pest, scen, seams
from ..engine import fail, need
from ..scen import pick
from pyparticleest.paramest import paramest as pe

ID = 'C15'
RULE = ('one seeded estimation with the numeric M-step (with and without analytic gradient; linear, mixed, '
        'nonlinear and finite-state models with random parametrisation, bounds and drop-outs); in every M-step '
        'the objective is rebuilt from the exact moments of the smoothed trajectories and compared at random '
        'parameters, at the start and at the result; exact data likelihood over the iterations of linear models; '
        'a failure is injected and the estimation repeated; non-trivial: an M-step moved the parameters')
STATES = 'distinct (model, parametrised parts, bounds kind, number of missing measurements, at bound)'
QUICK, THOROUGH = 3500, 600


def gen(r, i):
    cls = pick(r, ('PLT', 'PLT', 'PLTG', 'PLTG', 'PML', 'PMLG', 'PMM', 'PMMG', 'PLG', 'PLG', 'PHM'))
    fam = pest.BASE[cls]
    small = fam in ('ML', 'MM')
    sm = dict(LT=('full', 'ancestor'), HMM=scen.ALLSM, LG=scen.ALLSM,
              ML=('full', 'ancestor', 'mcmc', 'mhips', 'rs'), MM=('full', 'ancestor', 'mcmc', 'mhips'))[fam]
    cfg = scen.gen_base(r, fams=(fam,), filters=('pf', 'apf') if fam != 'LT' else ('pf',), smoothers=sm,
                        Tmax=4 if small else 10, Nmax=5, Mmax=3, no_smoother=0.0)
    if small:
        cfg['T'] = min(cfg['T'], 4)
    cfg['miss'] = [k for k in cfg['miss'] if k < cfg['T']]
    cfg['cls'] = cls
    n = int(r.randint(1, 4)) if fam != 'HMM' else int(r.randint(1, 3))
    names = list(pest.SLOTS[fam])
    if fam == 'LG' and cfg['mk']['fixed']:
        names = [k for k in names if k not in (('A', 'B') if cfg['mk']['fixed'] == 'f' else ('C', 'D'))]
    if fam == 'HMM':
        cfg['mk']['sparse'] = 0.0
        slots = [[names[k], int(r.randint(1 << 20))] for k in range(n)]
    elif r.uniform() < 0.4:
        # one group of parameters that enters quadratically
        g = pick(r, [k for k in names if k in pest.QUAD])
        same = [k for k in names if k in pest.QUAD and pest.GROUP.get(k, k) == pest.GROUP.get(g, g)
                ]
        n = min(n, 2)
        slots = [[pick(r, same), int(r.randint(1 << 20))] for _ in range(n)]
    else:
        slots = [[pick(r, names), int(r.randint(1 << 20))] for _ in range(n)]
    cfg['mk']['slots'] = slots
    if any(v[0] == 'x0' for v in slots):
        cfg['mk'].pop('P0', None)
    if fam == 'LT':
        cfg['mk']['how'] = 'set'
    if fam == 'HMM':
        cfg['p0'] = [float(v) for v in r.uniform(0.05, 0.95, size=n)]
        b = [[0.0 + 1e-3, 1.0 - 1e-3]] * n
        if r.uniform() < 0.5:
            b = [[max(1e-3, p - float(r.uniform(0.0, 0.4))), min(1 - 1e-3, p + float(r.uniform(0, 0.4)))]
                 for p in cfg['p0']]
    else:
        cfg['p0'] = [float(v) for v in r.uniform(-0.5, 0.5, size=n)]
        kind = pick(r, ('none', 'none', 'box', 'tight', 'half', 'point'))
        b = None
        if kind == 'box':
            b = [[-3.0, 3.0]] * n
        elif kind == 'tight':
            b = [[p - float(r.uniform(0.0, 0.3)), p + float(r.uniform(0.0, 0.3))] for p in cfg['p0']]
        elif kind == 'half':
            b = [[p - float(r.uniform(0.0, 0.3)), None] if r.uniform() < 0.5 else [None, p] for p in cfg['p0']]
        elif kind == 'point':
            b = [[p, p] if k == 0 else [None, None] for k, p in enumerate(cfg['p0'])]
    if collapses(fam, slots, b):
        b = [[(p - 4.0 if v[0] is None else v[0]) if s[0] in pest.COV else v[0], v[1]]
             for s, p, v in zip(slots, cfg['p0'], b or [[None, None]] * n)]
    cfg['bounds'] = b
    cfg['bset'] = bool(r.randint(2))
    cfg['btup'] = bool(r.randint(2))
    cfg['col'] = bool(r.uniform() < 0.4)
    cfg['iters'] = int(r.randint(1, 5)) if fam != 'LT' else int(r.randint(1, 9))
    if small:
        cfg['iters'] = int(r.randint(1, 3))
    cfg['so'] = scen.gen_so(r, cfg)
    if cfg['so'] and 'R' in cfg['so']:
        cfg['so']['R'] = min(2, cfg['so']['R'])
    cfg['fail'] = [[float(r.uniform()), pick(r, ('before', 'after')),
                    pick(r, sorted(set(seams.EXC) - {'StopIteration'}))]   # a way to end scipy's search
                   for _ in range(int(r.uniform() < 0.4))]
    cfg['probe'] = int(r.randint(1 << 20))
    return cfg


def collapses(fam, slots, bounds):
    """Sampled states can be fitted exactly, after that the likelihood grows
    for ever as the noise disappears"""
    cov = [s[0] in pest.COV for s in slots]
    return (fam in ('LG', 'ML', 'MM') and any(cov) and not all(cov)
            and any(c and (bounds is None or bounds[k][0] is None) for k, c in enumerate(cov)))


def shrink(cfg):
    if cfg['fail']:
        yield dict(cfg, fail=[])
    if cfg['bounds'] is not None and cfg['cls'] != 'PHM':
        yield dict(cfg, bounds=None)
    for k in range(len(cfg['p0'])):
        if len(cfg['p0']) > 1 and cfg['cls'] != 'PHM':
            d = copy.deepcopy(cfg)
            del d['p0'][k]
            del d['mk']['slots'][k]
            if d['bounds'] is not None:
                del d['bounds'][k]
            yield d
    if cfg['col']:
        yield dict(cfg, col=False)
    if cfg['iters'] > 1:
        yield dict(cfg, iters=cfg['iters'] - 1)


def valid(cfg):
    n = len(cfg['p0'])
    b = cfg['bounds']
    return n > 0 and len(cfg['mk']['slots']) == n and (b is None or (len(b) == n and all(
        len(v) == 2 and (v[0] is None or v[0] <= p) and (v[1] is None or v[1] >= p)
        for v, p in zip(b, cfg['p0'])))) and cfg['iters'] > 0 and not collapses(
            cfg['fam'], cfg['mk']['slots'], b)


def make(cfg):
    kw = dict(cfg['mk'])
    b = cfg['bounds']
    if b is not None:
        b = [tuple(v) if cfg['btup'] else list(v) for v in b]
    if not cfg['bset']:
        kw['bounds'] = b
    m = pest.CLASSES[cfg['cls']](**kw)
    if cfg['bset']:
        m.set_param_bounds(b)
    m.col = cfg['col']
    return m


class Run(object):

    def __init__(self, cfg, st):
        self.cfg, self.st = cfg, st
        self.m = make(cfg)
        # data from the model at other parameters
        self.u, self.y = scen.data(cfg, models_base(cfg))
        self.w = seams.World(budget=8000000)
        self.w.hooks.append(self.hook)
        self.e = pe.ParamEstimation(self.m, self.u, self.y)
        self.judging = True

    def hook(self, phase, model, name, a, k, res):
        if name != 'maximize':
            return
        if phase == 'enter':
            straj = seams.arg(name, a, k, 'straj')
            self.start = np.copy(np.ravel(model.params))
            self.seen.append(scen.snap_straj(straj))
            if self.judging:
                self.sub = self.JUDGE(self.cfg, self.st, copy.deepcopy(model), copy.deepcopy(straj), self.start)
        else:
            res = np.ravel(res)
            self.out.append(np.copy(res))
            if self.judging:
                self.sub.result(res)

    def go(self):
        cfg = self.cfg
        self.seen, self.out, self.cb = [], [], []
        scen.real_seed(cfg['seed'])
        with self.w:
            p, _ = self.e.maximize(np.array(cfg['p0']), cfg['N'], cfg['M'], max_iter=cfg['iters'],
                                   meas_first=cfg['mf'], filter=cfg['filter'], smoother=cfg['smoother'],
                                   smoother_options=None if cfg['so'] is None else dict(cfg['so']),
                                   callback=lambda params, Q, cur_iter: self.cb.append(np.copy(params)))
        return np.ravel(p)


def models_base(cfg):
    fam = pest.BASE[cfg['cls']]
    return scen.FAMS[fam](**dict((k, v) for k, v in cfg['mk'].items() if k not in ('slots', 'how')))


class Judge(object):
    """One M-step"""

    def __init__(self, cfg, st, m, straj, start):
        self.cfg, self.st, self.m, self.start = cfg, st, m, start
        w = seams.world()
        seams._tls.world = None
        try:
            self.prepare(straj)
        finally:
            seams._tls.world = w

    def prepare(self, straj):
        cfg, m, start = self.cfg, self.m, self.start
        T = len(straj.traj)
        self.y = [straj.y[t] for t in range(T)]
        self.u = [straj.u[t] for t in range(T - 1)]
        sest = straj.get_smoothed_estimates()
        fam = pest.BASE[cfg['cls']]
        if fam == 'LT':
            self.est, self.ll = m.moments(start, self.y, self.u)
        elif fam in ('ML', 'MM'):
            self.est = m.moments(start, sest, self.y, self.u)
        else:
            self.est = sest
        self.fam = fam
        self.J0 = self.J(start)
        if fam == 'LG':
            x = np.array(sest[0])
            x[::2] += 0.3
            got, exp = m.eval_logp_x0(x, straj.t[0]), np.array([m.d_init(v) for v in x])
            need(np.array_equal(np.isfinite(got), np.isfinite(exp)) and
                 np.allclose(np.nan_to_num(got), np.nan_to_num(exp), 1e-9, 1e-9), 'objective',
                 'initial log-likelihood', got, 'instead of', exp)
        # value (and gradient) of the objective as the library sees it
        r = np.random.RandomState((cfg['probe'] + T) % (2 ** 31))
        pts = [start]
        for _ in range(2):
            if cfg['cls'] == 'PHM':
                p = r.uniform(0.05, 0.95, size=len(start))
            else:
                p = start + r.normal(size=len(start)) * 0.5
            pts.append(p)
        grad = cfg['cls'] in ('PLTG', 'PMLG', 'PMMG')
        diff = []
        for p in pts:
            m.set_params(p)
            part0 = straj.traj[0].pa.part
            v = (float(np.mean(m.eval_logp_x0(part0, straj.t[0])))
                 + float(np.sum(m.eval_logp_xnext_fulltraj(straj, straj.u, straj.t)))
                 + float(np.sum(m.eval_logp_y_fulltraj(straj, straj.y, straj.t))))
            e = self.J(p)
            diff.append(v - e)
            if grad:
                (vy, gy) = m.eval_logp_y_val_grad_fulltraj(straj, straj.y, straj.t)
                (vx, gx) = m.eval_logp_xnext_val_grad_fulltraj(straj, straj.u, straj.t)
                (v0, g0) = m.eval_logp_x0_val_grad(part0, straj.t[0])
                vg = float(np.mean(v0)) + float(vy) + float(vx)
                need(abs(vg - v) <= 1e-7 * (1.0 + abs(v)), 'objective', 'value', v, 'but with gradient', vg)
                g = np.ravel(gy) + np.ravel(gx) + np.ravel(g0)
                h = 1e-5
                fd = np.array([(self.J(p + h * d) - self.J(p - h * d)) / (2 * h) for d in np.eye(len(p))])
                need(np.abs(g - fd) <= 1e-4 * (1.0 + np.abs(fd).max() + 1e-4 * abs(e)), 'gradient', g, 'instead of', fd,
                     'slots', cfg['mk']['slots'])
        m.set_params(start)
        need(np.abs(np.diff(diff)) <= 1e-7 * (1.0 + np.abs(diff[0]) + abs(self.J0)) +
             1e-9 * np.max([abs(self.J(p)) for p in pts]), 'objective',
             'differs from the expected log-likelihood by', diff, 'at', pts)

    def J(self, p):
        return float(self.m.objective(p, self.est, self.y, self.u))

    def result(self, new):
        w = seams.world()
        seams._tls.world = None
        try:
            self._result(new)
        finally:
            seams._tls.world = w

    def _result(self, new):
        cfg, st = self.cfg, self.st
        need(np.all(np.isfinite(new)), 'parameters', new)
        b = cfg['bounds']
        at = False
        if b is not None:
            for p, (lo, hi) in zip(new, b):
                need((lo is None or p >= lo - 1e-12) and (hi is None or p <= hi + 1e-12), 'bounds', new, 'outside', b)
                at = at or (lo is not None and p <= lo) or (hi is not None and p >= hi)
        J1 = self.J(new)
        tol = 1e-7 * (1.0 + abs(self.J0))
        need(J1 >= self.J0 - tol, 'decrease', 'objective went from', self.J0, 'at', self.start, 'to', J1, 'at', new)
        moved = not np.allclose(new, self.start, rtol=1e-9, atol=1e-12)
        if moved:
            st.nontrivial = True
        st.state(cfg['cls'], tuple(s[0] for s in cfg['mk']['slots']), b is None, sum(v is None for v in self.y), at)
        names = [s[0] for s in cfg['mk']['slots']]
        if len(names) == 1 and names[0] in pest.QUAD:
            # concave quadratic in one variable: has to be maximised
            res = scipy.optimize.minimize(lambda p: -self.J(p), new, method='l-bfgs-b', bounds=b)
            best = max(-float(res.fun), J1)
            need(best - J1 <= 0.02 * (best - self.J0) + 1e-4 * (1.0 + abs(self.J0)), 'optimum', 'result', new, 'with', J1,
                 'but', res.x, 'has', best, '(start', self.start, self.J0, ')')
            st.probes['optimum compared'] += 1


Run.JUDGE = Judge


def run(cfg, st):
    r = Run(cfg, st)
    p = r.go()
    st.runs += 1
    st.steps += cfg['iters'] * cfg['T']
    st.world(r.w)
    total = r.w.ops
    need(len(r.out) == cfg['iters'] and len(r.cb) == cfg['iters'], 'iterations', len(r.out), len(r.cb))
    need(np.array_equal(p, r.out[-1]), 'result', p, r.out[-1])
    if r.m.param_bounds is not None:
        need([list(v) for v in r.m.param_bounds] == [list(v) for v in cfg['bounds']], 'bounds', 'were changed')
    if pest.BASE[cfg['cls']] == 'LT':
        m = make(cfg)
        y, u = models.align(r.u, r.y, cfg['mf'])
        ll = [m.moments(q, y, u)[1] for q in [np.array(cfg['p0'])] + r.out]
        d = np.diff(ll)
        need(d >= -1e-6 * (1.0 + np.abs(ll[0])), 'likelihood', 'of the iterations', ll)
        st.probes['likelihood increases'] += int(np.sum(d > 1e-9))
    base = [r.seen, r.out]
    st.trace(scen.digest(base))
    for f in cfg['fail']:
        r.judging = False
        r.w.arm([[int(f[0] * total), f[1], f[2]]])
        n = len(r.w.fired)
        try:
            r.go()
        except seams.BudgetExceeded:
            raise
        except BaseException:
            if len(r.w.fired) == n:
                raise
        else:
            if len(r.w.fired) > n:
                fail('swallowed', 'failure in', r.w.hit[-1])
        if len(r.w.fired) > n:
            r.w.arm()
            r.go()
            d = scen.diff(base, [r.seen, r.out])
            if d:
                fail('repeat', 'after a failure in', r.w.hit[-1], ':', d)
            st.probes['repeated after failure'] += 1
            st.world(r.w)
