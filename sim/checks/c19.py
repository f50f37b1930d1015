"""Analytic gradients stay the derivative of the objective throughout an estimation"""
import importlib
import sys
import types

import numpy as np

from .. import pest, scen, seams
from ..engine import fail, need
from ..scen import pick
from . import c15

ID = 'C19'
RULE = ('one seeded estimation (real filter, smoother and gradient M-step; linear and mixed models, sampled or '
        'marginalized, random parametrisation, bounds and drop-outs); in every M-step each of the three terms of the '
        'objective is evaluated with gradient at the start, at random points, at the bounds and at the result, and '
        'compared with the differences of the value returned alongside and of the objective rebuilt independently; '
        'model functions are made to fail half way through an evaluation, which is then repeated; a quarter of the '
        'cases run the gradient test utility instead, its curves, slopes and drawn tangents compared likewise; '
        'non-trivial: at '
        'least one step with a measurement and a gradient that is not zero')
STATES = 'distinct (model, parametrised parts, first or last measurement missing, trajectories, failed function)'
QUICK, THOROUGH = 1500, 500
CLS = ('PLTG', 'PMLG', 'PMMG')


def gen(r, i):
    for _ in range(200):
        cfg = c15.gen(r, i)
        if cfg['cls'] in CLS:
            break
    cfg['fail'] = []
    cfg['efail'] = [[float(r.uniform()), pick(r, ('before', 'after')), pick(r, sorted(seams.EXC))]
                    for _ in range(int(r.randint(0, 3)))]
    cfg['iters'] = min(cfg['iters'], 3)
    cfg['tool'] = bool(r.uniform() < 0.25)
    if cfg['tool']:
        cfg['mf'] = False
        cfg['pid'] = int(r.randint(len(cfg['p0'])))
        cfg['grad'] = bool(r.uniform() < 0.8)
        cfg['vals'] = [float(v) for v in np.cumsum(r.uniform(0.02, 0.2, size=int(pick(r, (1, 2, 3, 13))))) - 0.4]
    return cfg


def shrink(cfg):
    for c in c15.shrink(cfg):
        yield c
    if cfg['efail']:
        yield dict(cfg, efail=[])
    if cfg['tool'] and len(cfg['vals']) > 1:
        yield dict(cfg, vals=cfg['vals'][:-1])


def valid(cfg):
    return cfg['cls'] in CLS and c15.valid(cfg) and (not cfg['tool'] or (cfg['pid'] < len(cfg['p0']) and not cfg['mf']))


class Judge(c15.Judge):

    def prepare(self, straj):
        super(Judge, self).prepare(straj)
        self.straj = straj
        cfg = self.cfg
        r = np.random.RandomState((cfg['probe'] * 7 + len(straj.traj)) % (2 ** 31))
        pts = [self.start, self.start + r.normal(size=len(self.start)) * 0.3]
        if cfg['bounds'] is not None:
            k = r.randint(2, size=len(self.start))
            pts.append(np.array([b[j] if b[j] is not None else p for p, b, j in zip(self.start, cfg['bounds'], k)]))
        for p in pts:
            self.terms(p)
        self.failures(pts, r)

    def _result(self, new):
        super(Judge, self)._result(new)
        self.terms(new)

    def evaluate(self, p):
        m, s = self.m, self.straj
        m.set_params(p)
        a = m.eval_logp_y_val_grad_fulltraj(s, s.y, s.t)
        b = m.eval_logp_xnext_val_grad_fulltraj(s, s.u, s.t)
        v, g = m.eval_logp_x0_val_grad(s.traj[0].pa.part, s.t[0])
        return [(float(np.mean(v)), np.copy(np.ravel(g)))] + [(float(v), np.copy(np.ravel(g))) for v, g in (a, b)]

    def terms(self, p):
        """Gradient of each term against its own value"""
        before = scen.digest(scen.snap_straj(self.straj))
        q = np.array(p, dtype=float)
        mid = self.evaluate(q)
        need(np.array_equal(q, p), 'modified', 'parameters', p, 'became', q)
        again = self.evaluate(q)
        for a, b in zip(mid, again):
            need(a[0] == b[0] and np.array_equal(a[1], b[1]), 'repeat', 'evaluated twice at', p, ':', a, 'then', b)
        h = 1e-5
        fd = np.zeros((3, len(q)))
        for k, e in enumerate(np.eye(len(q))):
            up, down = self.evaluate(q + h * e), self.evaluate(q - h * e)
            for i in range(3):
                fd[i, k] = (up[i][0] - down[i][0]) / (2 * h)
        for i, what in enumerate(('initial state', 'measurements', 'transitions')):
            v, g = mid[i]
            need(g.shape == fd[i].shape, 'gradient', what, 'shape', g.shape)
            need(np.abs(g - fd[i]) <= 1e-4 * (1.0 + np.abs(fd[i]).max() + 1e-4 * abs(v)), 'gradient', what, 'at', p,
                 ':', g, 'instead of', fd[i], 'slots', self.cfg['mk']['slots'])
            if np.any(g != 0) and any(y is not None for y in self.y):
                self.st.nontrivial = True
        need(before == scen.digest(scen.snap_straj(self.straj)), 'modified', 'smoothed trajectories changed')
        self.m.set_params(self.start)
        self.st.probes['gradients compared'] += 3
        self.st.trace(scen.digest([g for _, g in mid]))

    def failures(self, pts, r):
        """An evaluation that failed half way leaves nothing behind"""
        cfg, st = self.cfg, self.st
        if not cfg['efail']:
            return
        good = [self.evaluate(p) for p in pts]
        w = seams.World(budget=10 ** 6)
        with w:
            w.arm()
            self.evaluate(pts[0])
            total = w.ops
        for at, when, exc in cfg['efail']:
            p = pts[int(r.randint(len(pts)))]
            w = seams.World(budget=10 ** 6)
            with w:
                w.arm([[int(at * total), when, exc]])
                try:
                    self.evaluate(p)
                except seams.BudgetExceeded:
                    raise
                except BaseException:
                    if not w.fired:
                        raise
                else:
                    if w.fired:
                        fail('swallowed', 'failure in', w.hit[-1])
            st.world(w)
            for k, g in enumerate(good):
                e = self.evaluate(pts[k])
                for a, b in zip(g, e):
                    need(a[0] == b[0] and np.array_equal(a[1], b[1]), 'repeat', 'after a failure in', w.hit, 'at', pts[k],
                         ':', b, 'instead of', a)
        self.m.set_params(self.start)


class Run(c15.Run):
    JUDGE = Judge


def tangents(mod, plot, vals, diff):
    """What the plot draws: the curve and pieces of its tangents"""
    lines = []
    mod.plt = types.SimpleNamespace(plot=lambda *a, **k: lines.append(a), figure=lambda *a: types.SimpleNamespace(
        clf=lambda: None, gca=lambda: None))
    plot.plot(1)
    n = len(vals)
    curve, rest = lines[0], lines[1:]
    need(np.array_equal(curve[0], plot.params) and np.array_equal(curve[1], plot.vals), 'plot', 'curve', curve)
    need(len(rest) == (0 if diff is None else len(range(1, n, 10))), 'plot', len(rest), 'tangents')
    for l, k in zip(rest, range(1, n, 10)):
        x, y = np.asarray(l[0], dtype=float), np.asarray(l[1], dtype=float)
        need(abs(x.mean() - plot.params[k]) < 1e-9 and abs(y.mean() - vals[k]) <= 1e-9 * (1.0 + abs(vals[k])),
             'plot', 'tangent at', x, y, 'curve', plot.params[k], vals[k])
        need(abs((y[1] - y[0]) - diff[k] * (x[1] - x[0])) <= 1e-9 * (1.0 + np.abs(y).max() + abs(diff[k])),
             'plot', 'tangent', x, y, 'slope', diff[k])


def tool(cfg, st):
    """The utility that compares gradients with the curves they belong to"""
    if 'matplotlib' not in sys.modules:
        m = types.ModuleType('matplotlib')
        m.pyplot = types.ModuleType('matplotlib.pyplot')
        sys.modules.update({'matplotlib': m, 'matplotlib.pyplot': m.pyplot})
    mod = importlib.import_module('pyparticleest.paramest.gradienttest')
    u, y = scen.data(cfg, c15.models_base(cfg))
    vals, pid, grad = np.array(cfg['vals']), cfg['pid'], cfg['grad']

    def fresh():
        t = mod.GradientTest(c15.make(cfg), u, y)
        t.set_params(np.array(cfg['p0']))
        return t

    def go(t):
        scen.real_seed(cfg['seed'])
        t.test(pid, vals, num=cfg['N'], nums=cfg['M'], analytic_grad=grad)
        return [np.copy(v) for p in (t.plot_x0, t.plot_y, t.plot_xn) for v in (p.vals, p.diff) if v is not None]

    w = seams.World(budget=10 ** 7)
    t = fresh()
    with w:
        got = go(t)
    total = w.ops
    st.runs += 1
    for p in (t.plot_x0, t.plot_y, t.plot_xn):
        need(np.array_equal(p.params, vals) and len(p.vals) == len(vals), 'curve', 'parameters', p.params)
        need((p.diff is None) == (not grad), 'curve', 'slopes', p.diff)
        tangents(mod, p, p.vals, p.diff)
    # the same trajectories at the same parameters
    m = c15.make(cfg)
    j = object.__new__(Judge)
    j.m, j.straj, j.cfg = m, t.straj, cfg
    h = 1e-5
    for k, v in enumerate(vals):
        q = np.array(cfg['p0'])
        q[pid] = v
        e, up, down = [j.evaluate(q + np.eye(len(q))[pid] * d) for d in (0.0, h, -h)]
        for i, (p, what) in enumerate(((t.plot_x0, 'initial state'), (t.plot_y, 'measurements'),
                                       (t.plot_xn, 'transitions'))):
            need(abs(p.vals[k] - e[i][0]) <= 1e-9 * (1.0 + abs(e[i][0])), 'curve', what, 'at', q, ':', p.vals[k],
                 'instead of', e[i][0])
            if grad:
                fd = (up[i][0] - down[i][0]) / (2 * h)
                need(abs(p.diff[k] - fd) <= 1e-4 * (1.0 + abs(fd) + 1e-4 * abs(e[i][0])), 'gradient', what, 'at', q, ':',
                     p.diff[k], 'instead of', fd)
    st.probes['curves compared'] += 3
    for at, when, exc in cfg['efail']:
        w = seams.World(budget=10 ** 7)
        t = fresh()
        with w:
            w.arm([[int(at * total), when, exc]])
            try:
                go(t)
            except seams.BudgetExceeded:
                raise
            except BaseException:
                if not w.fired:
                    raise
            else:
                if w.fired:
                    fail('swallowed', 'failure in', w.hit[-1])
            if w.fired:
                w.arm()
                t.set_params(np.array(cfg['p0']))
                d = scen.diff(got, go(t))
                if d:
                    fail('repeat', 'after a failure in', w.hit, ':', d)
        st.world(w)
    st.steps += cfg['T'] * len(vals)
    st.state('tool', cfg['cls'], tuple(s[0] for s in cfg['mk']['slots']), len(vals), grad, cfg['M'])
    st.trace(scen.digest(got))
    st.nontrivial = grad and any(v is not None for v in y)


def run(cfg, st):
    if cfg['tool']:
        return tool(cfg, st)
    r = Run(cfg, st)
    r.go()
    st.runs += 1
    st.steps += cfg['iters'] * cfg['T']
    st.world(r.w)
    need(len(r.out) == cfg['iters'], 'iterations', len(r.out))
    st.state(cfg['cls'], tuple(s[0] for s in cfg['mk']['slots']), r.y[0] is None, r.y[-1] is None, cfg['M'],
             cfg['bounds'] is None, [f[2] for f in cfg['efail']])
    st.trace(scen.digest([r.seen, r.out]))
