"""Protocol of the parameter estimators"""
import copy

import numpy as np

from .. import est, ref, scen, seams
from ..engine import fail, need
from ..scen import pick

ID = 'C14'
RULE = ('one seeded estimation (EM, SAEM, PSAEM, PSAEM2; finite state, Gaussian or history dependent model) with random '
        'schedules of particle and trajectory counts, step sizes, discarding and stopping; the E-steps are repeated '
        'with the plain simulator from the recorded random state and the weights recomputed literally; then the run '
        'is repeated with failures injected into model calls, draws, M-step, callbacks and the step-size schedule; '
        'non-trivial: at least two iterations or a failure that fired')
STATES = 'distinct (estimator, filter, smoother, schedule kinds, failing operation)'
QUICK, THOROUGH = 3000, 500


def gen(r, i):
    cfg = est.gen(r, iters=6)
    if cfg['est'] != 'PSAEM' and r.uniform() < 0.05:
        cfg['iters'] = 0
    if cfg['est'] == 'PSAEM' and r.uniform() < 0.3:
        # more trajectories than fit, long runs
        cfg['iters'] = int(r.randint(4, 9))
    if i % 40 == 7 and cfg['est'] != 'EM':
        # until the default step size starts to decrease
        cfg.update(iters=int(r.randint(102, 110)), alpha='default', T=int(r.randint(1, 3)), stop=0)
        cfg['miss'] = []
        cfg['N'] = 2 if not isinstance(cfg['N'], list) else [2, 3, 2]
        if cfg['smoother'] in scen.MHSM + ('mcmc',):
            cfg['so'] = dict(R=1)
    cfg['lib'] = [[float(r.uniform()), pick(r, ('before', 'after', 'torn')), pick(r, sorted(seams.EXC))]
                  for _ in range(int(r.randint(0, 3)))]
    cfg['user'] = [[pick(r, ('callback', 'callback_sim', 'alpha', 'maximize')), int(r.randint(0, 4)),
                    pick(r, sorted(seams.EXC))] for _ in range(int(r.randint(0, 3)))]
    cfg['cb'] = pick(r, ('both', 'both', 'both', 'cb', 'sim', 'none'))
    cfg['npint'] = bool(r.uniform() < 0.3)
    cfg['junk'] = bool(r.uniform() < 0.5)
    return cfg


def shrink(cfg):
    for k, v in (('lib', []), ('user', []), ('cb', 'both'), ('npint', False), ('junk', False)):
        if cfg.get(k) != v:
            yield dict(cfg, **{k: v})
    for k in ('N', 'M'):
        if isinstance(cfg[k], list):
            yield dict(cfg, **{k: cfg[k][0]})
            if len(cfg[k]) > 1:
                yield dict(cfg, **{k: cfg[k][:-1]})
    if cfg['iters'] > 1:
        yield dict(cfg, iters=cfg['iters'] - 1)
    if cfg.get('deps'):
        yield dict(cfg, deps=0.0)
    if cfg.get('max_traj'):
        yield dict(cfg, max_traj=0)


class Lost(Exception):
    """No particle can explain the data: there is no posterior to estimate from"""


class Run(object):
    """The estimation as the caller sees it"""

    def __init__(self, cfg, st):
        self.cfg, self.st = cfg, st
        self.m, self.u, self.y, self.a = est.prepare(cfg)
        if cfg['npint'] and not isinstance(cfg['N'], list):
            self.a['num_part'] = np.int64(cfg['N'])
        self.m.junk = cfg['junk']
        self.state = copy.deepcopy(self.m)
        self.user = {}
        self.alpha = self.a.get('alpha_gen')
        if cfg['est'] != 'EM' and self.alpha is not None:
            self.a['alpha_gen'] = self.alpha_gen
        if cfg['cb'] in ('both', 'cb') or cfg.get('stop'):
            self.a['callback'] = self.callback
        if cfg['cb'] in ('both', 'sim'):
            self.a['callback_sim'] = self.callback_sim
        self.w = seams.World(budget=4000000)
        self.w.hooks.append(self.hook)
        self.before = self.caller()
        self.e = est.CLASSES[cfg['est']](self.m, self.u, self.y)

    def caller(self):
        a = dict((k, v) for k, v in self.a.items() if not callable(v))
        a = scen.freeze(a)
        for k in ('num_part', 'num_traj'):
            a[k] = repr(self.a.get(k))
        return [a, scen.freeze(self.u), scen.freeze(self.y), len(self.u), len(self.y)]

    def unchanged(self, when):
        d = scen.diff(self.before, self.caller())
        if d:
            fail('caller', 'data of the caller was changed', when, ':', d)

    # everything that happens, in order
    def hook(self, phase, model, name, a, k, res):
        if phase == 'enter':
            if name == 'set_params':
                p = np.copy(seams.arg(name, a, k, 'params'))
                self.ev.append(['set', p, seams.real['get_state'](), copy.deepcopy(model)])
                self.current = p
            elif name in ('maximize', 'maximize_weighted'):
                if not any(np.any(np.isfinite(s.pa.w)) for s in self.e.pt.traj[-1:]):
                    raise Lost()
                self.trip('maximize')
            elif self.current is None or not np.array_equal(model.params, self.current):
                fail('parameters', name, 'is called with parameters', model.params, 'while', self.current, 'were set')
        elif name == 'maximize':
            e = model.book[-1]
            self.ev.append(['max', e[1], None, None, e[-1], e[2]])
        elif name == 'maximize_weighted':
            e = model.book[-1]
            self.ev.append(['max', e[1], e[2], e[3], e[-1], None])

    def trip(self, what):
        n = self.counts[what] = self.counts.get(what, -1) + 1
        f = self.user.get((what, n))
        if f:
            self.w._raise(f, ('user', what))

    def alpha_gen(self, it):
        self.trip('alpha')
        self.its.append(it)
        return self.alpha(it)

    def callback_sim(self, e):
        self.ev.append(['sim', scen.snap_pt(e.pt), scen.snap_straj(e.straj), copy.deepcopy(e.straj.traj)])
        self.trip('callback_sim')

    def callback(self, params, Q, cur_iter):
        self.ev.append(['cb', np.copy(params), params, cur_iter])
        self.trip('callback')
        if self.cfg.get('stop'):
            return sum(1 for v in self.ev if v[0] == 'cb') >= self.cfg['stop']
        # no opinion
        return None

    def go(self):
        """Run from the same random state and model state"""
        new = copy.deepcopy(self.state)
        for k in list(vars(self.m)):
            delattr(self.m, k)
        vars(self.m).update(vars(new))
        scen.real_seed(self.cfg['seed'] + 3)
        self.ev, self.its, self.counts, self.current = [], [], {}, None
        scen.relax(self.m, self.cfg['smoother'])
        if self.cfg['fam'] == 'Tag' and self.cfg['filter'] in scen.COND:
            self.m.strict = False
        with self.w:
            return self.e.maximize(**self.a)


def nth(v, i):
    return v if not isinstance(v, list) else v[min(i, len(v) - 1)]


def default_alpha(it):
    return 1 if it <= 100 else (it - 100) ** (-0.51)


def columns(steps):
    return np.stack(steps)


def lineages(pt):
    """All complete paths of the filter, written out"""
    steps = pt['steps']
    n = len(steps[-1][0])
    out = np.empty((len(steps), n, steps[0][0].shape[1]))
    for j in range(n):
        k = j
        for t in range(len(steps) - 1, -1, -1):
            out[t, j] = steps[t][0][k]
            k = steps[t][2][k] if t else k
    return out


def run(cfg, st):
    r = Run(cfg, st)
    kind = cfg['est']
    try:
        p, q = r.go()
    except Lost:
        st.probes['lost'] += 1
        return
    r.unchanged('by a complete run')
    base, its = r.ev, r.its
    st.runs += 1
    st.world(r.w)
    full = verify(cfg, st, r, base, its, p)
    total = r.w.ops
    result = outcome(base, p)
    st.trace(scen.digest(result))
    need(not np.shares_memory(p, r.a['param0']), 'caller', 'the result is the array of the caller')

    # again, on the same objects
    r.w.arm()
    p, q = r.go()
    d = scen.diff(result, outcome(r.ev, p))
    if d:
        fail('repeat', 'second estimation differs:', d)
    fired = 0
    for f in cfg['lib']:
        fired += broken(cfg, st, r, base, [[int(f[0] * total), f[1], f[2]]], {})
        r.unchanged('by a failed run')
    for f in cfg['user']:
        fired += broken(cfg, st, r, base, [], {(f[0], f[1]): f[2]})
        r.unchanged('by a failed run')
    if fired:
        r.user = {}
        r.w.arm()
        p, q = r.go()
        d = scen.diff(result, outcome(r.ev, p))
        if d:
            fail('repeat', 'estimation after a failed one differs:', d)
        st.runs += 1
        st.world(r.w)
    st.nontrivial = full >= 2 or fired > 0
    st.state(kind, cfg['filter'], cfg['smoother'], isinstance(cfg['N'], list), isinstance(cfg['M'], list),
             cfg.get('alpha'), bool(cfg.get('deps')), bool(cfg.get('max_traj')), cfg.get('rb'))


def outcome(ev, p):
    return [[[v[0]] + ([v[1], v[2]] if v[0] == 'sim' else [v[1], v[2], v[3], v[4]] if v[0] == 'max'
                       else [v[1]]) for v in ev], np.copy(p)]


def broken(cfg, st, r, base, lib, user):
    """A run that fails.  What happened before has to agree with the complete run."""
    r.user = user
    r.w.arm(lib)
    n = len(r.w.fired)
    try:
        r.go()
    except seams.BudgetExceeded:
        raise
    except BaseException:
        if len(r.w.fired) == n:
            raise
    else:
        if len(r.w.fired) > n:
            fail('swallowed', 'failure in', r.w.hit[-1], 'was not reported')
    r.user = {}
    if len(r.w.fired) == n:
        return 0
    st.state(cfg['est'], r.w.hit[-1])
    got, exp = outcome(r.ev, [0.0])[0], outcome(base, [0.0])[0]
    d = scen.diff(exp[:len(got)], got)
    if d:
        fail('repeat', 'a run that failed in', r.w.hit[-1], 'took another course before that:', d)
    st.probes['failed estimation'] += 1
    return 1


def verify(cfg, st, r, ev, its, result):
    kind = cfg['est']
    iters = cfg['iters']
    if cfg.get('stop'):
        iters = max(1, min(iters, cfg['stop']))
    has_cb, has_sim = 'callback' in r.a, 'callback_sim' in r.a
    per = ['set'] + ['sim'] * has_sim + ['max'] + ['cb'] * has_cb
    # the same parameters may be set more than once
    seq = []
    for v in ev:
        if v[0] == 'set' and seq and seq[-1][0] == 'set' and np.array_equal(seq[-1][1], v[1]):
            seq[-1] = v
        else:
            seq.append(v)
    need([v[0] for v in seq] == per * iters, 'order', iters, 'iterations:', [v[0] for v in seq])
    params = np.array(cfg['p0'])
    store = []               # [column, weight]
    cond = None
    if cfg['filter'] in scen.COND:
        cond = copy.deepcopy(r.a['filter_options']['cond_traj'])
    kept = []
    al = est.alpha(cfg) or default_alpha
    for i in range(iters):
        it = dict((v[0], v) for v in seq[i * len(per):(i + 1) * len(per)])
        need(np.array_equal(it['set'][1], params), 'parameters', 'iteration', i, 'uses', it['set'][1],
             'instead of', params)
        N, M = nth(cfg['N'], i), nth(cfg['M'], i)
        # the same E-step with the plain simulator
        pt, straj, traj = estep(cfg, r, it['set'], params, N, M, cond)
        st.runs += 1
        st.steps += len(pt['steps'])
        if has_sim:
            d = scen.diff([pt, straj], it['sim'][1:3])
            if d:
                fail('simulation', 'iteration', i, '(%d particles, %d trajectories):' % (N, M), d)
        mx = it['max']
        new = columns(straj['steps'])
        need(mx[1].shape[1] == M and len(pt['steps'][0][0]) == N, 'sizes', 'iteration', i,
             'uses', len(pt['steps'][0][0]), mx[1].shape[1], 'instead of', N, M)
        need(scen.same(mx[1], new), 'trajectories', 'iteration', i, 'M-step gets other trajectories than were simulated')
        if kind != 'EM':
            w = np.full(M, 1.0 / M)
            if cfg.get('rb') and kind == 'PSAEM':
                new = lineages(pt)
                w = ref.normalise(pt['steps'][-1][1])
            store = verify_weights(cfg, st, i, store, new, w, float(al(i)), mx[2], mx[3])
            if cond is not None and kind != 'SAEM':
                cond = traj
        params = mx[4]
        if has_cb:
            cb = it['cb']
            need(np.array_equal(cb[1], params), 'callback', 'iteration', i, 'callback gets', cb[1], 'not', params)
            kept.append(cb)
    need(np.array_equal(result, params), 'result', result, 'is not the last estimate', params)
    if has_cb and iters:
        no = [v[3] for v in kept]
        need(no == [k + (kind in ('PSAEM', 'PSAEM2')) for k in range(iters)], 'callback', 'iteration numbers', no)
        for v in kept:
            need(np.array_equal(v[1], v[2]), 'callback', 'parameters given to the callback were changed later')
    return iters


def estep(cfg, r, ev, params, N, M, cond):
    """Simulator with the settings of this iteration"""
    m = ev[3]
    state = seams.real['get_state']()
    seams.real['set_state'](ev[2])
    m.set_params(params)
    s = scen.Simulator(m, list(r.u), list(r.y))
    fo = None
    if cond is not None:
        fo = dict(cond_traj=copy.deepcopy(cond))
    elif cfg['est'] != 'EM' and r.a['filter_options'] is not None:
        fo = dict(r.a['filter_options'])
    so = r.a.get('smoother_options')
    s.simulate(N, M, filter=cfg['filter'], filter_options=fo, smoother=cfg['smoother'],
               smoother_options=None if so is None else dict(so), meas_first=cfg['mf'])
    seams.real['set_state'](state)
    return scen.snap_pt(s.pt), scen.snap_straj(s.straj), copy.deepcopy(s.straj.traj)


def keep_sets(cfg, w):
    """Admissible answers to which weights are kept (rounding may decide ties)"""
    if cfg['est'] == 'SAEM':
        return [w != 0.0]
    out = []
    for e1 in (0.0, 1e-12, -1e-12):
        perc = np.percentile(w, cfg['dperc']) * (1.0 + e1)
        low = w[w < perc]
        low = max(0.0, low.max()) if len(low) else 0.0
        for e2 in (0.0, 1e-12, -1e-12):
            keep = ~(w <= min(cfg['deps'], low) * (1.0 + e2))
            if cfg.get('max_traj') and np.sum(keep) > cfg['max_traj']:
                idx = np.flatnonzero(keep)
                keep[idx[:-cfg['max_traj']]] = False
            if not any(np.array_equal(keep, k) for k in out):
                out.append(keep)
    return out


def verify_weights(cfg, st, i, store, new, w, alpha, got, gw):
    """Weighted trajectories given to the M-step; returns the new store"""
    old = [[c, v * (1.0 - alpha)] for c, v in store]
    a = 1.0 if i == 0 else alpha
    allt = old + [[new[:, j], a * w[j]] for j in range(new.shape[1])]
    wv = np.array([v for _, v in allt])
    gw = np.asarray(gw)
    need(gw.ndim == 1 and got.shape[1] == len(gw), 'weights', 'iteration', i, got.shape[1], 'trajectories and',
         gw.shape, 'weights')
    need(gw >= 0.0, 'weights', 'iteration', i, 'negative weight', gw)
    need(abs(np.sum(gw) - 1.0) < 1e-9, 'weights', 'iteration', i, 'sum', np.sum(gw))
    why = ''
    for keep in keep_sets(cfg, wv):
        idx = np.flatnonzero(keep)
        ew = wv[idx] / np.sum(wv[idx])
        if len(idx) != len(gw):
            why = why or '%d trajectories instead of %d' % (len(gw), len(idx))
        elif not np.allclose(ew, gw, rtol=1e-8, atol=1e-12):
            why = why or 'weights %s instead of %s' % (gw, ew)
        else:
            bad = [j for j in range(len(idx)) if not scen.same(allt[idx[j]][0], got[:, j])]
            if bad:
                why = why or 'column %d belongs to another weight' % bad[0]
            else:
                if len(idx) < len(allt):
                    st.probes['discarded trajectories'] += 1
                if i and 0.0 < alpha < 1.0:
                    st.probes['aged weights'] += 1
                return [[allt[k][0], v] for k, v in zip(idx, ew)]
    fail('weights', 'iteration', i, 'alpha', alpha, ':', why)
