"""Online, preallocated, chunked and batch processing agree; data stay aligned"""
import numpy as np

from .. import scen, seams
from ..engine import fail, need
from ..scen import pick

ID = 'C04'
RULE = ('one seeded scenario (any model family, filter, smoother) executed by the batch interface, online, with '
        'preallocated storage and in chunks with smoothing in between; all results are compared bit by bit '
        'and every model call is checked for the input, measurement and time stamp it gets; non-trivial: '
        'at least two time steps')
STATES = 'distinct (family, filter, smoother, storage, chunking, missing pattern)'
QUICK, THOROUGH = 3000, 600


def gen(r, i):
    cfg = scen.gen_base(r, Tmax=9)
    cfg['extraT'] = int(pick(r, (0, 0, 1, 3)))
    cfg['chunks'] = sorted(int(k) for k in range(cfg['T']) if r.uniform() < 0.3)
    cfg['chunk_sm'] = pick(r, ('ancestor', 'full', 'own'))
    cfg['alloc'] = bool(r.randint(2))
    cfg['yarr'] = bool(r.randint(2))
    cfg['container'] = pick(r, ('list', 'array', 'tuple'))
    cfg['abort'] = [int(k) for k in cfg['chunks'] if r.uniform() < 0.3]
    cfg['abort_op'] = int(r.randint(25))
    cfg['case'] = pick(r, ('lower', 'upper', 'capitalize'))
    return cfg


class Align(object):
    """Every (nested) model call gets the data that belong together"""

    def __init__(self, cfg, u, y, st):
        self.cfg, self.st = cfg, st
        self.y, self.u = scen.align(u, y, cfg['mf'])
        self.used = {}

    def same(self, a, b):
        if a is None or b is None:
            return a is None and b is None
        return np.array_equal(np.ravel(np.asarray(a, dtype=float)), np.ravel(np.asarray(b, dtype=float)))

    def hook(self, model, name, a, k):
        sig = seams._SIG[name]
        if sig is None:
            sig = {'calc_xi_next': ('particles', 'u', 't', 'noise'), 'logp_xnext_xi': ('particles', 'xin', 'u', 't'),
                   'logp_xnext_xi_max': ('particles', 'u', 't'), 'measure_nonlin': ('particles', 'y', 't'),
                   'get_lin_pred_dynamics': ('particles', 'u', 't'),
                   'get_nonlin_pred_dynamics': ('particles', 'u', 't'),
                   'get_cross_covariance': ('particles', 'u', 't'),
                   'get_lin_meas_dynamics': ('particles', 'y', 't')}.get(name)
            if sig is None:
                sig = {'get_pred_dynamics': ('u', 't'), 'get_meas_dynamics': ('y', 't')}.get(name) \
                    if self.cfg['fam'] == 'LT' else \
                    {'get_meas_dynamics': ('particles', 'y', 't')}.get(name)
            if sig is None:
                return
        if 't' not in sig or 'ptraj' in sig:
            return
        g = lambda w: k[w] if w in k else (a[sig.index(w)] if sig.index(w) < len(a) else None)
        t = g('t')
        if t is None or t != int(t) or not 0 <= int(t) < len(self.y):
            fail('alignment', name, 'called with time stamp', t)
        t = int(t)
        if 'u' in sig:
            if not (t < len(self.u) and self.same(g('u'), self.u[t])):
                fail('alignment', name, 'at time', t, 'with input', g('u'), 'instead of',
                     self.u[t] if t < len(self.u) else 'nothing')
        if 'y' in sig:
            # first stage weights and proposals look one step ahead
            ty = t + 1 if name in ('eval_1st_stage_weights', 'qsample', 'logp_q') else t
            yy = g('y')
            if name in ('get_meas_dynamics', 'get_lin_meas_dynamics') and yy is None:
                return
            # the predicted measurement of the next step is also legitimate for
            # models computing first stage weights from it
            if not (0 <= ty < len(self.y) and self.same(yy, self.y[ty])):
                fail('alignment', name, 'at time', t, 'with measurement', yy, 'instead of',
                     self.y[ty] if ty < len(self.y) else 'nothing')

    def count(self, phase, model, name, a, k, res):
        """Particles moved with input k / weighed with measurement k"""
        if phase != 'enter':
            return
        key = None
        if name == 'update_full':
            key = ('u', len(seams.arg(name, a, k, 'uvec')) - 1)
        elif name == 'qsample':
            key = ('u', int(seams.arg(name, a, k, 't')))
        elif name == 'measure_full':
            key = ('y', len(seams.arg(name, a, k, 'yvec')) - 1)
        elif name == 'measure':
            key = ('y', int(seams.arg(name, a, k, 't')))
        elif name == 'propose_from_y':
            key = ('p', int(seams.arg(name, a, k, 't')))
        if key is not None:
            self.used[key] = self.used.get(key, 0) + seams._count(name, a, k)

    def judge(self):
        N, f = self.cfg['N'], self.cfg['filter']
        exp = {}
        T = len(self.y)
        for t in range(T):
            if f in ('pfy', 'cpfyas'):
                if t or self.cfg['mf']:
                    exp[('p', t)] = N
            else:
                if t + 1 < T:
                    exp[('u', t)] = N
                if self.y[t] is not None:
                    exp[('y', t)] = N
        got = dict((k, v) for k, v in self.used.items())
        need(got == exp, 'used-once', 'filter', f, 'particles per input (u), measurement (y), proposal (p)',
             got, 'instead of', exp)


def run(cfg, st):
    def fresh(cont=False):
        m = scen.model(cfg)
        u, y = scen.data(cfg, m)
        scen.real_seed(cfg['seed'])
        fo = scen.filter_options(cfg, m, u, y)
        w = seams.World(budget=3000000)
        al = Align(cfg, u, y, st)
        if cfg['fam'] != 'Tag':
            w.inner.append(al.hook)
        if cont and cfg['container'] == 'tuple':
            u, y = tuple(u), tuple(y)
        elif cont and cfg['container'] == 'array' and not cfg['miss'] and not cfg['unone'] and cfg['fam'] != 'HMM':
            u, y = np.asarray(u), np.asarray(y)
        return m, u, y, fo, w, al

    def finish(pt, straj, w, what):
        st.runs += 1
        st.world(w)
        st.steps += len(pt.traj)
        scen.wellformed(pt, cfg['N'])
        if straj is not None:
            need(len(straj.traj) == len(pt.traj), 'smoothed-length', what)
        return [scen.snap_pt(pt), scen.snap_straj(straj), int(np.random.randint(1 << 30))]

    # batch
    m, u, y, fo, w, al = fresh(True)
    w.hooks.append(al.count)
    with w:
        sim = scen.Simulator(m, scen.inputs(cfg, u), y)
        scen.relax(m, None)
        n = sim.simulate(cfg['N'], 0, filter=cfg['filter'], filter_options=fo, smoother=None,
                         res=cfg['res'], meas_first=cfg['mf'])
        w.hooks.remove(al.count)
        al.judge()
        straj = scen.smooth(cfg, sim.pt)
    base = finish(sim.pt, straj, w, 'batch')
    ys, us = scen.align(u, y, cfg['mf'])
    rec = base[0]
    need(len(rec['steps']) == len(ys), 'length', len(rec['steps']), 'steps for', len(ys))
    for t in range(len(ys)):
        need(rec['t'][t] == t, 'recorded', 'time stamp', t, 'is', rec['t'][t])
        if not (t == 0 and not cfg['mf']):
            need(al.same(rec['y'][t], ys[t]), 'recorded', 'measurement', t, 'is', rec['y'][t], 'not', ys[t])
        if t < len(us):
            need(al.same(rec['u'][t], us[t]), 'recorded', 'input', t, 'is', rec['u'][t], 'not', us[t])

    def compare(got, what):
        d = scen.diff(base, got)
        if d:
            fail('differs', what, 'from batch:', d)

    # one call of the batch interface that does both
    m, u, y, fo, w, al = fresh()
    with w:
        sim = scen.Simulator(m, scen.inputs(cfg, u), y)
        scen.simulate(cfg, sim, fo)
    compare(finish(sim.pt, sim.straj, w, 'batch with smoother'), 'batch with smoother')
    if sim.straj is not None:
        e = sim.get_smoothed_estimates()
        mean = sim.get_smoothed_mean()
        for t, s in enumerate(sim.straj.traj):
            need(np.array_equal(e[t], s.pa.part), 'smoothed-estimates', 'step', t)
            need(np.abs(mean[t] - s.pa.part.mean(0)) <= 1e-9 * (1 + np.abs(s.pa.part).max(0)),
                 'smoothed-estimates', 'mean of step', t)

    # online, one measurement at a time, storage preallocated or not
    for T in ((None, len(ys) + cfg['extraT']) if cfg['alloc'] else (None, max(1, len(ys) - 1))):
        m, u, y, fo, w, al = fresh()
        # filter names are accepted in any case
        pt = scen.trajectory(dict(cfg, filter=getattr(cfg['filter'], cfg['case'])()), m, fo, T=T)
        flags = []
        w.hooks.append(al.count)
        with w:
            for i, s in enumerate(scen.steps(cfg, u, y)):
                r = scen.apply(pt, s)
                if s[0] == 'forward':
                    flags.append(bool(r))
            w.hooks.remove(al.count)
            al.judge()
            straj = scen.smooth(cfg, pt)
        compare(finish(pt, straj, w, 'online'), 'online, T=%s,' % T)
        need(sum(flags) == n, 'differs', 'resampling count', n, 'online', flags)
        st.state(cfg['fam'], cfg['filter'], cfg['smoother'], T is not None, tuple(cfg['miss']), cfg['mf'])

    # in chunks, smoothing what is there in between
    m, u, y, fo, w, al = fresh()
    pt = scen.trajectory(cfg, m, fo)
    with w:
        for i, s in enumerate(scen.steps(cfg, u, y)):
            scen.relax(m, None)
            scen.apply(pt, s)
            if i in cfg['chunks']:
                state = np.random.get_state()
                if i in cfg['abort']:
                    # this smoothing attempt is interrupted
                    w.arm([(cfg['abort_op'], 'before', 'KeyboardInterrupt')])
                    try:
                        pt.perform_smoothing(2 if cfg['fam'] != 'LT' else 1, method='full')
                    except KeyboardInterrupt:
                        st.probes['interrupted in between'] += 1
                    w.arm()
                if cfg['chunk_sm'] == 'own' and cfg['smoother']:
                    part = scen.smooth(cfg, pt)
                else:
                    sm = 'ancestor' if cfg['chunk_sm'] == 'own' else cfg['chunk_sm']
                    part = pt.perform_smoothing(2 if cfg['fam'] != 'LT' else 1, method=sm)
                need(len(part.traj) == len(pt.traj), 'smoothed-length', 'after chunk', i)
                np.random.set_state(state)
                st.probes['smoothed in between'] += 1
        straj = scen.smooth(cfg, pt)
    if cfg['fam'] != 'Tag' or not cfg['chunks']:
        compare(finish(pt, straj, w, 'chunks'), 'in chunks')
    st.nontrivial = cfg['T'] >= 2
    st.trace(scen.digest(base))
    st.state(cfg['fam'], cfg['filter'], cfg['smoother'], 'chunks', len(cfg['chunks']))
