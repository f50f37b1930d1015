"""Weights follow the importance-weight recursion, step by step"""
import numpy as np

from .. import ref, scen, seams
from ..engine import fail, need
from ..scen import pick

ID = 'C05'
RULE = ('one seeded online run of one unconditional filter (finite-state or nonlinear-Gaussian model, '
        'swarm-chosen size, drop-outs, outliers, failed attempts, extreme draws); after each call the '
        'recorded weights are compared with the recursion evaluated particle by particle; non-trivial: '
        'at least two calls with a measurement and more than one particle')
STATES = 'distinct (filter, family, resampled, missing, sign of outlier, Neff bucket) per step'
QUICK, THOROUGH = 8000, 500


def gen(r, i):
    cfg = scen.gen_base(r, fams=('HMM', 'LG'), filters=scen.UNCOND, Tmax=12,
                        Nmax=int(pick(r, (2, 9, 30))), no_smoother=1.0)
    if cfg['fam'] == 'HMM' and r.uniform() < 0.5:
        # hugely negative, widely spread or impossible likelihoods
        S = cfg['mk']['S']
        cfg['mk']['wild'] = dict(
            (str(t), [float(pick(r, (0.0, -5.0, -300.0, -800.0, -1e5, 1e5, 3e8, -3e8))) for _ in range(S)])
            for t in range(cfg['T'] + 1) if r.uniform() < 0.5)
        if r.uniform() < 0.5:
            cfg['mk']['sparse'] = float(pick(r, (0.3, 0.5)))
    if cfg['fam'] == 'LG' and r.uniform() < 0.5:
        cfg['outlier'] = [[int(t), float(pick(r, (30.0, -1e3, 1e4)))] for t in range(cfg['T']) if r.uniform() < 0.4]
    cfg['extra'] = [int(t) for t in range(cfg['T']) if r.uniform() < 0.1]
    cfg['faults'] = scen.gen_faults(r, cfg, p=0.15)
    cfg['ext'] = scen.gen_extreme(r, 0.2)
    cfg['fill'] = float(pick(r, (0.0, 1e300, -1e3))) if r.uniform() < 0.5 else None
    return cfg


def run(cfg, st):
    if cfg.get('fill') is not None:
        seams.Entropy.set(cfg['seed'], fill=cfg['fill'])
    d = scen.Drive(cfg, st)
    m, y, pt = d.m, d.y, d.pt
    for i, off in cfg.get('outlier', []):
        if i < len(y) and y[i] is not None:
            y[i] = y[i] + off
    d.calls = scen.steps(cfg, d.u, y)
    used = 0
    for i, call in enumerate(d.calls):
        before = None if not pt.traj else (np.copy(pt.traj[-1].pa.part), np.copy(pt.traj[-1].pa.w))
        if before is None and call[0] == 'forward':
            before = 'initial'
        d.step(i)
        if before == 'initial':
            s0 = pt.traj[0]
            need(np.ptp(s0.pa.w) <= 1e-12, 'weights', 'initial weights', s0.pa.w)
            before = (np.copy(s0.pa.part), np.copy(s0.pa.w))
        used += call[-1] is not None
        if not judge(cfg, st, m, pt, before, call, d.flags[-1] if call[0] == 'forward' else None):
            st.probes['all particles impossible'] += 1
            st.runs += 1
            st.world(d.w)
            return
        if i in cfg.get('extra', []) and cfg['filter'] != 'pfy':
            # another measurement of the state just estimated
            yy = y[int(cfg['yseed']) % len(y)]
            before = (np.copy(pt.traj[-1].pa.part), np.copy(pt.traj[-1].pa.w))
            scen.relax(m, None)
            with d.w:
                d.w.arm()
                pt.measure(yy)
            st.probes['second measurement of a state'] += 1
            if not judge(cfg, st, m, pt, before, ('measure', yy), None):
                st.runs += 1
                return
    d.done()
    estimates(cfg, d, st)
    st.nontrivial = used >= 2 and cfg['N'] > 1


def judge(cfg, st, m, pt, before, call, flag):
    """False if the step leaves nothing to judge (all weights zero)"""
    N, filt = cfg['N'], cfg['filter']
    s = pt.traj[-1]
    t = len(pt.traj) - 1
    yv = call[-1]
    x = s.pa.part
    base = np.zeros(N)
    corr = np.zeros(N)
    terms = []      # everything that is added up: its size decides the round-off

    def each(fun):
        v = np.array([fun(i) for i in range(N)], dtype=float)
        terms.append(v)
        return v
    if call[0] == 'measure':
        if before is not None:
            base = before[1] - np.max(before[1])
        if yv is not None and filt != 'pfy':
            corr = each(lambda i: m.d_meas(x[i], yv, t))
    else:
        px, pw = before
        pw = pw - np.max(pw)
        a = np.asarray(s.ancestors)
        if not flag:
            base = pw
            need(a == np.arange(N), 'weights', 'not resampled but ancestors', a)
        if filt in ('pf', 'apf') and yv is not None:
            corr = each(lambda i: m.d_meas(x[i], yv, t))
            if filt == 'apf' and flag:
                corr = corr - each(lambda i: m.d_first(px[a[i]], call[1], yv, t - 1))
        elif filt == 'sir':
            corr = (each(lambda i: m.d_trans(px[a[i]], x[i], call[1], t - 1))
                    - each(lambda i: m.d_q(px[a[i]], x[i], call[1], yv, t - 1)))
            if yv is not None:
                corr = corr + each(lambda i: m.d_meas(x[i], yv, t))
        elif filt == 'pfy':
            corr = each(lambda i: m.d_trans(px[a[i]], x[i], call[1], t - 1))
    e = base + corr
    if np.any(np.isnan(corr)) or not np.any(np.isfinite(e)) or not np.any(np.isfinite(corr)):
        return False
    exp = ref.normalise(e)
    w = np.asarray(s.pa.w, dtype=float)
    need(not np.any(np.isnan(w)), 'weights-nan', 'step', t, 'weights', w)
    need(np.isfinite(np.max(w)), 'weights-nan', 'step', t, 'log weights', w)
    got = ref.normalise(w)
    fin = np.concatenate([np.abs(v[np.isfinite(v)]) for v in terms + [base, corr]] + [[1.0]])
    tol = 1e-8 + 1e-14 * np.max(fin)
    bad = np.abs(got - exp) > tol * (exp + 1e-3)
    need(not np.any(bad), 'weights', 'step', t, call[0], 'filter', filt, 'weights', got, 'instead of', exp,
         'resampled' if flag else '')
    st.state(filt, cfg['fam'], flag, yv is None, bool(np.max(fin) > 100), int(4 * ref.neff(exp) / N),
             bool(np.any(np.isneginf(e))))
    if np.any(np.isneginf(e)):
        st.probes['impossible particle'] += 1
    if np.max(fin) > 1e5:
        st.probes['huge log-likelihood'] += 1
    return True


def estimates(cfg, d, st):
    """Reported estimates are the recorded particles under these weights"""
    pt = d.pt
    sim = scen.Simulator(d.m, d.u, d.y)
    sim.pt = pt
    est, w = sim.get_filtered_estimates()
    mean = sim.get_filtered_mean()
    need(len(est) == len(pt.traj) and len(w) == len(pt.traj) and len(mean) == len(pt.traj),
         'estimates', 'lengths')
    for t, s in enumerate(pt.traj):
        W = scen.weights(s)
        need(np.array_equal(est[t], s.pa.part), 'estimates', 'step', t, 'particles', est[t], 'recorded', s.pa.part)
        need(np.abs(w[t] - W) <= 1e-9, 'estimates', 'step', t, 'weights', w[t], 'recorded', W)
        mm = W.dot(s.pa.part)
        need(np.abs(mean[t] - mm) <= 1e-8 * (1 + np.abs(s.pa.part).max(0)), 'estimates',
             'step', t, 'mean', mean[t], 'instead of', mm)
        if t >= len(pt.traj) - 2:
            approximation(s.pa, W, t, st)


def approximation(pa, W, t, st):
    """Most likely particles and random draws an approximation reports"""
    N = len(W)
    if not np.all(np.isfinite(W)):
        return
    for n in sorted(set((1, (N + 1) // 2, N))):
        best = np.asarray(pa.find_best_particles(n))
        need(len(best) == n and len(set(best.tolist())) == n, 'best', 'step', t, n, 'best particles', best)
        need(np.abs(W[best] - np.sort(W)[::-1][:n]) <= 1e-12, 'best', 'step', t, 'weights', W, n, 'best', best)
        # also among those whose probabilities are too small to tell apart
        lw = np.maximum(np.asarray(pa.w, dtype=float), -1e300)
        need(np.abs(lw[best] - np.sort(lw)[::-1][:n]) <= 1e-12 * np.abs(lw[best]), 'best', 'step', t,
             'log-weights', pa.w, n, 'best', best)
    # equal particles count as one
    x = np.asarray(pa.part).reshape((N, -1))
    val, cat = np.unique(x, axis=0, return_inverse=True)
    q = np.bincount(np.ravel(cat), weights=W, minlength=len(val))

    def draw(stage, size):
        u = []
        for _ in range(60 * size):
            k = np.nonzero(np.all(val == np.ravel(pa.sample()), axis=1))[0]
            need(len(k) == 1 and q[k[0]] > 0, 'draw', 'step', t, 'weights', W, 'drawn', k)
            u.append(ref.pit(q, int(k[0]), np.random.uniform()))
        return ref.uniform_p(u), len(u)
    ps, info = ref.escalate(draw)
    need(info is None, 'draw', 'step', t, 'weights', W, 'draws do not follow them', ps, info)
    st.probes['draws from an approximation'] += 1
