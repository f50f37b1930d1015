"""Resampling: exactly when needed, faithful, for every value of the random source"""
import copy
import math

import numpy as np
from scipy.special import bdtr, bdtrc

from .. import ref, scen, seams
from ..engine import fail, need
from ..scen import pick

ID = 'C06'
RULE = ('one seeded online run of one unconditional filter with extreme random draws and failed attempts, '
        'every step judged on threshold, copy counts, equal weights; every 8th case forks one resampling '
        'step many times with fresh streams and tests the expected copies; non-trivial: at least one '
        'step resampled')
STATES = 'distinct (filter, family, N, copy-count pattern, missing) per resampling step'
QUICK, THOROUGH = 6000, 500


def gen(r, i):
    fams = ('HMM', 'LG', 'ML', 'MM', 'HI', 'Tag', 'HMM', 'LG')
    cfg = scen.gen_base(r, fams=fams, filters=scen.UNCOND, Tmax=10,
                        Nmax=int(pick(r, (3, 9, 40))), no_smoother=1.0)
    if cfg['fam'] in ('ML', 'MM', 'HI'):
        cfg['N'] = min(cfg['N'], 9)
        cfg['T'] = min(cfg['T'], 5)
    cfg['res'] = float(pick(r, (0.0, 0.2, 0.5, 0.67, 0.9, 0.999, 1.0)))
    if r.uniform() < 0.08:
        cfg['res'], cfg['dres'] = 2.0 / 3.0, True
    elif r.uniform() < 0.12:
        # equal weights, the threshold may be met exactly
        cfg['N'] = int(pick(r, (1, 2, 4, 8)))
        cfg['res'] = float(pick(r, (0.5, 1.0, 1.0)))
        cfg['miss'] = [k for k in range(cfg['T']) if r.uniform() < 0.8]
    if cfg['fam'] == 'HMM':
        cfg['mk']['sparse'] = float(pick(r, (0.0, 0.3, 0.6)))
        if r.uniform() < 0.3:
            S = cfg['mk']['S']
            cfg['mk']['wild'] = dict((str(t), [float(pick(r, (0.0, -2.0, -400.0, 900.0))) for _ in range(S)])
                                     for t in range(cfg['T'] + 1) if r.uniform() < 0.6)
    cfg['faults'] = scen.gen_faults(r, cfg, p=0.15)
    cfg['ext'] = scen.gen_extreme(r, 0.5)
    cfg['forks'] = 1 if i % 8 == 0 else 0
    if cfg['forks']:
        cfg['ext'] = None
        cfg['N'] = int(max(cfg['N'], 3))
        cfg['res'] = float(pick(r, (0.9, 1.0)))
    return cfg


def adjusted(cfg, m, s, t, call):
    """Normalised weights the resampling decision is based on"""
    lw = np.asarray(s.pa.w, dtype=float)
    lw = lw - np.max(lw)
    if cfg['filter'] == 'apf' and call[2] is not None:
        with np.errstate(all='ignore'):
            w = seams.world()
            seams._tls.world = None
            try:
                l1 = np.array([float(np.ravel(m.eval_1st_stage_weights(
                    np.copy(s.pa.part[i:i + 1]), call[1], call[2], t))[0]) for i in range(cfg['N'])])
            finally:
                seams._tls.world = w
        lw = lw + l1
    if not np.any(np.isfinite(lw)) or np.any(np.isnan(lw)):
        return None
    return ref.normalise(lw)


def run(cfg, st):
    d = scen.Drive(cfg, st)
    m, pt, N = d.m, d.pt, cfg['N']
    saved = None
    for i, call in enumerate(d.calls):
        if call[0] == 'measure':
            d.step(i)
            if not ok_weights(pt):
                st.runs += 1
                return
            continue
        if not pt.traj:
            # the initial estimate is created by this call
            flag = d.step(i)
            W = adjusted(cfg, m, pt.traj[0], 0, call)
            judge(cfg, st, pt, W, bool(flag), call)
            if not ok_weights(pt):
                st.runs += 1
                return
            continue
        W = adjusted(cfg, m, pt.traj[-1], len(pt.traj) - 1, call)
        if W is None:
            st.runs += 1
            return
        fork = cfg['forks'] and saved is None and ref.neff(W) < 0.9 * cfg['res'] * N
        if fork:
            saved = (copy.deepcopy(pt), call, W)
        flag = d.step(i)
        need(isinstance(flag, (bool, np.bool_)), 'flag', 'forward returned', repr(flag))
        judge(cfg, st, pt, W, bool(flag), call)
        if not ok_weights(pt):
            st.runs += 1
            return
    d.done()
    batch(cfg, d, st)
    if saved is not None:
        expectation(cfg, saved, st)


def ok_weights(pt):
    w = np.asarray(pt.traj[-1].pa.w, dtype=float)
    return np.isfinite(np.max(w))


def judge(cfg, st, pt, W, flag, call):
    N, res = cfg['N'], cfg['res']
    ne = ref.neff(W)
    s = pt.traj[-1]
    a = np.asarray(s.ancestors)
    if res == 0.0:
        need(not flag, 'threshold', 'resampled with threshold 0')
    elif abs(ne - res * N) > 1e-9 * N:
        need(flag == (ne < res * N), 'threshold', 'effective number', ne, 'of', N, 'threshold', res,
             'returned', flag)
    elif tied(cfg, W, call):
        need(not flag, 'threshold', 'resampled although the effective number', ne, 'of', N,
             'is not below the threshold', res)
        st.probes['threshold hit exactly'] += 1
    if flag:
        cnt = np.bincount(a, minlength=N)
        need(len(cnt) == N and cnt.sum() == N, 'count', 'copies', cnt)
        eps = 1e-9 * N
        lo, hi = np.floor(N * W - eps), np.ceil(N * W + eps)
        need((cnt >= lo) & (cnt <= hi), 'copies', 'weights', W, 'copies', cnt)
        need(cnt[W == 0.0] == 0, 'zero-weight', 'weights', W, 'copies', cnt)
        st.nontrivial = True
        st.state(cfg['filter'], cfg['fam'], N, tuple(sorted(cnt.tolist())), call[2] is None)
        if np.any(W == 0.0):
            st.probes['zero weights when resampling'] += 1
        if call[2] is None and cfg['filter'] in ('pf', 'apf'):
            w = np.asarray(s.pa.w)
            need(np.ptp(w) <= 1e-12, 'equal', 'weights after resampling', w)
            st.probes['resampled without measurement'] += 1
    else:
        need(np.array_equal(a, np.arange(N)), 'ancestors', 'without resampling', a)


def tied(cfg, W, call):
    """Is the effective number exactly the threshold, without rounding errors?"""
    if cfg['filter'] == 'apf' and call[2] is not None and cfg['N'] > 1:
        return False
    n = int(np.sum(W > 0.0))
    return len(np.unique(W[W > 0.0])) == 1 and n & (n - 1) == 0 and cfg['res'] * cfg['N'] == n


def batch(cfg, d, st):
    """The batch run counts the same resampling steps"""
    if any(d.w.fired) or cfg['fam'] == 'Tag':
        return
    m = scen.model(cfg)
    u, y = scen.data(cfg, m)
    scen.real_seed(cfg['seed'])
    fo = scen.filter_options(cfg, m, u, y)
    w = seams.World(budget=2000000)
    if cfg.get('ext'):
        w.extreme = (seams.real['RandomState'](cfg['ext'][0]), cfg['ext'][1])
    with w:
        sim = scen.Simulator(m, scen.inputs(cfg, u), y)
        n = sim.simulate(cfg['N'], 0, filter=cfg['filter'], filter_options=fo, smoother=None,
                         res=cfg['res'], meas_first=cfg['mf'])
    st.runs += 1
    exp = sum(d.flags)
    need(n == exp, 'batch-count', 'batch run reports', n, 'online run', d.flags)


def binom_p(k, n, p):
    """Two-sided p-value of k successes in n trials"""
    hi = 1.0 if k == 0 else bdtrc(k - 1, n, p)
    return min(1.0, 2.0 * min(bdtr(k, n, p), hi))


def expectation(cfg, saved, st):
    """Expected number of copies is proportional to the weight"""
    pt0, call, W = saved
    N = cfg['N']
    with np.errstate(all='ignore'):
        frac = N * W - np.floor(N * W)
    idx = [i for i in range(N) if 0.03 < frac[i] < 0.97]
    if not idx:
        return
    idx = idx[:12]

    def test(stage, size):
        R = 150 * size
        cnt = np.zeros(N)
        for k in range(R):
            pt = copy.deepcopy(pt0)
            scen.real_seed(cfg['seed'] + 7919 * (k + 1) + 104729 * stage)
            if not scen.apply(pt, call):
                fail('threshold', 'not resampled')
            cnt += np.bincount(pt.traj[-1].ancestors, minlength=N)
        st.runs += R
        st.steps += R
        # copies beyond the guaranteed ones are Bernoulli
        extra = cnt - R * np.floor(N * W)
        p = 1.0
        info = None
        for i in idx:
            e = int(extra[i])
            pv = 0.0 if e < 0 or e > R else binom_p(e, R, frac[i])
            if pv * len(idx) < p:
                p = pv * len(idx)
                info = 'particle %d: expected %.4f copies, mean of %d runs %.4f' % (i, N * W[i], R, cnt[i] / R)
        return p, info
    ps, info = ref.escalate(test)
    st.probes['expected copies tested'] += 1
    if info:
        fail('expectation', info, 'p-values', ps)
