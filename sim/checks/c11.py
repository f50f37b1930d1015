"""Metropolis-Hastings smoothers leave the exact target invariant"""
import numpy as np

from scipy.special import gammainc, gammaincc, ndtr

from .. import ref, scen, seams
from ..engine import fail, need
from ..scen import pick
from . import c08

ID = 'C11'
RULE = ('finite-state systems whose smoothing distribution is enumerated; inv: trajectories drawn from it, sweeps '
        'must preserve it; conv: all trajectories start on one arbitrary path, after enough sweeps (judged by the '
        'exact spectrum of a reference kernel) they must follow it; bp: the backward proposer, run long enough, '
        'must follow the backward law given the weighted filter particles; ginv, gbp: the same two for linear-Gaussian '
        'systems run as nonlinear-Gaussian, mixed or hierarchical models, with the exact Gaussian law of the sampled '
        'states; odd: failing calls, extreme draws and '
        'drop-outs with every model family must end with finite trajectories; non-trivial: more than one step '
        'and at least one measurement')
STATES = 'distinct (mode, smoother, filter, M, steps, missing first/last) reached'
QUICK, THOROUGH = 1200, 600


def gen(r, i):
    mode = pick(r, ('inv', 'inv', 'conv', 'conv', 'bp', 'bp', 'odd', 'odd', 'ginv', 'ginv', 'ginv', 'gbp'))
    if mode[0] == 'g':
        return gauss(r, mode)
    if mode == 'odd':
        cfg = scen.gen_base(r, smoothers=scen.MHSM, no_smoother=0.0, Tmax=6, fams=('HMM', 'LG', 'ML', 'MM', 'HI', 'Tag'))
        cfg['sfaults'] = [[int(r.randint(60)), pick(r, ('before', 'after', 'torn')), 'Injected']
                          for _ in range(int(r.randint(0, 3)))]
        cfg['ext'] = scen.gen_extreme(r, 0.5)
    else:
        cfg = scen.gen_base(r, fams=('HMM',), no_smoother=0.0, miss=(0.0, 0.0, 0.3, 0.6, 1.0),
                            smoothers=('mhbp',) if mode == 'bp' else ('mhips', 'mhips_reduced'))
        k = cfg['mk']
        k['S'], k['sparse'], k['conc'] = int(r.randint(2, 4)), 0.0, float(pick(r, (1.0, 3.0)))
        cfg['T'] = int(r.randint(1, 4))
        cfg['M'] = int(pick(r, (1, 2, 3, 20, 100, 100, 100, 100) if mode == 'bp' else (1, 2, 60, 60)))
        # also forget single measurements at the ends
        for t in (0, cfg['T'] - 1):
            if r.uniform() < 0.15:
                cfg['miss'] = sorted(set(cfg['miss']) | {t})
        cfg['so'] = dict(R=int(pick(r, (1, 2, 5))))
    cfg['miss'] = [k for k in cfg['miss'] if k < cfg['T']]
    cfg['mode'] = mode
    return cfg


def gauss(r, mode):
    sm = ('mhbp',) if mode == 'gbp' else ('mhips', 'mhips_reduced')
    fam = 'LG' if mode == 'gbp' else pick(r, ('LG', 'ML', 'ML', 'MM', 'MM', 'HI'))
    cfg = scen.gen_base(r, fams=(fam,), no_smoother=0.0, filters=('pf', 'apf'), smoothers=sm,
                        miss=(0.0, 0.0, 0.3, 0.6))
    k = cfg['mk']
    if fam == 'LG':
        k['n'] = int(r.randint(1, 3))
        k['ny'] = int(r.randint(1, k['n'] + 1))
        k['nonlin'] = 0.0
        k.pop('P0', None)
    else:
        k['lxi'], k['lz'], k['ny'], k['flat'] = int(r.randint(1, 3)), int(r.randint(1, 3)), int(r.randint(1, 3)), True
    cfg['T'] = int(r.randint(1, 4 if fam == 'LG' else 3)) + (1 if cfg['mf'] else 0)
    cfg['M'] = int(pick(r, (20, 60))) if mode == 'gbp' else int(pick(r, (50, 150)))
    cfg['so'] = dict(R=int(pick(r, (1, 1, 2))))
    cfg['miss'] = [t for t in cfg['miss'] if t < cfg['T']]
    cfg['mode'] = mode
    return cfg


def valid(cfg):
    if cfg['mode'][0] == 'g':
        k = cfg['mk']
        return cfg['T'] >= 1 and cfg['M'] >= 5 and k['ny'] >= 1 and (
            k['nonlin'] == 0.0 and k['n'] >= k['ny'] and k.get('P0', True) if cfg['fam'] == 'LG' else
            k['flat'] and k['lxi'] >= 1 and k['lz'] >= 1)
    return cfg['T'] >= 1 and cfg['M'] >= 1 and (cfg['mode'] == 'odd' or cfg['mk']['S'] >= 2)


def run(cfg, st):
    n = cfg['T'] + (0 if cfg['mf'] else 1)
    st.state(cfg['mode'], cfg['fam'], cfg['smoother'], cfg['filter'], cfg['M'], n, 0 in cfg['miss'],
             cfg['T'] - 1 in cfg['miss'], cfg['mf'])
    dict(inv=inv, conv=conv, bp=bp, odd=odd, ginv=ginv, gbp=gbp)[cfg['mode']](cfg, st)
    st.nontrivial = n > 1 and len(cfg['miss']) < cfg['T']


def setup(cfg, st):
    d = scen.Drive(cfg, st, budget=10 ** 8)
    for i in range(len(d.calls)):
        d.step(i)
    if any(np.any(np.isnan(s.pa.w)) for s in d.pt.traj):
        st.probes['all particles impossible'] += 1
    return d


def again(cfg, d, seed, so):
    scen.real_seed(seed)
    with seams.World(budget=10 ** 8):
        return d.pt.perform_smoothing(cfg['M'], method=cfg['smoother'], smoother_options=so)


def index(s, shape, slots=None):
    p = np.array([step.pa.part[:, 0].astype(int) for step in s.traj])
    if slots is not None:
        p = p[:, slots]
    need(np.all((p >= 0) & (p < shape[0])), 'malformed', p)
    return np.ravel_multi_index(p, shape)


def plant(d, paths):
    """Replace the filter's result by trajectories with equal weights, one per particle"""
    M = paths.shape[1]
    for t, s in enumerate(d.pt.traj):
        s.pa.part = paths[t].astype(float)[:, None].copy()
        s.pa.w = np.full(M, -np.log(M))
        s.pa.num = M
        s.ancestors = np.arange(M)


def judge(cfg, st, obs_for, p, what):
    flat = p.ravel()

    def test(stage, size):
        obs, K = np.zeros(len(flat)), 0
        while K < (1000 if cfg["M"] > 20 else 150) * size:
            i = obs_for()
            np.add.at(obs, i, 1)
            K += len(i)
            st.runs += 1
        st.trace(scen.digest(obs))
        return ref.chi2_p(obs, K * flat), (obs.tolist(), (K * flat).round(1).tolist())
    ps, info = ref.escalate(test)
    need(info is None, 'law', cfg['smoother'], what, 'M', cfg['M'], 'p', ps, info)


def inv(cfg, st):
    d = setup(cfg, st)
    m, M = d.m, cfg['M']
    post = m.posterior_paths(d.u, d.y, cfg['mf'])
    rr = np.random.RandomState(cfg['seed'] % 999983)

    def one():
        start = rr.choice(post.size, size=M, p=post.ravel())
        plant(d, np.array(np.unravel_index(start, post.shape)))
        st.steps += post.ndim
        return index(again(cfg, d, int(rr.randint(1 << 30)), dict(cfg['so'])), post.shape)
    judge(cfg, st, one, post, 'does not preserve the smoothing distribution')


def single_site(m, post, smoother, us):
    """Kernel of one backward pass of single-site Metropolis moves with the model's
    proposals, used only to decide how many passes are enough"""
    S, n = m.S, post.ndim
    p = post.ravel()
    idx = np.array(np.unravel_index(np.arange(p.size), post.shape)).T
    K = np.eye(p.size)
    for t in range(n - 1, -1, -1):
        k = np.zeros((p.size, p.size))
        for a in range(p.size):
            prev = np.array([idx[a][t - 1]]) if t else None
            nxt = np.array([idx[a][t + 1] if t + 1 < n else 0])
            if smoother == 'mhips':
                q = m.sprop(prev, nxt, t)[0]
            else:
                q = m.trans(us[t - 1], t - 1)[prev[0]] if t else m.p0
            for x in range(S):
                b = idx[a].copy()
                b[t] = x
                j = np.ravel_multi_index(b, post.shape)
                k[a, j] += q[x] * min(1.0, p[j] * q[idx[a][t]] / (p[a] * q[x])) if j != a else 0.0
            k[a, a] = 1.0 - k[a].sum()
        K = K.dot(k)
    return K


def conv(cfg, st):
    d = setup(cfg, st)
    m, M = d.m, cfg['M']
    post = m.posterior_paths(d.u, d.y, cfg['mf'])
    K = single_site(m, post, cfg['smoother'], scen.align(d.u, d.y, cfg['mf'])[1])
    R, P = 8, np.linalg.matrix_power(K, 8)
    while R < 300 and np.max(np.abs(P - post.ravel()[None, :]).sum(1)) > 1e-6:
        P, R = P.dot(P), 2 * R
    R = 2 * R
    if R > 110:
        st.probes['mixes too slowly to judge'] += 1
        return
    rr = np.random.RandomState(cfg['seed'] % 999983)
    fixed = rr.randint(m.S, size=post.ndim)

    def one():
        plant(d, np.repeat(fixed[:, None], M, 1))
        st.steps += post.ndim
        return index(again(cfg, d, int(rr.randint(1 << 30)), dict(R=R)), post.shape)
    if M < 20:
        cfg['M'] = M = 50
    judge(cfg, st, one, post, 'does not reach the smoothing distribution in %d sweeps' % R)


def backward(m, d, st):
    """Law of the backward proposer's paths given the filter particles, and the
    number of moves that is enough"""
    ys, us = scen.align(d.u, d.y, d.cfg['mf'])
    n, S = len(d.pt.traj), m.S
    law, worst = None, 1.0
    for t in range(n - 1, -1, -1):
        lik = np.exp(m.loglik(ys[t], t)) if ys[t] is not None else np.ones(S)
        if t:
            s = d.pt.traj[t - 1]
            W = scen.weights(s)
            x = s.pa.part[:, 0].astype(int)
            prior = W[:, None] * m.trans(us[t - 1], t - 1)[x]      # (anc, x)
        else:
            prior = m.p0[None, :]
        cond = np.zeros((S, S))
        for nx in range(S if t < n - 1 else 1):
            w = prior * lik[None, :]
            if t < n - 1:
                w = w * m.trans(us[t], t)[:, nx][None, :]
            w = w / w.sum()
            nxt = np.array([nx if t < n - 1 else 0])
            if t:
                g = np.array([W[i] * m.sprop(np.array([x[i]]), nxt, t)[0] for i in range(len(W))])
            else:
                g = m.sprop(None, nxt, t)[:1]
            ok = w > 0
            worst = min(worst, np.min(g[ok] / w[ok]))
            cond[:, nx] = w.sum(0)
        law = cond[:, 0] if t == n - 1 else cond[(slice(None), slice(None)) + (None,) * (law.ndim - 1)] * law[None]
    return law, worst


def bp(cfg, st):
    d = setup(cfg, st)
    if any(np.any(np.isnan(s.pa.w)) for s in d.pt.traj):
        return
    m, M = d.m, cfg['M']
    law, worst = backward(m, d, st)
    R = int(np.ceil(np.log(1e-5) / np.log1p(-min(worst, 0.999)))) + 3
    if R > (60 if M > 20 else 30):
        st.probes['mixes too slowly to judge'] += 1
        return
    rr = np.random.RandomState(cfg['seed'] % 999983)
    # trajectories are not independent of each other, use few of them
    slots = rr.permutation(M)[:max(1, M // 10)]

    def one():
        st.steps += law.ndim
        return index(again(cfg, d, int(rr.randint(1 << 30)), dict(R=R)), law.shape, slots)
    judge(cfg, st, one, law, 'does not follow the backward law after %d moves' % R)
    d.done()


def observed(cfg, y):
    off = 0 if cfg['mf'] else 1
    obs = []
    for i, v in enumerate(y):
        if v is not None:
            v = np.ravel(v)
            if cfg['fam'] == 'HI':
                obs.append((('yx', i + off), v[:1]))
                v = v[1:]
            obs.append((('y', i + off), v))
    return obs


def regression(J, name, given):
    """Mean of `name` as a function of the values of `given`, and its covariance"""
    m, P = J.moments([name])
    if not given:
        return (lambda v: np.repeat(m[None], len(v), 0)), P
    mo, Po = J.moments(given)
    C = J.pad(J.G[name]).dot(np.vstack([J.pad(J.G[k]) for k in given]).T)
    K = np.linalg.solve(Po, C.T).T
    return (lambda v: m + (v - mo).dot(K.T)), P - K.dot(C.T)


def ginv(cfg, st):
    """One pass started at draws from the exact law of the sampled states"""
    d = setup(cfg, st)
    m, M, fam = d.m, cfg['M'], cfg['fam']
    n = len(d.pt.traj)
    J = c08.joint(cfg, m, d.u, n)
    obs = observed(cfg, d.y)
    key = 'x' if fam == 'LG' else 'xi'
    names = [(key, t) for t in range(n)]
    mean, cov = J.condition(names, obs)[:2]
    L = np.linalg.cholesky(cov)
    k = len(mean) // n
    rr = np.random.RandomState(cfg['seed'] % 999983)
    rest = []
    if fam != 'LG':
        # the linear states' filtered distribution given the sampled ones
        for t in range(n):
            known = [o for o in obs if o[0][1] <= t]
            given = [(key, j) for j in range(t + 1)] + [o[0] for o in known]
            rest.append(regression(J, ('z', t), given) + (np.concatenate([o[1] for o in known] or [[]]),))

    def one():
        x = mean + rr.normal(size=(M, len(mean))).dot(L.T)
        for t, s in enumerate(d.pt.traj):
            part = x[:, t * k:(t + 1) * k]
            if fam != 'LG':
                fun, P, yy = rest[t]
                z = fun(np.hstack((x[:, :(t + 1) * k], np.repeat(yy[None], M, 0))))
                part = np.hstack((part, z, np.repeat(P.reshape((1, -1)), M, 0)))
            s.pa.part = part.copy()
            s.pa.w = np.full(M, -np.log(M))
            s.pa.num = M
            s.ancestors = np.arange(M)
        st.steps += n
        res = again(cfg, d, int(rr.randint(1 << 30)), dict(cfg['so']))
        st.runs += 1
        return np.linalg.solve(L, (np.hstack([s.pa.part[:, :k] for s in res.traj]) - mean).T).T

    def test(stage, size):
        w = np.vstack([one() for _ in range(int(np.ceil((400.0 if fam != 'LG' else 1000.0) / M)) * size)])
        st.trace(scen.digest(np.round(w, 9)))
        return normal_p(w), [w.mean(0).round(3).tolist(), np.cov(w.T).round(3).tolist()]
    ps, info = ref.escalate(test, 3, ref.FINE)
    need(info is None, 'law', cfg['smoother'], fam, 'a pass does not preserve the smoothing distribution, p', ps, info)


def normal_p(w):
    """Combined test of independent standard normal rows"""
    K, D = w.shape
    p = [ref.uniform_p(ndtr(w[:, j])) for j in range(D)]
    # variances and covariances
    for i in range(D):
        v = 0.5 * np.sum(w[:, i] ** 2)
        p.append(2.0 * min(gammainc(0.5 * K, v), gammaincc(0.5 * K, v)))
        for j in range(i):
            # w_i w_j has unit variance; given w_j the sum is normal
            p.append(2.0 * ndtr(-abs(np.sum(w[:, i] * w[:, j])) / np.sqrt(np.sum(w[:, j] ** 2))))
    return min(1.0, len(p) * min(p))


def gbp(cfg, st):
    """Each state of the backward proposer's paths, given the next one"""
    d = setup(cfg, st)
    m, M = d.m, cfg['M']
    if any(np.any(np.isnan(s.pa.w)) for s in d.pt.traj):
        return
    ys, us = scen.align(d.u, d.y, cfg['mf'])
    n, R = len(d.pt.traj), 30
    rr = np.random.RandomState(cfg['seed'] % 999983)
    slots = rr.permutation(M)[:max(1, M // 10)]
    eye = np.eye(m.n)

    def law(t, x, nxt):
        """PIT of one component of x given the next state, and how far the moves are from it"""
        kk = t % m.K
        A, b, Q = [eye], [np.zeros(m.n)], None
        obs = []        # (matrix, offset, covariance, value)
        if ys[t] is not None:
            obs.append((m.C[kk], m.D[kk], m.Rt[kk], np.ravel(ys[t])))
        if nxt is not None:
            uu = 0.0 if us[t] is None else float(np.ravel(us[t])[0])
            obs.append((m.A[kk], m.B[kk] * uu + m.Fc, m.Qt[kk], nxt))
        if t:
            s = d.pt.traj[t - 1]
            W, mu, P = scen.weights(s), m.fx(s.pa.part, us[t - 1], t - 1), m.Qt[(t - 1) % m.K]
        else:
            W, mu, P = np.ones(1), m.x0.reshape((1, -1)), m.Px0
        lw, top = np.log(np.maximum(W, 1e-300)), 0.0
        if obs:
            H = np.vstack([o[0] for o in obs])
            v = np.concatenate([o[3] - o[1] for o in obs])
            Rb = np.zeros((len(v), len(v)))
            i = 0
            for o in obs:
                Rb[i:i + len(o[2]), i:i + len(o[2])] = o[2]
                i += len(o[2])
            S = H.dot(P).dot(H.T) + Rb
            K = np.linalg.solve(S, H.dot(P)).T
            e = v - mu.dot(H.T)
            lw = lw - 0.5 * (np.sum(e * np.linalg.solve(S, e.T).T, 1) + np.linalg.slogdet(S)[1])
            Ri = np.linalg.inv(Rb)
            best = np.linalg.lstsq(H.T.dot(Ri).dot(H), H.T.dot(Ri).dot(v), rcond=None)[0]
            r = v - H.dot(best)
            top = -0.5 * (r.dot(Ri).dot(r) + np.linalg.slogdet(Rb)[1])
            mu, P = mu + e.dot(K.T), P - K.dot(H.dot(P))
        worst = np.exp(np.logaddexp.reduce(lw) - top)
        w = ref.normalise(lw)
        a = np.ones(m.n) if m.n == 1 else np.array([np.cos(1.0 + t), np.sin(1.0 + t)])
        return np.sum(w * ndtr((x - mu).dot(a) / np.sqrt(a.dot(P).dot(a)))), worst

    def test(stage, size):
        us_, used, tried = [[] for _ in range(n)], 0, 0
        for _ in range(int(np.ceil(60.0 / len(slots))) * size):
            res = again(cfg, d, int(rr.randint(1 << 30)), dict(R=R))
            st.runs += 1
            st.steps += n
            for j in slots:
                for t in range(n):
                    x = res.traj[t].pa.part[j]
                    p, worst = law(t, x, res.traj[t + 1].pa.part[j] if t + 1 < n else None)
                    tried += 1
                    if (1.0 - min(worst, 1.0)) ** R < 1e-4:
                        us_[t].append(p)
                        used += 1
            if tried > 60 and used < 0.2 * tried:
                break
        st.probes['steps judged'] += used
        st.trace([np.round(v, 9).tolist() for v in us_])
        ps = [ref.uniform_p(v) for v in us_]
        return min(1.0, n * min(ps)), ps
    ps, info = ref.escalate(test, 3, ref.FINE)
    need(info is None, 'law', 'LG mhbp', 'does not follow the backward law after %d moves' % R, 'M', M, 'p', ps, info)


def odd(cfg, st):
    d = setup(cfg, st)
    if any(np.any(np.isnan(s.pa.w)) for s in d.pt.traj):
        return
    d.w.budget = d.w.total + 300000
    s = d.smooth()
    n = len(d.pt.traj)
    need(len(s.traj) == n, 'malformed', 'length', len(s.traj))
    for t in range(n):
        p = np.asarray(s.traj[t].pa.part, dtype=float)
        need(len(p) == cfg['M'] and np.all(np.isfinite(p)), 'malformed', cfg['fam'], cfg['smoother'], 'step', t, p)
    d.done()
