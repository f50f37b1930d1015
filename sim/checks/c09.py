"""Conditional filters keep their reference trajectory and its law"""
import numpy as np

from .. import ref, scen, seams
from ..engine import fail, need
from ..scen import pick
from pyparticleest.filter import ParticleApproximation, TrajectoryStep

ID = 'C09'
RULE = ('keep: one seeded run of one conditional filter with a simulated, arbitrary or far-off reference, '
        'drop-outs and failed attempts; reference particle, its parent, all weights and the reference object '
        'are checked after each call; law: many seeded runs, the parents and new states are tested against '
        'their exact conditional distribution given the recorded step before; inv: reference drawn from the '
        'enumerated posterior of a finite-state system, filter + selection repeated, paths must still follow '
        'the posterior; non-trivial: at least one time update with a measurement')
STATES = 'distinct (mode, filter, family, smoother, reference kind, missing, Neff bucket) reached'
QUICK, THOROUGH = 2000, 600

SELECT = ('ancestor', 'full', 'rs', 'rsas', 'mcmc', 'mhips', 'mhips_reduced')


def gen(r, i):
    mode = pick(r, ('keep',) * 9 + ('law',) * 3 + ('inv',) * 2)
    if mode == 'inv':
        cfg = scen.gen_base(r, fams=('HMM',), filters=scen.COND, smoothers=SELECT, no_smoother=0.0,
                            miss=(0.0, 0.0, 0.3, 0.6))
        k = cfg['mk']
        k['S'], k['sparse'] = int(r.randint(2, 4)), 0.0
        cfg['T'] = int(r.randint(1, 4 if k['S'] == 3 else 5))
        cfg['N'], cfg['M'] = int(r.randint(2, 6)), 1
        cfg['sweeps'] = int(pick(r, (1, 2, 4)))
        if cfg['smoother'] in ('mhips', 'mhips_reduced', 'mcmc'):
            cfg['so'] = dict(R=int(r.randint(1, 3)))
    elif mode == 'law':
        cfg = scen.gen_base(r, fams=('LG',), filters=scen.COND, no_smoother=1.0,
                            miss=(0.0, 0.0, 0.3))
        cfg['N'] = int(r.randint(2, 12))
        cfg['T'] = max(2, cfg['T'])
        cfg['kind'] = pick(r, ('simulated', 'near'))
    else:
        cfg = scen.gen_base(r, fams=('LG', 'LG', 'Tag'), filters=scen.COND, Tmax=9,
                            Nmax=int(pick(r, (3, 9, 30))), no_smoother=1.0)
        cfg['kind'] = pick(r, ('simulated', 'near', 'far', 'several'))
        if cfg['fam'] == 'Tag':
            cfg['kind'] = 'simulated'
        cfg['faults'] = scen.gen_faults(r, cfg, p=0.2)
        cfg['ext'] = scen.gen_extreme(r, 0.2)
    cfg['mode'] = mode
    cfg['miss'] = [k for k in cfg['miss'] if k < cfg['T']]
    return cfg


def valid(cfg):
    return cfg['N'] >= 2 and cfg['filter'] in scen.COND and cfg['T'] >= 1


def run(cfg, st):
    dict(keep=keep, law=law, inv=inv)[cfg['mode']](cfg, st)


# --- the reference stays -----------------------------------------------------------

def chain(parts):
    """Trajectory object from a list of particle arrays"""
    return [TrajectoryStep(ParticleApproximation(particles=p), np.arange(len(p))) for p in parts]


def given(cfg, m, u, y):
    """Reference trajectory of the configured kind"""
    traj = scen.reference(cfg, m, u, y)
    if cfg['kind'] == 'simulated':
        return traj
    r = np.random.RandomState(cfg['yseed'] % 1000003 + 5)
    parts = [np.copy(s.pa.part) for s in traj]
    scale = dict(near=0.5, far=30.0, several=0.5)[cfg['kind']]
    parts = [p + scale * r.normal(size=p.shape) for p in parts]
    if cfg['kind'] == 'several':
        parts = [np.vstack((p, r.normal(size=(3, p.shape[1])))) for p in parts]
    return chain(parts)


def build(cfg, st):
    """Drive of the configuration with its reference"""
    d = scen.Drive(cfg, st)
    if cfg['kind'] != 'simulated':
        d.fo = dict(cond_traj=given(cfg, d.m, d.u, d.y))
        d.pt = scen.trajectory(cfg, d.m, d.fo)
    d.ref = [np.copy(s.pa.part[0]) for s in d.fo['cond_traj']]
    return d


def slots(part, x):
    return np.nonzero(np.all(part == x, axis=1))[0]


def keep(cfg, st):
    d = build(cfg, st)
    frozen = scen.digest(scen.freeze(d.fo))
    m, pt = d.m, d.pt
    for i, call in enumerate(d.calls):
        n0 = len(pt.traj)
        d.step(i)
        need(scen.digest(scen.freeze(d.fo)) == frozen, 'reference-changed', cfg['filter'], 'call', i)
        if n0 == 0 and call[0] == 'forward':
            present(cfg, d, 0)
            flat(cfg, pt.traj[0])
        t = len(pt.traj) - 1
        present(cfg, d, t)
        if call[0] == 'forward':
            need(d.flags[-1], 'resampled', 'conditional filter reports no resampling at call', i)
        weigh(cfg, st, d, t, call)
    d.done()
    st.nontrivial = len(pt.traj) > 1 and any(v is not None for v in d.y)


def flat(cfg, s):
    need(np.ptp(s.pa.w) <= 1e-12, 'weights', 'initial weights', s.pa.w)


def present(cfg, d, t):
    """Reference state is a particle; with the plain filter its parent is the previous one"""
    s = d.pt.traj[t]
    k = slots(s.pa.part, d.ref[t])
    need(len(k) > 0, 'reference-missing', cfg['filter'], 'step', t, 'reference', d.ref[t], 'particles', s.pa.part)
    if t and cfg['filter'] == 'cpf':
        pk = slots(d.pt.traj[t - 1].pa.part, d.ref[t - 1])
        a = np.asarray(s.ancestors)[k]
        need(np.any(np.isin(a, pk)), 'reference-parent', 'step', t, 'slot', k, 'parents', a, 'reference was', pk)


def weigh(cfg, st, d, t, call):
    m, filt, s = d.m, cfg['filter'], d.pt.traj[t]
    N = cfg['N']
    x = s.pa.part
    yv = call[-1]
    st.state('keep', filt, cfg['fam'], cfg['kind'], yv is None, call[0],
             int(4 * ref.neff(ref.normalise(s.pa.w)) / N))
    if cfg['fam'] == 'Tag':
        return
    e = np.zeros(N)
    if call[0] == 'measure':
        if yv is not None and filt != 'cpfyas':
            e = np.array([m.d_meas(x[i], yv, t) for i in range(N)])
    else:
        p = d.pt.traj[t - 1].pa.part
        a = np.asarray(s.ancestors)
        if filt in ('cpf', 'cpfas', 'csiras') and yv is not None:
            e = e + [m.d_meas(x[i], yv, t) for i in range(N)]
        if filt in ('csiras', 'cpfyas'):
            e = e + [m.d_trans(p[a[i]], x[i], call[1], t - 1) for i in range(N)]
        if filt == 'csiras':
            e = e - [m.d_q(p[a[i]], x[i], call[1], yv, t - 1) for i in range(N)]
    exp = ref.normalise(e)
    w = np.asarray(s.pa.w, dtype=float)
    need(not np.any(np.isnan(w)) and np.isfinite(np.max(w)), 'weights-nan', filt, 'step', t, w)
    tol = 1e-8 + 1e-13 * np.max(np.abs(e))
    need(np.abs(ref.normalise(w) - exp) <= tol, 'weights', filt, 'step', t, call[0], ref.normalise(w),
         'instead of', exp)


# --- parents and new states follow their law ------------------------------------------

def cdf(z):
    from scipy.special import ndtr
    return ndtr(z)


def moments(cfg, m, x, call, t):
    """Law of a new particle given its parent: (mean, covariance), None if not tested"""
    filt = cfg['filter']
    u, y = call[1], call[2]
    if filt in ('cpf', 'cpfas'):
        return m.fx(x[None], u, t)[0], m.Qx(x[None], u, t)[0]
    if filt == 'csiras':
        mm, P = m._qmom(x[None], u, y, t)
        return mm[0], P
    if y is None:
        return np.zeros(m.n), 9.0 * np.eye(m.n)
    k = (t + 1) % m.K
    Ci = np.linalg.pinv(m.C[k])
    return Ci.dot(np.ravel(y) - m.D[k]), Ci.dot(m.Rt[k]).dot(Ci.T)


def law(cfg, st):
    base = dict(cfg)
    d0 = build(base, st)
    rr = np.random.RandomState(cfg['seed'] % 999983)
    st.state('law', cfg['filter'], cfg['kind'], cfg['mf'], bool(cfg['miss']), cfg['mk']['noise'],
             cfg['mk']['nonlin'] > 0)

    def collect(stage, size):
        out = dict((k, []) for k in ('parent of the reference', 'parents of the others', 'new states',
                                     'parents of two others'))
        reps = 12 * size
        for j in range(reps):
            once(cfg, st, d0, int(rr.randint(1 << 30)), rr, out)
        st.trace(scen.digest(out))
        return out
    cache = {}
    names = ['parent of the reference', 'parents of the others', 'new states', 'parents of two others']

    for name in names:
        def test(stage, size):
            # fresh runs for every stage, shared by the different statistics
            if stage not in cache:
                cache[stage] = collect(stage, size)
            v = np.asarray(cache[stage][name])
            if name == 'parents of two others':
                if len(v) < 50:
                    return 1.0, None
                k = np.minimum((v * 4).astype(int), 3)
                h = np.zeros((4, 4))
                np.add.at(h, (k[:, 0], k[:, 1]), 1)
                return ref.chi2_p(h, np.full((4, 4), len(v) / 16.0)), h.tolist()
            return ref.uniform_p(v), (len(v), np.histogram(v, 10, (0, 1))[0].tolist())
        ps, info = ref.escalate(test)
        if info is not None:
            fail('law', cfg['filter'], name, 'do not follow their distribution: p', ps, info)
    st.nontrivial = True


def once(cfg, st, d0, seed, rr, out):
    scen.real_seed(seed)
    m, calls = d0.m, d0.calls
    pt = scen.trajectory(cfg, m, d0.fo)
    filt, N = cfg['filter'], cfg['N']
    w = seams.World(budget=10 ** 6)
    with w:
        for c in calls:
            scen.apply(pt, c)
    st.runs += 1
    st.steps += len(calls)
    fw = [c for c in calls if c[0] == 'forward']
    for t in range(1, len(pt.traj)):
        call = fw[t - 1]
        p, s = pt.traj[t - 1], pt.traj[t]
        W = scen.weights(p)
        a = np.asarray(s.ancestors)
        k = slots(s.pa.part, d0.ref[t])
        need(len(k) == 1, 'reference-missing', filt, 'step', t, k)
        k = k[0]
        if filt != 'cpf':
            lt = np.array([m.d_trans(p.pa.part[i], d0.ref[t], call[1], t - 1) for i in range(N)])
            q = ref.normalise(np.log(np.maximum(W, 1e-300)) + lt)
            o = np.argsort(lt, kind='stable')
            out['parent of the reference'].append(ref.pit(q[o], int(np.nonzero(o == a[k])[0][0]), rr.uniform()))
        others = [i for i in range(N) if i != k]
        o = np.argsort(W, kind='stable')
        v = [ref.pit(W[o], int(np.nonzero(o == a[i])[0][0]), rr.uniform()) for i in others]
        out['parents of the others'].extend(v)
        for i in range(0, len(v) - 1, 2):
            out['parents of two others'].append((v[i], v[i + 1]))
        for i in others:
            mm, P = moments(cfg, m, p.pa.part[a[i]], call, t - 1)
            lam, E = np.linalg.eigh(P)
            ok = lam > 1e-9 * lam.max()
            z = E.T.dot(s.pa.part[i] - mm)
            out['new states'].extend(cdf(z[ok] / np.sqrt(lam[ok])).tolist())


# --- repeated use leaves the posterior unchanged ----------------------------------------

def inv(cfg, st):
    m = scen.model(cfg)
    u, y = scen.data(cfg, m)
    S = m.S
    p0 = np.ones(S) / S if cfg['mf'] and cfg['filter'] == 'cpfyas' else m.p0
    if p0 is not m.p0 and cfg['smoother'] in scen.MHSM:
        # these weigh the first state with the prior, which that filter does not use
        m.p0 = p0
    post = m.posterior_paths(u, y, cfg['mf'], p0)
    flatp = post.ravel()
    calls = scen.steps(cfg, u, y)
    rr = np.random.RandomState(cfg['seed'] % 999983)
    st.state('inv', cfg['filter'], cfg['smoother'], cfg['mf'], bool(cfg['miss']), post.ndim, cfg['N'], cfg['sweeps'])

    def test(stage, size):
        K = 400 * size
        obs = np.zeros(len(flatp))
        start = rr.choice(len(flatp), size=K, p=flatp)
        scen.real_seed(rr.randint(1 << 30))
        for j in range(K):
            path = np.array(np.unravel_index(start[j], post.shape), dtype=float)
            traj = chain([np.array([[v]]) for v in path])
            w = seams.World(budget=10 ** 6)
            with w:
                for _ in range(cfg['sweeps']):
                    pt = scen.trajectory(cfg, m, dict(cond_traj=traj))
                    for c in calls:
                        scen.apply(pt, c)
                    traj = scen.smooth(cfg, pt, m).traj
            end = np.array([int(s.pa.part[0, 0]) for s in traj])
            obs[np.ravel_multi_index(end, post.shape)] += 1
            st.runs += cfg['sweeps']
            st.steps += len(calls) * cfg['sweeps']
        st.trace(scen.digest(obs))
        return ref.chi2_p(obs, K * flatp), (obs.tolist(), (K * flatp).round(1).tolist())
    ps, info = ref.escalate(test)
    need(info is None, 'invariance', cfg['filter'], cfg['smoother'], 'paths do not follow the posterior: p', ps, info)
    st.nontrivial = any(v is not None for v in y)
