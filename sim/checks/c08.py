"""Filtered and smoothed estimates agree with the exact posterior"""
import numpy as np

from .. import ref, scen, seams
from ..engine import fail
from ..scen import pick

ID = 'C08'
RULE = ('one case: a problem with known posterior (linear-Gaussian system run as nonlinear-Gaussian, mixed or '
        'hierarchical model; random matrices, inputs, drop-outs, first measurement before or after the first '
        'step), one filter and one smoother, independent seeded replicates with failing and repeated calls; '
        'first and second moments and lag-one products averaged over the replicates are compared with '
        'conditioning the joint Gaussian; a deviation counts only if it persists in three independent stages '
        'with growing particle count; non-trivial: at least one measurement and two steps')
STATES = 'distinct (family, filter, smoother, first measurement, missing pattern, noise kind, steps)'
QUICK, THOROUGH = 350, 900
# stage: (particles, replicates, standard errors)
STAGES = ((250, 10, 5.0), (700, 16, 5.5), (1500, 24, 6.0))
SMALL = ((120, 10, 5.0), (350, 16, 5.5), (900, 24, 6.0))
# pairs of particle and trajectory a stage may look at (backward simulation)
PAIRS = (60000, 300000, 600000)

COMBOS = ([('LG', f, s) for f in ('pf', 'apf', 'sir') for s in scen.SMOOTHERS['LG']]
          + [('LG', f, s) for f in ('pfy', 'cpf', 'cpfas', 'cpfyas', 'csiras') for s in ('ancestor', 'full', 'mhbp')]
          + [('ML', f, s) for f in ('pf', 'apf') for s in scen.SMOOTHERS['ML']]
          + [('MM', f, s) for f in ('pf', 'apf') for s in scen.SMOOTHERS['MM']]
          + [('HI', 'pf', s) for s in scen.SMOOTHERS['HI']])


def gen(r, i):
    fam, filt, sm = COMBOS[i % len(COMBOS)]
    slow = fam != 'LG'
    if slow and (i // len(COMBOS)) % 3 == 2:
        # the linear models need a third of the attention
        fam, filt, sm = COMBOS[int(r.randint(39))]
        slow = False
    cfg = scen.gen_base(r, fams=(fam,), filters=(filt,), Tmax=4 if slow else 7)
    cfg['smoother'] = sm
    T = cfg['T'] = int(r.randint(1, 4 if slow else 6))
    k = cfg['mk']
    if fam == 'LG':
        k['n'] = int(r.randint(1, 3))
        k['ny'] = int(r.randint(1, k['n'] + 1))
        k['nonlin'] = 0.0
        k.pop('P0', None)
        k['inputs'] = float(pick(r, (0.5, 2.0)))
    else:
        k['lxi'], k['lz'], k['ny'], k['flat'] = 1, int(r.randint(1, 3)), 1, True
    if filt in ('pfy', 'cpfyas'):
        k['ny'] = k['n']
        cfg['mf'] = False
        cfg['miss'] = []
        # the measurement has to tell where the state is
        if k.get('fixed') == 'g':
            k['fixed'] = ''
        while np.linalg.cond(scen.model(cfg).C).max() > 4.0:
            k['seed'] = int(r.randint(1 << 30))
    cfg['miss'] = [t for t in cfg['miss'] if t < T]
    if T > 2 and cfg['res'] < 0.3:
        cfg['res'] = 0.3
    cfg['so'] = dict(R=int(pick(r, (2, 5)))) if sm in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp') else None
    cfg['faults'] = [int(t) for t in range(T) if r.uniform() < 0.2]
    # MH smoothers only start at the filter's trajectories
    return cfg


def valid(cfg):
    return cfg['filter'] not in ('pfy', 'cpfyas') or (not cfg['mf'] and not cfg['miss']
                                                     and cfg['mk']['n'] == cfg['mk']['ny'])


def joint(cfg, m, us, n):
    """Joint distribution with ('x', t) the complete state"""
    fam = cfg['fam']
    if fam == 'LG':
        return m.joint(us, n)
    J = ref.Joint()
    lxi, lz = m.lxi, len(m.z0)
    J.put(('xi', 0), m.xi0, noise=J.noise(m.Pxi0))
    J.put(('z', 0), m.z0, noise=J.noise(m.Pz0))
    zero = np.zeros(lxi)
    for t in range(n):
        C, h, R = m.meas(zero, t)
        if fam == 'HI':
            J.put(('yx', t), [0.0], [(np.eye(lxi)[:1], ('xi', t))], J.noise([[m.Rn]]))
        J.put(('y', t), h, [(C, ('z', t))], J.noise(R))
        if t + 1 == n:
            break
        s = m.sys(zero, us[t], t)
        if fam == 'HI':
            J.put(('xi', t + 1), m.fx(zero, us[t], t), [(0.7 * np.eye(lxi), ('xi', t))], J.noise(m.Qx(t)))
            J.put(('z', t + 1), s['fz'], [(s['Az'], ('z', t))], J.noise(s['Qz']))
        else:
            Q = np.block([[s['Qxi'], s['Qxiz']], [s['Qxiz'].T, s['Qz']]])
            W = J.noise(Q)
            F = 0.3 * np.eye(lxi) if 'f' in m.dep else np.zeros((lxi, lxi))
            J.put(('xi', t + 1), s['fxi'], [(F, ('xi', t)), (s['Axi'], ('z', t))], W[:lxi])
            J.put(('z', t + 1), s['fz'], [(s['Az'], ('z', t))], W[lxi:])
    return J


def names(cfg, t):
    return [('x', t)] if cfg['fam'] == 'LG' else [('xi', t), ('z', t)]


def exact(cfg, m, u, y):
    """[(mean, covariance)] filtered, [(mean, covariance of x_t, x_t+1)] smoothed"""
    off = 0 if cfg['mf'] else 1
    n = len(y) + off
    J = joint(cfg, m, u, n)
    obs = []
    for i, v in enumerate(y):
        if v is not None:
            v = np.ravel(v)
            if cfg['fam'] == 'HI':
                obs.append((('yx', i + off), v[:1]))
                v = v[1:]
            obs.append((('y', i + off), v))
    filt = [J.condition(names(cfg, t), [o for o in obs if o[0][1] <= t])[:2] for t in range(n)]
    smo = [J.condition(names(cfg, t) + (names(cfg, t + 1) if t + 1 < n else []), obs)[:2] for t in range(n)]
    return filt, smo


def split(cfg, m, part):
    """Mean and covariance each particle stands for"""
    if cfg['fam'] == 'LG':
        return part, None
    lxi, lz = m.lxi, len(m.z0)
    P = np.zeros((len(part), lxi + lz, lxi + lz))
    P[:, lxi:, lxi:] = part[:, lxi + lz:lxi + lz + lz * lz].reshape((-1, lz, lz))
    return part[:, :lxi + lz], P


def moments(x, P, w, mean, k):
    """Weighted mean and second moment around the exact mean"""
    d = x - mean[:k]
    S = (d * w[:, None]).T.dot(d)
    if P is not None:
        S = S + np.tensordot(w, P, 1)
    return w.dot(x), S


def replicate(cfg, m, u, y, N, M, seed, ex, st, w, neff):
    """Statistics of one run minus their exact values, in posterior units"""
    c = dict(cfg, N=N, M=M, seed=seed)
    fo = dict(cond_traj=scen.reference(c, m, u, y)) if cfg['filter'] in scen.COND else {}
    scen.real_seed(seed)
    pt = scen.trajectory(c, m, fo)
    calls = scen.steps(cfg, u, y)
    for i, s in enumerate(calls):
        f = [[(seed + 3 * i) % 9, 'after', 'Injected']] if i in cfg['faults'] else []
        with w:
            scen.attempt(w, lambda: scen.apply(pt, s), f, st)
    st.steps += len(calls)
    with w:
        w.arm()
        sm = scen.smooth(c, pt)
    filt, smo = ex
    out = []
    neff.append(min(ref.neff(scen.weights(s)) for s in pt.traj))
    for t, (mean, cov) in enumerate(filt):
        k = len(mean)
        x, P = split(cfg, m, pt.traj[t].pa.part)
        mu, S = moments(x, P, scen.weights(pt.traj[t]), mean, k)
        out += scaled(mu, S, mean, cov)
    prev = None
    for t, (mean, cov) in enumerate(smo):
        k = len(mean) // (2 if t + 1 < len(smo) else 1)
        x, P = split(cfg, m, sm.traj[t].pa.part)
        ww = np.full(len(x), 1.0 / len(x))
        mu, S = moments(x, P, ww, mean, k)
        out += scaled(mu, S, mean[:k], cov[:k, :k])
        if t + 1 < len(smo):
            # products of neighbouring states (nonlinear part: sampled jointly)
            j = k if cfg['fam'] == 'LG' else m.lxi
            xn = split(cfg, m, sm.traj[t + 1].pa.part)[0]
            L = (x - mean[:k])[:, :j].T.dot((xn - mean[k:])[:, :j]) / len(x)
            E = cov[:j, k:k + j]
            sc = np.sqrt(np.outer(np.diag(cov)[:j], np.diag(cov)[k:k + j]))
            out.append(((L - E) / sc).ravel())
    st.runs += 1
    return np.concatenate(out)


def scaled(mu, S, mean, cov):
    sd = np.sqrt(np.maximum(np.diag(cov), 1e-12))
    return [(mu - mean) / sd, ((S - cov) / np.outer(sd, sd)).ravel()]


def labels(cfg, ex):
    out = []
    filt, smo = ex
    for t, (mean, cov) in enumerate(filt):
        out += ['filtered mean, step %d' % t] * len(mean) + ['filtered covariance, step %d' % t] * cov.size
    for t, (mean, cov) in enumerate(smo):
        k = len(mean) // (2 if t + 1 < len(smo) else 1)
        out += ['smoothed mean, step %d' % t] * k + ['smoothed covariance, step %d' % t] * (k * k)
        if t + 1 < len(smo):
            j = k if cfg['fam'] == 'LG' else cfg['mk']['lxi']
            out += ['lag-one product, steps %d, %d' % (t, t + 1)] * (j * j)
    return out


def run(cfg, st):
    m = scen.model(cfg)
    u, y = scen.data(cfg, m)
    ex = exact(cfg, m, u, y)
    lab = labels(cfg, ex)
    w = seams.World()
    stages = STAGES if cfg['fam'] == 'LG' else SMALL
    worst = None
    for k, (N, K, z) in enumerate(stages):
        M = N // 3
        if cfg['smoother'] in ('full', 'rs', 'rsas'):
            M = int(min(M, max(15, PAIRS[k] // (N * K * cfg['T']))))
        neff = []
        v = np.asarray([replicate(cfg, m, u, y, N, M, (cfg['seed'] + 1000 * k + j) % (2 ** 31), ex, st, w, neff)
                        for j in range(K)])
        if np.any(~np.isfinite(v)):
            fail('not-finite', 'estimates contain NaN or infinity')
        avg, se = v.mean(0), v.std(0, ddof=1) / np.sqrt(K)
        over = np.abs(avg) - z * se - (0.04 + 8.0 / N)
        b = int(np.argmax(over))
        worst = (lab[b], 'deviation', avg[b], 'standard error', se[b], 'N', N)
        if over[b] <= 0:
            break
        st.probes['stage %d deviates' % k] += 1
    else:
        # a handful of particles cannot represent a posterior
        if min(neff) < 12.0:
            st.probes['weights too uneven to judge'] += 1
            st.runs += 1
            return
        fail('biased', cfg['fam'], cfg['filter'], cfg['smoother'], *worst)
    st.world(w)
    st.trace(np.round(avg, 9).tolist())
    st.state(cfg['fam'], cfg['filter'], cfg['smoother'], cfg['mf'], tuple(cfg['miss']),
             cfg['mk'].get('noise'), cfg['mk'].get('cross'), cfg['T'])
    st.nontrivial = any(v is not None for v in y) and len(ex[0]) > 1
