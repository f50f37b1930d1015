"""Linear sub-states carry the exact conditional mean and covariance"""
import numpy as np

from .. import ref, scen, variant
from ..engine import need
from ..scen import pick

ID = 'C12'
RULE = ('one seeded run of a linear, mixed or hierarchical model (random dimensions, noise correlation, '
        'state- and time-dependent matrices, left-out matrices, drop-outs, failed attempts) with the '
        'helpers compiled or in Python; after each call the linear mean, covariance and weight increment of '
        'every particle, and after smoothing the moments of every trajectory, are compared with '
        'conditioning the joint Gaussian of all linear states and data; non-trivial: a measurement was '
        'used and at least two steps exist')
STATES = 'distinct (family, variant, what varies, correlation, dimensions, missing, smoother) reached'
QUICK, THOROUGH = 2400, 600
TOL = 2e-6


def prepare():
    variant.build()


def cleanup():
    variant.remove()


def gen(r, i):
    cfg = scen.gen_base(r, fams=('LT', 'ML', 'MM', 'HI'), Tmax=7, Nmax=int(pick(r, (1, 3, 6))), Mmax=3,
                        no_smoother=0.15)
    k = cfg['mk']
    if cfg['fam'] == 'LT':
        k['n'], k['ny'] = int(r.randint(1, 6)), int(r.randint(1, 5))
        if r.uniform() < 0.3:
            k['none'] = pick(r, ('f', 'h', 'fh', 'C', 'Cf'))
    else:
        k['lxi'], k['lz'], k['ny'] = int(r.randint(1, 4)), int(r.randint(1, 5)), int(r.randint(1, 4))
        if cfg['fam'] != 'HI':
            if r.uniform() < 0.3:
                k['none'] = pick(r, ('f', 'F', 'fF', 'h', 'hF', 'C', 'Cf'))
            if cfg['smoother'] not in scen.MHSM:
                k['P0'] = bool(r.uniform() < 0.9)
                k['X0'] = bool(r.uniform() < 0.9)
    cfg['faults'] = scen.gen_faults(r, cfg, p=0.1)
    cfg['sfaults'] = ([[int(r.randint(40)), pick(r, ('before', 'after', 'torn')), 'Injected']]
                      if r.uniform() < 0.2 else [])
    cfg['variant'] = pick(r, ('pure', 'ext'))
    cfg['again'] = bool(r.uniform() < 0.3)
    return cfg


def valid(cfg):
    k = cfg['mk']
    return (cfg['variant'] in variant.VARIANTS and (k.get('P0', True) and k.get('X0', True) or cfg['smoother'] not in scen.MHSM)
            and cfg['T'] >= 1 and k.get('ny', 1) >= 1
            and not ('h' in k.get('none', '') and 'C' in k.get('none', '')))


def ylin(cfg, y):
    return None if y is None else (np.ravel(y)[1:] if cfg['fam'] == 'HI' else np.ravel(y))


class Along(object):
    """Exact answers along one nonlinear path"""

    def __init__(self, cfg, m, xis, us, n):
        self.fam = cfg['fam']
        if self.fam == 'LT':
            self.J = m.joint(us, n)
        elif self.fam == 'HI':
            self.J = m.joint(xis, us, None)
        else:
            self.J = m.joint(xis, us, None)
        self.path = ([] if self.fam in ('LT', 'HI')
                     else [(('xi', t), xis[t]) for t in range(1, n)])

    def at(self, names, ys, npath=None):
        """Moments of `names` given the path and the measurements {t: y}"""
        path = self.path if npath is None else self.path[:max(npath - 1, 0)]
        obs = path + [(('y', t), ys[t]) for t in sorted(ys)]
        return self.J.condition(names, obs)


def states(fam, m, part):
    if fam == 'LT':
        z, P = m.get_states(part)
        return np.asarray(z)[..., 0], np.asarray(P)
    _, z, P = m.get_states(part)
    return z[..., 0], P


def close(got, exp, kind, *what):
    got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    need(got.shape == exp.shape, kind, *what + ('shape', got.shape, 'instead of', exp.shape))
    tol = TOL * (1.0 + np.max(np.abs(exp), initial=0.0))
    need(np.abs(got - exp) <= tol, kind, *what + (got.tolist(), 'instead of', exp.tolist()))


def run(cfg, st):
    V = variant.activate(cfg['variant'])
    sc = V.scen
    d = sc.Drive(cfg, st)
    m, fam, pt = d.m, cfg['fam'], d.pt
    first = {}

    def hook(phase, model, name, a, k, res):
        if phase == 'leave' and name == 'eval_1st_stage_weights':
            first['l'] = np.array(res, dtype=float)
    d.w.hooks.append(hook)
    off = 0 if cfg['mf'] else 1
    for i, call in enumerate(d.calls):
        n0 = len(pt.traj)
        wprev = np.copy(pt.traj[-1].pa.w) if n0 else np.zeros(cfg['N'])
        first.pop('l', None)
        d.step(i)
        if n0 == 0 and call[0] == 'forward':
            step(cfg, st, d, sc, 0, None, None, None)
            wprev = np.copy(pt.traj[0].pa.w)
        flag = d.flags[-1] if call[0] == 'forward' else None
        step(cfg, st, d, sc, len(pt.traj) - 1, wprev, flag, first.get('l'))
    ys = recorded(cfg, d)
    for j in range(2 if cfg['again'] else 1):
        s = d.smooth()
        if s is None:
            break
        smoothed(cfg, st, d, s, ys)
    d.done()
    st.nontrivial = any(v is not None for v in d.y) and len(pt.traj) > 1


def recorded(cfg, d):
    """{state index: linear part of its measurement}"""
    off = 0 if cfg['mf'] else 1
    return dict((i + off, ylin(cfg, y)) for i, y in enumerate(d.y) if y is not None)


def lineage(cfg, d, t, i):
    xis = [None] * (t + 1)
    for s in range(t, -1, -1):
        st = d.pt.traj[s]
        xis[s] = np.copy(st.pa.part[i, :getattr(d.m, 'lxi', 0)])
        i = st.ancestors[i]
    return xis


def step(cfg, st, d, sc, t, wprev, flag, first):
    """All particles of step t"""
    m, fam, pt = d.m, cfg['fam'], d.pt
    s = pt.traj[t]
    ys = dict((k, v) for k, v in recorded(cfg, d).items() if k <= t)
    if wprev is None:
        # the initial estimate, before any measurement
        ys = dict((k, v) for k, v in ys.items() if k < t)
    z, P = states(fam, m, np.copy(s.pa.part))
    corr = np.zeros(len(z))
    for i in range(len(z)):
        xis = lineage(cfg, d, t, i)
        A = Along(cfg, m, xis, d.u[:t], t + 1)
        ez, eP, ld = A.at([('z', t)], ys)
        close(z[i], ez, 'filter-mean', fam, 'step', t, 'particle', i, 'mean')
        close(P[i], eP, 'filter-cov', fam, 'step', t, 'particle', i, 'covariance')
        if t in ys:
            _, _, l0 = A.at([('z', t)], dict((k, v) for k, v in ys.items() if k < t))
            corr[i] = ld - l0
            if fam == 'HI':
                corr[i] += float(m.measure_nonlin(s.pa.part[i:i + 1], [y for k, y in full(cfg, d) if k == t][0], t)[0])
    st.state(fam, cfg['variant'], m.dep, getattr(m, 'cross', ''), len(z[0]), getattr(m, 'lxi', 0), t in ys)
    if wprev is None or fam == 'LT':
        return
    a = np.asarray(s.ancestors)
    base = np.zeros(len(z)) if flag else wprev - np.max(wprev)
    if flag and cfg['filter'] == 'apf' and t in ys:
        need(first is not None, 'weight', 'no first stage weights')
        corr = corr - first[a]
    close(ref.normalise(s.pa.w), ref.normalise(base + corr), 'weight', fam, 'step', t, 'weights')


def full(cfg, d):
    off = 0 if cfg['mf'] else 1
    return [(i + off, y) for i, y in enumerate(d.y)]


def smoothed(cfg, st, d, s, ys):
    m, fam = d.m, cfg['fam']
    n = len(s.traj)
    need(n == len(d.pt.traj), 'smoothed', 'length', n)
    M = len(s.traj[0].pa.part)
    lxi = getattr(m, 'lxi', 0)
    for j in range(M):
        xis = [np.copy(s.traj[t].pa.part[j, :lxi]) for t in range(n)]
        A = Along(cfg, m, xis, d.u[:n - 1], n)
        for t in range(n):
            p = np.copy(s.traj[t].pa.part[j:j + 1])
            z, P = states(fam, m, p)
            last = t == n - 1
            em, eP, _ = A.at([('z', t)] if last else [('z', t), ('z', t + 1)], ys)
            k = len(z[0])
            close(z[0], em[:k], 'smooth-mean', fam, cfg['smoother'], 'trajectory', j, 'step', t)
            close(P[0], eP[:k, :k], 'smooth-cov', fam, cfg['smoother'], 'trajectory', j, 'step', t)
            if not last:
                if fam == 'LT':
                    Mz = p[0, k + k * k:].reshape((k, k))
                else:
                    Mz = np.asarray(m.get_Mz(p))[0].reshape((k, k))
                close(Mz, eP[:k, k:], 'lag-one', fam, cfg['smoother'], 'trajectory', j, 'step', t)
    st.state('smoothed', fam, cfg['variant'], cfg['smoother'], bool(ys), n)
    st.trace(scen.digest(scen.snap_straj(s)))
