"""Backward simulation draws from the exact backward distribution"""
import numpy as np

from .. import ref, scen, seams
from ..engine import fail, need
from ..scen import pick
from .c09 import slots, cdf
from .c12 import Along, recorded, lineage, states

ID = 'C10'
RULE = ('law: one filter run, backward simulation repeated from many seeds; the selected particle of a random '
        'trajectory is tested at each step against weight times transition density to its next state (for '
        'the Metropolis variant: the exact R-step kernel started at the genealogical ancestor), transition '
        'densities of Rao-Blackwellised models and the law of the sampled linear states come from conditioning '
        'the joint Gaussian; odd: loose acceptance bounds, extreme draws, impossible transitions and failing '
        'calls, checked for termination within a budget of model calls and for selecting only possible '
        'particles; non-trivial: at least two steps and more than one particle')
STATES = 'distinct (mode, family, smoother, filter, missing, options, bound looseness) reached'
QUICK, THOROUGH = 1200, 600

METHODS = ('full', 'rs', 'rsas', 'mcmc')


def gen(r, i):
    mode = pick(r, ('law', 'law', 'rb', 'odd'))
    if mode == 'rb':
        cfg = scen.gen_base(r, fams=('ML', 'MM', 'HI'), smoothers=METHODS + ('ancestor',), no_smoother=0.0,
                            Tmax=4, Nmax=5, Mmax=3)
        k = cfg['mk']
        k['lxi'], k['lz'], k['ny'] = [int(r.randint(1, 3)) for _ in range(3)]
        cfg['T'] = min(cfg['T'], 4)
        cfg['N'] = max(2, cfg['N'])
    elif mode == 'law':
        cfg = scen.gen_base(r, fams=('LG', 'LG', 'HMM'), smoothers=METHODS, no_smoother=0.0, Tmax=6,
                            filters=('pf', 'apf', 'sir', 'pfy', 'cpf', 'cpfas'))
        cfg['N'] = int(r.randint(2, 12))
        if cfg['fam'] == 'HMM' and cfg['smoother'] == 'mcmc':
            cfg['smoother'] = 'full'
            cfg['so'] = None
    else:
        cfg = scen.gen_base(r, fams=('HMM', 'LG', 'HI', 'ML'), smoothers=METHODS, no_smoother=0.0, Tmax=7)
        cfg['sfaults'] = [[int(r.randint(60)), pick(r, ('before', 'after', 'torn')), 'Injected']
                          for _ in range(int(r.randint(0, 3)))]
        cfg['ext'] = scen.gen_extreme(r, 0.7)
        if cfg['fam'] == 'HMM':
            cfg['mk']['sparse'] = float(pick(r, (0.0, 0.3, 0.6)))
    if cfg['fam'] == 'LG':
        # particles are told apart by their values
        cfg['mk'].pop('P0', None)
    cfg['miss'] = [k for k in cfg['miss'] if k < cfg['T']]
    cfg['slack'] = float(pick(r, (0.0, 0.0, 0.7, 3.0) if mode != 'odd' else (0.0, 5.0, 50.0, 1e4)))
    s = cfg['smoother']
    if s == 'rs':
        cfg['so'] = pick(r, (None, dict(R=0), dict(R=1), dict(R=3), dict(R=20)))
    elif s == 'rsas':
        cfg['so'] = pick(r, (None, dict(ratio=float(pick(r, (0.1, 0.5, 3.0))), P1=float(pick(r, (0.1, 1.0))),
                                        x1=float(pick(r, (0.3, 1.0))), sv=float(pick(r, (0.1, 1.0))),
                                        sw=float(pick(r, (0.3, 1.0, 3.0))))))
    elif s == 'mcmc':
        cfg['so'] = pick(r, (None, dict(R=0), dict(R=1), dict(R=2), dict(R=5)))
    else:
        cfg['so'] = None
    cfg['mode'] = mode
    return cfg


def valid(cfg):
    return cfg['T'] >= 1 and cfg['N'] >= (2 if cfg['filter'] in scen.COND else 1)


def loosen(m, slack):
    """Make the bound on the transition density less tight"""
    if slack and hasattr(m, 'logp_xnext_max'):
        orig = m.logp_xnext_max
        m.logp_xnext_max = lambda *a, **k: orig(*a, **k) + slack


def run(cfg, st):
    d = scen.Drive(cfg, st, budget=10 ** 7)
    loosen(d.m, cfg['slack'])
    for i in range(len(d.calls)):
        d.step(i)
    if any(np.any(np.isnan(s.pa.w)) for s in d.pt.traj):
        # no particle agrees with the data, there is nothing to draw from
        st.probes['all particles impossible'] += 1
        return
    so = cfg['so'] or {}
    st.state(cfg['mode'], cfg['fam'], cfg['smoother'], cfg['filter'], bool(cfg['miss']), sorted(so.items()),
             cfg['slack'])
    if cfg['mode'] == 'odd':
        odd(cfg, st, d)
    else:
        law(cfg, st, d)
    st.nontrivial = len(d.pt.traj) > 1 and cfg['N'] > 1
    d.done()


# --- distribution of the selected particles ------------------------------------------------

def law(cfg, st, d):
    rr = np.random.RandomState(cfg['seed'] % 999983)
    rb = cfg['mode'] == 'rb'
    reps = 25 if rb else 110
    cache = {}

    def collect(size):
        out = Draws(rr)
        for _ in range(reps * size):
            (once_rb if rb else once)(cfg, st, d, int(rr.randint(1 << 30)), rr, out)
        st.trace(scen.digest(out.d))
        return out.d
    cache[0] = collect(1)
    for name in sorted(cache[0]):
        def test(stage, size):
            if stage not in cache:
                cache[stage] = collect(size)
            v = cache[stage].get(name, [])
            return ref.uniform_p(v), (len(v), np.histogram(v, 10, (0, 1))[0].tolist())
        ps, info = ref.escalate(test)
        if info is not None:
            fail('law', cfg['fam'], cfg['smoother'], cfg['so'], name, 'do not follow their distribution: p',
                 ps, info)


class Draws(object):
    """Uniform variates of draws, by what was drawn and how the choices are ordered"""

    def __init__(self, rr):
        self.d, self.rr = {}, rr

    def chosen(self, slot, q, i, W, l):
        """Index i was chosen with probabilities q; small deviations from the
        weights and densities show best when the choices are ordered by them"""
        q, v = np.asarray(q), self.rr.uniform()
        for name, key in (('by index', None), ('by density', l), ('by weight', W)):
            k = np.arange(len(q)) if key is None else np.argsort(key, kind='stable')
            self.add('particles of trajectory %s %s' % (slot, name),
                     ref.pit(q[k], int(np.nonzero(k == i)[0][0]), v))

    def end(self, q, i):
        self.add('final particles', ref.pit(q, i, self.rr.uniform()))

    def add(self, name, *v):
        self.d.setdefault(name, []).extend(v)


def kernel(W, l, R):
    """R Metropolis moves over particles proposed with probability W, target W exp(l)"""
    N = len(W)
    with np.errstate(over='ignore', invalid='ignore'):
        acc = np.exp(np.minimum(l[None, :] - l[:, None], 0.0))
    acc[np.isnan(acc)] = 0.0
    K = W[None, :] * acc
    K[np.arange(N), np.arange(N)] = 0.0
    K[np.arange(N), np.arange(N)] = 1.0 - K.sum(1)
    return np.linalg.matrix_power(K, R)


def expected(cfg, pt, t, W, l, i_next):
    """Law of the index selected at step t"""
    if cfg['smoother'] == 'mcmc':
        R = 30 if not cfg['so'] else cfg['so']['R']
        start = int(pt.traj[t + 1].ancestors[i_next])
        return np.maximum(kernel(W, l, R)[start], 0.0)
    with np.errstate(divide='ignore'):
        return ref.normalise(np.log(W) + l)


class Bound(object):
    """The bound used for rejection has to be one"""

    def __init__(self):
        self.b = {}

    def __call__(self, phase, model, name, a, k, res):
        if phase != 'leave':
            return
        if name == 'logp_xnext_max_full':
            self.b[int(seams.arg(name, a, k, 'cur_ind'))] = float(np.max(res))
        elif name == 'logp_xnext_full':
            t = int(seams.arg(name, a, k, 'cur_ind'))
            if t in self.b:
                need(np.asarray(res) <= self.b[t] + 1e-9 * (1 + abs(self.b[t])), 'bound', 'step', t,
                     'log densities', res, 'above the bound', self.b[t])


def smooth_again(cfg, d, seed, hook=None):
    scen.real_seed(seed)
    w = seams.World(budget=10 ** 7)
    w.hooks.append(Bound())
    if hook is not None:
        w.hooks.append(hook)
    with w:
        return scen.smooth(cfg, d.pt)


def once(cfg, st, d, seed, rr, out):
    s = smooth_again(cfg, d, seed)
    pt, m, M = d.pt, d.m, cfg['M']
    n = len(pt.traj)
    need(len(s.traj) == n, 'length', len(s.traj))
    st.runs += 1
    st.steps += n
    hmm = cfg['fam'] == 'HMM'
    pick_end = int(rr.randint(M))
    for slot in sorted(set((0, M - 1, pick_end))):
        idx = None
        for t in range(n - 1, -1, -1):
            x = s.traj[t].pa.part[slot]
            part, W = pt.traj[t].pa.part, scen.weights(pt.traj[t])
            k = slots(part, x)
            need(len(k) > 0, 'not-a-particle', cfg['smoother'], 'step', t, x, 'particles', part)
            if t == n - 1:
                q = W
                l = np.zeros(len(W))
            else:
                nxt = s.traj[t + 1].pa.part[slot]
                l = np.array([m.d_trans(part[i], nxt, d.u[t], t) for i in range(len(part))])
                q = expected(cfg, pt, t, W, l, idx)
            if hmm:
                # by value, particles are not unique
                need(q[k].sum() > 0, 'impossible', cfg['smoother'], 'step', t, 'state', x, 'probability zero')
                q, W, l = [np.array([f(v[part[:, 0] == c]) if np.any(part[:, 0] == c) else 0.0
                                     for c in range(m.S)]) for f, v in ((np.sum, q), (np.sum, W), (np.max, l))]
                idx = int(x[0])
            else:
                need(len(k) == 1, 'not-a-particle', 'ambiguous')
                idx = int(k[0])
            if t < n - 1:
                if slot in (0, M - 1):
                    out.chosen('first' if slot == 0 else 'last', q, idx, W, l)
            elif slot == pick_end:
                out.end(q, idx)
    ends(cfg, pt, s)


def ends(cfg, pt, s):
    """Final particles are used in proportion to their weights"""
    part, W = pt.traj[-1].pa.part, scen.weights(pt.traj[-1])
    got = np.asarray(s.traj[-1].pa.part)
    for i in range(len(part)):
        k = np.nonzero(np.all(part == part[i], axis=1))[0]
        c, e = len(np.nonzero(np.all(got == part[i], axis=1))[0]), cfg['M'] * W[k].sum()
        # copies of one value need not be neighbours
        need(c > e - len(k) - 1e-9 and c < e + len(k) + 1e-9, 'ends', cfg['smoother'], 'particle', i, 'ends', c,
             'of', cfg['M'], 'trajectories, weight', W[k].sum())


def density(cfg, d, ys, t, i, fut):
    """Exact density of what lies ahead given particle i of step t, and the
    moments of its linear states given that"""
    m, pt, fam = d.m, d.pt, cfg['fam']
    lxi, lz = m.lxi, len(m.z0.ravel()) if fam == 'HI' else len(m.z00)
    n = len(pt.traj)
    yp = dict((a, v) for a, v in ys.items() if a <= t)
    path = lineage(cfg, d, t, i)
    if fam == 'MM':
        A = Along(cfg, m, path + [f[:lxi] for f in fut], d.u[:n - 1], n)
        return A.at([('z', 0)], ys)[2] - A.at([('z', 0)], yp, npath=t + 1)[2], None, None
    A = Along(cfg, m, path + [fut[0][:lxi]], d.u[:t + 1], t + 2)
    zn = fut[0][lxi:lxi + lz]
    obs0 = A.path[:t] + [(('y', b), yp[b]) for b in sorted(yp)]
    obs = obs0 + ([(('xi', t + 1), fut[0][:lxi])] if fam == 'ML' else []) + [(('z', t + 1), zn)]
    mz, Pz, l1 = A.J.condition([('z', t)], obs)
    l = l1 - A.J.condition([('z', t)], obs0)[2]
    if fam == 'HI':
        l += ref.logn(fut[0][:lxi], m.fx(path[t], d.u[t], t), m.Qx(t))
    return l, mz, Pz


class Densities(object):
    """Transition densities the model reports, all particles at once"""

    def __init__(self, cfg, d, ys):
        self.cfg, self.d, self.ys, self.got, self.memo = cfg, d, ys, [], {}

    def __call__(self, phase, model, name, a, k, res):
        if phase == 'leave' and name == 'logp_xnext_full' and len(self.got) < 12:
            g = lambda n: seams.arg(name, a, k, n)
            f = g('future_trajs')
            self.got.append((int(g('cur_ind')), np.copy(g('part')), [np.copy(s.pa.part) for s in f],
                             np.copy(g('find')), np.copy(res)))

    def check(self, st):
        cfg, d = self.cfg, self.d
        for t, part, fut, find, res in self.got:
            part_t = d.pt.traj[t].pa.part
            ex = []
            for p, j in zip(part, find):
                k = slots(part_t[:, :d.m.lxi], p[:d.m.lxi])
                need(len(k) == 1, 'not-a-particle', 'step', t, p)
                key = (t, int(k[0]), fut[0][j].tobytes())
                if key not in self.memo:
                    self.memo[key] = density(cfg, d, self.ys, t, int(k[0]), [f[j] for f in fut])[0]
                ex.append(self.memo[key])
            ex, res = np.array(ex), np.ravel(res)
            need(res.shape == ex.shape, 'density', 'shape', res.shape)
            if cfg['fam'] == 'MM':
                # up to what is common to all particles
                for j in set(find.tolist()):
                    w = find == j
                    ex[w], res[w] = ex[w] - ex[w][0], res[w] - res[w][0]
            need(np.abs(res - ex) <= 2e-6 * (1 + np.max(np.abs(ex))), 'density', cfg['fam'], cfg['smoother'], 'step', t,
                 'log densities', res.tolist(), 'instead of', ex.tolist())
            st.probes['transition densities'] += len(ex)


def once_rb(cfg, st, d, seed, rr, out):
    m, pt, fam = d.m, d.pt, cfg['fam']
    n, M = len(pt.traj), cfg['M']
    slot = int(pick(rr, (0, M - 1)))
    which = 'first' if slot == 0 else 'last'
    got = {}
    ys = recorded(cfg, d)
    dens = None if out.d else Densities(cfg, d, ys)

    def hook(phase, model, name, a, k, res):
        if phase == 'leave' and name == 'sample_smooth':
            got[int(seams.arg(name, a, k, 'cur_ind'))] = np.copy(res)
        if dens is not None:
            dens(phase, model, name, a, k, res)
    smooth_again(cfg, d, seed, hook)
    st.runs += 1
    st.steps += n
    if dens is not None:
        dens.check(st)
    lxi, lz = m.lxi, len(np.ravel(m.z0)) if fam == 'HI' else len(m.z00)
    idx = None
    N = cfg['N']
    for t in range(n - 1, -1, -1):
        need(t in got, 'not-sampled', 'step', t)
        x = got[t][slot]
        part, W = pt.traj[t].pa.part, scen.weights(pt.traj[t])
        k = slots(part[:, :lxi], x[:lxi])
        need(len(k) == 1, 'not-a-particle', cfg['smoother'], 'step', t, x[:lxi], 'particles', part[:, :lxi])
        i_next, idx = idx, int(k[0])
        yp = dict((a, v) for a, v in ys.items() if a <= t)
        if t == n - 1:
            em, eP, _ = Along(cfg, m, lineage(cfg, d, t, idx), d.u[:t], n).at([('z', t)], yp)
        else:
            fut = [got[b][slot] for b in range(t + 1, n)]
            all_ = [density(cfg, d, ys, t, i, fut) for i in range(N)]
            l, (_, em, eP) = np.array([v[0] for v in all_]), all_[idx]
            if cfg['smoother'] != 'ancestor':
                out.chosen(which, expected(cfg, pt, t, W, l, i_next), idx, W, l)
            else:
                need(idx == pt.traj[t + 1].ancestors[i_next], 'ancestor', 'step', t)
        if fam != 'MM':
            z = x[lxi:lxi + lz]
            lam, E = np.linalg.eigh(eP)
            ok = lam > 1e-7 * max(lam.max(), 1e-12)
            e = E.T.dot(z - em)
            out.add('sampled linear states', *cdf(e[ok] / np.sqrt(lam[ok])).tolist())


# --- odd circumstances ------------------------------------------------------------------------

def odd(cfg, st, d):
    m, pt = d.m, d.pt
    n = len(pt.traj)
    calls = [0]

    def count(phase, model, name, a, k, res):
        calls[0] += phase == 'enter' and name == 'logp_xnext_full'
    d.w.hooks.extend((count, Bound()))
    so = cfg['so'] or {}
    tries = 1 + len(cfg.get('sfaults', []))
    d.w.budget = d.w.total + 200000
    s = d.smooth()
    M, N = cfg['M'], cfg['N']
    bound = dict(full=M, rs=M + int(so.get('R', max(1, 0.1 * N))), mcmc=1 + int(so.get('R', 30)),
                 rsas=M + 400)[cfg['smoother']]
    need(calls[0] <= tries * (n - 1) * bound, 'termination', cfg['smoother'], cfg['so'], calls[0],
         'density evaluations for', n, 'steps')
    need(len(s.traj) == n, 'length', len(s.traj))
    fam = cfg['fam']
    lxi = getattr(m, 'lxi', 1)
    for t in range(n):
        p = s.traj[t].pa.part
        need(len(p) == M and np.all(np.isfinite(p)), 'malformed', 'step', t, p)
        part, W = pt.traj[t].pa.part, scen.weights(pt.traj[t])
        for j in range(M):
            c = p.shape[1] if fam in ('HMM', 'LG') else lxi
            k = slots(part[:, :c], p[j, :c])
            need(len(k) > 0, 'not-a-particle', cfg['smoother'], 'step', t, p[j], 'particles', part)
            ok = W[k] > 0
            if t + 1 < n and fam == 'HMM':
                ok = ok & np.array([m.d_trans(part[i], s.traj[t + 1].pa.part[j], d.u[t], t) > -np.inf for i in k])
            if cfg['smoother'] != 'mcmc':
                need(np.any(ok), 'impossible', cfg['smoother'], 'step', t, 'trajectory', j, p[j])
    st.probes['odd run finished'] += 1
