"""A missing measurement carries no information and breaks nothing"""
import numpy as np

from .. import est, models, pest, ref, scen, seams, variant
from ..engine import fail, need
from ..scen import pick
from ..seams import faulty
from . import c05, c06, c12, c15

ID = 'C13'
RULE = ('one seeded run with a drop-out pattern (first, last, burst, alternating, random, all) for every model family, '
        'filter, smoother and estimator; the run is repeated with the same random stream and, instead of the missing '
        'ones, measurements that carry no information (their density does not depend on the state), and must give the '
        'same result; or the exact oracles for weights, resampling, linear sub-states and M-step objective judge the run '
        'with the drop-outs; calls of the measurement function are watched; non-trivial: some measurement was missing')
STATES = 'distinct (kind, family, filter, smoother or estimator, pattern, meas_first)'
QUICK, THOROUGH = 6000, 600
FAMS = ('HMM', 'LG', 'ML', 'MM', 'HI', 'LT')


def mask(r, T):
    """A drop-out pattern"""
    k = pick(r, ('all', 'first', 'last', 'ends', 'burst', 'alternate', 'random', 'random', 'but', 'one'))
    if k == 'all':
        s = range(T)
    elif k == 'first':
        s = range(int(r.randint(1, T + 1)))
    elif k == 'last':
        s = range(int(r.randint(0, T)), T)
    elif k == 'ends':
        s = (0, T - 1)
    elif k == 'burst':
        a = int(r.randint(0, T))
        s = range(a, min(T, a + int(r.randint(1, 4))))
    elif k == 'alternate':
        s = range(int(r.randint(0, 2)), T, 2)
    elif k == 'but':
        b = int(r.randint(0, T))
        s = [i for i in range(T) if i != b]
    elif k == 'one':
        s = [int(r.randint(0, T))]
    else:
        s = [i for i in range(T) if r.uniform() < 0.4]
    return sorted(set(int(i) for i in s)), k


def gen(r, i):
    kind = pick(r, ('same', 'same', 'same', 'same', 'tag', 'est', 'est', 'weights', 'resample', 'linear', 'mstep'))
    if kind == 'same':
        c = scen.gen_base(r, fams=FAMS, Tmax=8, Nmax=8, Mmax=4, no_smoother=0.1)
        k = c['mk']
        if c['fam'] in ('ML', 'MM', 'HI', 'LT'):
            k['dep'] = ''.join(x for x in k['dep'] if x not in 'ChR') + 'ChR'
        if c['fam'] == 'LG' and r.uniform() < 0.5:
            k['noise'] = 'const'
        c['res'] = {0.0: 0.0, 1.0: 0.97, 0.5: 0.513}.get(c['res'], c['res'])
        c['T0'] = bool(r.uniform() < 0.2)
    elif kind == 'tag':
        c = scen.gen_base(r, fams=('Tag',), Tmax=8, Nmax=6, no_smoother=0.1)
    elif kind == 'est':
        c = est.gen(r, iters=4)
    elif kind == 'weights':
        c = c05.gen(r, i)
    elif kind == 'resample':
        c = c06.gen(r, 1)
    elif kind == 'linear':
        c = c12.gen(r, i)
        c['variant'] = 'pure'
    else:
        c = c15.gen(r, i)
        c['iters'] = min(c['iters'], 3)
        c['fail'] = []
    if kind in ('same', 'est') and c['fam'] == 'HMM':
        c['mk']['sparse'] = 0.0
    c['miss'], c['pattern'] = mask(r, c['T'])
    return dict(kind=kind, c=c)


def shrink(cfg):
    c = cfg['c']
    put = lambda **k: dict(cfg, c=dict(c, **k))
    if len(c['miss']) > 1:
        for i in c['miss']:
            yield put(miss=[j for j in c['miss'] if j != i])
    if c['T'] > 1:
        yield put(T=c['T'] - 1, miss=[i for i in c['miss'] if i < c['T'] - 1])
        yield put(T=c['T'] - 1, miss=[i - 1 for i in c['miss'] if i > 0])
    low = 2 if c['filter'] in scen.COND else 1
    if not isinstance(c['N'], list) and c['N'] > low:
        yield put(N=c['N'] - 1)
        yield put(N=low)
    if not isinstance(c['M'], list) and c['M'] > 1:
        yield put(M=1)
    if c.get('faults'):
        yield put(faults={})
    if c['smoother'] and cfg['kind'] in ('same', 'tag', 'linear'):
        yield put(smoother=None)
    if c.get('iters', 1) > 1:
        yield put(iters=c['iters'] - 1)


def valid(cfg):
    c = cfg['c']
    if not c['miss'] or c['T'] < 1:
        return False
    if cfg['kind'] == 'linear':
        return c12.valid(c)
    if cfg['kind'] == 'mstep':
        return c15.valid(c)
    return True


# --- measurements without information ----------------------------------------------------

class FlatHMM(models.HMM):
    def setup_flat(self, flat):
        self.flat_at = flat


class FlatLG(models.LG):
    """At the time steps `flat_at` the measurement does not depend on the state"""

    def setup_flat(self, flat):
        self.flat_at = flat

    def gx(self, x, t):
        if int(t) in self.flat_at:
            return np.zeros((len(x), self.ny)) + self.D[0]
        return super(FlatLG, self).gx(x, t)

    def Rx(self, x, t):
        if int(t) in self.flat_at:
            return np.repeat(self.Rt[:1], len(x), 0)
        return super(FlatLG, self).Rx(x, t)

    def _qmom(self, x, u, y, t):
        return super(FlatLG, self)._qmom(x, u, None if int(t) + 1 in self.flat_at else y, t)

    def propose_from_y(self, N, y, t):
        return super(FlatLG, self).propose_from_y(N, None if int(t) in self.flat_at else y, t)


class _FlatLin(object):
    def setup_flat(self, flat):
        self.flat_at = flat

    def val(self, name, *a, **k):
        t = a[0] if self.single else a[1]
        if name in ('C', 'h', 'R') and int(t) in getattr(self, 'flat_at', ()):
            m = self.tab[name][0]
            return np.zeros_like(m) if name == 'C' else m
        return super(_FlatLin, self).val(name, *a, **k)


class FlatML(_FlatLin, models.ML):
    single = False


class FlatMM(_FlatLin, models.MM):
    single = False


class FlatLT(_FlatLin, models.LT):
    single = True


@faulty
class FlatHI(_FlatLin, models.HI):
    single = False

    def measure_nonlin(self, particles, y, t):
        if int(t) in self.flat_at:
            return np.full(len(particles), -1.25)
        return super(FlatHI, self).measure_nonlin(particles, y, t)


FLAT = dict(HMM=FlatHMM, LG=FlatLG, ML=FlatML, MM=FlatMM, HI=FlatHI, LT=FlatLT)


def use(fam, flat):
    """Models of the family carry no information at the given states"""
    def make(**kw):
        m = FLAT[fam](**kw)
        m.setup_flat(frozenset(flat))
        return m
    scen.FAMS[fam] = make


_data = scen.data


def data(c, m):
    u, y = _data(c, m)
    if c['fam'] == 'HMM' and getattr(m, 'flat_at', None):
        off = 0 if c['mf'] else 1
        y = [m.Y if i + off in m.flat_at else v for i, v in enumerate(y)]
    return u, y


def watch(w):
    """The measurement function is never called without a measurement"""
    def inner(model, name, a, k):
        if name == 'measure' or name == 'measure_nonlin':
            y = k['y'] if 'y' in k else a[1]
            need(y is not None, 'called', name, 'without a measurement')
        elif name == 'measure_full':
            traj, yvec = seams.arg(name, a, k, 'traj'), seams.arg(name, a, k, 'yvec')
            cur = 0 if traj is None else len(traj)
            need(len(yvec) <= cur or yvec[cur] is not None, 'called', name, 'without a measurement at', cur)
    w.inner.append(inner)


def result(d, s):
    out = dict(particles=[np.copy(x.pa.part) for x in d.pt.traj],
               weights=[scen.weights(x) for x in d.pt.traj],
               ancestors=[np.array(x.ancestors) for x in d.pt.traj], flags=list(d.flags))
    if s is not None:
        out['smoothed'] = [np.copy(x.pa.part) for x in s.traj]
        out['estimates'] = np.copy(s.get_smoothed_estimates())
    return out


def online(c, st, flat):
    d = scen.Drive(c, st)
    if not flat:
        watch(d.w)
    for i in range(len(d.calls)):
        d.step(i)
        need(all(np.isfinite(np.max(x.pa.w)) for x in d.pt.traj[-1:]), 'weights', 'step', i, 'weights',
             d.pt.traj[-1].pa.w)
    s = d.smooth()
    d.done()
    return d, s


def states(c):
    off = 0 if c['mf'] else 1
    return [i + off for i in c['miss']]


def differ(a, b, path=''):
    if isinstance(a, dict):
        for k in sorted(a):
            x = differ(a[k], b[k], path + k)
            if x:
                return x
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d / %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            x = differ(x, y, '%s[%d]' % (path, i))
            if x:
                return x
        return None
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if x.shape != y.shape or not np.allclose(x, y, rtol=1e-7, atol=1e-7):
        return '%s: %s / %s' % (path, x.tolist(), y.tolist())


def same(c, st):
    scen.data = data
    use(c['fam'], ())
    d, s = online(c, st, None)
    base = result(d, s)
    end = float(np.random.uniform())
    use(c['fam'], states(c))
    other = dict(c, miss=[])
    d2, s2 = online(other, st, states(c))
    got = result(d2, s2)
    x = differ(base, got)
    if x:
        fail('information', c['fam'], c['filter'], c['smoother'], 'missing / without information:', x)
    need(end == float(np.random.uniform()), 'information', 'other number of random draws')
    # the batch interface treats drop-outs alike
    if c['T0']:
        use(c['fam'], ())
        m = scen.model(c)
        u, y = scen.data(c, m)
        scen.real_seed(c['seed'])
        fo = scen.filter_options(c, m, u, y)
        sim = scen.Simulator(m, scen.inputs(c, u), y)
        w = seams.World(budget=2000000)
        watch(w)
        with w:
            scen.simulate(c, sim, fo)
        x = differ(base['particles'], [t.pa.part for t in sim.pt.traj])
        if not x and s is not None:
            x = differ(base['smoothed'], [t.pa.part for t in sim.straj.traj])
        if x:
            fail('batch', 'online / batch with missing measurements:', x)
    st.probes['compared with measurements without information'] += 1


def tag(c, st):
    d = scen.Drive(c, st)
    watch(d.w)
    for i in range(len(d.calls)):
        n = len(d.pt.traj)
        w0 = np.copy(d.pt.traj[-1].pa.w) if n else None
        d.step(i)
        s = d.pt.traj[-1]
        if d.calls[i][-1] is None and d.calls[i][0] == 'forward' and n and c['filter'] in ('pf', 'apf'):
            exp = np.full(c['N'], 1.0 / c['N']) if d.flags[-1] else ref.normalise(w0)
            need(np.abs(scen.weights(s) - exp) <= 1e-9, 'weights', 'step without measurement', i, scen.weights(s),
                 'instead of', exp)
    d.smooth()
    d.done()


class Estimation(object):

    def __init__(self, c, st, flat):
        self.m, u, y, a = est.prepare(c)
        if flat:
            y = [self.m.Y if v is None else v for v in y]
        w = seams.World(budget=4000000)
        if not flat:
            watch(w)
        self.cb = []
        a['callback'] = lambda params, Q, cur_iter: self.cb.append(np.copy(params))
        with w:
            self.res = est.CLASSES[c['est']](self.m, u, y).maximize(**a)
        st.world(w)
        st.runs += 1
        st.steps += c['iters'] * c['T']

    def book(self):
        """Everything but the measurements the M-step was given"""
        out = []
        for b in self.m.book:
            out.append([np.asarray(v, dtype=float) for k, v in enumerate(b[1:]) if not (b[0] == 'max' and k == 1)])
        return out


def estimation(c, st):
    r = Estimation(c, st, False)
    p = np.ravel(np.asarray(r.res[0] if isinstance(r.res, tuple) else r.res, dtype=float))
    need(np.all(np.isfinite(p)), 'parameters', p)
    need(len(r.cb) >= 1, 'iterations', len(r.cb))
    if c['fam'] == 'HMM':
        q = Estimation(c, st, True)
        x = differ([r.book(), r.cb], [q.book(), q.cb])
        if x:
            fail('information', c['est'], c['filter'], c['smoother'], 'missing / without information:', x)
        st.probes['estimation compared with measurements without information'] += 1
    st.trace(scen.digest([np.asarray(v) for v in r.cb]))


def run(cfg, st):
    c, kind = cfg['c'], cfg['kind']
    if kind == 'same':
        same(c, st)
    elif kind == 'tag':
        tag(c, st)
    elif kind == 'est':
        estimation(c, st)
    else:
        dict(weights=c05, resample=c06, linear=c12, mstep=c15)[kind].run(c, st)
    st.faults['missing measurement'] += len(c['miss'])
    st.state(kind, c['fam'], c['filter'], c['smoother'], c.get('est'), c['pattern'], c['mf'])
    st.nontrivial = True
