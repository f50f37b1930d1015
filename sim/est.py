"""Parameter estimation scenarios: recording models and estimation runs"""
import numpy as np

from . import models, scen, seams
from .seams import faulty
from .scen import pick
from pyparticleest.paramest import paramest as pe

CLASSES = dict(EM=pe.ParamEstimation, SAEM=pe.ParamEstimationSAEM,
               PSAEM=pe.ParamEstimationPSAEM, PSAEM2=pe.ParamEstimationPSAEM2)


@faulty
class _Est(object):
    """A model with parameters and an M-step that depends on every detail of
    what it is given.  Everything it is asked is kept in `book`."""

    def set_params(self, params):
        p = np.copy(params)
        self.book.append(('set', np.copy(p)))
        self.params = p
        self.use(p)

    def _next(self, s):
        p = 0.5 + 0.45 * np.sin(3.0 * self.params + s * np.arange(1, len(self.params) + 1))
        return p

    @staticmethod
    def _feature(est):
        """Scalar depending on every entry, for each column"""
        T, M, D = est.shape
        c = np.cos(1.0 + np.arange(T * D, dtype=float)).reshape((T, D))
        return np.tanh(0.3 * np.einsum('tmd,td->m', np.nan_to_num(est), c))

    def maximize(self, straj):
        est = straj.get_smoothed_estimates()
        p = self._next(float(np.sum(self._feature(est)) / est.shape[1]))
        self.book.append(('max', np.copy(est), [scen.cp(v) for v in straj.y], np.copy(p)))
        self._search(p)
        return p

    def _search(self, p):
        # a numerical search leaves other parameters behind
        if getattr(self, 'junk', False):
            self.params = 0.3 * p
            self.use(self.params)

    def maximize_weighted(self, straj, alltrajs, weights):
        p = self._next(float(np.dot(self._feature(np.asarray(alltrajs)), weights)))
        self.book.append(('maxw', np.copy(straj.get_smoothed_estimates()), np.copy(alltrajs),
                          np.copy(weights), np.copy(p)))
        self._search(p)
        return p


class EH(_Est, models.HMM):
    """Finite state model whose transitions depend on the parameters"""

    def __init__(self, **kw):
        models.HMM.__init__(self, **kw)
        r = np.random.RandomState(kw.get('seed', 0) + 5)
        self.Pa = np.copy(self.P)
        self.Pb = r.dirichlet(np.ones(self.S), size=(self.K, self.S))
        self.book = []

    def use(self, p):
        a = float(np.clip(p[0], 0.0, 1.0))
        self.P = (1.0 - a) * self.Pa + a * self.Pb


class EL(_Est, models.LG):
    """Gaussian model whose dynamics depend on the parameters"""

    def __init__(self, **kw):
        models.LG.__init__(self, **kw)
        self.A0, self.B0 = np.copy(self.A), np.copy(self.B)
        self.book = []

    def use(self, p):
        self.A = self.A0 * (0.5 + 0.5 * p[0])
        if len(p) > 1:
            self.B = self.B0 * p[1]


class ET(_Est, models.Tag):
    """History dependent model; the parameters only label the iteration"""

    def __init__(self, **kw):
        models.Tag.__init__(self, **kw)
        self.book = []

    def use(self, p):
        pass


FAMS = dict(HMM=EH, LG=EL, Tag=ET)


def gen(r, kinds=('EM', 'SAEM', 'PSAEM', 'PSAEM2'), fams=('HMM', 'LG', 'Tag'), Tmax=5, Nmax=6, miss=None, iters=5):
    kind = pick(r, kinds)
    fam = pick(r, fams)
    uncond = kind in ('EM', 'SAEM') and (kind == 'EM' or r.uniform() < 0.8)
    cfg = scen.gen_base(r, fams=(fam,), filters=scen.UNCOND if uncond or (kind == 'PSAEM' and r.uniform() < 0.1)
                        else scen.COND, Tmax=Tmax, Nmax=Nmax, Mmax=4, miss=miss, no_smoother=0.0)
    cfg['est'] = kind
    cfg['iters'] = int(r.randint(1, iters + 1))
    cfg['p0'] = [float(v) for v in r.uniform(0.1, 0.9, size=int(r.randint(1, 3)))]
    if kind not in ('EM', 'SAEM'):
        if r.uniform() < 0.3:
            cfg['N'] = [int(v) for v in r.randint(2, Nmax + 1, size=int(r.randint(1, 5)))]
    else:
        if r.uniform() < 0.5:
            cfg['N'] = [int(v) for v in r.randint(2, Nmax + 1, size=int(r.randint(1, 5)))]
        if r.uniform() < 0.5:
            cfg['M'] = [int(v) for v in r.randint(1, 5, size=int(r.randint(1, 5)))]
    cfg['nlist'] = pick(r, ('list', 'array', 'tuple'))
    if kind == 'PSAEM2':
        cfg['M'] = 1
    if kind == 'PSAEM':
        cfg['so'] = None
        if cfg['smoother'] in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp', 'rsas', 'rs'):
            # the number of sweeps cannot be chosen, the default takes long
            cfg['smoother'] = pick(r, ('ancestor', 'full', 'rs', 'rsas'))
        cfg['rb'] = bool(r.uniform() < 0.4)
        cfg['max_traj'] = int(pick(r, (0, 0, 1, 3, 7)))
        cfg['stop'] = int(pick(r, (0, 0, 1, 2, 3)))
    if kind in ('PSAEM', 'PSAEM2'):
        cfg['deps'] = float(pick(r, (0.0, 0.0, 1e-3, 0.05, 0.2, 1.0)))
        cfg['dperc'] = float(pick(r, (0, 0, 10, 30, 60, 90)))
    if kind != 'EM':
        cfg['alpha'] = pick(r, ('default', 'one', 'half', 'harmonic', 'mixed', 'zero'))
        if cfg['alpha'] == 'mixed':
            cfg['alist'] = [1.0] + [float(pick(r, (0.0, 0.1, 0.5, 0.9, 1.0))) for _ in range(cfg['iters'])]
    cfg['faults'] = {}
    return cfg


def alpha(cfg):
    """Step-size schedule as a function of the iteration, or None for the default"""
    a = cfg.get('alpha', 'default')
    if a == 'default':
        return None
    if a == 'one':
        return lambda it: 1
    if a == 'half':
        return lambda it: 1.0 if it == 0 else 0.5
    if a == 'harmonic':
        return lambda it: 1.0 / (it + 1)
    if a == 'zero':
        return lambda it: 1.0 if it == 0 else 0.0
    return lambda it: cfg['alist'][it % len(cfg['alist'])]


def size(cfg, which):
    v = cfg[which]
    if isinstance(v, list):
        if cfg.get('nlist') == 'array':
            return np.asarray(v)
        if cfg.get('nlist') == 'tuple':
            return tuple(v)
        return list(v)
    return v


def model(cfg):
    return FAMS[cfg['fam']](**cfg['mk'])


def prepare(cfg, m=None):
    """Everything the caller hands to the estimator"""
    m = model(cfg) if m is None else m
    u, y = scen.data(cfg, m)
    scen.real_seed(cfg['seed'])
    m.params = np.array(cfg['p0'])
    fo = scen.filter_options(cfg, m, u, y)
    scen.relax(m, cfg['smoother'])
    if cfg['fam'] == 'Tag' and cfg['filter'] in scen.COND:
        # the reference trajectory gets new parents in every iteration
        m.strict = False
    a = dict(param0=np.array(cfg['p0']), num_part=size(cfg, 'N'), max_iter=cfg['iters'],
             meas_first=cfg['mf'], filter=cfg['filter'])
    if cfg['est'] in ('EM', 'SAEM'):
        a['num_traj'] = size(cfg, 'M')
        a['smoother'] = cfg['smoother']
        a['smoother_options'] = None if cfg['so'] is None else dict(cfg['so'])
    elif cfg['est'] == 'PSAEM':
        a.update(M=cfg['M'], smoother=cfg['smoother'], raoblackwell=cfg['rb'], max_traj=cfg['max_traj'],
                 discard_eps=cfg['deps'], discard_percentile=cfg['dperc'])
    else:
        a.update(smoother=cfg['smoother'], smoother_options=None if cfg['so'] is None else dict(cfg['so']),
                 discard_eps=cfg['deps'], discard_percentile=cfg['dperc'])
    if cfg['est'] != 'EM':
        a['filter_options'] = fo if fo else (None if cfg['seed'] % 2 else {})
        al = alpha(cfg)
        if al is not None:
            a['alpha_gen'] = al
    return m, u, y, a
