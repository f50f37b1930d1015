"""Genealogy: every particle comes from the particle named as its ancestor"""
import numpy as np

from .. import ref, scen, seams
from ..engine import fail, need
from ..scen import pick

ID = 'C07'
RULE = ('one seeded online run of any filter with the identity-carrying non-Markov model (every callback checks '
        'that particles, parents, histories and data belong together), failed attempts and extreme draws '
        'included, followed by smoothing; the recorded ancestors are compared with the identities, '
        'the trajectories of the ancestor smoother are followed back; non-trivial: at least one step where '
        'ancestors are not the identity permutation')
STATES = 'distinct (filter, smoother, ancestor pattern) per step'
QUICK, THOROUGH = 10000, 400


def gen(r, i):
    cfg = scen.gen_base(r, fams=('Tag',), Tmax=10, Nmax=int(pick(r, (3, 9, 25))), Mmax=9, no_smoother=0.0)
    if r.uniform() < 0.5:
        cfg['smoother'] = 'ancestor'
        cfg['so'] = None
    cfg['res'] = float(pick(r, (0.0, 0.5, 0.67, 0.9, 1.0)))
    cfg['faults'] = scen.gen_faults(r, cfg, p=0.2)
    cfg['sfaults'] = ([[int(r.randint(30)), pick(r, ('before', 'after')), 'Injected']]
                      if r.uniform() < 0.2 else [])
    cfg['ext'] = scen.gen_extreme(r, 0.3)
    return cfg


def run(cfg, st):
    d = scen.Drive(cfg, st)
    m, pt, N = d.m, d.pt, cfg['N']
    m.truth = pt
    refs = []
    if cfg['filter'] in scen.COND:
        refs = [float(s.pa.part[0, 0]) for s in d.fo['cond_traj']]
    for i, call in enumerate(d.calls):
        n = len(pt.traj)
        d.step(i)
        need(len(pt.traj) in (n + 1, n + 2), 'steps', n, 'became', len(pt.traj))
        for t in range(n, len(pt.traj)):
            judge(cfg, st, m, pt, t, refs)
    M = cfg['M']
    straj = d.smooth()
    need(len(straj.traj) == len(pt.traj), 'smoothed', 'length', len(straj.traj))
    if cfg['smoother'] == 'ancestor':
        lineages(cfg, st, m, pt, straj, refs)
    else:
        for t, s in enumerate(straj.traj):
            need(len(s.pa.part) == M, 'smoothed', 'step', t, 'has', len(s.pa.part), 'trajectories')
            need(s.pa.part[:, 2] == t, 'smoothed', 'step', t, 'contains', s.pa.part)
            known(m, s.pa.part)
    d.done()
    st.trace(scen.digest(scen.snap_straj(straj)))


def known(m, part):
    for p in part:
        b = m.born.get(float(p[0]))
        need(b is not None and b == (p[1], p[2]), 'forged', 'particle', p, 'made as', b)


def judge(cfg, st, m, pt, t, refs):
    s = pt.traj[t]
    p, a = s.pa.part, np.asarray(s.ancestors)
    need(p.shape == (cfg['N'], 3), 'forged', 'step', t, 'particles', p)
    known(m, p)
    need(p[:, 2] == t, 'forged', 'step', t, 'contains particles of', p[:, 2])
    if t == 0:
        need(np.all((p[:, 1] == -1)), 'forged', 'initial particles with parents', p[:, 1])
        need(np.array_equal(a, np.arange(cfg['N'])), 'ancestor', 'initial ancestors', a)
        return
    par = pt.traj[t - 1].pa.part[a][:, 0]
    ok = (p[:, 1] == par) | np.isin(p[:, 0], refs)
    if cfg['filter'] in ('pfy', 'cpfyas'):
        # proposed from the measurement alone, no parent
        ok |= p[:, 1] == -1
    need(ok, 'ancestor', 'step', t, 'filter', cfg['filter'], 'particles made from', p[:, 1],
         'named ancestors', par)
    fresh = ~np.isin(p[:, 0], refs)
    need(len(np.unique(p[fresh, 0])) == fresh.sum(), 'duplicate', 'step', t, 'ids', p[:, 0])
    if not np.array_equal(a, np.arange(len(a))):
        st.nontrivial = True
    st.state(cfg['filter'], tuple(np.sort(a).tolist()))
    st.trace(t, a.tolist())


def lineages(cfg, st, m, pt, straj, refs):
    """Complete genuine lineages, with the right ends"""
    T, N, M = len(pt.traj), cfg['N'], cfg['M']
    last = straj.traj[T - 1].pa.part
    need(len(last) == M, 'lineage', len(last), 'trajectories instead of', M)
    ids = pt.traj[T - 1].pa.part[:, 0]
    W = scen.weights(pt.traj[T - 1])
    cnt = np.array([(last[:, 0] == i).sum() for i in ids])
    need(cnt.sum() == M, 'lineage', 'ends', last[:, 0], 'filtered', ids)
    eps = 1e-9 * M
    need((cnt >= np.floor(M * W - eps)) & (cnt <= np.ceil(M * W + eps)), 'ends',
         'trajectories ending in each particle', cnt, 'weights', W, 'number of trajectories', M)
    for j in range(M):
        k = int(np.flatnonzero(ids == last[j, 0])[0])
        for t in range(T - 1, -1, -1):
            exp = pt.traj[t].pa.part[k]
            got = straj.traj[t].pa.part[j]
            need(np.array_equal(exp, got), 'lineage', 'trajectory', j, 'step', t, 'is', got,
                 'instead of', exp)
            k = int(pt.traj[t].ancestors[k])
    st.probes['lineages followed'] += M
