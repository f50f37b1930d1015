"""Checkpoint at any step, crash, restart and fork"""
import copy
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import scen, seams
from ..engine import HERE, fail, need
from ..scen import pick

ID = 'C18'
RULE = ('one seeded run (any model family, filter, smoother); copies are taken by pickling or deep-copying at '
        'seeded points (also after a failed call and after smoothing), the original is continued, failed, '
        'discarded or overwritten, the copies are resumed (every 40th case in a fresh process) and forked with '
        'different data and interleaved calls; results compared bit by bit with uninterrupted runs; '
        'non-trivial: a checkpoint strictly inside a run of at least two calls')
STATES = 'distinct (family, filter, smoother, checkpoint kind, fate of the original, position)'
QUICK, THOROUGH = 3000, 500

FATES = ('continue', 'fail', 'discard', 'overwrite', 'smooth', 'measure')


def gen(r, i):
    cfg = scen.gen_base(r, Tmax=7)
    if cfg['T'] < 2:
        cfg['T'] = 2
        cfg['miss'] = [k for k in cfg['miss'] if k < 2]
    T = cfg['T']
    cfg['at'] = int(r.randint(0, T))           # calls made before the checkpoint
    cfg['how'] = pick(r, ('pickle0', 'pickle2', 'pickle5', 'deepcopy', 'deepcopy', 'twice', 'sim'))
    cfg['fate'] = pick(r, FATES)
    cfg['pre'] = pick(r, ('', '', 'fail', 'smooth'))   # what happened just before
    cfg['op'] = int(r.randint(12))
    cfg['when'] = pick(r, ('before', 'after', 'torn'))
    cfg['exc'] = pick(r, ('Injected', 'MemoryError', 'KeyboardInterrupt', 'ValueError'))
    cfg['alloc'] = bool(r.randint(2))
    cfg['forks'] = int(r.randint(0, 3))
    cfg['dy'] = int(r.randint(1, 1 << 20))
    cfg['process'] = i % 40 == 7
    return cfg


def valid(cfg):
    return cfg['T'] >= 2 and 0 <= cfg['at'] < cfg['T']


class Box(object):
    """A trajectory object together with its model"""

    def __init__(self, pt):
        self.pt = pt


def clone(pt, how):
    if how == 'deepcopy':
        return copy.deepcopy(pt)
    if how == 'twice':
        return pickle.loads(pickle.dumps(copy.deepcopy(pt)))
    if how == 'sim':
        # inside the interface object used by applications
        s = scen.Simulator(pt.pf.model, [None], [None])
        s.pt = pt
        return copy.deepcopy(s).pt
    return pickle.loads(pickle.dumps(pt, protocol=int(how[-1])))


def proceed(cfg, pt, calls, st=None):
    """Process the remaining calls and smooth"""
    w = seams.World(budget=2000000)
    with w:
        scen.relax(pt.pf.model, None)
        fl = [bool(scen.apply(pt, c)) for c in calls if True]
        straj = scen.smooth(cfg, pt)
    if st is not None:
        st.runs += 1
        st.steps += len(calls)
        st.ops += w.total
    return [fl, scen.snap_pt(pt), scen.snap_straj(straj), int(np.random.randint(1 << 30))]


def other_calls(cfg, m, calls, k):
    """Remaining data of a fork: drop-outs instead of measurements or other inputs"""
    r = np.random.RandomState((cfg['dy'] + 31 * k) % (2 ** 31))
    out = []
    for c in calls:
        if cfg['fam'] == 'Tag' or c[-1] is None:
            y = None if r.uniform() < 0.5 else c[-1]
        elif r.uniform() < 0.3:
            y = None
        elif cfg['fam'] == 'HMM':
            y = int(r.randint(m.Y))
        else:
            y = c[-1] + r.normal(size=np.shape(c[-1]))
        out.append(('measure', y) if c[0] == 'measure' else ('forward', c[1], y))
    return out


def overwrite(pt):
    """Destroy everything the original holds"""
    for s in pt.traj:
        s.pa.part[...] = 7.5
        s.pa.w[...] = -3.0
        if s.ancestors is not None:
            np.asarray(s.ancestors)[...] = 0
    for v in (pt.tvec,):
        v[...] = 99
    pt.uvec[...] = None
    pt.yvec[...] = None
    ct = getattr(pt.pf, 'ctraj', None)
    if ct is not None:
        for s in ct:
            s.pa.part[...] = -8.25
    m = pt.pf.model
    for n, v in list(vars(m).items()):
        if isinstance(v, np.ndarray) and v.dtype == float and v.flags.writeable:
            v[...] = 0.5
    del pt.traj[:]
    pt.ind = -5
    pt.T = -7


def start(cfg):
    m = scen.model(cfg)
    u, y = scen.data(cfg, m)
    scen.real_seed(cfg['seed'])
    fo = scen.filter_options(cfg, m, u, y)
    n = len(y) + (0 if cfg['mf'] else 1)
    pt = scen.trajectory(cfg, m, fo, T=n if cfg['alloc'] else None)
    return m, pt, scen.steps(cfg, u, y)


def run(cfg, st):
    k = cfg['at']
    # the uninterrupted run
    m, pt, calls = start(cfg)
    base = proceed(cfg, pt, calls, st)
    st.trace(scen.digest(base))

    def partly():
        m, pt, calls = start(cfg)
        w = seams.World(budget=2000000)
        with w:
            fl = [bool(scen.apply(pt, c)) for c in calls[:k]]
        return m, pt, calls, fl

    m, pt, calls, fl = partly()
    rng = np.random.get_state()
    w = seams.World(budget=2000000)
    born = len(pt.traj) > 0
    if cfg['pre'] == 'fail' and born:
        # the process crashes within the next call, which left no trace
        with w:
            w.arm([(cfg['op'], cfg['when'], cfg['exc'])])
            mark = copy.deepcopy(pt)
            try:
                scen.apply(pt, calls[k])
                # the failure was not reached: go back
                pt = mark
            except BaseException as e:
                if not w.fired:
                    raise
                st.probes['checkpoint after a failed call'] += 1
    elif cfg['pre'] == 'smooth' and born:
        with w:
            scen.relax(pt.pf.model, None)
            pt.perform_smoothing(1 if cfg['fam'] == 'LT' else 2, method='full')
            st.probes['checkpoint after smoothing'] += 1
    st.world(w)
    if cfg['pre'] and cfg['fam'] == 'Tag' and born:
        # identities are handed out by the model, which the interlude used
        base = None

    copies = [clone(pt, cfg['how']) for _ in range(2 + 2 * cfg['forks'])]
    disk = pickle.dumps(pt) if cfg['process'] else None
    if base is None:
        m2, pt2 = pt.pf.model, clone(pt, 'pickle2')
        np.random.set_state(rng)
        base = proceed(cfg, pt2, calls[k:], st)
        base[0] = fl + base[0]

    def judge(got, what):
        got[0] = fl + got[0]
        d = scen.diff(base, got)
        if d:
            fail('differs', what, 'after', k, 'of', len(calls), 'calls (', cfg['how'], cfg['fate'], '):', d)

    # what becomes of the original
    fate(cfg, pt, calls[k:], st)
    rest = calls[k:]
    np.random.set_state(rng)
    judge(proceed(cfg, copies[0], rest, st), 'resumed copy')
    # a second copy, after the first has been used up
    overwrite(copies[0])
    np.random.set_state(rng)
    judge(proceed(cfg, copies[1], rest, st), 'second copy')
    st.state(cfg['fam'], cfg['filter'], cfg['smoother'], cfg['how'], cfg['fate'], k == 0, cfg['pre'])
    st.nontrivial = 0 < k < len(calls)

    # forks with other data, their calls interleaved
    if cfg['forks']:
        plans = [other_calls(cfg, copies[2].pf.model, rest, j) for j in range(cfg['forks'])]
        alone = []
        for j, p in enumerate(plans):
            real = seams.real
            scen.real_seed(cfg['dy'] + j)
            alone.append(proceed(cfg, copies[2 + cfg['forks'] + j], p, st))
        pts = copies[2:2 + cfg['forks']]
        states = []
        for j in range(cfg['forks']):
            scen.real_seed(cfg['dy'] + j)
            states.append(np.random.get_state())
        flags = [[] for _ in pts]
        for i in range(len(rest)):
            for j, p in enumerate(pts):
                np.random.set_state(states[j])
                with seams.World(budget=2000000):
                    scen.relax(p.pf.model, None)
                    flags[j].append(bool(scen.apply(p, plans[j][i])))
                states[j] = np.random.get_state()
        for j in reversed(range(len(pts))):
            np.random.set_state(states[j])
            with seams.World(budget=2000000):
                straj = scen.smooth(cfg, pts[j])
            got = [flags[j], scen.snap_pt(pts[j]), scen.snap_straj(straj), int(np.random.randint(1 << 30))]
            d = scen.diff(alone[j], got)
            if d:
                fail('forks', 'fork', j, 'of', cfg['forks'], 'influenced by another:', d)
            overwrite(pts[j])
        st.probes['forks'] += 1

    # restart in another process
    if disk is not None:
        out = elsewhere(dict(cfg=cfg, pt=disk, calls=rest, rng=rng))
        st.probes['restarted in a fresh process'] += 1
        exp = scen.digest(base[1:])
        need(out == exp, 'process', 'resumed in a fresh process after', k, 'calls:', out, 'instead of', exp)


def fate(cfg, pt, rest, st):
    f = cfg['fate']
    w = seams.World(budget=2000000)
    m = pt.pf.model
    with w:
        if f == 'continue':
            for c in rest:
                scen.apply(pt, c)
        elif f == 'fail':
            w.arm([(cfg['op'], cfg['when'], cfg['exc'])])
            try:
                for c in rest:
                    scen.apply(pt, c)
            except BaseException:
                if not w.fired:
                    raise
        elif f == 'discard':
            del pt.traj[:]
        elif f == 'overwrite':
            overwrite(pt)
        elif f == 'smooth' and len(pt.traj):
            scen.relax(m, 'mhips' if cfg['fam'] == 'Tag' else None)
            so = pick(np.random, scen.SMOOTHERS[cfg['fam']])
            scen.relax(m, so)
            pt.perform_smoothing(1 if cfg['fam'] == 'LT' else 3, method=so,
                                 smoother_options=dict(R=1) if so in ('mcmc',) + scen.MHSM else None)
        elif f == 'measure' and len(pt.traj) and cfg['filter'] not in ('pfy', 'cpfyas'):
            c = [c for c in rest if c[-1] is not None]
            if c and cfg['fam'] != 'Tag':
                pt.measure(c[0][-1])
    st.world(w)
    st.probes['original: ' + f] += 1


CODE = '''
import sys, pickle
sys.path.insert(0, %r)
from sim import seams, scen
from sim.checks import c18
import numpy as np
import warnings
np.seterr(all='ignore')
warnings.simplefilter('ignore')
d = pickle.loads(sys.stdin.buffer.read())
pt = pickle.loads(d['pt'])
np.random.set_state(d['rng'])
out = c18.proceed(d['cfg'], pt, d['calls'])
print('RESULT', scen.digest(out[1:]))
'''


def elsewhere(d):
    env = dict(os.environ, PYTHONHASHSEED='4711')
    p = subprocess.run([sys.executable, '-c', CODE % HERE], input=pickle.dumps(d), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=HERE)
    for l in p.stdout.decode().splitlines():
        if l.startswith('RESULT '):
            return l.split()[1]
    raise RuntimeError(p.stderr.decode()[-1500:])
