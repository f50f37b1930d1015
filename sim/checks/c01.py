"""Reproducible runs, isolated from whatever else happens in the process"""
import gc
import os
import pickle
import random
import subprocess
import sys
import threading

import numpy as np

from .. import est, scen, seams
from ..engine import HERE, fail, need
from ..scen import pick

ID = 'C01'
RULE = ('one target task (filter/smoother or estimation run of any family) executed alone, after a seeded history '
        'of other runs (some aborted), under different system entropy, clocks and uninitialised memory, in a fresh '
        'process (every 60th case) and interleaved with one to three other tasks by a seeded scheduler that '
        'pre-empts at model calls, random draws and library source lines; every execution must give the same bits; '
        'non-trivial: at least one pre-emption of two live tasks')
STATES = 'distinct (task kinds and configurations interleaved, line at which a task was pre-empted)'
QUICK, THOROUGH = 1000, 600


def gen_task(r):
    if r.uniform() < 0.3:
        return est.gen(r, iters=3, Tmax=4, Nmax=5)
    cfg = scen.gen_base(r, Tmax=5, Nmax=6, Mmax=3)
    cfg['est'] = None
    cfg['online'] = bool(r.randint(2))
    return cfg


def variant(r, cfg):
    """A task of the same shape with other numbers"""
    c = pickle.loads(pickle.dumps(cfg))
    c['seed'] = int(r.randint(1 << 30))
    c['yseed'] = int(r.randint(1 << 30))
    if 'seed' in c['mk'] and r.uniform() < 0.7:
        c['mk']['seed'] = int(r.randint(1 << 30))
    if c['est'] is None and r.uniform() < 0.3:
        c['T'] = max(1, c['T'] - 1)
        c['miss'] = [k for k in c['miss'] if k < c['T']]
    return c


def gen(r, i):
    target = gen_task(r)
    n = int(r.randint(1, 4))
    others = [variant(r, target) if r.uniform() < 0.5 else gen_task(r) for _ in range(n)]
    hist = [variant(r, target) if r.uniform() < 0.5 else gen_task(r) for _ in range(int(r.randint(0, 4)))]
    aborts = [[int(r.randint(60)), pick(r, ('before', 'after', 'torn')),
               pick(r, ('Injected', 'KeyboardInterrupt', 'MemoryError', 'ValueError'))]
              if r.uniform() < 0.5 else None for _ in range(len(hist) + n)]
    return dict(target=target, others=others, hist=hist, aborts=aborts,
                sched=int(r.randint(1 << 30)), pline=float(pick(r, (0.0, 0.02, 0.2, 0.6))),
                pop=float(pick(r, (0.1, 0.5, 1.0))), same=bool(r.uniform() < 0.3),
                entropy=[int(r.randint(1, 1 << 30)) for _ in range(2)],
                fill=float(pick(r, (0.0, 1e300, -7.0, 0.25))), process=i % 60 == 11)


# --- tasks ----------------------------------------------------------------------

def task(cfg, w):
    """Execute one task in world w and return everything it produced"""
    if cfg['est']:
        m, u, y, a = est.prepare(cfg)
        e = est.CLASSES[cfg['est']](m, u, y)
        seen = []
        a['callback'] = lambda params, Q, cur_iter: seen.append((np.copy(params), cur_iter)) and None
        a['callback_sim'] = lambda sim: seen.append(scen.snap_pt(sim.pt))
        with w:
            p, q = e.maximize(**a)
        return ['est', np.copy(p), seen, m.book, scen.snap_straj(e.straj), int(np.random.randint(1 << 30))]
    m = scen.model(cfg)
    u, y = scen.data(cfg, m)
    scen.real_seed(cfg['seed'])
    fo = scen.filter_options(cfg, m, u, y)
    with w:
        scen.relax(m, None)
        if cfg['online']:
            pt = scen.trajectory(cfg, m, fo)
            flags = [bool(scen.apply(pt, s)) for s in scen.steps(cfg, u, y)]
            straj = scen.smooth(cfg, pt)
        else:
            sim = scen.Simulator(m, scen.inputs(cfg, u), y)
            flags = scen.simulate(cfg, sim, fo)
            pt, straj = sim.pt, sim.straj
    return ['run', flags, scen.snap_pt(pt), scen.snap_straj(straj), int(np.random.randint(1 << 30))]


def alone(cfg, st, abort=None):
    w = seams.World(budget=2000000)
    if abort is not None:
        w.arm([abort])
    try:
        r = task(cfg, w)
    except BaseException as e:
        if not w.fired or isinstance(e, seams.BudgetExceeded):
            raise
        r = ['aborted']
        st.probes['aborted run before'] += 1
    st.runs += 1
    st.world(w)
    return r


class Sched(object):
    """Cooperative scheduler: one task runs at a time, seeded pre-emption"""

    def __init__(self, cfg, n):
        self.r = random.Random(cfg['sched'])
        self.pline, self.pop = cfg['pline'], cfg['pop']
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.live = set(range(n))
        self.cur = None
        self.rng = [None] * n
        self.switches = 0
        self.where = set()
        self.finished = threading.Semaphore(0)
        self.busy = False

    def start(self):
        self.cur = self.r.choice(sorted(self.live))
        self.sem[self.cur].release()

    def switch(self, p, where):
        if self.busy or len(self.live) < 2 or self.r.random() >= p:
            return
        me = self.cur
        nxt = self.r.choice(sorted(self.live - {me}))
        self.busy = True
        self.switches += 1
        if len(self.where) < 200:
            self.where.add(where)
        self.rng[me] = np.random.get_state()
        self.cur = nxt
        if self.rng[nxt] is not None:
            np.random.set_state(self.rng[nxt])
        self.busy = False
        self.sem[nxt].release()
        self.sem[me].acquire()

    def maybe_switch(self):
        self.switch(self.pop, 'op')

    def done(self, k):
        self.live.discard(k)
        if self.live:
            nxt = self.r.choice(sorted(self.live))
            self.cur = nxt
            if self.rng[nxt] is not None:
                np.random.set_state(self.rng[nxt])
            self.sem[nxt].release()
        else:
            self.finished.release()

    # trace function: pre-empt between lines of the library
    def trace(self, frame, event, a):
        if not frame.f_code.co_filename.startswith(seams.LIB):
            return None
        if self.pline:
            return self.local
        return None

    def local(self, frame, event, a):
        if event == 'line':
            self.switch(self.pline, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return self.local


def together(cfg, tasks, aborts, st):
    n = len(tasks)
    s = Sched(cfg, n)
    out = [None] * n
    worlds = [seams.World(budget=2000000) for _ in range(n)]

    def body(k):
        s.sem[k].acquire()
        w = worlds[k]
        w.sched = s
        if aborts[k] is not None:
            w.arm([aborts[k]])
        np.seterr(all='ignore')
        sys.settrace(s.trace)
        try:
            out[k] = task(tasks[k], w)
        except BaseException as e:
            out[k] = e if not (w.fired and e is w.fired[-1]) else ['aborted']
        finally:
            sys.settrace(None)
            s.done(k)
    th = [threading.Thread(target=body, args=(k,)) for k in range(n)]
    for t in th:
        t.daemon = True
        t.start()
    s.start()
    s.finished.acquire()
    for t in th:
        t.join()
    for w in worlds:
        st.world(w)
    st.runs += n
    st.probes['pre-emptions'] += s.switches
    st.probes['interleaved executions'] += 1
    for x in sorted(s.where, key=str):
        st.state('preempt', x)
    return out, s.switches


def run(cfg, st):
    target = cfg['target']
    gc.collect()
    seams.Entropy.set(1, fill=np.nan)
    base = alone(target, st)
    st.trace(scen.digest(base))
    name = [target['est'] or 'run', target['fam'], target['filter'], target['smoother']]

    def judge(got, what):
        if isinstance(got, BaseException):
            raise got
        d = scen.diff(base, got)
        if d:
            fail(what, ' '.join(str(n) for n in name), ':', d)

    # other uninitialised memory, clocks, system entropy
    for k, v in enumerate(cfg['entropy']):
        seams.Entropy.set(v, fill=cfg['fill'] if k else np.nan)
        judge(alone(target, st), 'entropy')
    # a run may consume the random stream, but not replace it
    other = dict(target, seed=(target['seed'] + 7) % (1 << 30))
    r2 = alone(other, st)
    if r2[-1] == base[-1]:
        r3 = alone(dict(target, seed=(target['seed'] + 8) % (1 << 30)), st)
        need(r3[-1] != base[-1], 'stream-replaced', 'runs with different seeds leave the same random stream')
    if scen.digest(r2) != scen.digest(base):
        st.probes['other seed, other result'] += 1
    del r2

    # after a history of other runs
    for k, h in enumerate(cfg['hist']):
        alone(h, st, cfg['aborts'][k])
    if cfg['hist']:
        judge(alone(target, st), 'history')

    # interleaved with others, twice with the same schedule
    ab = [None] + cfg['aborts'][len(cfg['hist']):]
    others = list(cfg['others'])
    if cfg['same']:
        # the very same task twice at the same time
        others = [target] + others[:2]
        ab = [None, None] + ab[2:]
    ab = (ab + [None] * 5)[:1 + len(others)]
    exp = [alone(o, st) if ab[1 + k] is None else None for k, o in enumerate(others)]
    out, sw = together(cfg, [target] + others, ab, st)
    judge(out[0], 'interleaved')
    for k, e in enumerate(exp):
        if isinstance(out[1 + k], BaseException):
            raise out[1 + k]
        if e is not None:
            d = scen.diff(e, out[1 + k])
            if d:
                fail('interleaved', 'task', k + 1, others[k]['est'] or 'run', others[k]['fam'],
                     others[k]['filter'], others[k]['smoother'], ':', d)
        else:
            st.probes['task aborted while interleaved'] += out[1 + k] == ['aborted']
    judge(alone(target, st), 'history')
    st.trace(sw, scen.digest([o for o in out if isinstance(o, list)]))
    st.nontrivial = sw > 0
    st.state(tuple(sorted(str([o['est'], o['fam'], o['filter'], o['smoother']]) for o in others)), str(name))

    if cfg['process']:
        got = elsewhere(target)
        st.probes['fresh process'] += 1
        need(got == scen.digest(base), 'process', 'fresh process:', name)


CODE = '''
import sys, pickle
sys.path.insert(0, %r)
from sim import seams, scen, engine
from sim.checks import c01
import numpy as np, random
import warnings
np.seterr(all='ignore')
warnings.simplefilter('ignore')
seams.Entropy.set(99, fill=3.5)
cfg = pickle.loads(sys.stdin.buffer.read())
print('RESULT', scen.digest(c01.alone(cfg, engine.Stats())))
'''


def elsewhere(cfg):
    env = dict(os.environ, PYTHONHASHSEED='271828')
    p = subprocess.run([sys.executable, '-c', CODE % HERE], input=pickle.dumps(cfg), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=HERE)
    for l in p.stdout.decode().splitlines():
        if l.startswith('RESULT '):
            return l.split()[1]
    raise RuntimeError(p.stderr.decode()[-1500:])
