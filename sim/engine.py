"""Seeded search over simulated runs: one integer decides everything.

A check is a module with

    ID, TITLE, RULE            what a case is, what makes it non-trivial
    QUICK, THOROUGH            number of cases (quick), seconds (thorough)
    gen(r, i)  -> cfg          JSON description of simulated run number i
    run(cfg, st)               execute it, raise Violation, fill in st
    shrink(cfg) -> iterator    optional: smaller descriptions

Every case is executed in a forked child of one parent process, so that no
case sees what another left behind, whatever the number of workers.  The
verdict is that of the failing case with the smallest number.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np

from . import seams

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_WALL = 150          # seconds of real time before a case counts as stuck
STUCK_WALL = 240         # ... when it runs alone
QUICK_WALL = 270         # the quick tier starts no new cases after this

REAL = ['pyparticleest.filter', 'pyparticleest.smoother', 'pyparticleest.simulator',
        'pyparticleest.interfaces', 'pyparticleest.models.*', 'pyparticleest.utils.*',
        'numpy', 'scipy']
STUB = ['state-space models (sim/models.py)', 'numpy.random entry points (counted, failed, pre-empted)',
        'clocks, os.urandom, unseeded generators, uninitialised memory']


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


def fail(kind, *what):
    raise Violation(kind, ' '.join(str(w) for w in what)[:1500])


def need(ok, kind, *what):
    if not np.all(ok):
        fail(kind, *what)


class Stats(object):
    """What one simulated run did"""

    def __init__(self):
        self.runs = 0              # library runs (filter/smooth/estimate)
        self.steps = 0             # simulated time steps
        self.ops = 0               # model callbacks and draws
        self.faults = Counter()    # faults that fired
        self.probes = Counter()    # rare conditions that were reached
        self.states = set()
        self.nontrivial = False
        self._h = hashlib.sha256()

    def state(self, *what):
        if len(self.states) < 400:
            self.states.add(hashlib.md5(repr(what).encode()).hexdigest()[:12])

    def trace(self, *what):
        self._h.update(repr(what).encode())

    def world(self, w):
        self.ops += w.total
        for h, e in zip(w.hit, w.fired):
            what = h[0] if h[0] == 'rng' else h[1]
            self.faults['%s:%s' % (what, type(e).__name__)] += 1
            self.faults['total'] += 1
            self.state('hit', h)
        if w.extremes:
            self.faults['extreme draw'] += w.extremes

    def pack(self):
        return dict(runs=self.runs, steps=self.steps, ops=self.ops, faults=dict(self.faults),
                    probes=dict(self.probes), states=sorted(self.states),
                    nontrivial=bool(self.nontrivial), trace=self._h.hexdigest()[:24])


def load(pid):
    return importlib.import_module('sim.checks.' + pid.lower())


def case_rng(pid, seed, i):
    h = hashlib.sha256(('%s/%d/%d' % (pid, seed, i)).encode()).digest()
    return np.random.RandomState(np.frombuffer(h[:16], dtype=np.uint32))


def jsonable(o):
    return json.loads(json.dumps(o))


def describe(e):
    """(kind, message) of an unexpected exception, or None if it is ours"""
    lib, where, inner = False, '', ''
    for f in traceback.extract_tb(e.__traceback__):
        if os.path.realpath(f.filename).startswith(seams.LIB):
            lib = True
            where = '%s:%s' % (os.path.relpath(f.filename, seams.LIB), f.name)
    if isinstance(e, seams.BudgetExceeded):
        return 'no-progress', 'the call did not finish: %s' % e
    if type(e).__name__ == 'Misuse':
        return 'misuse', str(e)
    if lib:
        return 'exception:%s' % type(e).__name__, 'in %s: %s' % (where, str(e)[:300])
    if isinstance(e, (AttributeError, TypeError, IndexError, ValueError, ZeroDivisionError)):
        # what the library returned cannot be evaluated
        return 'malformed:%s' % type(e).__name__, 'results cannot be used: %s' % str(e)[:300]
    return None


def execute(mod, cfg):
    """Run one case in this process. Returns a dict"""
    st = Stats()
    out = dict(verdict='ok')
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    seams.real['seed'](0)
    seams.Entropy.set(0, fill=np.nan)
    random.seed(0)
    try:
        mod.run(jsonable(cfg), st)
    except Violation as e:
        out = dict(verdict='violation', kind=e.kind, msg=e.msg)
    except BaseException as e:
        if isinstance(e, (SystemExit,)):
            raise
        d = describe(e)
        tb = traceback.format_exc()
        if d is None:
            out = dict(verdict='error', kind=type(e).__name__, msg=str(e)[:300], tb=tb[-3000:])
        else:
            out = dict(verdict='violation', kind=d[0], msg=d[1], tb=tb[-3000:])
    st.trace(out['verdict'], out.get('kind'), out.get('msg'))
    out['stats'] = st.pack()
    return out


class Worker(object):
    """A forked child running one case"""

    def __init__(self, mod, i, cfg, wall):
        self.i, self.cfg = i, cfg
        rd, wr = os.pipe()
        self.t0 = time.time()
        self.deadline = self.t0 + wall
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(rd)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                os.setpgid(0, 0)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                out = execute(mod, cfg)
                data = pickle.dumps(out)
                with os.fdopen(wr, 'wb') as f:
                    f.write(data)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(wr)
        self.fd = rd
        self.buf = b''

    def read(self):
        """True when the child is done"""
        d = os.read(self.fd, 1 << 16)
        if d:
            self.buf += d
            return False
        return True

    def finish(self):
        os.close(self.fd)
        _, status = os.waitpid(self.pid, 0)
        try:
            return pickle.loads(self.buf)
        except Exception:
            return dict(verdict='crash', kind='crash', msg='process ended with status %d' % status,
                        stats=Stats().pack())

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(self.fd)
        os.waitpid(self.pid, 0)


def run_single(mod, cfg, wall=STUCK_WALL):
    """One case in a child of its own"""
    w = Worker(mod, 0, cfg, wall)
    while True:
        left = w.deadline - time.time()
        if left <= 0:
            w.kill()
            return dict(verdict='violation', kind='no-progress',
                        msg='no result after %d s' % wall, stats=Stats().pack())
        r, _, _ = select.select([w.fd], [], [], left)
        if r and w.read():
            out = w.finish()
            if out['verdict'] == 'crash':
                out['verdict'] = 'violation'
            return out


def run_cases(mod, cases, workers, deadline=None, stop=None, grace=15.0):
    """Execute cases (iterator of (i, cfg)); yields (i, cfg, result).

    Stops handing out cases once stop(i, cfg, result) is true or the deadline
    has passed; after stop, cases already running get `grace` more seconds.
    """
    it = iter(cases)
    live = {}
    done = False
    stopped = None
    while True:
        if stopped is not None and time.time() > stopped + grace:
            for w in live.values():
                w.kill()
            return
        while not done and len(live) < workers:
            if deadline is not None and time.time() > deadline:
                done = True
                break
            try:
                i, cfg = next(it)
            except StopIteration:
                done = True
                break
            w = Worker(mod, i, cfg, CASE_WALL)
            live[w.fd] = w
        if not live:
            return
        now = time.time()
        wait = min(w.deadline for w in live.values()) - now
        if stopped is not None:
            wait = min(wait, stopped + grace - now)
        r, _, _ = select.select(list(live), [], [], max(0.05, wait))
        for fd in r:
            w = live[fd]
            if not w.read():
                continue
            del live[fd]
            res = w.finish()
            if os.environ.get('VP_VERBOSE') and time.time() - w.t0 > 15:
                print('case %d took %.0f s' % (w.i, time.time() - w.t0), flush=True)
            if res['verdict'] == 'crash' and stopped is None:
                res = run_single(mod, w.cfg)
            if stop is not None and stop(w.i, w.cfg, res):
                done = True
                stopped = stopped or time.time()
            yield w.i, w.cfg, res
        now = time.time()
        for fd in [f for f, w in live.items() if w.deadline < now]:
            w = live.pop(fd)
            w.kill()
            if stopped is not None:
                continue
            res = run_single(mod, w.cfg)
            if stop is not None and stop(w.i, w.cfg, res):
                done = True
                stopped = stopped or time.time()
            yield w.i, w.cfg, res


# --- minimisation -----------------------------------------------------------------

def _cands(o, path=()):
    """Paths of shrinkable values inside a configuration"""
    if isinstance(o, dict):
        for k in o:
            for c in _cands(o[k], path + (k,)):
                yield c
    elif isinstance(o, list):
        for i in range(len(o)):
            yield path, 'drop', i
        for i, v in enumerate(o):
            for c in _cands(v, path + (i,)):
                yield c
    elif isinstance(o, bool):
        if o:
            yield path, 'set', False
    elif isinstance(o, int):
        if o > 1:
            yield path, 'set', 1
            if o > 3:
                yield path, 'set', o // 2
            yield path, 'set', o - 1
    elif isinstance(o, float):
        if o not in (0.0, 1.0):
            yield path, 'set', 0.0


KEEP = ('seed', 'yseed', 'fam', 'filter', 'smoother')


def generic_shrink(cfg):
    for path, what, v in _cands(cfg):
        if any(p in KEEP for p in path):
            continue
        c = jsonable(cfg)
        o = c
        if what == 'drop':
            for p in path:
                o = o[p]
            del o[v]
        else:
            for p in path[:-1]:
                o = o[p]
            o[path[-1]] = v
        yield c


def minimise(mod, cfg, kind, seconds=40, wall=20):
    """Smaller configuration failing in the same way"""
    t0 = time.time()
    tried = 0
    improved = True
    key = lambda c: len(json.dumps(c))
    while improved and time.time() - t0 < seconds:
        improved = False
        cands = list(mod.shrink(cfg)) if hasattr(mod, 'shrink') else []
        cands += list(generic_shrink(cfg))
        for c in cands:
            if time.time() - t0 > seconds:
                break
            tried += 1
            try:
                if hasattr(mod, 'valid') and not mod.valid(c):
                    continue
            except Exception:
                continue
            res = run_single(mod, c, wall)
            if (res['verdict'] == 'violation' and res['kind'] == kind
                    and 'no result after' not in res['msg']):
                cfg = c
                improved = True
                break
    return cfg, tried


# --- reports --------------------------------------------------------------------

def findings():
    """Open entries of the known-findings file: [(property, key)]"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('open:'):
                w = l.split(None, 3)
                out.append((w[1].split('=')[1], w[2].split('=')[1], l.strip()))
    return out


def workers():
    n = os.environ.get('VP_WORKERS')
    if n:
        return int(n)
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


def check(pid, tier, seed):
    mod = load(pid)
    t0 = time.time()
    if hasattr(mod, 'prepare'):
        mod.prepare()
    quick = tier != 'thorough'
    n = int(os.environ.get('VP_CASES', mod.QUICK if quick else 10 ** 9))
    # a slow machine explores less instead of taking for ever
    deadline = t0 + (QUICK_WALL if quick else float(os.environ.get('VP_SECONDS', mod.THOROUGH)))

    first = [None]
    open_f = [(k, l) for p, k, l in findings() if p == pid]
    known = Counter()

    def cases():
        for i in range(n):
            yield i, jsonable(mod.gen(case_rng(pid, seed, i), i))

    def bad(i, cfg, res):
        if res['verdict'] != 'violation':
            return False
        for k, l in open_f:
            if k == res['kind']:
                return False
        return True

    tot = Stats().pack()
    faults, probes, states, traces = Counter(), Counter(), set(), set()
    nontrivial = set()
    errors, samples, viol = [], [], []
    done = 0
    recheck = []
    for i, cfg, res in run_cases(mod, cases(), workers(), deadline, bad):
        done += 1
        s = res['stats']
        for k in ('runs', 'steps', 'ops'):
            tot[k] += s[k]
        faults.update(s['faults'])
        probes.update(s['probes'])
        states.update(s['states'])
        traces.add(s['trace'])
        if s['nontrivial']:
            nontrivial.add(s['trace'])
        if len(samples) < 4 and s['nontrivial']:
            samples.append(dict(case=i, cfg=cfg, faults=s['faults'], steps=s['steps'], trace=s['trace']))
        if i < 4 and res['verdict'] == 'ok':
            recheck.append((i, cfg, s['trace']))
        if res['verdict'] == 'error':
            errors.append((i, res))
        elif res['verdict'] == 'violation':
            if bad(i, cfg, res):
                viol.append((i, cfg, res))
            else:
                known[res['kind']] += 1
    search_s = time.time() - t0

    # determinism: the same cases in a fresh interpreter with another hash seed
    det = dict(reexecuted=0, mismatches=0)
    if recheck and not viol:
        got = fresh(pid, [c for _, c, _ in recheck])
        if got is not None:
            det['reexecuted'] = len(recheck)
            det['mismatches'] = sum(1 for (a, b, c), g in zip(recheck, got) if g.get('trace') != c)

    code = 0
    for k, l in open_f:
        print('KNOWN-FINDING: property=%s %s' % (pid, l.split(None, 3)[-1]))
    replay = None
    if viol:
        viol.sort(key=lambda v: v[0])
        i, cfg, res = viol[0]
        budget = 40 if quick else 120
        stuck = 'no result after' in res['msg']
        small, tried, final = cfg, 0, res
        if not stuck:
            small, tried = minimise(mod, cfg, res['kind'], budget)
            if tried:
                final = run_single(mod, small)
            if final['verdict'] != 'violation':
                small, final = cfg, res
        replay = os.path.join('replays', '%s-%d-%d.json' % (pid, seed, i))
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        with open(os.path.join(HERE, replay), 'w') as f:
            json.dump(dict(property=pid, seed=seed, case=i, cfg=small, original=cfg,
                           violation=dict(kind=final['kind'], msg=final['msg'], tb=final.get('tb')),
                           trace=final['stats']['trace'], shrink_attempts=tried), f, indent=1)
        again = None if stuck else fresh(pid, [small])
        ok = again is not None and again[0].get('kind') == final['kind']
        print('%s: case %d: %s: %s' % (pid, i, final['kind'], final['msg']))
        if final.get('tb'):
            print(final['tb'])
        print('replayed in a fresh process: %s' % ('not tried' if stuck else 'same violation' if ok else 'NOT REPRODUCED'))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        code = 1
    for i, res in errors[:3]:
        print('%s: harness error in case %d: %s\n%s' % (pid, i, res['msg'], res['tb']), file=sys.stderr)
    if errors and not viol:
        code = 2
    wall = time.time() - t0
    ev = dict(property=pid, tier='quick' if quick else 'thorough', seed=int(seed), level='exploration',
              coverage=dict(
                  evaluations=done, distinct_nontrivial=len(nontrivial), rule=mod.RULE, samples=samples,
                  simulated_runs=tot['runs'], simulated_steps=tot['steps'],
                  callbacks_and_draws=tot['ops'],
                  seeds_per_hour=int(done / max(search_s, 1e-9) * 3600),
                  runs_per_hour=int(tot['runs'] / max(search_s, 1e-9) * 3600),
                  faults_fired=dict(faults), probes=dict(probes),
                  distinct_states=len(states),
                  state_measure=getattr(mod, 'STATES', 'distinct tuples recorded by the check'),
                  distinct_executions=len(traces),
                  determinism_recheck=det,
                  components_real=getattr(mod, 'REAL', REAL), components_stub=getattr(mod, 'STUB', STUB),
                  harness_errors=len(errors), known_findings=dict(known)),
              assumptions=getattr(mod, 'ASSUME', []), wall_s=round(wall, 2),
              violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, 'evidence', '%s.json' % pid))
    print('%s %s seed=%d: %d cases (%d non-trivial), %d runs, %d steps, %d faults, %d states, %.1f s%s'
          % (pid, ev['tier'], seed, done, len(nontrivial), tot['runs'], tot['steps'],
             sum(v for k, v in faults.items() if k != 'total'), len(states), wall,
             '' if not det['mismatches'] else ', %d NOT REPRODUCED' % det['mismatches']))
    if probes and os.environ.get('VP_VERBOSE'):
        print(dict(probes), dict(faults))
    if hasattr(mod, 'cleanup'):
        mod.cleanup()
    return code


def fresh(pid, cfgs, wall=400):
    """Execute configurations in a fresh interpreter (other hash seed)"""
    env = dict(os.environ, PYTHONHASHSEED='12345', VP_NESTED='1')
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, 'sim', 'main.py'), 'exec', pid],
                           input=json.dumps(cfgs).encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, env=env, timeout=wall, cwd=HERE)
        line = [l for l in p.stdout.decode().splitlines() if l.startswith('RESULT ')]
        return json.loads(line[-1][7:])
    except Exception:
        return None


def exec_cfgs(pid):
    mod = load(pid)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    out = []
    for cfg in json.load(sys.stdin):
        r = run_single(mod, cfg)
        out.append(dict(verdict=r['verdict'], kind=r.get('kind'), msg=r.get('msg'), trace=r['stats']['trace']))
    print('RESULT ' + json.dumps(out))
    if hasattr(mod, 'cleanup'):
        mod.cleanup()
    return 0


def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    if hasattr(mod, 'prepare'):
        mod.prepare()
    r = run_single(mod, d['cfg'])
    if hasattr(mod, 'cleanup'):
        mod.cleanup()
    if r['verdict'] == 'violation':
        print('%s: %s' % (r['kind'], r['msg']))
        if r.get('tb'):
            print(r['tb'])
        same = r['kind'] == d['violation']['kind'] and r['stats']['trace'] == d['trace']
        print('same execution' if same else 'DIFFERENT execution')
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    if r['verdict'] == 'error':
        print(r['tb'])
        return 2
    print('no violation')
    return 0


def selftest(pid, n, seed):
    """Determinism: the first n cases under different numbers of workers,
    hash seeds and in fresh interpreters"""
    mod = load(pid)
    if hasattr(mod, 'prepare'):
        mod.prepare()
    cfgs = [jsonable(mod.gen(case_rng(pid, seed, i), i)) for i in range(n)]
    runs = []
    for w in (1, 5, 8):
        tr = {}
        for i, c, res in run_cases(mod, enumerate(cfgs), w):
            tr[i] = res['stats']['trace']
        runs.append([tr[i] for i in range(n)])
    for _ in range(2):
        runs.append([g['trace'] for g in fresh(pid, cfgs, 3000)])
    bad = [i for i in range(n) if len(set(r[i] for r in runs)) > 1]
    print('%s: %d cases x %d executions, %d diverge %s' % (pid, n, len(runs), len(bad), bad[:10]))
    if hasattr(mod, 'cleanup'):
        mod.cleanup()
    return 1 if bad else 0
