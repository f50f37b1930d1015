"""A failed step changes nothing and can be retried"""
import numpy as np

from .. import scen, seams
from ..engine import fail, need
from ..scen import pick

ID = 'C02'
RULE = ('one seeded scenario run without failures and again with failures injected into model calls and random '
        'draws (before, half way through, after; twelve exception types) of chosen steps and of smoothing, each '
        'followed by a retry or by other data being dropped; everything recorded is compared after each '
        'failure and at the end; non-trivial: at least one fault fired')
STATES = 'distinct (family, filter, failing operation, kind, exception)'
QUICK, THOROUGH = 4000, 600


def gen(r, i):
    cfg = scen.gen_base(r, Tmax=7)
    cfg['alloc'] = int(pick(r, (-1, -1, 0, 2)))
    cfg['faults'] = {}
    names = sorted(seams.EXC)
    for k in range(cfg['T']):
        if r.uniform() < 0.5:
            cfg['faults'][str(k)] = [
                dict(at=int(r.randint(9)), when=pick(r, ('before', 'after', 'torn', 'before')),
                     exc=pick(r, names), other=bool(r.uniform() < 0.3), smooth=bool(r.uniform() < 0.3))
                for _ in range(int(r.randint(1, 4)))]
    cfg['sfaults'] = [[int(r.randint(int(pick(r, (10, 60, 200))))), pick(r, ('before', 'after')), pick(r, names)]
                      for _ in range(int(r.randint(3)))]
    cfg['batch'] = bool(r.uniform() < 0.3)
    # ask for something that does not exist
    cfg['absent'] = pick(r, ('nonsense', 'FULL ', 'none')) if r.uniform() < 0.2 else None
    return cfg


class Run(object):

    def __init__(self, cfg, st):
        self.cfg, self.st = cfg, st
        self.m = scen.model(cfg)
        self.u, self.y = scen.data(cfg, self.m)
        self.fo = scen.filter_options(cfg, self.m, self.u, self.y)
        self.w = seams.World(budget=3000000)
        self.w.hooks.append(self.hook)
        self.filtering = False
        T = None if cfg['alloc'] < 0 else cfg['T'] + 1 + cfg['alloc']
        self.pt = scen.trajectory(cfg, self.m, self.fo, T=T)
        self.calls = scen.steps(cfg, self.u, self.y)
        self.smoothed = {}

    def hook(self, phase, model, name, a, k, res):
        # the draws of a step do not depend on whether the initial estimate
        # was created in the same attempt
        if name == 'create_initial_estimate' and self.filtering:
            if phase == 'enter':
                scen.real_seed(self.cfg['seed'] + 5)
            else:
                self.reset(self.i)

    def reset(self, i):
        scen.real_seed(self.cfg['seed'] + 1000 * (i + 1))
        if hasattr(self.m, 'next_id'):
            self.m.next_id = 1.0 + 100000.0 * (i + 2)

    def step(self, i, call=None):
        self.i = i
        if hasattr(self.m, 'next_id') and not self.pt.traj:
            self.m.next_id = 50000.0
        if not self.pt.traj:
            scen.real_seed(self.cfg['seed'] + 5)
        else:
            self.reset(i)
        scen.relax(self.m, None)
        self.filtering = True
        try:
            with self.w:
                return scen.apply(self.pt, self.calls[i] if call is None else call)
        finally:
            self.filtering = False

    def smooth(self, tag, method=None):
        """Smooth what is there; the result has to depend on nothing else"""
        cfg = self.cfg
        scen.real_seed(cfg['seed'] + 77)
        if hasattr(self.m, 'next_id'):
            self.m.next_id = 7e7
        method = method or cfg['smoother'] or 'ancestor'
        scen.relax(self.m, method)
        with self.w:
            s = self.pt.perform_smoothing(cfg['M'], method=method,
                                          smoother_options=None if cfg['so'] is None or method != cfg['smoother']
                                          else dict(cfg['so']))
        return scen.snap_straj(s)


def run(cfg, st):
    base = Run(cfg, st)
    T = len(base.calls)
    states, smooths, flags = [], [], []
    for i in range(T):
        flags.append(base.step(i))
        states.append(scen.snap_pt(base.pt))
        smooths.append(base.smooth(i, 'ancestor' if i < T - 1 else None))
    st.runs += 1

    r = Run(cfg, st)
    for i in range(T):
        for f in cfg['faults'].get(str(i), []):
            call = r.calls[i]
            if f['other']:
                # another call that fails and is given up
                call = other(cfg, r, i)
            before = scen.snap_pt(r.pt)
            empty = not r.pt.traj
            n = len(r.w.fired)
            r.w.arm([[f['at'], f['when'], f['exc']]])
            raised = None
            try:
                r.step(i, call)
            except seams.BudgetExceeded:
                raise
            except BaseException as e:
                if len(r.w.fired) == n:
                    raise
                raised = e
            r.w.arm()
            if len(r.w.fired) == n:
                # too few operations, the step is done
                if f['other']:
                    # that was not wanted: start over without this fault
                    st.probes['fault did not fire'] += 1
                    cfg2 = dict(cfg)
                    cfg2['faults'] = dict(cfg['faults'])
                    cfg2['faults'][str(i)] = [g for g in cfg['faults'][str(i)] if g is not f]
                    st.world(r.w)
                    return run(cfg2, st)
                break
            need(raised is not None, 'swallowed', 'step', i, 'failure in', r.w.hit[-1], 'was not reported')
            st.state(cfg['fam'], cfg['filter'], r.w.hit[-1], f['exc'], call[0])
            after = scen.snap_pt(r.pt)
            what = 'step %d (%s) failed in %s with %s' % (i, call[0], r.w.hit[-1], f['exc'])
            if empty and len(after['steps']) == 1:
                # the initial estimate may have been created
                st.probes['initial estimate created by failed call'] += 1
            else:
                d = scen.diff(before, after)
                if d:
                    fail('changed', what, ':', d)
            if f['smooth'] and not empty and i > 0:
                d = scen.diff(smooths[i - 1], r.smooth(i - 1, 'ancestor'))
                if d:
                    fail('unusable', 'smoothing after', what, ':', d)
                st.probes['smoothed after failure'] += 1
        else:
            fl = r.step(i)
            need(fl == flags[i], 'retry', 'step', i, 'returned', fl, 'instead of', flags[i])
        d = scen.diff(states[i], scen.snap_pt(r.pt))
        if d:
            fail('retry', 'after step', i, ':', d)
    for f in cfg['sfaults']:
        n = len(r.w.fired)
        r.w.arm([f])
        try:
            s = r.smooth(T - 1)
            if len(r.w.fired) > n:
                fail('swallowed', 'smoothing', cfg['smoother'], 'failure in', r.w.hit[-1], 'was not reported')
        except BaseException:
            if len(r.w.fired) == n:
                raise
        r.w.arm()
        d = scen.diff(states[-1], scen.snap_pt(r.pt))
        if d:
            fail('changed', 'smoothing failed in', r.w.hit[-1:], ':', d)
        st.probes['failed smoothing'] += 1
    if cfg.get('absent') is not None:
        refuse(lambda: r.smooth(T - 1, cfg['absent']), 'smoother', cfg['absent'])
        d = scen.diff(states[-1], scen.snap_pt(r.pt))
        if d:
            fail('changed', 'smoother', repr(cfg['absent']), 'refused:', d)
        st.probes['unknown name refused'] += 1
    d = scen.diff(smooths[-1], r.smooth(T - 1))
    if d:
        fail('smoothing', 'after failures:', d)
    st.runs += 1
    st.steps += 2 * T
    st.world(r.w)
    st.nontrivial = len(r.w.fired) > 0
    st.trace(scen.digest(states[-1], smooths[-1]))
    if cfg['batch']:
        batch(cfg, st)


def refuse(fn, *what):
    try:
        fn()
    except (ValueError, KeyError, NotImplementedError):
        return
    fail('swallowed', 'unknown', *what + ('was accepted',))


def other(cfg, r, i):
    """A call with other data than the one that counts"""
    c = r.calls[i]
    if cfg['fam'] == 'Tag':
        return c
    y = r.y[(i + 1) % len(r.y)]
    if c[0] == 'measure':
        return ('measure', y)
    return ('forward', r.u[(i * 7 + 1) % len(r.u)] if len(r.u) else c[1], y)


def batch(cfg, st):
    """Same for the batch interface: fails, and is run again"""
    if cfg['fam'] == 'Tag':
        return
    res = []
    for faults in ([], cfg['sfaults']):
        m = scen.model(cfg)
        u, y = scen.data(cfg, m)
        fo = scen.filter_options(cfg, m, u, y)
        w = seams.World(budget=3000000)
        with w:
            sim = scen.Simulator(m, u, y)
            for f in faults:
                scen.real_seed(cfg['seed'])
                w.arm([f])
                n = len(w.fired)
                try:
                    scen.simulate(cfg, sim, fo)
                except BaseException:
                    if len(w.fired) == n:
                        raise
            w.arm()
            if faults and cfg.get('absent') is not None:
                refuse(lambda: sim.simulate(cfg['N'], cfg['M'], filter=cfg['absent'], filter_options=fo,
                                            smoother='ancestor', meas_first=cfg['mf']), 'filter', cfg['absent'])
                refuse(lambda: sim.simulate(cfg['N'], cfg['M'], filter='pf', smoother=cfg['absent'],
                                            meas_first=cfg['mf']),
                       'smoother', cfg['absent'])
            scen.real_seed(cfg['seed'])
            k = scen.simulate(cfg, sim, fo)
        res.append([scen.snap_pt(sim.pt), scen.snap_straj(sim.straj), int(k)])
        st.world(w)
        st.runs += 1
    d = scen.diff(res[0], res[1])
    if d:
        fail('batch', 'run repeated after failures:', d)
    st.probes['batch repeated'] += 1
