"""Recorded history is append-only, smoothing and inputs are read-only"""
import numpy as np

from .. import scen, seams
from ..engine import fail, need
from ..scen import pick

ID = 'C03'
RULE = ('one seeded history of calls (time updates, measurements, smoothing with random methods, failing calls, '
        'overwriting of returned results) on one trajectory object; after every call everything recorded '
        'earlier, all other results and everything owned by the caller is compared with snapshots; '
        'non-trivial: at least two steps and one smoothing or failing call')
STATES = 'distinct (family, filter, operation, method, failed) per call'
QUICK, THOROUGH = 5000, 500


def gen(r, i):
    cfg = scen.gen_base(r, Tmax=8, Nmax=8)
    sms = scen.SMOOTHERS[cfg['fam']]
    ops = []
    for k in range(cfg['T']):
        while r.uniform() < 0.45:
            c = r.randint(4)
            if c == 0:
                ops.append(['fail', [[int(r.randint(14)), pick(r, ('before', 'after', 'torn')), 'MemoryError']]])
            elif c == 3:
                ops.append(['scribble', int(r.randint(4))])
            else:
                sm = pick(r, sms)
                so = scen.gen_so(r, dict(cfg, smoother=sm))
                f = [[int(r.randint(60)), pick(r, ('before', 'after')), 'KeyboardInterrupt']] if r.uniform() < 0.3 else []
                ops.append(['smooth', sm, 1 if cfg['fam'] == 'LT' else int(r.randint(1, 5)), so, f])
        ops.append(['step'])
        if r.uniform() < 0.1 and cfg['filter'] not in ('pfy', 'cpfyas') and cfg['fam'] != 'Tag':
            ops.append(['again'])
    for _ in range(int(r.randint(4))):
        sm = pick(r, sms)
        ops.append(['smooth', sm, 1 if cfg['fam'] == 'LT' else int(r.randint(1, 5)),
                    scen.gen_so(r, dict(cfg, smoother=sm)), []])
        if r.uniform() < 0.5:
            ops.append(['scribble', int(r.randint(4))])
    cfg['ops'] = ops
    cfg['alloc'] = int(pick(r, (-1, -1, 0, 2)))
    cfg['own'] = bool(r.randint(2))
    return cfg


def steps_of(pt):
    return scen.snap_steps(pt.traj)


def run(cfg, st):
    T = None if cfg['alloc'] < 0 else cfg['T'] + 1 + cfg['alloc']
    d = scen.Drive(cfg, st, T=T)
    m, pt, w = d.m, d.pt, d.w
    owned = [d.u, d.y, d.fo]
    f_owned = scen.freeze(owned)
    pos = 0
    results = []          # (smoothed trajectory, snapshot or None once overwritten)
    base = steps_of(pt)
    interesting = 0
    def others(what):
        dd = scen.diff(f_owned, scen.freeze(owned))
        if dd:
            fail('caller-owned', what, 'modified inputs, measurements, options or reference:', dd)
        for j, (s, sn) in enumerate(results):
            if sn is not None:
                dd = scen.diff(sn, scen.snap_straj(s))
                if dd:
                    fail('shared', what, 'changed smoothed result', j, ':', dd)

    def history(what, upto=None):
        n = len(base) if upto is None else upto
        dd = scen.diff(base[:n], steps_of(pt)[:n])
        if dd:
            fail('history', what, 'changed recorded steps:', dd)

    def recorded(what, rec):
        now = scen.snap_pt(pt)
        k = min(len(rec['u']), len(now['u']))
        for key, n in (('u', k), ('y', len(rec['y'])), ('t', len(rec['t']))):
            dd = scen.diff(rec[key][:n], now[key][:n])
            if dd:
                fail('recorded', what, 'changed recorded', key, dd)

    for j, op in enumerate(cfg['ops']):
        what = 'call %d (%s)' % (j, ' '.join(str(x) for x in op[:2]))
        rec = scen.snap_pt(pt) if pt.traj else dict(u=[], y=[], t=[])
        n = len(pt.traj)
        w.arm()
        failed = False
        if op[0] in ('step', 'fail', 'again'):
            scen.relax(m, None)
            if op[0] == 'again':
                if not n:
                    continue
                call = ('measure', d.y[pos % len(d.y)])
            elif pos >= len(d.calls):
                continue
            else:
                call = d.calls[pos]
            if op[0] == 'fail':
                w.arm(op[1])
            nf = len(w.fired)
            try:
                with w:
                    scen.apply(pt, call)
                st.steps += 1
            except BaseException:
                if len(w.fired) == nf:
                    raise
                failed = True
            if failed:
                interesting += 1
                need(len(pt.traj) in ((n, 1) if n == 0 else (n,)), 'history', what, 'failed and left',
                     len(pt.traj), 'steps instead of', n)
                history(what)
            else:
                if op[0] != 'again':
                    pos += 1
                add = len(pt.traj) - n
                if call[0] == 'forward':
                    need(add == 1 or (n == 0 and add == 2), 'append', what, 'added', add, 'steps')
                    history(what)
                else:
                    need(add == (1 if n == 0 else 0), 'append', what, 'added', add, 'steps')
                    history(what, max(n - 1, 0))
            if call[0] == 'measure' and not failed and rec['y']:
                rec['y'] = rec['y'][:-1]
            recorded(what, rec)
        elif op[0] == 'smooth':
            if not n:
                continue
            scen.relax(m, op[1])
            so = None if op[3] is None else dict(op[3])
            w.arm(op[4])
            nf = len(w.fired)
            s = None
            try:
                with w:
                    s = pt.perform_smoothing(op[2], method=op[1], smoother_options=so)
            except BaseException:
                if len(w.fired) == nf:
                    raise
                failed = True
            interesting += 1
            need(len(pt.traj) == n, 'history', what, 'changed the number of steps')
            history(what)
            recorded(what, rec)
            if so is not None:
                need(so == op[3], 'caller-owned', what, 'modified smoother options', so)
            if s is not None:
                need(len(s.traj) == n, 'smoothed', what, 'has', len(s.traj), 'steps')
                results.append([s, scen.snap_straj(s)])
                st.probes['smoothed'] += 1
        elif op[0] == 'scribble':
            if not results:
                continue
            s = results[op[1] % len(results)]
            s[1] = None
            scribble(s[0])
            history(what)
            recorded(what, rec)
            st.probes['overwritten result'] += 1
        others(what)
        base = steps_of(pt)
        st.state(cfg['fam'], cfg['filter'], op[0], op[1] if op[0] == 'smooth' else '', failed)
    d.done()
    if cfg['own'] and pt.traj:
        # estimates returned by the batch interface are copies as well
        sim = scen.Simulator(m, d.u, d.y)
        sim.pt = pt
        sn = steps_of(pt)
        e, ww = sim.get_filtered_estimates()
        mean = sim.get_filtered_mean()
        e[...] = ww[...] = mean[...] = 777.0
        dd = scen.diff(sn, steps_of(pt))
        if dd:
            fail('shared', 'filtered estimates share storage with the recorded steps', dd)
    st.nontrivial = interesting > 0 and len(pt.traj) >= 2


def scribble(s):
    for x in s.traj:
        x.pa.part[...] = 777.0
        x.pa.w[...] = -7.0
    for v in (s.u, s.y, s.t):
        for k in range(len(v)):
            v[k] = 77
