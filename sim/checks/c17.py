"""Operation counting changes nothing and counts exactly"""
import contextlib
import io

import numpy as np

from .. import scen, seams
from ..engine import fail, need
from ..scen import pick
from pyparticleest.utils.intrument import Instrumenter, OpCount

ID = 'C17'
RULE = ('one to three seeded runs (any model family, filter, smoother) with failing and retried calls, each '
        'executed with the plain and with the wrapped model on the same random stream; results compared bit by '
        'bit, counters compared with the calls seen at the model boundary; non-trivial: at least three kinds '
        'of operation counted')
STATES = 'distinct (family, filter, smoother, kinds of operation counted, a call failed)'
QUICK, THOROUGH = 4000, 400

KINDS = dict(cnt_sample=('sample_process_noise_full',), cnt_update=('update_full',),
             cnt_measure=('measure_full', 'measure'),
             cnt_pdfxn=('logp_xnext', 'logp_xnext_full', 'logp_xnext_singlestep'),
             cnt_pdfxnmax=('logp_xnext_max_full',), cnt_propsmooth=('propose_smooth',),
             cnt_pdfsmooth=('logp_proposal',), cnt_eval1st=('eval_1st_stage_weights',),
             cnt_eval_logp_x0=('eval_logp_x0',))


def gen(r, i):
    cfg = scen.gen_base(r, Tmax=6)
    cfg['faults'] = scen.gen_faults(r, cfg, p=0.25)
    cfg['sfaults'] = ([[int(r.randint(40)), pick(r, ('before', 'after')), 'Injected']]
                      if r.uniform() < 0.3 else [])
    cfg['runs'] = int(r.randint(1, 4))
    cfg['other'] = (pick(r, scen.SMOOTHERS[cfg['fam']]), int(r.randint(1, 4))) if r.uniform() < 0.4 else None
    cfg['share'] = bool(r.randint(2))
    return cfg


class Wrapped(scen.Drive):
    """The same run with the model wrapped (or not)"""

    def __init__(self, cfg, st, wrap, k):
        cfg = dict(cfg, seed=cfg['seed'] + 1009 * k)
        scen.Drive.__init__(self, cfg, st)
        self.ins = None
        if wrap is not None:
            self.ins = Instrumenter(self.m) if wrap is True else wrap
            self.ins.model = self.m
            self.pt = scen.trajectory(cfg, self.ins, self.fo)

    def smooth(self):
        cfg = self.cfg
        scen.relax(self.m, cfg['smoother'])
        with self.w:
            return scen.attempt(self.w, lambda: scen.smooth(cfg, self.pt, self.m), cfg['sfaults'], self.st)

    def all(self):
        out = []
        for i in range(len(self.calls)):
            out.append(bool(self.step(i)))
        straj = self.smooth()
        out += [scen.snap_pt(self.pt), scen.snap_straj(straj)]
        o = self.cfg['other']
        if o:
            c = dict(self.cfg, smoother=o[0], M=1 if self.cfg['fam'] == 'LT' else o[1], so=None)
            if o[0] in ('mcmc', 'mhips', 'mhips_reduced', 'mhbp'):
                c['so'] = dict(R=2)
            with self.w:
                scen.relax(self.m, o[0])
                out.append(scen.snap_straj(scen.smooth(c, self.pt, self.m)))
        out.append(int(np.random.randint(1 << 30)))
        return out


def counts(ins):
    d = dict((k, int(getattr(ins, k))) for k in KINDS if k not in ('cnt_pdfxn',))
    d['cnt_pdfxn'] = int(ins.cnt_pdfxn) + int(ins.cnt_pdfxn_full)
    return d


def expected(w):
    return dict((k, sum(w.counts.get(n, 0) for n in v)) for k, v in KINDS.items())


def add(a, b):
    return dict((k, a[k] + b[k]) for k in a)


def run(cfg, st):
    shared = None
    total = dict((k, 0) for k in KINDS)
    oc = OpCount()
    seen = dict(total)
    for k in range(cfg['runs']):
        a = Wrapped(cfg, st, None, k)
        ra = a.all()
        if cfg['share'] and shared is not None:
            b = Wrapped(cfg, st, shared, k)
        else:
            b = Wrapped(cfg, st, True, k)
            seen = dict((n, 0) for n in KINDS)
        shared = b.ins
        before = counts(b.ins)
        need(before == seen, 'counters-changed', 'between runs', before, 'instead of', seen)
        rb = b.all()
        d = scen.diff(ra, rb)
        if d:
            fail('differs', 'wrapped', cfg['fam'], cfg['filter'], cfg['smoother'], d)
        need(a.w.counts == b.w.counts and a.w.total == b.w.total, 'calls-differ', 'plain', a.w.counts,
             'wrapped', b.w.counts)
        exp = add(before, expected(b.w))
        got = counts(b.ins)
        need(got == exp, 'counters', 'counted', got, 'processed', exp)
        seen = got
        total = add(total, expected(b.w))
        if not (cfg['share'] and k + 1 < cfg['runs']):
            oc = oc + b.ins.oc
        a.done()
        b.done()
        st.state(cfg['fam'], cfg['filter'], cfg['smoother'],
                 tuple(sorted(n for n in exp if exp[n])), len(b.w.fired) > 0)
        printed(b.ins, got)

    class O(object):
        model = None

        def __getattr__(self, n):
            return getattr(oc, n)
    got = counts(O())
    need(got == total, 'totals', 'of', cfg['runs'], 'runs', got, 'instead of', total)
    st.nontrivial = sum(1 for v in total.values() if v) >= 3


def printed(ins, got):
    """The printed statistics show the counters"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ins.print_statistics()
        ins.print_total_ops()
    for l in out.getvalue().splitlines():
        n, _, v = l.partition(':')
        n = n.strip()
        if n in got:
            need(int(v) == got[n], 'printed', l, 'instead of', got[n])
