"""
C05: an abort takes effect at once, at any point of setup or evolution.
"""

import io
from .drive import *

BOUNDS = {
    "quick": "abort by Enter, abortNow, shutdown of the evolution object or abort of the population, at "
    "every point between two steps of every completion order (setup Np=4, evolution Np=5, 1-2 "
    "generations), or from within the evaluation function, a report callback or the generation "
    "callback; results arriving later and answers to None: {0, best, lose, none, nan, negative, error}",
    "thorough": "as quick with more non-default results, and Np=6",
}
ASSUMPTIONS = ["evaluations in flight eventually finish"]
MUST_COVER = ("aborted setup", "aborted evolution", "in flight", "abort from evaluation",
              "abort from report", "abort from generation callback", "loaded")
Nd = 3
LATER = ('best', 'zero', 'lose', 'none', 'nan', 'neg', 'error')


class Aborter(object):
    def __init__(self, ctx, w, ev, means):
        self.ctx, self.w, self.ev = ctx, w, ev
        self.means = means
        self.limit = None
        self.frozen = None
        self.p = self.de = None

    @property
    def done(self):
        return self.limit is not None

    def now(self, where):
        ctx = self.ctx
        self.ctx.log("abort", self.means, where)
        self.frozen = members(self.p)
        # Vectors evaluated while we abort count, too
        self.limit = len(self.ev.vectors)
        if self.means == 'enter': self.w.enter()
        elif self.means == 'abortNow':
            abort.abortNow()
            # Takes effect with the next reactor iteration
            self.limit = None
            self.w.clock.advance(0)
            self.limit = len(self.ev.vectors)
        elif self.means == 'shutdown': self.de.shutdown()
        else: self.p.abort()
        if self.ev.pending: ctx.mark("in flight")

    def maybe(self, where, cost=0):
        """
        Aborts now, or not.
        """
        if not self.done and self.ctx.choose(2, "abort " + where, cost):
            self.now(where)
            return True

    def check(self, grow=False):
        if not self.done: return
        if len(self.ev.vectors) > self.limit:
            self.ctx.fail("Vector {} was sent for evaluation after the abort",
                          self.ev.vectors[-1].values)
        m = members(self.p)
        if m[:len(self.frozen)] != self.frozen or (len(m) > len(self.frozen) and not grow):
            self.ctx.fail("Members changed after the abort: {} to {}", self.frozen, m)


def answer(ctx, q, ev, kinds):
    """
    What the evaluation function makes of being called with None.
    """
    ctx.mark("evaluated None")
    k = ctx.pick(('none',) + q.get('nones', ('zero', 'neg', 'error', 'hold')), "answer to None", 1)
    return ev.HOLD if k == 'hold' else kinds(k, 10.0, 10.0)


def setup(ctx):
    q = ctx.params
    w = World(ctx)
    ev = Evaluator()
    kinds = Kinds()
    class P(Pop):
        Np_min = q['N']
        N_maxParallel = q['parallel']
    a = Aborter(ctx, w, ev, q['means'])
    def policy(c):
        a.check(True)
        if c.values is None: return answer(ctx, q, ev, kinds)
        if q.get('inside') and a.maybe("in evaluation", 1): ctx.mark("abort from evaluation")
        return ev.HOLD
    ev.policy = policy
    a.p = p = P(ev, NAMES[:Nd], [(-10.0, 10.0)]*Nd)
    results = {}
    if q.get('report'):
        def callback(values, counter, SSE):
            if a.maybe("in report", 1): ctx.mark("abort from report")
        p.addCallback(lambda *args: ctx.guard(callback, *args))
    a.maybe("before")
    f = Fired(p.setup(uniform=q.get('uniform', True)))
    a.check(True)
    w.pump()
    a.check(True)
    steps = 0
    while ev.pending:
        steps += 1
        if steps > 30: raise Prune
        a.maybe("between")
        a.check(True)
        c = ev.pending[ctx.choose(len(ev.pending), "which finishes", q.get('schedcost', 0))]
        k = ctx.pick(LATER[::2] + ("neg",) if a.done else ("lose", "none", "best"), "result", 1)
        x = kinds(k, 100.0 + c.n, 100.0 + c.n)
        ctx.log("finish", c.n, k)
        if c.values is not None and eff(x) < INF:
            results[tuple(c.values)] = eff(x)
        ev.finish(c, x)
        a.check(True)
        w.pump()
        a.check(True)
        ctx.state(len(p), len(ev.calls), len(ev.pending), a.limit)
    w.pump()
    if not f: ctx.fail("Setup never ends")
    if f.count != 1 or f.failure: ctx.fail("Setup ended with {} {}", f.count, f.failure)
    for v, SSE in members(p):
        if results.get(v) != SSE:
            ctx.fail("Member {} with SSE {} never had that as result", v, SSE)
    if a.done:
        ctx.mark("aborted setup")
        if f.result is True: ctx.fail("Aborted setup is reported as ready")
        de = DifferentialEvolution(p, logHandle=None, maxiter=1)
        f = Fired(de())
        w.pump()
        a.check(True)
        if not f: ctx.fail("Evolution of aborted population never ends")


def evolve(ctx):
    q = ctx.params
    w = World(ctx)
    p, ev = make_pop(w, q['sses'], Nd=Nd)
    kinds = Kinds()
    a = Aborter(ctx, w, ev, q['means'])
    a.p = p
    inside = q.get('inside', ())
    def policy(c):
        a.check()
        if c.values is None: return answer(ctx, q, ev, kinds)
        if 'evaluation' in inside and a.maybe("in evaluation", 1): ctx.mark("abort from evaluation")
        if q.get('immediate') and ctx.choose(2, "immediate result", 1):
            return kinds(ctx.pick(('best', 'lose'), "result", 1), 10., 10.)
        return ev.HOLD
    ev.policy = policy
    reports = []
    if 'report' in inside:
        def callback(values, counter, SSE):
            if a.maybe("in report", 1): ctx.mark("abort from report")
        p.addCallback(lambda *args: ctx.guard(callback, *args))
    if q.get('slow'):
        def slow(*args):
            d = defer.Deferred()
            reports.append(d)
            return d
        p.addCallback(slow)
    def func(kg):
        if 'generation' in inside and a.maybe("in generation callback", 1):
            ctx.mark("abort from generation callback")
    a.de = de = DifferentialEvolution(
        p, logHandle=None, CR=0.0, F=0.7, maxiter=q['gens'], adaptive=False, xSSE=q.get('xSSE', False))
    if not inside: a.maybe("before")
    f = Fired(de(lambda kg: ctx.guard(func, kg)))
    a.check()
    if q.get('ticks'):
        for k in range(4):
            a.maybe("while starting")
            w.tick()
            a.check()
    w.pump()
    a.check()
    while ev.pending or reports:
        if not inside: a.maybe("between")
        a.check()
        things = list(ev.pending) + list(reports)
        c = things[ctx.choose(len(things), "which finishes", q.get('schedcost', 0))]
        if c in reports:
            reports.remove(c)
            c.callback(None)
            w.pump()
            a.check()
            continue
        SSEs = [eff(m[1]) for m in members(p)]
        who = owners(p, c.values, Nd) if c.values is not None else []
        t = SSEs[who[0]] if who else max(SSEs)
        k = ctx.pick(LATER if a.done else ('lose', 'best'), "result", 1)
        ctx.log("finish", c.n, k)
        ev.finish(c, kinds(k, t, min(SSEs)))
        a.check()
        w.pump()
        a.check()
        ctx.state([m[1] for m in members(p)], len(ev.calls), len(ev.pending), a.limit)
    w.pump()
    a.check()
    if not f: ctx.fail("Evolution never ends")
    if f.count != 1 or f.failure: ctx.fail("Evolution ended with {} {}", f.count, f.failure)
    if a.done: ctx.mark("aborted evolution")


def loaded(ctx):
    """
    A population that was loaded gets aborted by Enter, too.
    """
    q = ctx.params
    w = World(ctx)
    import pickle
    ev = Evaluator(lambda c: 10.0 + c.n)
    p = Pop(ev, NAMES[:Nd], [(-10.0, 10.0)]*Nd)
    f = Fired(p.setup(uniform=True))
    w.pump()
    import os, tempfile, shutil
    path = tempfile.mkdtemp(prefix="mc")
    try:
        p.save(os.path.join(path, "p.dat"))
        ev = Evaluator()
        p = Pop.load(os.path.join(path, "p.dat"), func=ev)
    finally: shutil.rmtree(path)
    kinds = Kinds()
    ev.policy = lambda c: None if c.values is None else ev.HOLD
    a = Aborter(ctx, w, ev, q['means'])
    a.p = p
    ctx.mark("loaded")
    if q['what'] == 'setup':
        f = Fired(p.setup(uniform=True))
    else:
        a.de = DifferentialEvolution(p, logHandle=None, CR=0.0, F=0.7, maxiter=2, adaptive=False)
        f = Fired(a.de())
    w.pump()
    while ev.pending:
        a.maybe("between")
        c = ev.pending[ctx.choose(len(ev.pending), "which finishes", 1)]
        k = ctx.pick(LATER if a.done else ('lose', 'best'), "result", 1)
        x = kinds(k, 10., 10.)
        ev.finish(c, x)
        a.check(q['what'] == 'setup')
        w.pump()
        a.check(q['what'] == 'setup')
    if not f: ctx.fail("Never ends")
    if a.done and q['what'] == 'setup' and f.result is True: ctx.fail("Aborted setup is reported as ready")


def scenarios(tier, seed):
    T = tier == "thorough"
    S = []
    def add(name, run, bound, **q):
        S.append(("{}, {}".format(name, q['means']), run, q, {'bound': bound}))
    s5 = [12., 11., 10., 13., 14.]
    B = 3 if T else 2
    for means in ('enter', 'population'):
        for par in (1, 2, 4):
            add("setup, {} parallel".format(par), setup, B, N=4, parallel=par, means=means)
        add("setup, inside evaluation", setup, B, N=4, parallel=2, means=means, inside=True)
        add("setup, inside report", setup, B, N=4, parallel=2, means=means, report=True)
        add("setup, latin", setup, B, N=4, parallel=2, means=means, uniform=False, schedcost=1)
        add("loaded, setup", loaded, B, means=means, what='setup')
        add("loaded, evolution", loaded, B, means=means, what='evolution')
    for means in ('enter', 'population', 'shutdown', 'abortNow'):
        add("evolution", evolve, B, sses=s5, gens=1, means=means, ticks=True)
        add("evolution, cutoff", evolve, B-1, sses=s5, gens=1, means=means, xSSE=True)
        add("evolution, 2 generations", evolve, B, sses=s5, gens=2, means=means, schedcost=1)
        add("evolution, slow reports", evolve, B, sses=s5, gens=1, means=means, slow=True, schedcost=1)
        if means != 'abortNow':
            add("evolution, inside evaluation", evolve, B, sses=s5, gens=2, means=means,
                inside=('evaluation',), schedcost=1)
            add("evolution, inside callbacks", evolve, B+1, sses=s5, gens=2, means=means,
                inside=('report', 'generation'), schedcost=1)
            add("evolution, immediate", evolve, B, sses=s5, gens=1, means=means, immediate=True,
                inside=('evaluation', 'report'))
            if T: add("evolution N=6", evolve, B, sses=s5+[15.], gens=1, means=means, schedcost=1)
    return S
