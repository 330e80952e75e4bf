"""
C04: a fatal evaluation stops everything and never enters the population.
"""

from .drive import *

BOUNDS = {
    "quick": "setup Np=4 (at most 2 or 4 parallel evaluations) and evolution Np=5 (1-2 generations): "
    "first fatal result of 4 kinds (and 24 types of exceptions with at most one non-default decision) at every evaluation of every completion order, arriving late or "
    "immediately, with every mix of {best, lose, none, fatal} for the evaluations still in flight",
    "thorough": "as quick, and Np=6 with more non-default decisions",
}
ASSUMPTIONS = []
MUST_COVER = ("fatal in setup", "fatal in evolution", "in flight during fatal", "immediate fatal")
Nd = 3
FATALS = ('neg', 'negtiny', 'neginf', 'error')


def key(v):
    return tuple(float(np.float32(x)) for x in v)


class Watch(object):
    """
    Knows which vectors had a fatal result and that they're to be found nowhere.
    """
    def __init__(self, ctx, p, ev):
        self.ctx, self.p, self.ev = ctx, p, ev
        self.fatals = []
        self.usable = set(key(m[0]) for m in members(p))
        self.any = False
        self.limit = None
        self.frozen = None

    def hit(self, c, x):
        """
        A fatal result x is about to be delivered for call c.
        """
        self.ctx.log("fatal", c.n, str(x))
        self.any = True
        # The very same values may have had a usable result before
        k = key(c.values)
        if k not in self.usable: self.fatals.append(k)
        if len(self.ev.calls) > 1 and self.ev.pending: self.ctx.mark("in flight during fatal")

    def freeze(self, members_too):
        if self.limit is None:
            self.limit = len(self.ev.vectors)
            if members_too: self.frozen = members(self.p)

    def check(self):
        p, ctx = self.p, self.ctx
        if self.limit is not None and len(self.ev.vectors) > self.limit:
            ctx.fail("Vector {} was sent for evaluation after a fatal result",
                     self.ev.vectors[-1].values)
        if self.frozen is not None and members(p) != self.frozen:
            ctx.fail("Members changed after a fatal result: {} to {}", self.frozen, members(p))
        if not self.fatals: return
        for m in members(p):
            if key(m[0]) in self.fatals:
                ctx.fail("Individual {} with fatal result is a member", m)
        for row in hist_records(p.history):
            if row[1] in self.fatals:
                ctx.fail("Individual {} with fatal result is in the history", row)
        b = p.best()
        if b is not None and key(b.values) in self.fatals:
            ctx.fail("Individual {} with fatal result is the best", b.values)

    def reported(self, values, counter, SSE):
        if key(values) in self.fatals:
            self.ctx.fail("Individual {} with fatal result was reported", values)


def setup(ctx):
    q = ctx.params
    w = World(ctx)
    ev = Evaluator()
    kinds = Kinds()
    class P(Pop):
        Np_min = q['N']
        N_maxParallel = q['parallel']
    p = P(ev, NAMES[:Nd], [(-10.0, 10.0)]*Nd)
    watch = Watch(ctx, p, ev)
    p.addCallback(lambda *args: ctx.guard(watch.reported, *args))
    def outcome(c):
        k = ctx.pick(q['kinds'] + q.get('fatals', FATALS), "result", 1)
        x = kinds(k, 100.0 + c.n, 90.0)
        if fatal(x): watch.hit(c, x)
        else: watch.usable.add(key(c.values))
        return k, x
    if q.get('immediate'):
        def policy(c):
            if c.values is None: return None
            watch.check()
            if ctx.choose(2, "hold"): return ev.HOLD
            k, x = outcome(c)
            if fatal(x):
                ctx.mark("immediate fatal")
                watch.freeze(False)
            return x
        ev.policy = policy
    else:
        ev.policy = lambda c: None if c.values is None else ev.HOLD
    f = Fired(p.setup(uniform=True))
    w.pump()
    watch.check()
    steps = 0
    while ev.pending:
        steps += 1
        if steps > 40: raise Prune
        c = ev.pending[ctx.choose(len(ev.pending), "which finishes")]
        k, x = outcome(c)
        ev.finish(c, x)
        if fatal(x): watch.freeze(False)
        watch.check()
        w.pump()
        watch.check()
        ctx.log("finish", c.n, k)
        ctx.state(len(p), len(ev.calls), len(ev.pending), watch.limit)
    w.pump()
    watch.check()
    if watch.any:
        ctx.mark("fatal in setup")
        if not f: ctx.fail("Setup never ends after a fatal result")
        if f.count != 1 or f.failure: ctx.fail("Setup ended with {} {}", f.count, f.failure)
        if f.result is True: ctx.fail("Setup reported success in spite of a fatal result")
        # Evolution must not begin either
        de = DifferentialEvolution(p, logHandle=None, maxiter=2)
        f = Fired(de())
        w.pump()
        watch.check()
        if not f and not ev.pending: ctx.fail("Evolution after failed setup never ends")


def evolve(ctx):
    q = ctx.params
    w = World(ctx)
    p, ev = make_pop(w, q['sses'], Nd=Nd)
    kinds = Kinds()
    watch = Watch(ctx, p, ev)
    p.addCallback(lambda *args: ctx.guard(watch.reported, *args))
    cost = q.get('cost', 1)
    def outcome(c):
        SSEs = [eff(m[1]) for m in members(p)]
        who = owners(p, c.values, Nd)
        t = SSEs[who[0]] if who else max(SSEs)
        k = ctx.pick(q['kinds'] + q.get('fatals', FATALS), "result", cost)
        x = kinds(k, t, min(SSEs))
        if fatal(x): watch.hit(c, x)
        else: watch.usable.add(key(c.values))
        return k, x
    if q.get('immediate'):
        def policy(c):
            watch.check()
            if c.values is None: return None
            if ctx.choose(2, "hold"): return ev.HOLD
            k, x = outcome(c)
            if fatal(x):
                ctx.mark("immediate fatal")
                watch.freeze(True)
            return x
        ev.policy = policy
    de = DifferentialEvolution(
        p, logHandle=None, CR=0.0, F=0.7, maxiter=q['gens'], adaptive=False, xSSE=q.get('xSSE', False))
    f = Fired(de())
    w.pump()
    watch.check()
    while ev.pending:
        c = ev.pending[ctx.choose(len(ev.pending), "which finishes")]
        if c.values is None:
            ev.finish(c, None)
            w.pump()
            continue
        k, x = outcome(c)
        if fatal(x): watch.freeze(True)
        ev.finish(c, x)
        watch.check()
        w.pump()
        watch.check()
        ctx.log("finish", c.n, k)
        ctx.state([m[1] for m in members(p)], len(ev.calls), len(ev.pending), watch.limit)
    w.pump()
    watch.check()
    if watch.any: ctx.mark("fatal in evolution")
    if not f: ctx.fail("Evolution never ends")
    if f.count != 1 or f.failure: ctx.fail("Evolution ended with {} {}", f.count, f.failure)


def scenarios(tier, seed):
    T = tier == "thorough"
    S = []
    def add(name, run, bound, **q):
        S.append((name, run, q, {'bound': bound}))
    s5 = [12., 11., 10., 13., 14.]
    for par in (1, 2, 4):
        add("setup, {} parallel".format(par), setup, 3 if T else 2, N=4, parallel=par, kinds=('win', 'none', 'best', 'lose'))
    add("setup, immediate", setup, 2 if T else 1, N=4, parallel=2, kinds=('win', 'none'), immediate=True)
    add("evolution", evolve, 4 if T else 3, sses=s5, gens=1, kinds=('lose', 'best', 'win', 'none'))
    add("evolution, improving", evolve, 3 if T else 2, sses=s5, gens=1, kinds=('win', 'lose', 'none'))
    add("evolution, 2 generations", evolve, 2, sses=s5, gens=2, kinds=('lose', 'win'))
    add("evolution, cutoff", evolve, 2, sses=s5, gens=1, kinds=('lose', 'best', 'win', 'none'), xSSE=True)
    add("evolution, immediate", evolve, 2, sses=s5, gens=1, kinds=('lose', 'best'), immediate=True)
    add("evolution N=4, 3 generations", evolve, 2, sses=s5[:4], gens=3, kinds=('lose', 'win', 'best', 'none'))
    E = tuple(sorted(ERRORS))
    for imm in (False, True):
        x = ", immediate" if imm else ""
        add("setup, exceptions" + x, setup, 1, N=4, parallel=2, kinds=('win', 'none'), fatals=E, immediate=imm)
        add("evolution, exceptions" + x, evolve, 1, sses=s5, gens=1, kinds=('lose', 'win'), fatals=E, immediate=imm)
    add("evolution N=6", evolve, 3 if T else 2, sses=s5 + [15.], gens=1, kinds=('win', 'best'))
    return S
