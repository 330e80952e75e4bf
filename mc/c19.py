"""
C19: an individual a report callback complains about is demoted for good.
"""

import contextlib, io, pdb, sys
from .drive import *

BOUNDS = {
    "quick": "1-2 callbacks, complaining in 6 ways (True, False, 0, empty and other text, late) or not at every report, complaint handler (or debugger) immediate or "
    "deferred with any answer: all sequences of 5 submissions out of {much better, better than the one before the best, slightly better, "
    "worse, forced}, up to 3 complaints, arriving before or after further submissions; evolutions of 4 members, 1-2 generations",
    "thorough": "6 submissions",
}
ASSUMPTIONS = ["each individual submitted is also put into the population if better than its worst member"]
MUST_COVER = ("complained", "late complaint", "complaint after better", "two in a row complained", "restored", "not reported: worse than restored",
              "reported: better than restored", "first one complained", "evolution", "handled late", "nobody left")


class Watch(object):
    """
    Registers callbacks with p.
    """
    def __init__(self, ctx, p, N, complain):
        self.ctx, self.p, self.N = ctx, p, N
        self.complain = complain
        self.open = []          # (k, i, Deferred) in progress
        self.handled = []
        self.expect = []        # Complaints the handler has yet to get
        self.bad = []           # Those complained about
        self.seen = {}          # values -> individual
        self.registered = []    # Those that were the best when submitted
        self.reports = []
        self.dHandler = None
        self.debugger = False
        self.late = False
        self.answers = (None,)
        for k in range(N): p.addCallback(lambda v, c, SSE, k=k: ctx.guard(self.called, k, v, SSE))

    def ref(self):
        """
        Reference: the one to beat, the best one registered and not
        complained about.
        """
        good = [x for x in self.registered if not any(x[0] is b for b in self.bad)]
        return good[-1] if good else None

    def submitted(self, i):
        """
        Returns True if i is better than the reference.
        """
        self.seen[tuple(i.values)] = i
        r = self.ref()
        x = float(i.SSE)
        if r is None or x < r[1]:
            if self.bad and r is not None: self.ctx.mark("reported: better than restored")
            self.registered.append((i, x))
            return True
        if self.bad: self.ctx.mark("not reported: worse than restored")
        return False

    def called(self, k, values, SSE):
        i = self.seen[tuple(values)]
        self.reports.append((k, i))
        self.ctx.log("report", k, tuple(values))
        x = self.complain(k)
        if x == 'no': return
        if x == 'late':
            d = defer.Deferred()
            self.open.append((k, i, d))
            return d
        self.complained(i, x)
        return x

    def complained(self, i, x):
        ctx = self.ctx
        ctx.mark("complained")
        if not self.bad and len(self.registered) == 1: ctx.mark("first one complained")
        if self.bad and self.registered[-1][0] is i: ctx.mark("two in a row complained")
        if self.registered[-1][0] is not i: ctx.mark("complaint after better")
        if self.debugger: self.bad.append(i)
        else: self.expect.append((i, x))

    def handler(self, i, x):
        return self.ctx.guard(self._handler, i, x)

    def _handler(self, i, x):
        ctx = self.ctx
        if not self.expect or not self.expect[0][0].equals(i) or self.expect[0][1] is not x:
            ctx.fail("Complaint {} about {} isn't {}", x, i, self.expect)
        self.expect.pop(0)
        if self.late and ctx.choose(2, "handler late", 1):
            self.dHandler = defer.Deferred()
            self.dHandler.addCallback(lambda _: self.bad.append(i))
            ctx.mark("handled late")
            return self.dHandler
        self.bad.append(i)
        return ctx.pick(self.answers, "answer", 1)

    def check(self):
        """
        Everything said about those complained about?
        """
        ctx, p = self.ctx, self.p
        if self.dHandler: return
        if self.expect: ctx.fail("No complaint about {}", self.expect)
        for i in self.bad:
            if i.SSE != INF: ctx.fail("{} is still good", i)
            b = p.best()
            if b is i and any(j.SSE < INF for j in p): ctx.fail("{} is still best", i)
        r = self.ref()
        if self.bad:
            ctx.mark("restored" if r else "nobody left")


def words(ctx):
    q = ctx.params
    w = World(ctx)
    budget = [q['complaints']]
    def complain(k):
        if not budget[0]: return 'no'
        x = ctx.pick(q['kinds'], "complaint", 1)
        if x != 'no': budget[0] -= 1
        return x
    watch = None
    p, ev = make_pop(w, [210., 200., 220., 230.])
    debugger = q.get('debugger', False)
    p.reporter = Reporter(p) if debugger else Reporter(p, lambda i, x: watch.handler(i, x))
    watch = Watch(ctx, p, q['N'], complain)
    watch.answers = q.get('answers', (None,))
    watch.debugger = debugger
    watch.late = q.get('late')
    alone = ctx.choose(2, "alone")
    n = [0]
    def make(x):
        n[0] += 1
        i = Individual(p, [0.1*n[0], 0.2])
        good = [y[1] for y in watch.registered if not any(y[0] is b for b in watch.bad)]
        every = [y[1] for y in watch.registered]
        ref = good[-1] if good else 200.0
        if x == 'much': i.SSE = min([ref] + every)*0.8
        elif x == 'better': i.SSE = ref*0.9
        elif x == 'slight': i.SSE = ref*0.99
        elif x == 'worse': i.SSE = ref*1.05
        elif x == 'best': i = p.best()
        return i
    for step in range(q['length']):
        x = ctx.pick(('much', 'better', 'worse', 'slight', 'best')[:5 if step else 1], "submission")
        i = make(x)
        ctx.log(x)
        before = len(watch.reports)
        busy = bool(watch.open) or watch.dHandler is not None
        better = watch.submitted(i)
        if x == 'best': p.report()
        else:
            p.push(i)
            other = Individual(p, [5.0, 5.0]); other.SSE = 300.0
            if alone: p.reporter(i)
            else: p.report(i, other)
        if ctx.sticky: return
        if not busy and x != 'best':
            shown = any(y[1] is i for y in watch.reports[before:])
            if better and x in ('much', 'better') and not shown: ctx.fail("{} not reported", i)
            if not better and shown: ctx.fail("{} reported, but {} is better", i, watch.ref())
        watch.check()
        ctx.state(len(watch.reports), len(watch.bad), [y[1] for y in watch.registered])
        while (watch.open or watch.dHandler) and ctx.choose(2, "finish"):
            finish(ctx, watch)
            if ctx.sticky: return
            watch.check()
    while watch.open or watch.dHandler:
        finish(ctx, watch)
        if ctx.sticky: return
    w.pump()
    watch.check()
    for i in watch.bad:
        if len([x for x in watch.handled if x is i]) > 1: ctx.fail("Complained twice")


def debugged(ctx):
    """
    Without a complaint handler, the debugger is entered, here one that has
    nothing to do.
    """
    def nothing(*args, **kw): ctx.mark("debugger")
    old = pdb.set_trace, pdb.Pdb.set_trace, sys.breakpointhook
    pdb.set_trace = pdb.Pdb.set_trace = sys.breakpointhook = nothing
    try:
        with contextlib.redirect_stdout(io.StringIO()): words(ctx)
    finally: pdb.set_trace, pdb.Pdb.set_trace, sys.breakpointhook = old


def finish(ctx, watch):
    if watch.dHandler:
        d = watch.dHandler
        watch.dHandler = None
        d.callback(ctx.pick(watch.answers, "answer", 1))
        return
    k, i, d = watch.open.pop(0)
    x = ctx.pick((None, "Late"), "late complaint")
    if x:
        ctx.mark("late complaint")
        watch.complained(i, x)
    d.callback(x)


def evolving(ctx):
    q = ctx.params
    w = World(ctx)
    p, ev = make_pop(w, [110., 100., 120., 130.])
    watch = None
    p.reporter = Reporter(p, lambda i, x: watch.handler(i, x))
    kinds = Kinds()
    budget = [2]
    def complain(k):
        if not budget[0]: return 'no'
        x = ctx.pick(('no', True, 'late'), "complaint", 1)
        if x != 'no': budget[0] -= 1
        return x
    watch = Watch(ctx, p, 0, complain)
    # Individuals evaluated become known by their report
    def called(k, values, SSE):
        # A stand-in
        i = Individual(p, list(values))
        i.SSE = SSE
        watch.seen[tuple(values)] = i
        return Watch.called(watch, k, values, SSE)
    p.addCallback(lambda v, c, SSE: ctx.guard(called, 0, v, SSE))
    watch.registered.append((p.best(), 100.0))
    de = DifferentialEvolution(p, logHandle=None, CR=0.7, F=0.7, maxiter=q['gens'], adaptive=False)
    f = Fired(de())
    w.pump()
    while (ev.pending or watch.open) and not ctx.sticky:
        if watch.open and (not ev.pending or ctx.choose(2, "finish report", 1)):
            finish(ctx, watch)
        else:
            c = ev.pending[0]
            SSEs = [float(i.SSE) for i in p]
            r = kinds(ctx.pick(q['kinds'], "result", 1), sorted(SSEs)[1], min(SSEs))
            ev.finish(c, r)
        w.pump()
        if ctx.sticky: return
        demoted(ctx, p, watch)
    if ctx.sticky: return
    if not f: ctx.fail("Evolution never done")
    demoted(ctx, p, watch)
    ctx.mark("evolution")


def demoted(ctx, p, watch):
    if watch.expect: ctx.fail("No complaint about {}", watch.expect)
    for i in watch.bad:
        if i.SSE != INF: ctx.fail("{} is still good", i)
        if p.best() is i and any(j.SSE < INF for j in p): ctx.fail("{} is still best", i)


def scenarios(tier, seed):
    T = tier == "thorough"
    few = ('no', "Bad", 'late')
    return [
        ("kinds of complaints", words, {
            'N': 1, 'length': 3, 'complaints': 3, 'kinds': ('no', True, False, 0, "", "Bad", 'late')}, {'bound': 3}),
        ("answers of the handler", words, {
            'N': 1, 'length': 3, 'complaints': 2, 'late': True, 'kinds': few[:2], 'answers': (None, True, 0, "Keep", False)}, {'bound': 3}),
        ("debugger", debugged, {'N': 1, 'length': 3, 'complaints': 2, 'kinds': few, 'debugger': True}, {'bound': 2}),
        ("one callback", words, {'N': 1, 'length': 4 + T, 'complaints': 3, 'kinds': few}, {'bound': 3}),
        ("long", words, {'N': 1, 'length': 5 + T, 'complaints': 2, 'kinds': few[:2]}, {'bound': 2}),
        ("late handler", words, {'N': 1, 'length': 3 + T, 'complaints': 2, 'late': True, 'kinds': few}, {'bound': 4}),
        ("two callbacks", words, {'N': 2, 'length': 3 + T, 'complaints': 1, 'kinds': few}, {'bound': 3}),
        ("evolution", evolving, {'gens': 1, 'kinds': ('best', 'lose', 'win')}, {'bound': 3+T}),
        ("evolution 2", evolving, {'gens': 2, 'kinds': ('lose', 'best', 'win')}, {'bound': 3+T}),
    ]
