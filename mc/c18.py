"""
C18: progress reports: real improvements only, one at a time, latest always
shown.
"""

from .drive import *

BOUNDS = {
    "quick": "1-3 callbacks, each returning at once or with a Deferred: all sequences of 4 submissions out of 13 (alone or versus "
    "another, much or slightly better, equal, repeated, worse, invalid, fatal, zero; forced or not; the population's "
    "best; of all sizes) with callbacks finishing in between or later, submissions from within callbacks, waiting begun at each point; "
    "evolutions of 4 members, 1-2 generations, with held callbacks",
    "thorough": "5 submissions; one more non-default decision",
}
ASSUMPTIONS = ["the first individual submitted is valid", "no complaints (see C19)"]
MUST_COVER = ("reported", "skipped", "shown afterwards", "insignificant", "forced insignificant", "repeat", "waited",
              "waited through two", "from within", "evolution", "final")


class Watch(object):
    """
    My callbacks get registered.
    """
    def __init__(self, ctx, p, N, mode):
        self.ctx, self.p, self.N = ctx, p, N
        self.mode = mode
        self.open = None        # (number of callback, individual, Deferred)
        self.reports = []
        self.next = 0
        self.inside = None
        self.waits = []
        # Reference: what's to be reported
        self.best = None
        self.last = None
        self.go = []
        for k in range(N):
            p.addCallback(self.cb(k), k, kw=k)

    def cb(self, k):
        def f(values, counter, SSE, k2, kw=None):
            return self.ctx.guard(self.called, k, values, SSE, k2, kw)
        return f

    def called(self, k, values, SSE, k2, kw):
        ctx = self.ctx
        if k2 != k or kw != k: ctx.fail("Callback {} got {}, {}", k, k2, kw)
        if self.open: ctx.fail("Callback {} overlaps with {}", k, self.open)
        # Whoever has been told there's nothing outstanding was told right
        self.check()
        if k != self.next: ctx.fail("Callback {} called instead of {}", k, self.next)
        sv = (float(SSE), tuple(float(x) for x in values))
        if k == 0:
            self.reports.append(sv)
            self.judge(sv)
        elif sv != self.reports[-1]: ctx.fail("Callback {} got {} after {}", k, sv, self.reports[-1])
        self.next = (k+1) % self.N
        ctx.log("report", k, sv)
        if self.inside: self.inside(k)
        if self.mode(k) == 'hold':
            d = defer.Deferred()
            self.open = (k, sv, d)
            return d

    def judge(self, sv):
        ctx = self.ctx
        for n, (x, forced, bar) in enumerate(self.go):
            if x != sv: continue
            # Whatever was to be reported before has been skipped
            if n: ctx.mark("skipped")
            del self.go[:n+1]
            ctx.mark("reported")
            return
        ctx.fail("Report of {} but only {} could be reported", sv, self.go)

    def submitted(self, i, force=False, alone=True):
        """
        Reference: an individual is about to be submitted.
        """
        ctx = self.ctx
        if not i: return
        sv = (float(i.SSE), tuple(float(x) for x in i.values))
        better = self.best is None or sv[0] < self.best[0]
        if not better and not (force and alone): return
        if better: self.best = sv
        if sv == self.last:
            ctx.mark("repeat")
            return
        if self.last is not None and self.last[0] > 0:
            equiv = abs(sv[0]/self.last[0] - 1.0) < 0.02
        else: equiv = False
        if not force and equiv:
            ctx.mark("insignificant")
            return
        if force and equiv: ctx.mark("forced insignificant")
        if self.open and self.go: ctx.mark("shown afterwards")
        self.last = sv
        self.go.append((sv, force, None))

    def finish(self):
        k, sv, d = self.open
        self.open = None
        d.callback(None)

    def idle(self):
        ctx = self.ctx
        if self.open: return
        if self.next: ctx.fail("Only {} of {} callbacks called", self.next, self.N)
        # One skipped in between may leave an exact repeat as the latest
        if self.go and self.reports[-1] != self.last: ctx.fail("Never reported: {}", self.go)
        del self.go[:]
        if self.last and self.reports[-1] != self.last: ctx.fail("Latest {} not shown", self.last)

    def wait(self, d):
        self.waits.append([Fired(d), len(self.reports), bool(self.open)])

    def check(self, end=False):
        for x in self.waits:
            f, n, opened = x
            if f and self.open and not x[-1] == 'done':
                self.ctx.fail("Stopped waiting while {} is in progress", self.open[:2])
            if f:
                x[-1] = 'done'
                if opened: self.ctx.mark("waited")
                if len(self.reports) > n: self.ctx.mark("waited through two")
            elif end: self.ctx.fail("Waits forever")


FACTORS = {'much': 0.5, 'slight': 0.99, 'equal': 1.0, 'worse': 1.5}
SUBMIT = [
    ('one', 'much'), ('one', 'slight'), ('one', 'worse'), ('one', 'inf'), ('one', 'repeat'),
    ('two', 'much'), ('two', 'slight'), ('two', 'equal'), ('two', 'none'), ('one', 'fatal'),
    ('forced', 'slight'), ('forced', 'equal'), ('final',)]


def words(ctx):
    q = ctx.params
    w = World(ctx)
    scale = q.get('scale', 1.0)
    p, ev = make_pop(w, [x*scale for x in (110., 100., 120., 130.)])
    # A reporter without a past
    p.reporter = Reporter(p)
    hold = q['hold']
    def mode(k):
        if hold == 'all': return 'hold'
        return 'hold' if ctx.choose(2, "at once") == 0 else None
    watch = Watch(ctx, p, q['N'], mode)
    last = [None]
    n = [0]
    def make(x):
        n[0] += 1
        best = watch.best[0] if watch.best else 100.0*scale
        i = Individual(p, [0.1*n[0], 0.2])
        if x == 'repeat':
            i = last[0].copy() if last[0] else i
            if i.SSE == INF: i.SSE = best
        elif x == 'fatal': i.SSE = -1.0
        elif x == 'inf': i.SSE = INF
        elif x == 'none': i.SSE = None
        elif x == 'zero': i.SSE = 0.0
        else: i.SSE = best*FACTORS[x]
        if i and x not in ('inf', 'none'): last[0] = i
        return i
    def submit(op):
        if op[0] == 'final':
            i = p.best()
            if watch.best and float(i.SSE) > watch.best[0]:
                # Put the best one into the population, as DE does
                i = last[0]
                if i is None or i.SSE > watch.best[0]: raise Prune
                p[0] = i
            watch.submitted(p.best(), True)
            ctx.mark("final")
            p.report()
            return
        i = make(op[1])
        if op[0] == 'one':
            watch.submitted(i)
            p.reporter(i)
        elif op[0] == 'two':
            other = Individual(p, [9.0, 9.0]); other.SSE = 150.0*scale
            watch.submitted(i, alone=False)
            p.report(i, other)
        elif op[0] == 'forced':
            watch.submitted(i, True)
            p.reporter(i, force=True)
    if q.get('within'):
        left = [1]
        def inside(k):
            if left[0] and ctx.choose(2, "from within", 1):
                left[0] -= 1
                ctx.mark("from within")
                submit(ctx.pick((('one', 'much'), ('one', 'slight'), ('two', 'worse')), "submission"))
        watch.inside = inside
    for step in range(q['length']):
        ops = SUBMIT if step else [('one', 'much'), ('two', 'much'), ('final',)]
        op = ctx.pick(ops, "submission")
        ctx.log(op)
        submit(op)
        if ctx.sticky: return
        if ctx.choose(2, "wait", 1): watch.wait(p.waitForReports() if step % 2 else p.reporter.waitForCallbacks())
        k = 0
        while watch.open and ctx.choose(2, "finish"):
            watch.finish()
            if ctx.choose(2, "poll", 1): w.pump()
            watch.check()
            if ctx.sticky: return
        watch.idle()
        ctx.state(len(watch.reports), watch.last, watch.best, bool(watch.open))
    while watch.open:
        w.pump()
        watch.check()
        watch.finish()
        if ctx.sticky: return
    w.pump()
    watch.idle()
    watch.check(end=True)


def evolving(ctx):
    q = ctx.params
    w = World(ctx)
    p, ev = make_pop(w, [110., 100., 120., 130.])
    p.reporter = Reporter(p)
    watch = Watch(ctx, p, q['N'], lambda k: 'hold' if ctx.choose(2, "at once", 1) == 0 else None)
    kinds = Kinds()
    de = DifferentialEvolution(p, logHandle=None, CR=0.7, F=0.7, maxiter=q['gens'], adaptive=False)
    watch.submitted(p.best(), True)
    f = Fired(de())
    w.pump()
    done = False
    while (ev.pending or watch.open) and not ctx.sticky:
        if watch.open and (not ev.pending or ctx.choose(2, "finish report", 1)):
            if not ev.pending and not done and len(ev.vectors) == 4*q['gens']:
                # The final report comes after the last generation
                pass
            if f: ctx.fail("Evolution is done, but {} is in progress", watch.open[:2])
            watch.finish()
            w.pump()
            continue
        c = ev.pending[0]
        SSEs = [float(i.SSE) for i in p]
        r = kinds(ctx.pick(q['kinds'], "result", 1), sorted(SSEs)[1], min(SSEs))
        i = Individual(p, list(c.values)); i.SSE = r
        watch.submitted(i, alone=False)
        if len(ev.vectors) == 4*q['gens'] and len(ev.pending) == 1:
            # At the end, the best one gets reported in any event
            done = True
            b = i if i < p.best() else p.best()
            watch.submitted(b, True)
        ev.finish(c, r)
        w.pump()
    if ctx.sticky: return
    watch.idle()
    if not f: ctx.fail("Evolution never done")
    ctx.mark("evolution")


def scenarios(tier, seed):
    T = tier == "thorough"
    L = 5 if T else 4
    return [
        ("one callback", words, {'N': 1, 'length': L, 'hold': 'all'}, {'bound': 0}),
        ("tiny", words, {'N': 1, 'length': 3, 'hold': 'all', 'scale': 1E-12}, {'bound': 0}),
        ("huge", words, {'N': 1, 'length': 3, 'hold': 'all', 'scale': 1E200}, {'bound': 0}),
        ("one callback, waiting", words, {'N': 1, 'length': 3, 'hold': 'all'}, {'bound': 2}),
        ("two callbacks", words, {'N': 2, 'length': 3 + T, 'hold': 'all'}, {'bound': 1}),
        ("at once or not", words, {'N': 2, 'length': 3, 'hold': 'any'}, {'bound': 1 if T else 0}),
        ("three callbacks", words, {'N': 3, 'length': 2, 'hold': 'any'}, {'bound': 1}),
        ("from within", words, {'N': 1, 'length': 2 + T, 'hold': 'any', 'within': True}, {'bound': 3}),
        ("evolution", evolving, {'N': 1, 'gens': 1, 'kinds': ('best', 'lose', 'win', 'slight')}, {'bound': 4+T}),
        ("evolution 2", evolving, {'N': 2, 'gens': 2, 'kinds': ('best', 'lose', 'none', 'slight')}, {'bound': 3+T}),
        ("losing evolution", evolving, {'N': 1, 'gens': 2, 'kinds': ('lose', 'best', 'slight')}, {'bound': 4+T}),
    ]
