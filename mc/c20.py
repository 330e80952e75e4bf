"""
C20: a failing report callback or complaint handler shuts the evolution down cleanly.
"""

from .drive import *

BOUNDS = {
    "quick": "1-3 callbacks, the first failure (raised, failed Deferred returned, or Deferred failing later) at any callback of any report during "
    "setup (4 members, 1, 2 or 4 parallel evaluations) or evolution (4-5 members, 1-2 generations, results at once or late in any order), "
    "with all results {best, lose, none} before and after, up to 3 non-default decisions (2 with 24 types of exceptions), and likewise "
    "with failures of the handler of complaints",
    "thorough": "up to 4 non-default decisions",
}
ASSUMPTIONS = [
    "a single evaluation already on its way to being sent when the failure arrives counts as sent (none found)"]
MUST_COVER = ("raised", "failed", "failed late", "in setup", "in evolution", "in first report", "in flight", "second callback",
              "late result after failure", "handler failed", "waiting", "report in progress")


class Watch(object):
    def __init__(self, ctx, p, ev, N, errors=(), cost=1, complaints=False):
        self.ctx, self.p, self.ev = ctx, p, ev
        self.failed = None
        self.open = []
        self.calls = 0
        self.waits = []
        self.cost = cost
        self.errors = errors
        self.kinds = ('ok', 'raise', 'fail', 'late') + (('complain',) if complaints else ())
        for k in range(N): p.addCallback(lambda v, c, SSE, k=k: self.outer(k))

    def outer(self, k):
        result = self.ctx.guard(self.called, k)
        if isinstance(result, Exception): raise result
        return result

    def called(self, k):
        ctx = self.ctx
        self.calls += 1
        if self.failed: ctx.fail("Callback {} called after failure", k)
        x = ctx.pick(self.kinds, "report", self.cost)
        if x == 'complain': return "Bad"
        if x == 'late':
            ctx.mark("report in progress")
            d = defer.Deferred()
            self.open.append((k, d))
            return d
        if x == 'ok': return
        if k: ctx.mark("second callback")
        self.fail(None)
        ctx.mark("raised" if x == 'raise' else "failed")
        e = self.error()
        if x == 'raise': return e
        return defer.fail(e)

    def handler(self, i, result):
        result = self.ctx.guard(self.handle)
        if isinstance(result, Exception): raise result
        return result

    def handle(self):
        ctx = self.ctx
        if self.failed: ctx.fail("Complaint handler called after failure")
        x = ctx.pick(('raise', 'fail', 'late'), "handler", 0)
        if x == 'late':
            d = defer.Deferred()
            self.open.append((0, d))
            return d
        self.fail(None)
        ctx.mark("handler failed")
        e = self.error()
        if x == 'raise': return e
        return defer.fail(e)

    def finish(self):
        k, d = self.open.pop(0)
        if self.ctx.choose(2, "failure", 0):
            self.ctx.mark("failed late")
            if k: self.ctx.mark("second callback")
            self.fail(None)
            d.errback(self.error())
        else: d.callback(None)

    def error(self):
        if not self.errors: return RuntimeError("Callback failed on purpose")
        return ERRORS[self.ctx.pick(self.errors, "exception", 0)]("On purpose")

    def fail(self, _):
        self.failed = (len(self.ev.vectors), None)
        if self.ev.pending: self.ctx.mark("in flight")

    def settle(self):
        """
        The failure has been dealt with, so everything has to be quiet from
        now on.
        """
        if self.failed and self.failed[1] is None:
            self.failed = (self.failed[0], members(self.p))

    def check(self):
        if not self.failed: return
        N, M = self.failed
        if len(self.ev.vectors) > N: self.ctx.fail("{} evaluated after failure", self.ev.vectors[-1].values)
        # (An unfinished setup may still add what was already on its way.)
        if M is not None and members(self.p)[:len(M)] != M: self.ctx.fail("Members changed from {} to {}", M, members(self.p))

    def wait(self):
        if self.ctx.choose(2, "wait", 1):
            self.waits.append(Fired(self.p.waitForReports()))
            self.ctx.mark("waiting")


def drive(ctx, w, p, ev, watch, f, q, where):
    kinds = Kinds()
    watch.settle()
    w.pump()
    watch.check()
    while (ev.pending or watch.open) and not ctx.sticky:
        if watch.failed: ctx.mark("late result after failure")
        if watch.open and (not ev.pending or ctx.choose(2, "finish report", 1)):
            watch.finish()
        else:
            c = ev.pending[ctx.choose(len(ev.pending), "which finishes", 1)]
            if c.values is None:
                ev.finish(c, None)
                w.pump()
                continue
            SSEs = [float(i.SSE) for i in p] or [20.0]
            k = ctx.pick(q['kinds'], "result", 1)
            r = kinds(k, sorted(SSEs)[len(SSEs)//2], min(SSEs))
            ev.finish(c, r)
        watch.settle()
        if ctx.sticky: return
        watch.check()
        w.pump()
        if ctx.sticky: return
        watch.check()
        if not watch.failed: watch.wait()
        ctx.state(len(ev.vectors), len(ev.pending), watch.calls, [m[1] for m in members(p)])
    if ctx.sticky: return
    w.pump(10)
    watch.check()
    if not f: ctx.fail("Never ends")
    if f.failure or f.count != 1: ctx.fail("Ended with {}", f.failure)
    for x in watch.waits:
        if not x: ctx.fail("Still waiting for reports")
    if watch.failed:
        ctx.mark(where)
        x = Fired(p.waitForReports())
        w.pump(10)
        if not x: ctx.fail("Waiting for reports never ends")


def evolve(ctx):
    q = ctx.params
    w = World(ctx)
    p, ev = make_pop(w, q['sses'])
    p.reporter = Reporter(p, lambda i, result: watch.handler(i, result))
    watch = Watch(ctx, p, ev, q['N'], q.get('errors', ()), complaints=q.get('complaints'))
    if q.get('atonce'):
        kinds = Kinds()
        def policy(c):
            if c.values is None: return
            watch.check()
            if ctx.choose(2, "hold", 1): return ev.HOLD
            SSEs = [float(i.SSE) for i in p]
            return kinds('best', 1.0, min(SSEs))
        ev.policy = policy
    de = DifferentialEvolution(p, logHandle=None, CR=0.7, F=0.7, maxiter=q['gens'], adaptive=False)
    f = Fired(de())
    if watch.failed: ctx.mark("in first report")
    drive(ctx, w, p, ev, watch, f, q, "in evolution")


def setup(ctx):
    q = ctx.params
    w = World(ctx)
    ev = Evaluator()
    class P(Pop):
        N_maxParallel = q['parallel']
    p = P(ev, NAMES[:2], [(-10.0, 10.0)]*2, complaintCallback=lambda i, result: watch.handler(i, result))
    watch = Watch(ctx, p, ev, q['N'], q.get('errors', ()), complaints=q.get('complaints'))
    ev.policy = lambda c: None if c.values is None else ev.HOLD
    f = Fired(p.setup(uniform=True))
    drive(ctx, w, p, ev, watch, f, q, "in setup")
    if ctx.sticky: return
    if watch.failed:
        # No evolution, either
        g = Fired(DifferentialEvolution(p, logHandle=None, maxiter=2)())
        w.pump()
        watch.check()
        if not g: ctx.fail("Evolution after failed setup never ends")


def scenarios(tier, seed):
    T = tier == "thorough"
    s4, s5 = [110., 100., 120., 130.], [110., 100., 120., 130., 140.]
    K = ('best', 'lose', 'none')
    S = []
    for N in (1, 2, 3):
        S.append(("evolution, {} callbacks".format(N), evolve, {'sses': s4 if N > 1 else s5, 'N': N, 'gens': 1, 'kinds': K},
                  {'bound': 4+T if N == 1 else 3+T}))
    S.append(("evolution 2", evolve, {'sses': s4, 'N': 1, 'gens': 2, 'kinds': K}, {'bound': 3+T}))
    S.append(("evolution at once", evolve, {'sses': s5, 'N': 2, 'gens': 2, 'kinds': K, 'atonce': True}, {'bound': 3+T}))
    for par in (1, 2, 4):
        S.append(("setup, {} parallel".format(par), setup, {'parallel': par, 'N': 1 + par//2, 'kinds': K}, {'bound': 3+T}))
    S.append(("evolution, handler", evolve, {'sses': s4, 'N': 2, 'gens': 1, 'kinds': K, 'complaints': True}, {'bound': 3}))
    S.append(("setup, handler", setup, {'parallel': 2, 'N': 1, 'kinds': K, 'complaints': True}, {'bound': 3}))
    E = tuple(sorted(ERRORS))
    S.append(("evolution, exceptions", evolve, {'sses': s4, 'N': 2, 'gens': 1, 'kinds': K, 'errors': E}, {'bound': 2}))
    S.append(("setup, exceptions", setup, {'parallel': 2, 'N': 1, 'kinds': K, 'errors': E}, {'bound': 2}))
    return S
