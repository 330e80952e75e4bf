"""
C16: the history knows exactly who is in the population.
"""

import os, shutil, tempfile
from .drive import *

BOUNDS = {
    "quick": "populations of 4 with a history of 2, 3, 4, 5, 6 or 1500 records: all sequences of 3 operations out of 17 (members replaced "
    "by new, equal, equal-valued, invalid and too-big ones, pushed, blacklisted before and after; rejected trials recorded; "
    "setup again, save and load, load with narrower bounds), with up to 2 not awaited; evolutions of 4-5 members and up to 2 "
    "generations with all results and completion orders up to 3 non-default decisions, incl. complaints about reported individuals",
    "thorough": "sequences of 4 operations with one not awaited; one more non-default decision",
}
ASSUMPTIONS = ["with a history smaller than the population, only that no others are marked as members"]
MUST_COVER = ("duplicate members", "blacklisted member", "invalid member", "reloaded", "reloaded with bounds", "full of members",
              "smaller than population", "bumped", "former", "never", "complained", "evolved", "late complaint")
Nd = 2


class PPop(Pop):
    """
    Can be pickled.
    """


def f4(x):
    with np.errstate(over='ignore'): return float(np.float32(x))


def record(i):
    return tuple(f4(x) for x in [float(i.SSE)] + list(i.values))


def ok(rec):
    return all(np.isfinite(rec))


class Watch(object):
    def __init__(self, ctx, p, N_max):
        self.ctx, self.p, self.N_max = ctx, p, N_max
        self.ever = set()
        self.tried = set()

    def see(self):
        """
        Call whenever members may have changed.
        """
        for i in self.p:
            r = record(i)
            if ok(r): self.ever.add(r)

    def idle(self):
        ctx, p = self.ctx, self.p
        self.see()
        h = p.history
        rows = [((r[0],) + r[1], r[2]) for r in hist_records(h)]
        want = sorted(r for r in (record(i) for i in p) if ok(r))
        if len(want) < len(p): ctx.mark("invalid member")
        if len(set(want)) < len(want): ctx.mark("duplicate members")
        have = sorted(r for r, cat in rows if cat == 'in')
        if self.N_max >= len(p):
            if have != want: ctx.fail("Members are {} but the history says {}", want, have)
        else:
            ctx.mark("smaller than population")
            left = list(want)
            for r in have:
                if r not in left: ctx.fail("{} is marked as member, but they are {}", r, want)
                left.remove(r)
        if len(want) == self.N_max: ctx.mark("full of members")
        if len(h) > self.N_max: ctx.fail("Too many records")
        for r, cat in rows:
            if cat == 'former':
                ctx.mark("former")
                if r not in self.ever: ctx.fail("{} marked as former member", r)
            elif cat == 'never':
                ctx.mark("never")
                if r not in self.tried: ctx.fail("{} marked as rejected trial", r)
        if len(h) < len(self.ever | self.tried) and len(h) == self.N_max: ctx.mark("bumped")
        K = [int(k) for k in h.K]
        both = set(K) & set(int(k) for k in h.Kp) & set(int(k) for k in h.Kn)
        if both: ctx.fail("Rows {} are of members as well as of rejected trials", both)
        if not set(int(k) for k in h.Kp) <= set(K): ctx.fail("Ghost members {} vs {}", h.Kp, K)
        ctx.state(rows)


OPS = [('replace', k, x) for k in (0, 3) for x in ('new', 'same', 'values', 'twin')] + [
    ('replace', 0, x) for x in ('inf', 'huge', 'itself')] + [
    ('push',), ('blacklist', 0), ('blacklist', 'best'), ('never',), ('never', 'twin'), ('setup',), ('reload',),
    ('bounds',), ('blacklist stranger',)]


def small(p, N_max):
    p.history = History(NAMES[:Nd], N_max=N_max)


def ops(ctx):
    q = ctx.params
    w = World(ctx)
    n = [0]
    def func(values):
        n[0] += 1
        return 20.0 + (n[0]*5) % 7 + 0.01*n[0]
    N_max = ctx.pick(q['N_max'], "limit")
    p = PPop(func, NAMES[:Nd], [(-10.0, 10.0)]*Nd)
    small(p, N_max)
    Fired(p.setup(uniform=True)); w.pump()
    watch = Watch(ctx, p, N_max)
    watch.idle()
    def new(x, k):
        n[0] += 1
        i = Individual(p, list(np.random.uniform(-9, 9, 2)))
        i.SSE = 15.0 + 0.3*n[0]
        if x == 'inf': i.SSE = INF
        elif x == 'huge': i.SSE = 1E50
        elif x == 'same': i = p[(k+1) % 4].copy()
        elif x == 'twin': i = p[k].copy()
        elif x == 'itself': i = p[k]
        elif x == 'values': i = Individual(p, list(p[(k+1) % 4].values)); i.SSE = 10.0 + 0.1*n[0]
        return i
    busy = False
    for step in range(q['length']):
        op = ctx.pick(OPS, "operation")
        ctx.log("op", op)
        watch.see()
        if busy and op[0] in ('setup', 'reload', 'bounds'):
            w.pump(); watch.idle()
            busy = False
        if op[0] == 'replace': p[op[1]] = new(op[2], op[1])
        elif op[0] == 'push': p.push(new('new', None))
        elif op[0] == 'blacklist':
            (p.best() if op[1] == 'best' else p[op[1]]).blacklist()
            ctx.mark("blacklisted member")
        elif op[0] == 'blacklist stranger':
            i = p[0].copy()
            i.blacklist()
        elif op[0] == 'never':
            i = p[2].copy() if len(op) > 1 else new('new', None)
            if ok(record(i)): watch.tried.add(record(i))
            p.history.add(i, neverInPop=True)
        elif op[0] == 'setup':
            f = Fired(p.setup(uniform=True))
            watch.ever.clear(); watch.tried.clear()
            w.pump()
            if f.result is not True: ctx.fail("Setup again failed")
        elif op[0] in ('reload', 'bounds'):
            path = tempfile.mkdtemp(prefix="mc")
            kw = {'bounds': [(-4.0, 4.0)]*Nd} if op[0] == 'bounds' else {}
            try:
                p.save(os.path.join(path, "p.dat"))
                watch.p = p = PPop.load(os.path.join(path, "p.dat"), func=func, **kw)
            finally: shutil.rmtree(path)
            ctx.mark("reloaded with bounds" if kw else "reloaded")
        watch.see()
        if step < q['length']-1 and ctx.choose(2, "not awaited", 1):
            busy = True
            continue
        w.pump()
        busy = False
        watch.idle()


def evolving(ctx):
    q = ctx.params
    w = World(ctx)
    N = len(q['sses'])
    N_max = ctx.pick(q['N_max'], "limit")
    complaints = []
    p, ev = make_pop(w, q['sses'], Nd=Nd, N_max=N_max, complaintCallback=lambda i, x: complaints.append(i))
    kinds = Kinds()
    watch = Watch(ctx, p, N_max)
    reports = []
    def callback(values, counter, SSE):
        watch.see()
        if not q.get('complain'): return
        x = ctx.choose(3, "complaint", 1)
        if x == 1:
            ctx.mark("complained")
            return "No good"
        if x == 2:
            d = defer.Deferred()
            reports.append(d)
            return d
    p.addCallback(lambda *args: ctx.guard(callback, *args))
    watch.see()
    de = DifferentialEvolution(p, logHandle=None, CR=q['CR'], F=0.7, maxiter=q['gens'], adaptive=False)
    f = Fired(de())
    w.pump()
    while (ev.pending or reports) and not ctx.sticky:
        things = ev.pending + reports
        c = things[ctx.choose(len(things), "what next", 1)]
        watch.see()
        if c in reports:
            reports.remove(c)
            ctx.mark("late complaint")
            c.callback("No good")
        else:
            i = Individual(p, list(c.values))
            SSEs = [float(j.SSE) for j in p]
            x = kinds(ctx.pick(q['kinds'], "result", 1), sorted(SSEs)[1], min(SSEs))
            i.SSE = x
            if ok(record(i)): watch.tried.add(record(i))
            ev.finish(c, x)
        watch.see()
        w.pump()
        watch.see()
        if not ctx.sticky: watch.idle()
    if ctx.sticky: return
    if not f: ctx.fail("Evolution blocked with a history of {}", N_max)
    watch.idle()
    ctx.mark("evolved")


def scenarios(tier, seed):
    T = tier == "thorough"
    S = [("operations", ops, {'N_max': (2, 4, 6), 'length': 3}, {'bound': 2}),
         ("operations, big history", ops, {'N_max': (1500,), 'length': 3}, {'bound': 1})]
    K = ('lose', 'win', 'best', 'equal', 'none', 'inf')
    def add(name, bound, **q):
        q.setdefault('CR', 0.8)
        S.append((name, evolving, q, {'bound': bound+T}))
    for gens, sses in ((1, [12., 11., 10., 13., 14.]), (2, [12., 11., 10., 13.])):
        Ns = (len(sses), len(sses)+1, 3)
        add("evolution {}".format(gens), 3, sses=sses, gens=gens, N_max=Ns, kinds=K)
        add("winning evolution {}".format(gens), 3 if gens == 1 else 2, sses=sses, gens=gens, N_max=Ns,
            kinds=('win', 'best', 'lose', 'equal', 'none'))
        add("complaints {}".format(gens), 3, sses=sses, gens=gens, N_max=Ns, kinds=('lose', 'best'), complain=True)
        add("all best, complaints {}".format(gens), 2, sses=sses, gens=gens, N_max=Ns, kinds=('best', 'lose'),
            complain=True, CR=0.3)
    if T: S.append(("operations 4", ops, {'N_max': (4, 6), 'length': 4}, {'bound': 1}))
    return S
