"""
C01: asynchronous evolution computes exactly what one-at-a-time evolution
would.
"""

import itertools
import numpy as np
from .world import *

BOUNDS = {
    "quick": "Np=5 (1 and 2 generations) and Np=6 (1 generation, at most 3 donor "
    "choices or completions off the default), 3 parameters, CR=0, fixed F; every "
    "donor set, every completion order, every win/lose outcome; evaluations held "
    "or answered immediately; best and random base",
    "thorough": "as quick with more generations, Np=6 and 7 with larger deviation bounds",
}
ASSUMPTIONS = [
    "evaluations are the only source of asynchrony; the harness decides when each fires",
    "donor sets are enumerated at random.sample; order of the two donors is fixed",
]
MUST_COVER = ("trial used an updated donor", "two evaluations pending")

F = 0.7


def ref_limit(x, lo, hi):
    """
    Reference for one coordinate: inside stays, reflected if that is inside.
    Returns the value, or None if unspecified (but within bounds).
    """
    if x < lo:
        x = 2*lo - x
        return x if x <= hi else None
    if x > hi:
        x = 2*hi - x
        return x if x >= lo else None
    return x


class Serial(object):
    """
    The one-at-a-time reference: versions[k][m] is the member at position k
    after m contests.
    """
    def __init__(self, ctx, p, lo, hi, bestBase):
        self.ctx = ctx
        self.N = len(p)
        self.lo, self.hi = lo, hi
        self.bestBase = bestBase
        self.versions = [[m] for m in members(p)]
        self.trials = [[] for k in range(self.N)]

    def argmin(self, mm):
        return min(range(self.N), key=lambda k: mm[k][1])

    def explain(self, v):
        """
        Finds which contest the trial vector v belongs to and whether it was
        made from what one-at-a-time evolution would have.
        """
        result = []
        for kt in range(self.N):
            m = len(self.trials[kt])
            if len(self.versions[kt]) <= m: continue
            t = self.versions[kt][m][0]
            for j in range(3):
                if all(v[i] == t[i] for i in range(3) if i != j):
                    result.append((kt, m, j))
        return result

    def allowed(self, k, kt, m):
        """
        The version of position k that contest m of position kt must use, or
        None if not decided yet.
        """
        need = m+1 if k < kt else m
        vs = self.versions[k]
        return vs[need] if len(vs) > need else None

    def matches(self, v, kt, m, j, version):
        """
        Yields (kb, k0, k1) that make the mutated coordinate.
        """
        lo, hi = self.lo, self.hi
        others = [k for k in range(self.N) if k != kt]
        have = {k: version(k) for k in others}
        for kb, k0, k1 in itertools.permutations(others, 3):
            b, a0, a1 = have[kb], have[k0], have[k1]
            if b is None or a0 is None or a1 is None: continue
            x = ref_limit(b[0][j] + F*(a0[0][j] - a1[0][j]), lo, hi)
            if x is None or abs(x - v[j]) <= 1e-9*(1+abs(x)):
                yield kb, k0, k1

    def trial(self, v):
        ctx = self.ctx
        where = self.explain(v)
        if not where:
            ctx.fail(
                "Trial {} is not made for any position's current member", v)
        for kt, m, j in where:
            if self.right(v, kt, m, j):
                self.trials[kt].append(v)
                return kt, m
        kt, m, j = where[0]
        for kb, k0, k1 in self.matches(
                v, kt, m, j, lambda k: self.versions[k][-1]):
            ctx.fail(
                "Trial {} for position {} (contest {}) was made from "
                "positions base={}, {}, {} in versions that one-at-a-time "
                "evolution would not have used (contests decided so far: {})",
                v, kt, m, kb, k0, k1, [len(x)-1 for x in self.versions])
        ctx.fail(
            "Trial {} for position {} (contest {}) is not what "
            "one-at-a-time evolution would produce (contests decided so far: {})",
            v, kt, m, [len(x)-1 for x in self.versions])

    def right(self, v, kt, m, j):
        for kb, k0, k1 in self.matches(
                v, kt, m, j, lambda k: self.allowed(k, kt, m)):
            if self.bestBase:
                start = [self.versions[k][m] if len(self.versions[k]) > m
                         else (None, float('inf')) for k in range(self.N)]
                now = [vs[-1] for vs in self.versions]
                bests = {self.argmin(start), self.argmin(now)}
                if kt not in bests and kb not in bests: continue
            if any(k < kt and self.versions[k][m+1] is not self.versions[k][m]
                   for k in (kb, k0, k1)):
                self.ctx.mark("trial used an updated donor")
            return True
        return False

    def decide(self, kt, m, SSE):
        if len(self.versions[kt]) != m+1:
            self.ctx.fail("Contests of position {} out of order", kt)
        old = self.versions[kt][m]
        v = tuple(self.trials[kt][m])
        self.versions[kt].append((v, SSE) if SSE < old[1] else old)

    def final(self):
        return [vs[-1] for vs in self.versions]


def run(ctx):
    q = ctx.params
    w = World(ctx)
    N = q['N']
    p, ev = make_pop(w, [10.0 + k for k in q.get('order', range(N))], Nd=3)
    bestBase = not q.get('randomBase', False)
    ref = Serial(ctx, p, -10.0, 10.0, bestBase)
    de = DifferentialEvolution(
        p, logHandle=None, CR=0.0, F=F, maxiter=q['gens'], adaptive=False,
        randomBase=q.get('randomBase', False), bitterEnd=True)
    counter = [0]
    def outcome(kt, m):
        old = ref.versions[kt][m][1]
        kinds = q['outcomes']
        kind = ctx.pick(kinds, "outcome of contest", cost=q.get('outcost', 0))
        counter[0] += 1
        if kind == 'win': return old - 0.25 - 0.001*counter[0]
        if kind == 'best':
            return min(x[-1][1] for x in ref.versions) - 0.1
        return old + 1.0 + 0.001*counter[0]
    tags = {}
    def policy(c):
        if c.values is None: ctx.fail("Evaluation called with None during a run")
        kt, m = ref.trial(tuple(float(x) for x in c.values))
        tags[c.n] = (kt, m)
        ctx.log("evaluate", kt, m)
        if q.get('mixed') and ctx.choose(2, "answer immediately", cost=q.get('outcost', 0)):
            SSE = outcome(kt, m)
            ref.decide(kt, m, SSE)
            ctx.log("immediate", kt, m, SSE)
            return SSE
        return Evaluator.HOLD
    ev.policy = policy
    if q['donors'] == 'sets': w.enumerate_draws('sets', cost=q.get('cost', 0))
    elif q['donors'] == 'all': w.enumerate_draws('sets', 'below')
    f = Fired(de())
    w.pump()
    while ev.pending:
        if len(ev.pending) > 1: ctx.mark("two evaluations pending")
        ctx.state([tags[c.n] for c in ev.pending], [
            len(x) for x in ref.versions], ref.final())
        c = ev.pending[ctx.choose(
            len(ev.pending), "which evaluation finishes", cost=q.get('schedcost', 0))]
        kt, m = tags[c.n]
        SSE = outcome(kt, m)
        # The reference decides first because the code reacts right away
        ref.decide(kt, m, SSE)
        ctx.log("finish", kt, m, SSE)
        ev.finish(c, SSE)
        w.pump()
        now = members(p)
        for k in range(N):
            if now[k] != ref.versions[k][-1]:
                ctx.fail("Position {} holds {} instead of {}", k, now[k], ref.versions[k][-1])
    w.pump()
    if not f: ctx.fail("The run did not finish although every evaluation did")
    if f.failure: ctx.fail("The run failed: {}", f.failure)
    if members(p) != ref.final():
        ctx.fail("Final members {} differ from those of one-at-a-time evolution {}",
                 members(p), ref.final())
    for k in range(N):
        if len(ref.trials[k]) != q['gens']:
            ctx.fail("Position {} was contested {} times in {} generations",
                     k, len(ref.trials[k]), q['gens'])
    ctx.state("end", ref.final())
    ctx.log("members", ref.final())


def scenarios(tier, seed):
    S = []
    T = tier == "thorough"
    def add(name, **q):
        bound = q.pop('bound', None)
        S.append((name, run, q, {'split': True, 'bound': bound}))
    wl = ('win', 'lose')
    orders = ((0,1,2,3,4), (4,3,2,1,0), (3,1,0,2,4))
    for order in itertools.permutations(range(5)) if T else orders:
        add("N=5, one generation, all win, ranks {}".format(order),
            N=5, gens=1, donors='sets', order=order, outcomes=('win',))
    add("N=5, one generation, win or lose",
        N=5, gens=1, donors='sets', outcomes=wl, order=(2,1,0,3,4))
    add("N=5, one generation, some answered immediately",
        N=5, gens=1, donors='sets', outcomes=wl, order=(1,0,2,3,4), mixed=True,
        cost=1, outcost=1, schedcost=1, bound=6 if T else 4)
    add("N=5, random base",
        N=5, gens=1, donors='sets', outcomes=('win',), order=(1,0,2,3,4),
        randomBase=True, cost=1, bound=6 if T else 4)
    add("N=5, biased base",
        N=5, gens=1, donors='sets', outcomes=('win',), order=(1,0,2,3,4),
        randomBase=0.5, cost=1, bound=6 if T else 3)
    add("N=5, two generations",
        N=5, gens=2, donors='sets', outcomes=('win', 'best', 'lose'),
        order=(2,1,0,3,4), cost=1, outcost=1, schedcost=1, bound=5 if T else 2)
    add("N=6, one generation",
        N=6, gens=1, donors='sets', outcomes=wl, order=(5,1,2,3,4,0),
        cost=1, outcost=1, schedcost=1, bound=6 if T else 4)
    add("N=7, one generation",
        N=7, gens=1, donors='sets', outcomes=wl, order=(5,1,2,3,4,0,6),
        cost=1, outcost=1, schedcost=1, bound=5 if T else 2)
    add("N=6, three generations",
        N=6, gens=3, donors='sets', outcomes=('win', 'best', 'lose'),
        order=(5,1,2,3,4,0), cost=1, outcost=1, schedcost=1, bound=3 if T else 2)
    return S
