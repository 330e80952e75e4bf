"""
C07: every vector evaluated satisfies all constraints; impossible ones are
given up.
"""

from .drive import *

BOUNDS = {
    "quick": "1-3 constraints (given as list, tuple, single callable or Constraints object), the verdict of each on each new "
    "candidate a decision: setup Np=4 (up to 4-5 rejections; giving up after 3-4 tries at any point; "
    "evaluated or blank; uniform and Latin hypercube), evolution Np=4..5, 1-2 generations, constraints "
    "replaced between generations",
    "thorough": "as quick with one more rejection",
}
ASSUMPTIONS = ["constraints are deterministic functions of the parameters"]
MUST_COVER = ("rejected in setup", "gave up", "rejected in evolution", "second constraint rejected",
              "constraints replaced", "constraints removed", "ready")
Nd = 3
NO = (False, 0, None, np.False_)
YES = (True, 1, np.True_)


class Judge(object):
    """
    Several constraints with enumerated verdicts, consistent for each vector.
    """
    def __init__(self, ctx, N, form, cost=1):
        self.ctx = ctx
        self.cost = cost
        self.verdicts = {}
        self.order = []
        self.era = 0
        self.rejected = 0
        self.set(N)
        self.form = form

    def set(self, N):
        self.N = N
        self.era += 1
        self.funcs = [self.make(k) for k in range(N)]
        self.verdicts.clear()

    def constraints(self):
        if self.form == 'tuple': return tuple(self.funcs)
        if self.form == 'single': return self.funcs[0]
        if self.form in ('object', 'appended'):
            # The functions appended, the first one may be a method instead
            first = self.funcs[0] if self.form == 'object' else None
            class C(ade.constraints.Constraints):
                registry = {'rule': (NAMES[:Nd], None)} if first else {}
                def rule(self, params): return first(params)
            c = C()
            for f in self.funcs[1 if first else 0:]: c.append(f)
            return c
        return list(self.funcs)

    def make(self, k):
        era = self.era
        def constraint(params):
            if era != self.era:
                self.ctx.fail("A constraint was consulted that is no longer set")
            return self.ctx.guard(self.judge, k, params)
        return constraint

    def judge(self, k, params):
        ctx = self.ctx
        if sorted(params) != sorted(NAMES[:Nd]):
            ctx.fail("Constraint got parameters {}", sorted(params))
        v = tuple(float(params[name]) for name in NAMES[:Nd])
        if v not in self.verdicts:
            # Which constraint objects to this vector?
            c = ctx.choose(self.N + 1, "constraint verdict", self.cost)
            self.verdicts[v] = None if c == 0 else c-1
            if c: self.rejected += 1
            if c > 1: ctx.mark("second constraint rejected")
            self.order.append(v)
            ctx.log("verdict", v, c)
        x = self.verdicts[v]
        n = len(self.order)
        return NO[n % len(NO)] if x == k else YES[n % len(YES)]

    def ok(self, v):
        """
        Is it known that all constraints accept v?
        """
        v = tuple(float(x) for x in v)
        if not self.N: return True
        return v in self.verdicts and self.verdicts[v] is None


def setup(ctx):
    q = ctx.params
    w = World(ctx)
    j = Judge(ctx, q['NC'], q['form'])
    ev = Evaluator()
    evaluated = []
    def policy(c):
        if c.values is None: return q.get('none')
        if not j.ok(c.values):
            ctx.fail("Vector {} was evaluated without all constraints accepting it", c.values)
        evaluated.append(tuple(c.values))
        return 10.0 + c.n
    ev.policy = policy
    class P(Pop):
        maxTries = q['tries']
        Np_min = q.get('N', 4)
        N_maxParallel = 2
    if q.get('later'):
        p = P(ev, NAMES[:Nd], [(-10.0, 10.0)]*Nd)
        p.setConstraints(*j.funcs)
    else:
        p = P(ev, NAMES[:Nd], [(-10.0, 10.0)]*Nd, constraints=j.constraints())
    f = Fired(p.setup(uniform=q['uniform'], blank=q.get('blank', False)))
    w.pump()
    if not f: ctx.fail("Setup never ends")
    if f.failure: ctx.fail("Setup failed: {}", f.failure)
    # Were there so many rejections in a row?
    run = longest = 0
    for v in j.order:
        if j.verdicts[v] is None: run = 0
        else:
            ctx.mark("rejected in setup")
            run += 1
            longest = max(longest, run)
    for v, SSE in members(p):
        if not j.ok(v): ctx.fail("Member {} was not accepted by all constraints", v)
    accepted = [v for v in j.order if j.verdicts[v] is None]
    if longest >= q['tries']:
        ctx.mark("gave up")
        if f.result is True: ctx.fail("Setup reports to be ready without conforming individuals")
        if longest > q['tries']: ctx.fail("{} candidates rejected in a row", longest)
    else:
        if f.result is not True: ctx.fail("Setup did not succeed in spite of acceptable candidates")
        if len(p) != p.Np: ctx.fail("There are {} members", len(p))
        ctx.mark("ready")
    if not q.get('blank'):
        if evaluated != accepted:
            ctx.fail("Evaluated {} but acceptable were {}", evaluated, accepted)
    elif [m[0] for m in members(p)] != accepted:
        ctx.fail("Members {} but acceptable were {}", members(p), accepted)
    ctx.state(len(p), len(j.order), [j.verdicts[v] for v in j.order])


def evolve(ctx):
    q = ctx.params
    w = World(ctx)
    j = Judge(ctx, q['NC'], q['form'])
    p, ev = make_pop(w, q['sses'], Nd=Nd)
    N = len(p)
    p.setConstraints(*j.funcs)
    evaluated = [0]
    counts = []
    def policy(c):
        if not j.ok(c.values):
            ctx.fail("Vector {} was evaluated without all constraints accepting it", c.values)
        evaluated[0] += 1
        return ev.HOLD
    ev.policy = policy
    def func(kg):
        counts.append(kg)
        if q.get('replace'):
            # Other constraints from now on
            j.set(q['replace'][kg % len(q['replace'])])
            p.setConstraints(*j.funcs)
            ctx.mark("constraints replaced" if j.N else "constraints removed")
    de = DifferentialEvolution(
        p, logHandle=None, CR=q.get('CR', 0.0), F=0.7, maxiter=q['gens'], adaptive=False)
    f = Fired(de(lambda kg: ctx.guard(func, kg)))
    w.pump()
    kinds = Kinds()
    ref = members(p)
    while ev.pending:
        c = ev.pending[ctx.choose(len(ev.pending), "which finishes", q.get('schedcost', 0))]
        SSEs = [m[1] for m in ref]
        kind = ctx.pick(('best', 'lose'), "result", q.get('outcost', 0))
        x = kinds(kind, max(SSEs), min(SSEs))
        ev.finish(c, x)
        w.pump()
        now = members(p)
        changed = [k for k in range(N) if now[k] != ref[k]]
        if kind == 'best':
            if len(changed) != 1 or now[changed[0]] != (tuple(c.values), x):
                ctx.fail("Accepted best trial {} changed {}", c.values, changed)
        elif changed: ctx.fail("Members {} changed by a losing trial", changed)
        ref = now
        ctx.state([m[1] for m in ref], len(j.order))
    w.pump()
    if not f: ctx.fail("Evolution never ends")
    if members(p) != ref: ctx.fail("Members changed at the end")
    if counts != list(range(q['gens'])): ctx.fail("Generations {}", counts)
    if j.rejected: ctx.mark("rejected in evolution")
    if N*q['gens'] < evaluated[0]: ctx.fail("{} evaluations", evaluated[0])
    # Each contest's trial was either rejected or evaluated (a vector could
    # be tried repeatedly, so there's only this bound)
    if evaluated[0] + j.rejected > N*q['gens']:
        ctx.fail("{} evaluated and {} rejected", evaluated[0], j.rejected)
    if not j.rejected and evaluated[0] != N*q['gens']:
        ctx.fail("Only {} evaluations without any constraint objecting", evaluated[0])


def scenarios(tier, seed):
    T = tier == "thorough"
    S = []
    def add(name, run, bound, **q):
        S.append((name, run, q, {'bound': bound}))
    X = 1 if T else 0
    for NC, form in ((1, 'single'), (1, 'list'), (2, 'tuple'), (3, 'list'), (2, 'object'), (1, 'appended')):
        for uniform in (True, False):
            add("setup, {} {}, uniform={}".format(NC, form, uniform), setup, 5+X if NC == 1 else 4+X if NC == 2 else 3+X,
                NC=NC, form=form, uniform=uniform, tries=3)
    add("setup, giving up with answer to None", setup, 4+X, NC=1, form='list', uniform=True, tries=4, none=1.0)
    add("setup, more", setup, 6+X, NC=2, form='list', uniform=True, tries=2)
    add("setup, later", setup, 4+X, NC=2, form='list', uniform=True, tries=3, later=True)
    add("setup, first try only", setup, 2, NC=2, form='list', uniform=True, tries=1)
    add("setup, blank", setup, 4+X, NC=2, form='list', uniform=True, tries=3, blank=True)
    add("setup, blank latin", setup, 4+X, NC=1, form='list', uniform=False, tries=2, blank=True)
    s5 = [12., 11., 10., 13., 14.]
    add("evolution N=4, constraints object", evolve, 4, NC=2, form='object', sses=s5[:4], gens=1)
    add("evolution N=4", evolve, 4, NC=2, form='list', sses=s5[:4], gens=1)
    add("evolution N=5", evolve, 5, NC=1, form='list', sses=s5, gens=1, schedcost=1)
    add("evolution N=5, 2 generations", evolve, 3+X, NC=2, form='list', sses=s5, gens=2, schedcost=1, outcost=1)
    add("evolution N=5, replaced constraints", evolve, 3+X, NC=1, form='list', sses=s5, gens=3, schedcost=1,
        outcost=1, replace=(2, 3), CR=1.0)
    add("evolution N=4, removed constraints", evolve, 3+X, NC=2, form='list', sses=s5[:4], gens=3, schedcost=1,
        outcost=1, replace=(0, 1), CR=1.0)
    return S
