"""
C10: setup yields exactly the requested population, with limited parallelism.
"""

from .drive import *

BOUNDS = {
    "quick": "Np 4..6 x at most 1..4, 12 evaluations in parallel, uniform and Latin hypercube: every completion "
    "order x up to 3 results of the kinds {None, inf, NaN, zero, huge, tied}, answered late or immediately; "
    "setup repeated 1-2 times, with blank individuals or not",
    "thorough": "as quick with one more non-default result",
}
ASSUMPTIONS = ["valid results keep arriving eventually"]
MUST_COVER = ("invalid result", "limit reached", "set up again", "blank", "blank again")
Nd = 2
INVALID = ('none', 'inf', 'nan', 'npnan')


def run(ctx):
    q = ctx.params
    w = World(ctx)
    N = q['N']
    ev = Evaluator()
    kinds = Kinds()
    class P(Pop):
        Np_min = q.get('Np_min', N)
        N_maxParallel = q['parallel']
    p = P(ev, NAMES[:Nd], [(-10.0, 10.0)]*Nd, **q.get('kw', {}))
    if p.Np != N: ctx.fail("Population size is {} instead of {}", p.Np, N)
    results = {}
    valid = []
    def outcome(c):
        k = ctx.pick(('good', 'zero', 'huge', 'tie') + INVALID, "result", 1)
        if k == 'good': x = 10.0 + 0.5*((c.n*7) % 11)
        elif k == 'tie': x = 10.0
        else: x = kinds(k, 10.0, 10.0)
        if k in INVALID: ctx.mark("invalid result")
        else: valid.append(tuple(c.values))
        results[tuple(c.values)] = x
        ctx.log("result", c.n, k)
        return x
    def policy(c):
        if c.values is None: ctx.fail("Evaluated with None")
        if c.kw: ctx.fail("Evaluated with {}", c.kw)
        if tuple(c.values) in results: ctx.fail("Vector {} evaluated twice", c.values)
        if len(ev.pending) + 1 > q['parallel']:
            ctx.fail("{} evaluations at once with a limit of {}", len(ev.pending)+1, q['parallel'])
        if len(ev.pending) + 1 == q['parallel']: ctx.mark("limit reached")
        if q.get('mixed') and ctx.choose(2, "immediate", 1): return outcome(c)
        return ev.HOLD
    ev.policy = policy
    for again in range(q['times']):
        if again: ctx.mark("set up again")
        results.clear()
        valid[:] = []
        old = members(p)
        f = Fired(p.setup(uniform=q.get('uniform', True)))
        w.pump()
        steps = 0
        while ev.pending:
            steps += 1
            if steps > 20*N: ctx.fail("Setup goes on for {} evaluations", steps)
            c = ev.pending[ctx.choose(len(ev.pending), "which finishes", q.get('schedcost', 0))]
            x = outcome(c)
            ev.finish(c, x)
            w.pump()
            if f and len(p) != N: ctx.fail("Setup done with {} members", len(p))
            ctx.state(again, len(p), len(ev.calls), len(ev.pending))
        w.pump()
        if not f: ctx.fail("Setup never ends")
        if f.count != 1 or f.failure or f.result is not True:
            ctx.fail("Setup ended with {} {}", f.failure, f.result)
        M = members(p)
        if len(M) != N or len(p) != N: ctx.fail("There are {} members instead of {}", len(M), N)
        if len(set(m[0] for m in M)) != N: ctx.fail("Members are not different: {}", M)
        for v, SSE in M:
            if v not in results: ctx.fail("Member {} was never evaluated in this setup", v)
            if not (0 <= SSE < INF): ctx.fail("Member {} has SSE {}", v, SSE)
            if SSE != results[v]: ctx.fail("Member {} has SSE {}, not {}", v, SSE, results[v])
        for v in valid[:N]:
            if v not in [m[0] for m in M]:
                ctx.fail("{} with its valid SSE {} was not used", v, results[v])
        # Clean slate
        H = hist_records(p.history)
        f4 = sorted((float(np.float32(s)), tuple(float(np.float32(x)) for x in v))
                    for v, s in M if np.isfinite(np.float32(s)))
        got = sorted((s, v) for s, v, cat in H if cat == 'in')
        if got != f4: ctx.fail("History has as members {} instead of {}", got, f4)
        if any((s, v) not in f4 for s, v, cat in H):
            # Only things evaluated in this setup may be there
            for s, v, cat in H:
                if v not in [tuple(float(np.float32(x)) for x in r) for r in results]:
                    ctx.fail("History still has {}", (s, v, cat))
        if float(p.best().SSE) != min(m[1] for m in M): ctx.fail("Best is {}", p.best().SSE)


def blank(ctx):
    """
    A blank population has the right size but no evaluations, whatever it was
    before.
    """
    w = World(ctx)
    ev = Evaluator(lambda c: 10.0 + c.n)
    N = ctx.pick((4, 5, 9), "N")
    class P(Pop):
        Np_min = N
    p = P(ev, NAMES[:Nd], [(-10.0, 10.0)]*Nd)
    uniform = ctx.pick((True, False), "uniform")
    seen = set()
    for again in range(ctx.pick((1, 2, 3), "times")):
        want = ctx.pick((True, False), "blank")
        ev.calls[:] = []
        f = Fired(p.setup(uniform=uniform, blank=want))
        w.pump()
        if not f or f.result is not True: ctx.fail("Blank setup gave {}", f.result)
        if len(p) != N: ctx.fail("{} members instead of {}", len(p), N)
        for i in p:
            if tuple(i.values) in seen: ctx.fail("Old member after setting up again")
            seen.add(tuple(i.values))
        if want:
            if ev.calls: ctx.fail("Evaluations for blank setup")
            if any(m[1] != INF for m in members(p)): ctx.fail("SSEs in blank population")
            ctx.mark("blank again" if again else "blank")
        elif len(ev.calls) != N or any(m[1] == INF for m in members(p)): ctx.fail("Not evaluated")
        if len(p.history) != (0 if want else N): ctx.fail("History of {}", len(p.history))
    ctx.state(N, uniform, len(seen), [m[1] for m in members(p)])


def size(ctx):
    """
    Size from the number of parameters.
    """
    w = World(ctx)
    n = ctx.pick((1, 2, 3, 5), "parameters")
    popsize = ctx.pick((None, 1, 3, 10, 200), "popsize")
    cls = ctx.pick((Population, Pop), "class")
    ev = Evaluator(lambda c: 1.0 + c.n)
    p = cls(ev, NAMES[:n], [(0.0, 1.0)]*n, popsize=popsize)
    want = max(cls.Np_min, min((popsize or cls.popsize)*n, cls.Np_max))
    if p.Np != want: ctx.fail("Size {} instead of {}", p.Np, want)
    if want < 60:
        f = Fired(p.setup(uniform=True))
        w.pump()
        if f.result is not True or len(p) != want: ctx.fail("{} members, not {}", len(p), want)
        if len(ev.calls) != want: ctx.fail("{} evaluations for {} members", len(ev.calls), want)
    ctx.log(want)


def scenarios(tier, seed):
    T = tier == "thorough"
    X = 1 if T else 0
    S = []
    def add(name, bound, **q):
        S.append((name, run, q, {'bound': bound}))
    for par in (1, 2, 3, 4):
        add("N=4, {} parallel".format(par), (3 if par < 2 else 2 if par < 3 else 1) + X, N=4, parallel=par, times=1)
    add("N=4, 2 parallel, latin", 2+X, N=4, parallel=2, times=1, uniform=False)
    add("N=5, 12 parallel", 2+X, N=5, parallel=12, times=1, schedcost=1)
    add("N=5, 3 parallel", 1+X, N=5, parallel=3, times=1, schedcost=0)
    add("N=6, 4 parallel", 3+X, N=6, parallel=4, times=1, schedcost=1)
    add("N=4, mixed", 3+X, N=4, parallel=2, times=1, mixed=True, schedcost=1)
    add("N=4, twice", 3+X, N=4, parallel=2, times=2, schedcost=1)
    add("N=4, thrice", 2+X, N=4, parallel=3, times=3, schedcost=1)
    S.append(("blank", blank, {}, {}))
    S.append(("size", size, {}, {}))
    return S
