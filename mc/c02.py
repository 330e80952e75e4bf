"""
C02: a member is only ever displaced by a strictly better trial for its own
position.
"""

from .drive import *

BOUNDS = {
    "quick": "Np=4: all assignments of 10 result kinds to one generation's trials, for ordinary, "
    "partly invalid, entirely unevaluated and tied initial members; Np=5: all completion orders "
    "x 5 kinds; 2-3 generations with at most 3 non-default results or completions",
    "thorough": "as quick with larger deviation bounds and more kinds under all orders",
}
ASSUMPTIONS = ["which position a trial is made for is decoded from its coordinates (CR=0)"]
MUST_COVER = ("replaced", "kept on tie", "kept on nan", "invalid member displaced")
Nd = 3


def run(ctx):
    q = ctx.params
    w = World(ctx)
    N = q['N']
    if q.get('blank'):
        ev = Evaluator()
        class P(Pop): Np_min = N
        p = P(ev, NAMES[:Nd], [(-10.0, 10.0)]*Nd)
        f = Fired(p.setup(uniform=True, blank=True))
        w.pump()
        if not f or f.result is not True: ctx.fail("Blank setup did not complete")
    else:
        p, ev = make_pop(w, q['sses'], Nd=Nd)
        for k in q.get('blacklist', ()): p[k].blacklist()
    start = members(p)
    kinds = Kinds()
    de = DifferentialEvolution(
        p, logHandle=None, CR=0.0, F=0.7, maxiter=q['gens'], adaptive=False,
        randomBase=q.get('randomBase', False), xSSE=q.get('xSSE', False))
    f = Fired(de())
    w.pump()
    steps = 0
    ref = start
    while ev.pending:
        steps += 1
        if steps > 10*N*q['gens']: ctx.fail("More evaluations than contests")
        before = members(p)
        if repr(before) != repr(ref):
            ctx.fail("Members changed from {} to {} without a result having arrived", ref, before)
        best0 = min(m[1] for m in before)
        c = ev.pending[ctx.choose(len(ev.pending), "which evaluation finishes", cost=q.get('schedcost', 0))]
        if c.values is None: ctx.fail("Evaluation called with None during a run")
        who = owners(p, c.values, Nd)
        if len(who) != 1:
            # Not ours to judge
            raise Prune("Trial {} belongs to positions {}".format(c.values, who))
        kt = who[0]
        old = before[kt][1]
        kind = ctx.pick(q['kinds'], "result", cost=q.get('outcost', 0))
        x = kinds(kind, eff(old), best0)
        ctx.log("finish", kt, kind, x)
        obj = [p[k] for k in range(N)]
        ev.finish(c, x)
        w.pump()
        after = members(p)
        for k in range(N):
            if k != kt and not (p[k] is obj[k] or after[k] == before[k]):
                # In case something finished immediately
                ctx.fail("Position {} changed from {} to {} by a result for position {}",
                         k, before[k], after[k], kt)
        new = eff(x)
        won = new < eff(old)
        want = (tuple(float(y) for y in c.values), new)
        if won:
            if after[kt] != want:
                ctx.fail("Position {}: trial with SSE {} did not displace member with {}; holds {}",
                         kt, x, old, after[kt])
            ctx.mark("replaced")
            if eff(old) == INF: ctx.mark("invalid member displaced")
        else:
            if not (p[kt] is obj[kt] or after[kt] == before[kt]):
                ctx.fail("Position {}: member with SSE {} was displaced by trial with result {}",
                         kt, old, x)
            if kind == 'equal' and old < INF: ctx.mark("kept on tie")
            if kind == 'nan': ctx.mark("kept on nan")
        b = p.best()
        best1 = min(eff(m[1]) for m in after)
        if eff(b.SSE) != best1:
            ctx.fail("Best is {} but the lowest SSE is {}", b.SSE, best1)
        if best1 > eff(best0):
            ctx.fail("Best SSE went from {} to {}", best0, best1)
        ref = after
        ctx.state([m[1] for m in after], len(ev.calls), [len(ev.pending)])
    w.pump()
    if not f: ctx.fail("The run did not finish")
    if repr(members(p)) != repr(ref):
        ctx.fail("Members changed from {} to {} at the end of the run", ref, members(p))
    ctx.log("members", members(p))


def scenarios(tier, seed):
    S = []
    T = tier == "thorough"
    def add(name, **q):
        bound = q.pop('bound', None)
        S.append((name, run, q, {'bound': bound}))
    all_ = ('win', 'lose', 'equal', 'nan', 'none', 'inf', 'zero', 'best', 'slight', 'huge')
    some = ('win', 'lose', 'equal', 'nan', 'none')
    add("N=4 all kinds", N=4, gens=1, sses=[10., 11., 12., 13.], kinds=all_ if T else all_[:8])
    add("N=4 bounded, all kinds", N=4, gens=1, sses=[13., 12., 11., 10.],
        kinds=all_+('npnan', 'intzero', 'np32', 'half', 'under', 'over'), outcost=1, bound=4 if T else 2)
    add("N=4 least differences", N=4, gens=1, sses=[10., 1e-300, 1e300, 13.], kinds=('under', 'over', 'equal'))
    add("N=4 ties", N=4, gens=1, sses=[10., 10., 12., 12.], kinds=some+('zero',))
    add("N=4 blacklisted", N=4, gens=1, sses=[10., 11., 12., 13.], blacklist=(0, 2),
        kinds=('win', 'lose', 'nan', 'none', 'inf', 'huge'))
    add("N=4 zero", N=4, gens=1, sses=[0., 0., 12., 1e-300], kinds=some+('zero',))
    add("N=4 blank", N=4, gens=2, blank=True, kinds=('win', 'none', 'nan'),
        **({} if T else dict(outcost=1, bound=4)))
    add("N=5 orders", N=5, gens=1, sses=[12., 11., 10., 13., 14.], kinds=some)
    add("N=5 orders, random base", N=5, gens=1, sses=[12., 11., 10., 13., 14.],
        kinds=('win', 'lose', 'equal', 'none'), randomBase=True)
    add("N=5 orders, cutoff", N=5, gens=1, sses=[12., 11., 10., 13., 14.],
        kinds=('win', 'lose', 'equal', 'none'), xSSE=True)
    add("N=5 two generations", N=5, gens=2, sses=[12., 11., 10., 13., 14.],
        kinds=some+('best', 'zero', 'huge'), outcost=1, schedcost=1, bound=4 if T else 3)
    add("N=8", N=8, gens=1, sses=[12., 11., 10., 13., 14., 17., 16., 15.],
        kinds=some+('best',), outcost=1, schedcost=1, bound=5 if T else 3)
    add("N=4 four generations", N=4, gens=4, sses=[12., 11., 10., 13.],
        kinds=('win',)+some[1:]+('best',), outcost=1, schedcost=1, bound=4 if T else 2)
    return S
