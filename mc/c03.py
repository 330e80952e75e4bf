"""
C03: every evolution run completes, whatever order evaluations finish in.
"""

import contextlib, io
from .drive import *

BOUNDS = {
    "quick": "Np=4..6, 1-3 generations then a second run; all completion orders x result kinds "
    "(Np=5, one generation), full/tiny history rosters, constraint verdicts and slow report "
    "callbacks as decisions, at most 2-4 non-default decisions for longer runs; shutdown at any "
    "step followed by another run",
    "thorough": "as quick with larger deviation bounds",
}
ASSUMPTIONS = ["every evaluation and report callback eventually finishes"]
MUST_COVER = ("overlapping evaluations", "slow report", "constraint failed", "second run", "full history",
              "run after shutdown")
Nd = 3


def run(ctx):
    q = ctx.params
    w = World(ctx)
    N = q['N']
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        go(ctx, q, w, N, out)


def go(ctx, q, w, N, out):
    p, ev = make_pop(w, q['sses'], Nd=Nd, N_max=q.get('N_max'))
    kinds = Kinds()
    reports = []
    if q.get('slow'):
        def callback(values, counter, SSE):
            d = defer.Deferred()
            reports.append(d)
            ctx.mark("slow report")
            return d
        p.addCallback(callback)
    rejected = [0]
    if q.get('constraint'):
        def constraint(params):
            ok = not ctx.guard(ctx.choose, 2, "constraint verdict", q['constraint'])
            if not ok:
                rejected[0] += 1
                ctx.mark("constraint failed")
            return ok
        p.setConstraints(constraint)
    if q.get('N_max') and len(p.history) == q['N_max']: ctx.mark("full history")

    def one(n, gens, explored, shut=False):
        del ev.calls[:]
        rejected[0] = 0
        called = []
        handle = io.StringIO()
        de = DifferentialEvolution(
            p, logHandle=handle, CR=q.get('CR', 0.0), F=0.7, maxiter=gens, adaptive=False,
            randomBase=q.get('randomBase', False), xSSE=q.get('xSSE', False))
        f = Fired(de(called.append))
        w.pump()
        steps = 0
        down = False
        while ev.pending or reports:
            steps += 1
            if steps > 100*N*gens: ctx.fail("Run does not come to an end")
            if len(ev.pending) > 1: ctx.mark("overlapping evaluations")
            things = list(ev.pending) + list(reports)
            if shut and not down and explored and ctx.choose(2, "shut down now"):
                de.shutdown()
                down = True
                w.pump()
                continue
            thing = things[ctx.choose(len(things), "which finishes", q.get('schedcost', 0)) if explored else 0]
            if thing in reports:
                reports.remove(thing)
                ctx.log("report done")
                thing.callback(None)
                w.pump()
                continue
            SSEs = [eff(m[1]) for m in members(p)]
            who = owners(p, thing.values, Nd) if thing.values is not None else []
            t = SSEs[who[0]] if who else max(SSEs)
            kind = ctx.pick(q['kinds'], "result", q.get('outcost', 0)) if explored else q['kinds'][0]
            x = kinds(kind, t, min(SSEs))
            ctx.log("finish", who, kind)
            ev.finish(thing, x)
            w.pump()
            ctx.state(n, [m[1] for m in members(p)], len(ev.calls), len(ev.pending), len(reports))
        w.pump()
        if not f: ctx.fail("Run {} never finishes although every evaluation did", n)
        if f.count != 1 or f.failure or f.result is not p:
            ctx.fail("Run {} finished {} times, with {}", n, f.count, f.failure or f.result)
        if not down:
            if called != list(range(gens)):
                ctx.fail("Run {} of {} generations called its callback with {}", n, gens, called)
            if len(ev.calls) + rejected[0] != gens*N:
                ctx.fail("Run {}: {} evaluations and {} constraint failures for {} contests",
                         n, len(ev.calls), rejected[0], gens*N)
        errors = w.flush_errors()
        if errors: ctx.fail("Run {} logged an error: {}", n, errors[0].getTraceback())
        if "Traceback" in handle.getvalue():
            ctx.fail("Run {} logged an error: {}", n, handle.getvalue()[-2000:])
        if "Traceback" in out.getvalue():
            ctx.fail("Run {} printed an error: {}", n, out.getvalue()[-2000:])
        return down

    down = one(1, q['gens'], True, q.get('shut'))
    one(2, 1, q.get('explore2', False))
    ctx.mark("second run")
    if down: ctx.mark("run after shutdown")
    if len(p) != N: ctx.fail("Population has {} members now", len(p))


def scenarios(tier, seed):
    S = []
    T = tier == "thorough"
    def add(name, **q):
        bound = q.pop('bound', None)
        S.append((name, run, q, {'bound': bound}))
    s5 = [12., 11., 10., 13., 14.]
    B = 4 if T else 3
    add("N=5 orders", N=5, gens=1, sses=s5, kinds=('win', 'lose', 'none', 'huge') if T else ('win', 'lose', 'none'))
    add("N=5 random base", N=5, gens=1, sses=s5, kinds=('win', 'lose'), randomBase=True)
    add("N=5 biased base", N=5, gens=1, sses=s5, kinds=('win', 'lose'), randomBase=0.5)
    add("N=5 cutoff", N=5, gens=1, sses=s5, kinds=('best', 'lose'), xSSE=True)
    for N_max in (1, 2, 4, 5, 6):
        add("N=5 history {}".format(N_max), N=5, gens=1, sses=s5, N_max=N_max, kinds=('win', 'lose'))
        add("N=5 history {}, longer".format(N_max), N=5, gens=3, sses=s5, N_max=N_max,
            kinds=('lose', 'win', 'best', 'none', 'nan', 'huge', 'zero', 'equal'),
            outcost=1, schedcost=1, bound=B-1)
    add("N=5 slow reports", N=5, gens=1, sses=s5, kinds=('best', 'lose'), slow=True, schedcost=1, bound=B+1)
    add("N=5 slow reports, longer", N=5, gens=2, sses=s5, kinds=('lose', 'best', 'win'), slow=True,
        outcost=1, schedcost=1, bound=B)
    add("N=4 constraint", N=4, gens=1, sses=s5[:4], kinds=('win', 'lose'), constraint=1, bound=8)
    add("N=5 constraint", N=5, gens=2, sses=s5, kinds=('win', 'lose', 'none'), constraint=1,
        outcost=1, schedcost=1, bound=B)
    add("N=8 three generations", N=8, gens=3, sses=s5+[15., 16., 17.], CR=0.5,
        kinds=('lose', 'win', 'best', 'none', 'huge'), outcost=1, schedcost=1, bound=B-1)
    add("N=5 shut down", N=5, gens=2, sses=s5, kinds=('lose', 'win'), shut=True,
        outcost=1, schedcost=1, bound=B-1, explore2=True)
    add("N=5 shut down with slow reports", N=5, gens=1, sses=s5, kinds=('best', 'lose'), slow=True,
        shut=True, outcost=1, schedcost=1, bound=B)
    return S
