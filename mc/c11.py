"""
C11: best-member and ranking views always match the members' current SSEs.
"""

import os, shutil, tempfile, itertools
from .drive import *

BOUNDS = {
    "quick": "4 members, all sequences of 3 operations out of 19 (replacing, pushing, blacklisting, setting up "
    "again, clearing, blank setup, save and load) x every subset of query points x 3 kinds of query; setup in "
    "progress: all 24 rank orders of results x completion orders x query points, hardly different, large and small ones in order; evolution with 4 members: all "
    "results x query points, 1-2 generations",
    "thorough": "sequences of 4 operations (one query kind at a time), evolution with 2 generations",
}
ASSUMPTIONS = []
MUST_COVER = ("tie", "invalid", "empty", "during setup", "reloaded", "pushed", "all invalid")
Nd = 2


class PPop(Pop):
    """
    Can be pickled.
    """


def views(ctx, p, kinds):
    """
    Queries p and compares with its members.
    """
    SSEs = [float(p[k].SSE) for k in range(len(p))]
    N = len(SSEs)
    if any(np.isnan(SSEs)): ctx.fail("SSEs {}", SSEs)
    if not N:
        ctx.mark("empty")
        if 'best' in kinds and p.best() is not None: ctx.fail("Empty population has best {}", p.best())
        if 'kBest' in kinds and p.kBest is not None: ctx.fail("Empty population has kBest {}", p.kBest)
        if 'KS' in kinds and p.KS is not None and len(p.KS): ctx.fail("Empty population has KS {}", p.KS)
        if 'iSorted' in kinds and p.iSorted: ctx.fail("Empty population has iSorted {}", p.iSorted)
        return
    low = min(SSEs)
    if low == INF: ctx.mark("all invalid")
    if max(SSEs) == INF: ctx.mark("invalid")
    if len(set(SSEs)) < N: ctx.mark("tie")
    for kind in kinds:
        if kind == 'best':
            b = p.best()
            if not any(b is p[k] for k in range(N)): ctx.fail("Best {} is not a member", b)
            if float(b.SSE) != low: ctx.fail("Best has SSE {} but members {}", b.SSE, SSEs)
        elif kind == 'kBest':
            k = p.kBest
            if not 0 <= k < N or SSEs[k] != low: ctx.fail("kBest is {} for {}", k, SSEs)
        elif kind == 'KS':
            K = [int(k) for k in p.KS]
            if sorted(K) != list(range(N)): ctx.fail("KS is {} for {}", K, SSEs)
            ranked = [SSEs[k] for k in K]
            if ranked != sorted(SSEs): ctx.fail("KS is {} for {}", K, SSEs)
        elif kind == 'iSorted':
            I = p.iSorted
            if len(I) != N or set(map(id, I)) != set(id(p[k]) for k in range(N)):
                ctx.fail("iSorted has not the members")
            if [float(i.SSE) for i in I] != sorted(SSEs): ctx.fail("iSorted is {} for {}", I, SSEs)
        elif kind == 'repr':
            if N > 1 and low < INF: repr(p)
    if 'iSorted' in kinds and 'KS' in kinds:
        if [id(i) for i in p.iSorted] != [id(p[k]) for k in p.KS]: ctx.fail("iSorted and KS differ")
        if p.best() is not p.iSorted[0] and float(p.best().SSE) != float(p.iSorted[0].SSE):
            ctx.fail("Best is not first")
        if float(p[p.sample(1, randomBase=False)].SSE) != low: ctx.fail("Sampled best is not best")


ALL = ('KS', 'iSorted', 'best', 'kBest')
QUERIES = (('best', 'kBest'), ('iSorted',), ('KS', 'repr'))

# Hardly different, large and small results
EXTREME = [
    tuple(10.0*(1.0 + k*1E-9) for k in range(4)), tuple(1.0 + k*2.0**-52 for k in range(4)), tuple(1E300*(1 + k) for k in range(4)),
    tuple(1E-300*(1 + k) for k in range(4)), tuple(k*5E-324 for k in range(4)), (0.0, 1E-20, 1.0, 1E20),
    (np.float32(1.5), 2, np.int64(3), np.float64(3.5))]

OPS = [('replace', k, x) for k in (0, 3) for x in ('best', 'worst', 'inf', 'tie', 'nan')] + [
    ('push', x) for x in ('best', 'worst', 'inf')] + [
    ('blacklist', 'best'), ('blacklist', 1), ('setup',), ('blank',), ('clear',), ('reload',)]


def ops(ctx):
    q = ctx.params
    w = World(ctx)
    n = [0]
    def func(values):
        n[0] += 1
        return 20.0 + (n[0]*5) % 7
    p = PPop(func, NAMES[:Nd], [(-10.0, 10.0)]*Nd)
    f = Fired(p.setup(uniform=True)); w.pump()
    query = ctx.pick(q['queries'], "query kind")
    def new(x):
        n[0] += 1
        SSEs = [float(i.SSE) for i in p if float(i.SSE) < INF] or [20.0]
        i = Individual(p, list(np.random.uniform(-1, 1, 2)))
        i.SSE = {'best': min(SSEs)*0.9, 'worst': max(SSEs)*1.1, 'inf': INF, 'nan': NAN,
                 'tie': min(SSEs)}[x]
        return i
    for step in range(q['length']):
        if ctx.choose(2, "query here"): views(ctx, p, query)
        avail = OPS if len(p) else [x for x in OPS if x[0] in ('setup', 'blank', 'clear')]
        op = ctx.pick(avail, "operation")
        ctx.log("op", op)
        if op[0] == 'replace': p[op[1]] = new(op[2])
        elif op[0] == 'push':
            before = [(id(i), float(i.SSE)) for i in p]
            worst = max(x[1] for x in before)
            i = new(op[1])
            p.push(i)
            after = [id(j) for j in p]
            gone = [x for x in before if x[0] not in after]
            if len(gone) != 1 or gone[0][1] != worst or id(i) not in after or len(after) != len(before):
                ctx.fail("Pushing replaced {} of {}", gone, before)
            if any(x[0] != y for x, y in zip(before, after) if y != id(i)):
                ctx.fail("Pushing moved members around")
            ctx.mark("pushed")
        elif op[0] == 'blacklist':
            i = p.best() if op[1] == 'best' else p[op[1]]
            i.blacklist()
            if float(i.SSE) != INF: ctx.fail("Blacklisted but SSE is {}", i.SSE)
        elif op[0] in ('setup', 'blank'):
            f = Fired(p.setup(uniform=True, blank=op[0]=='blank')); w.pump()
            if f.result is not True: ctx.fail("Setup again failed")
        elif op[0] == 'clear': p.clear()
        elif op[0] == 'reload':
            w.pump()
            path = tempfile.mkdtemp(prefix="mc")
            try:
                p.save(os.path.join(path, "p.dat"))
                p = PPop.load(os.path.join(path, "p.dat"), func=func)
            finally: shutil.rmtree(path)
            ctx.mark("reloaded")
        ctx.state([float(i.SSE) for i in p])
    views(ctx, p, ALL)


def setting_up(ctx):
    """
    Queries while setup is in progress.
    """
    w = World(ctx)
    ev = Evaluator()
    p = Pop(ev, NAMES[:Nd], [(-10.0, 10.0)]*Nd)
    order = ctx.pick(list(itertools.permutations(range(4))), "rank order")
    query = ctx.pick(QUERIES, "query kind")
    results = ctx.pick(ctx.params['results'], "results")
    f = Fired(p.setup(uniform=True))
    w.pump()
    k = 0
    while ev.pending:
        if ctx.choose(2, "query here", 1): views(ctx, p, query)
        c = ev.pending[ctx.choose(min(2, len(ev.pending)), "which finishes", 1)]
        ev.finish(c, results[order[k % 4]])
        k += 1
        w.pump()
        ctx.state([float(i.SSE) for i in p])
    views(ctx, p, ALL)
    ctx.mark("during setup")


def evolving(ctx):
    q = ctx.params
    w = World(ctx)
    p, ev = make_pop(w, [12., 10., 13., 11.], Nd=Nd)
    kinds = Kinds()
    query = ctx.pick(QUERIES, "query kind")
    de = DifferentialEvolution(p, logHandle=None, CR=0.5, F=0.7, maxiter=q['gens'], adaptive=False)
    f = Fired(de())
    w.pump()
    while ev.pending:
        if ctx.choose(2, "query here", q.get('cost', 0)): views(ctx, p, query)
        c = ev.pending[0]
        SSEs = [float(i.SSE) for i in p]
        ev.finish(c, kinds(ctx.pick(('best', 'lose', 'win'), "result", q.get('cost', 0)), sorted(SSEs)[1], min(SSEs)))
        w.pump()
        ctx.state([float(i.SSE) for i in p])
    views(ctx, p, ALL)


def scenarios(tier, seed):
    T = tier == "thorough"
    S = [
        ("operations", ops, {'length': 3, 'queries': QUERIES}, {}),
        ("setup in progress", setting_up, {'results': [(10., 11., 12., 13.)]}, {}),
        ("setup in progress, extreme results", setting_up, {'results': EXTREME}, {'bound': 0}),
        ("evolution", evolving, {'gens': 1}, {}),
        ("evolution, 2 generations", evolving, {'gens': 2, 'cost': 1}, {'bound': 5 if T else 4}),
    ]
    if T: S.append(("operations 4", ops, {'length': 4, 'queries': (('KS', 'iSorted'),)}, {}))
    return S
