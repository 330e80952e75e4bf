"""
C36: a population and its individuals read the same by position and by name.
"""

import os, pickle, tempfile
from .drive import *

BOUNDS = {
    "quick": "populations of 3 or 4 members with 1-3 parameters, all sequences of 3 operations out of up to 28: replacing and pushing members, spawning (from unity "
    "or not) and updating individuals with a list, tuple or array, with integers or the wrong number of values, setting values, copying, pickling; everything read in "
    "every way after each of them",
    "thorough": "all sequences of 4 operations",
}
ASSUMPTIONS = ["values of members are not changed in place", "an array of values supplied is not changed by the caller afterwards"]
MUST_COVER = ("replaced", "pushed", "pushed with tie", "spawned", "from unity", "updated", "refused", "set", "copied", "pickled", "contained", "not contained", "saved")
SCALES = ((-10.0, 10.0), (0.0, 1.0), (100.0, 400.0))
scratch = {}


def path():
    pid = os.getpid()
    if pid not in scratch: scratch[pid] = tempfile.mkdtemp()
    return os.path.join(scratch[pid], "individual.dat")


def floats(x): return [float(v) for v in x]


def reads(ctx, i, values, SSE, names):
    """
    The individual must have these values however it is read.
    """
    Nd = len(names)
    if floats(i.values) != values or floats(i) != values: ctx.fail("Values {} read as {}", values, i.values)
    for k, name in enumerate(names):
        for key in (k, np.int64(k), k - Nd, name):
            try: x = float(i[key])
            except Exception as e: ctx.fail("Reading {!r} of {} raised {!r}", key, values, e)
            if x != values[k]: ctx.fail("Reading {!r} of {} gave {}", key, values, x)
    pd = i.params
    if sorted(pd) != sorted(names) or [float(pd[name]) for name in names] != values: ctx.fail("Parameters of {} are {}", values, pd)
    try: i['nosuch']
    except Exception: pass
    else: ctx.fail("There's a value for a nonexistent name")
    if float(i.SSE) != eff(SSE): ctx.fail("SSE of {} is {}", values, i.SSE)


def saves(ctx, i, values, names):
    ctx.mark("saved")
    i.save(path())
    with open(path(), 'rb') as fh: pd = pickle.load(fh)
    if not isinstance(pd, dict) or sorted(pd) != sorted(names) or [float(pd[name]) for name in names] != values:
        ctx.fail("Parameters of {} saved as {}", values, pd)


def run(ctx):
    q = ctx.params
    w = World(ctx)
    N, Nd = q['N'], q['Nd']
    names = NAMES[:Nd]
    p, ev = make_pop(w, q['sses'], Nd=Nd, bounds=list(SCALES[:Nd]))
    ref = [[float(i.SSE), floats(i.values)] for i in p]
    members_ = [i for i in p]
    loose = []
    def fresh(n, SSE):
        values = [lo + (hi-lo)*(0.1 + 0.2*n + 0.03*j) for j, (lo, hi) in enumerate(SCALES[:Nd])]
        i = Individual(p, list(values))
        i.SSE = SSE
        return i, [SSE, values]
    for n in range(q['length']):
        ops = [('replace', k, SSE) for k in (0, N-1) for SSE in (0.5, INF)]
        ops += [('push', None, SSE) for SSE in (0.25, 200.0, None)]
        ops += [('set member', 0, x) for x in ([1.0]*Nd, None)]
        if len(loose) < 2:
            ops += [('spawn', how, 'list') for how in ('values', 'unity')] + [('spawn', 'values', 'array'), ('spawn', 'values', 'integers'), ('spawn', 'values', 'wrong')]
            ops += [('copy', k, None) for k in (0, N-1)] + [('pickle', 0, None)]
        if loose:
            ops += [('update', len(loose)-1, how) for how in ('list', 'tuple', 'array', 'integers', 'wrong')]
            ops += [('value', 0, k) for k in range(Nd)]
            ops += [('replace loose', 1, None)]
        op, x, y = ops[ctx.choose(len(ops), "operation")]
        values = [lo + (hi-lo)*(0.5 + 0.05*n + 0.01*j) for j, (lo, hi) in enumerate(SCALES[:Nd])]
        if op == 'replace':
            i, r = fresh(n, y)
            p[x] = i
            members_[x] = i
            ref[x] = r
            ctx.mark("replaced")
        elif op == 'push':
            worst = max(eff(r[0]) for r in ref)
            i, r = fresh(n, y)
            p.push(i)
            K = [k for k in range(N) if p[k] is not members_[k]]
            if len(K) != 1 or p[K[0]] is not i: ctx.fail("Pushing one replaced those at {}", K)
            if eff(ref[K[0]][0]) != worst: ctx.fail("Pushing one replaced that with SSE {} rather than {}", ref[K[0]][0], worst)
            ctx.mark("pushed with tie" if [eff(r[0]) for r in ref].count(worst) > 1 else "pushed")
            members_[K[0]] = i
            ref[K[0]] = r
        elif op == 'set member':
            try: p[x] = y
            except TypeError: ctx.mark("refused")
            else: ctx.fail("Set member to {}", y)
        elif op == 'spawn':
            if y == 'wrong':
                try: p.spawn(values + [1.0])
                except ValueError: ctx.mark("refused")
                else: ctx.fail("Spawned one with too many values")
            elif x == 'unity':
                ctx.mark("from unity")
                us = [0.25*(j+1) for j in range(Nd)]
                i = p.spawn(np.array(us), fromUnity=True)
                values = [lo + (hi-lo)*u for u, (lo, hi) in zip(us, SCALES)]
                loose.append((i, [None, values]))
            else:
                ctx.mark("spawned")
                if y == 'integers': values = [3+n+j for j in range(Nd)]
                i = p.spawn(np.array(values) if y == 'array' else list(values))
                values = floats(values)
                loose.append((i, [None, values]))
        elif op == 'copy':
            ctx.mark("copied")
            loose.append((p[x].copy(), [ref[x][0], list(ref[x][1])]))
        elif op == 'pickle':
            ctx.mark("pickled")
            i = pickle.loads(pickle.dumps(p[x]))
            i.p = p
            loose.append((i, [ref[x][0], list(ref[x][1])]))
        elif op == 'update':
            i, r = loose[x]
            if y == 'wrong':
                try: i.update(values + [1.0])
                except ValueError: ctx.mark("refused")
                else: ctx.fail("Updated with too many values")
            else:
                ctx.mark("updated")
                if y == 'integers': values = [2+n+j for j in range(Nd)]
                i.update(tuple(values) if y == 'tuple' else np.array(values) if y == 'array' else list(values))
                r[1] = floats(values)
        elif op == 'value':
            ctx.mark("set")
            i, r = loose[x]
            i[y] = r[1][y] = 0.125 + n
        elif op == 'replace loose':
            i, r = loose.pop()
            p[x] = i
            members_[x] = i
            ref[x] = r
            ctx.mark("replaced")
        w.pump()
        # Read everything
        if len(p) != N or not p: ctx.fail("Length is {} and truth is {}", len(p), bool(p))
        if [id(i) for i in p] != [id(i) for i in members_]: ctx.fail("After {}, iterating gave other members", op)
        for k in range(N):
            if p[k] is not members_[k] or p[k-N] is not members_[k]: ctx.fail("After {}, member {} is another one", op, k)
            reads(ctx, p[k], ref[k][1], ref[k][0], names)
            if p[k] not in p: ctx.fail("Member {} is not in the population", k)
            if p.individuals(k) is not p[k]: ctx.fail("Individual {} is not the member", k)
        got = p.individuals(*range(N-1, -1, -1))
        if [id(i) for i in got] != [id(i) for i in members_[::-1]]: ctx.fail("Wrong individuals for several indices")
        for i, r in loose:
            reads(ctx, i, r[1], r[0], names)
            want = any(eff(r[0]) == eff(m[0]) and r[1] == m[1] for m in ref)
            if (i in p) != want: ctx.fail("{} is in the population: {}", r, i in p)
            ctx.mark("contained" if want else "not contained")
        if n == q['length']-1:
            saves(ctx, p[0], ref[0][1], names)
            if loose: saves(ctx, loose[0][0], loose[0][1][1], names)
        ctx.state(ref, [r for i, r in loose])
        ctx.log(op, x, y)


def scenarios(tier, seed):
    T = tier == "thorough"
    S = []
    for N, Nd in ((4, 2), (4, 1), (4, 3)):
        S.append(("{} members with {} parameters".format(N, Nd), run, {'N': N, 'Nd': Nd, 'sses': [30.0, 10.0, 40.0, 20.0], 'length': 3+T}, {}))
    S.append(("ties", run, {'N': 5, 'Nd': 2, 'sses': [30.0, 30.0, 10.0, 20.0, 30.0], 'length': 3}, {}))
    return S
