"""
C30: a full history gives up the most redundant former or rejected record.
"""

import pickle
from .drive import *

BOUNDS = {
    "quick": "all rosters of 3 records with SSEs from {0, 1, 3, 9} and values from {0, 1, 4}, of 4 with SSEs from {1, 3} and values from {0, 1, 4}, "
    "each in every category (member, former, rejected), before one more addition; all sequences of 5 changes to a full roster of 3 (additions of "
    "4 records in each category, members leaving, purging a row or the population, clearing, pickling), judging each addition; values with two "
    "columns of very different scale; 12 candidates at a time on a grid",
    "thorough": "rosters of 5, sequences of 6",
}
ASSUMPTIONS = [
    "either record of a closest pair may be given up, and any of several closest pairs, within 1 part per million",
    "up to the documented number of pairs, where all are considered rather than a random sample",
    "the amount of the reduction for rejected trials is as the code has it: one plus exp(12*(floor(rejected/pairs)-0.4)), for pairs whose "
    "first record is a rejected one"]
MUST_COVER = ("single candidate", "no candidate", "pair", "former given up", "rejected given up", "penalty matters", "SSE matters",
              "zero SSE", "identical", "scaling matters", "after leaving", "after purge", "larger", "pickled")


class Holder(object):
    Nd = 2
    KS = None


def individual(SSE, values):
    i = Individual(Holder(), list(values))
    i.SSE = SSE
    return i


def candidates(h):
    """
    Returns a list of (row, SSE+values, never) of records that can be given up.
    """
    return [(int(k), [float(x) for x in h.X[k,:]], k in h.Kn) for k in sorted(h.K) if k not in h.Kp]


def measures(cands, penalty=True, scaled=True, relative=True):
    """
    Reference for the measure, by pairs of positions in the list.
    """
    N = len(cands)
    Nc = len(cands[0][1])
    S = []
    for c in range(Nc):
        col = [x[1][c] for x in cands]
        mean = sum(col)/N
        var = sum((x-mean)**2 for x in col)/N
        S.append(1.0/(var+1E-20) if scaled else 1.0)
    pairs = [(a, b) for a in range(N) for b in range(N) if cands[b][0] > cands[a][0]]
    N_never = sum(1 for x in cands if x[2])
    result = {}
    for a, b in pairs:
        D = sum(S[c]*(cands[a][1][c] - cands[b][1][c])**2 for c in range(Nc))
        mean = 0.5*(cands[a][1][0] + cands[b][1][0])
        if D and relative: D = D/mean if mean else float('inf')
        if penalty and cands[a][2]: D /= 1 + np.exp(12*(np.floor(N_never/len(pairs)) - 0.4))
        result[(a, b)] = D
    return result


def closest(D):
    best = min(D.values())
    if best == float('inf'): return set(D)
    return {pair for pair in D if D[pair] <= best*(1 + 1E-6)}


def judged(ctx, w, h, N_max, i, never):
    """
    Adds the individual and judges what was given up, if anything.
    """
    before = [(int(k), tuple(float(x) for x in h.X[k,:]), 'in' if k in h.Kp else 'never' if k in h.Kn else 'former') for k in h.K]
    full = len(before) >= N_max
    cands = candidates(h) if full else None
    f = Fired(h.add(i, neverInPop=never))
    w.pump()
    if not f or f.failure: ctx.fail("Addition failed: {}", f.failure)
    after = [(tuple(float(x) for x in h.X[k,:]), 'in' if k in h.Kp else 'never' if k in h.Kn else 'former') for k in h.K]
    new = (tuple(float(np.float32(x)) for x in [i.SSE] + list(i.values)), 'never' if never else 'in')
    left = [x[1:] for x in before]
    left.append(new)
    for x in after:
        if x not in left: ctx.fail("Record {} out of nowhere", x)
        left.remove(x)
    if not full:
        if left: ctx.fail("Records {} gone from a history that isn't full", left)
        return
    if not cands:
        ctx.mark("no candidate")
        if left != [new]: ctx.fail("Gave up {} with no candidates in {}", left, before)
        return
    if len(left) != 1: ctx.fail("Gave up {} with {}", left, before)
    gone = left[0]
    if len(cands) == 1:
        ctx.mark("single candidate")
        ok = [0]
    else:
        ctx.mark("pair")
        D = measures(cands)
        best = closest(D)
        ok = sorted({x for pair in best for x in pair})
        for what, kw in (("penalty matters", {'penalty': False}), ("scaling matters", {'scaled': False}), ("SSE matters", {'relative': False})):
            if not closest(measures(cands, **kw)) & best: ctx.mark(what)
        if 0.0 in D.values(): ctx.mark("identical")
        if any(x[1][0] == 0 for x in cands): ctx.mark("zero SSE")
    allowed = [(tuple(cands[k][1]), 'never' if cands[k][2] else 'former') for k in ok]
    if gone not in allowed:
        ctx.fail("Gave up {}, not one of {}, of candidates {}", gone, allowed, cands)
    if gone == new and new not in [x[1:] for x in before]: ctx.fail("The new record itself was given up")
    ctx.mark("rejected given up" if gone[1] == 'never' else "former given up")
    ctx.log("gone", gone)


def place(w, h, i, cat):
    h.add(i, neverInPop=(cat == 'never'))
    if cat == 'former': h.notInPop(i)
    w.pump()


CATS = ('former', 'never', 'in')


def rosters(ctx):
    q = ctx.params
    w = World(ctx)
    N = q['N']
    h = History(["x", "y"], N_max=N)
    for n in range(N):
        SSE, x, cat = ctx.pick(q['SSEs'], "SSE"), ctx.pick(q['xs'], "value"), ctx.pick(q.get('cats', CATS), "category")
        place(w, h, individual(SSE, (x, 1000.0 * ((7*n) % 3 if q.get('second') else 1))), cat)
    ctx.state(hist_records(h))
    judged(ctx, w, h, N, individual(2.0, (2.0, 500.0)), q['N'] != 4 and ctx.choose(2, "never") == 1)


def sequences(ctx):
    q = ctx.params
    w = World(ctx)
    N = q['N']
    h = History(["x", "y"], N_max=N)
    members = []
    what = ctx.pick(q.get('initial', (('former', 'never', 'in'),)), "initially")
    for n in range(N):
        i = individual(1.0 + n, (float(n*n), 5.0))
        place(w, h, i, what[n % 3])
        if what[n % 3] == 'in': members.append(i)
    pickled = False
    for n in range(q['length']):
        ops = [('add', c, r) for c in q['cats'] for r in range(len(q['records']))]
        if members: ops.append(('leave', None, None))
        if n < q['length'] - 1:
            ops.extend(('purge', k, None) for k in q.get('purge', (0, -1)))
            if not q.get('few'): ops.extend((('purgePop', None, None), ('clear', None, None)))
            if not pickled and not q.get('few'): ops.append(('pickle', None, None))
        op, c, r = ops[ctx.choose(len(ops), "operation")]
        if op == 'add':
            SSE, x = q['records'][r]
            i = individual(SSE, (x, 5.0))
            judged(ctx, w, h, N, i, c == 'never')
            if c == 'former':
                h.notInPop(i)
                w.pump()
            elif c == 'in': members.append(i)
        elif op == 'leave':
            h.notInPop(members.pop(0))
            w.pump()
            ctx.mark("after leaving")
        elif op == 'purge':
            if not h.K or c >= len(h.K): raise Prune
            h.purge(h.K[c])
            ctx.mark("after purge")
        elif op == 'purgePop':
            h.purgePop()
            w.pump()
            members = []
        elif op == 'clear':
            h.clear()
            w.pump()
            members = []
        elif op == 'pickle':
            h = pickle.loads(pickle.dumps(h))
            pickled = True
            members = []
            ctx.mark("pickled")
        ctx.state(hist_records(h))


def larger(ctx):
    """
    Many candidates, two of which are closer.
    """
    q = ctx.params
    w = World(ctx)
    N = q['N']
    h = History(["x", "y"], N_max=N)
    a = ctx.choose(N, "one")
    SSE = ctx.pick((1.0, 2.0, 50.0), "SSE")
    dx = ctx.pick((0.25, 0.4, 0.9), "difference")
    cats = ctx.pick((('former',), ('never',), ('former', 'never'), ('never', 'never', 'in')), "categories")
    for n in range(N):
        x = float(n)
        if n == a: x -= dx
        place(w, h, individual(SSE if n == a else 2.0 + 0.01*n, (x, 100.0*((n*5) % N))), cats[n % len(cats)])
    ctx.state(hist_records(h))
    ctx.mark("larger")
    judged(ctx, w, h, N, individual(2.0, (2.0, 500.0)), q['N'] != 4 and ctx.choose(2, "never") == 1)


def scenarios(tier, seed):
    T = tier == "thorough"
    S = [("three", rosters, {'N': 3, 'SSEs': (0.0, 1.0, 3.0, 9.0), 'xs': (0.0, 1.0, 4.0)}, {}),
         ("four", rosters, {'N': 4, 'SSEs': (1.0, 3.0), 'xs': (0.0, 1.0, 4.0), 'second': True}, {}),
         ("two", rosters, {'N': 2, 'SSEs': (0.0, 1.0, 3.0), 'xs': (0.0, 1.0, 4.0)}, {}),
         ("one", rosters, {'N': 1, 'SSEs': (0.0, 1.0), 'xs': (0.0, 1.0)}, {}),
         ("larger", larger, {'N': 12}, {}),
         ("sequences", sequences, {'N': 3, 'length': 4+T, 'cats': CATS, 'records': ((1.0, 0.5), (1.0, 3.0), (4.0, 0.5))}, {})]
    S.append(("rejected before", sequences, {
        'N': 4, 'length': 5+T, 'cats': ('former', 'in'), 'records': ((1.0, 0.5), (1.5, 3.0)), 'purge': (0, 1, 2, 3), 'few': True,
        'initial': [['never']*k + ['former'] + ['never']*(3-k) for k in range(4)]}, {}))
    if T: S.append(("five", rosters, {'N': 5, 'SSEs': (1.0, 4.0), 'xs': (0.0, 1.0), 'second': True}, {}))
    return S
