"""
C41: initial values are a Latin hypercube unless uniform ones are asked for.
"""

from .drive import *

BOUNDS = {
    "quick": "populations of 4-9 members with 1-4 parameters and 4 sets of bounds, 13 larger sizes up to 130 and up to 20 parameters; draws seeded or all at one of 3 places for up to 2 arrays of draws; "
    "up to two constraint failures or invalid results, at any of the first 2N vectors, or up to 59 constraint failures in a row; one or two setups; limited parallelism or not",
    "thorough": "up to three failures",
}
ASSUMPTIONS = ["permutations within a hypercube are those of seeded draws", "after as many vectors as there are members, which ones are next is left open"]
MUST_COVER = ("hypercube", "uniform", "constraint failed", "invalid result", "again", "extreme", "parallel", "in a row")
EPS = 1E-9
FEW = NAMES
SETS = {
    'plain': [(0.0, 1.0), (-10.0, 10.0), (5.0, 6.0), (-3.0, -1.0)],
    'tiny': [(1E-12, 3E-12), (1E6, 1E6+1), (-1E-3, 1E-3), (0.0, 1E12)],
    'integers': [(0, 1), (-2, 2), (3, 10), (-9, -1)],
    'arrays': [(np.float64(0.5), np.float64(0.75)), (np.int64(-4), np.int64(4)), (0.1, 0.3), (2.0, 2.5)],
}


SETS['many'] = [(-float(k), 1.0+k) for k in range(20)]
MANY = ["p{:d}".format(k) for k in range(20)]


def gaps(vectors, bounds):
    """
    Returns the index of a parameter that lacks a value in one of as many
    equal parts as there are vectors, or None.
    """
    N = len(vectors)
    for j, (lo, hi) in enumerate(bounds):
        lo, hi = float(lo), float(hi)
        eps = EPS + 4E-16*max(abs(lo), abs(hi))/(hi - lo)
        for k, x in enumerate(sorted((v[j] - lo)/(hi - lo) for v in vectors)):
            if not float(k)/N - eps <= x <= float(k+1)/N + eps: return j


def run(ctx):
    q = ctx.params
    w = World(ctx)
    N = ctx.pick(q['N'], "N")
    Nd = ctx.pick(q['Nd'], "Nd")
    kind = ctx.pick(q['sets'], "bounds")
    uniform = ctx.choose(2, "uniform") if q.get('uniform') else 0
    bounds = SETS[kind][:Nd]
    NAMES = MANY if kind == 'many' else FEW
    class P(Pop): Np_min = N
    considered = []
    if 'row' in q:
        row = ctx.pick([x for x in q['row'] if x < N], "row")
        ctx.mark("in a row")
    state = {'left': q.get('failures', 0)}
    def key(values): return tuple(float(x) for x in values)
    def constraint(params):
        v = key([params[n] for n in NAMES[:Nd]])
        considered.append(v)
        if 'row' in q: return len(considered) > row
        if not state['left'] or len(considered) > 2*N: return True
        if ctx.guard(ctx.choose, 2, "constraint fails", 1):
            state['left'] -= 1
            ctx.mark("constraint failed")
            return False
        return True
    evaluated = []
    def policy(c):
        evaluated.append(key(c.values))
        if state['left'] and q.get('invalid') and len(evaluated) <= 2*N and ctx.choose(2, "invalid result", 1):
            state['left'] -= 1
            ctx.mark("invalid result")
            return INF
        return 10.0 + len(evaluated)
    ev = Evaluator(policy)
    kw = {'constraints': [constraint]} if 'row' in q or q.get('failures') and not q.get('invalid') else {}
    p = P(ev, NAMES[:Nd], bounds, **kw)
    if q.get('parallel'):
        ctx.mark("parallel")
        p.N_maxParallel = q['parallel']
    for again in range(q.get('setups', 1)):
        if again:
            ctx.mark("again")
        del considered[:], evaluated[:]
        if q.get('extreme'):
            ctx.mark("extreme")
            w.enumerate_draws('nparray', grid=(0.0, 0.5, 1.0-2.0**-53), cost=1)
        try:
            f = Fired(p.setup(uniform=True) if uniform else p.setup())
            w.pump()
        finally: w.seeded_draws()
        if not f or len(p) != N: ctx.fail("Setup gave {} of {} members", len(p), N)
        vectors = considered if kw else evaluated
        ctx.log("vectors", len(vectors))
        ctx.state(N, Nd, kind, again, len(vectors), state['left'])
        if uniform:
            ctx.mark("uniform")
            if N == 9 and Nd == 4 and gaps(vectors[:N], bounds) is None: ctx.fail("Latin hypercube in spite of uniform")
            continue
        ctx.mark("hypercube")
        first = vectors[:N]
        if len(first) < N: ctx.fail("Only {} vectors for {} members", len(first), N)
        j = gaps(first, bounds)
        if j is not None:
            ctx.fail("With bounds {}, the initial values of {} are {}", bounds[j], NAMES[j], sorted(v[j] for v in first))
        if len(set(vectors)) < len(vectors): ctx.fail("Some of the vectors {} are the same", vectors)


def scenarios(tier, seed):
    T = tier == "thorough"
    S = [("sizes", run, {'N': range(4, 10), 'Nd': (1, 2, 3, 4), 'sets': ('plain', 'tiny', 'integers', 'arrays'), 'uniform': True, 'setups': 2}, {}),
         ("draws", run, {'N': (4, 5), 'Nd': (1, 2, 3), 'sets': ('plain', 'tiny'), 'extreme': True}, {'bound': 2}),
         ("parallel", run, {'N': range(4, 10), 'Nd': (1, 2, 3, 4), 'sets': ('plain',), 'parallel': 2, 'setups': 2}, {}),
         ("large", run, {'N': (10, 11, 12, 15, 16, 20, 25, 32, 50, 64, 100, 101, 130), 'Nd': (1, 2), 'sets': ('plain',)}, {}),
         ("many parameters", run, {'N': (20, 30), 'Nd': (10, 12, 20), 'sets': ('many',)}, {}),
         ("constraints", run, {'N': range(4, 10), 'Nd': (1, 2), 'sets': ('plain',), 'failures': 2+T, 'setups': 2}, {'bound': 2+T}),
         ("failing in a row", run, {'N': (10, 25, 60), 'Nd': (1, 2), 'sets': ('plain',), 'row': (1, 5, 9, 21, 24, 55, 59)}, {}),
         ("invalid", run, {'N': range(4, 10), 'Nd': (1, 2), 'sets': ('plain',), 'failures': 2+T, 'invalid': True, 'setups': 2}, {'bound': 2+T})]
    return S
