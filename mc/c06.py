"""
C06: every vector evaluated or kept lies within the parameter bounds.
"""

import itertools
from .drive import *

BOUNDS = {
    "quick": "limiter: all pairs of 10 bounds x all pairs of 19 positions relative to the bounds; setup "
    "with all-equal extreme or seeded draws (uniform and Latin hypercube) x 9 bounds; evolution of 4 "
    "members at seeded and corner positions: all donor sets and mutated coordinates x F in "
    "{0.5, 1, 3, 1e6} x CR in {0, 1}, results win/lose, 1 generation",
    "thorough": "as quick with 2 generations",
}
ASSUMPTIONS = ["parameter values and bounds are finite"]
MUST_COVER = ("inside", "reflected low", "reflected high", "too far out", "setup extremes", "evolution out of bounds")

LIMITS = [
    (-10.0, 10.0), (0.0, 1.0), (1e-9, 3e-9), (-1e6, -1e5), (0.1, 0.3), (-1e-300, 1e300),
    (5.0, 5.0), (100.0, 100.0 + 1e-12), (-7.0, 0.0), (3, 17),
]
# Relative to width, from lower bound
REL = [-1e6, -2.5, -2.0, -1.5, -1.0, -0.999, -0.3, -1e-9, 0.0, 1e-9, 0.3, 0.5, 1.0-1e-9, 1.0, 1.0+1e-9, 1.3,
       1.999, 2.0, 2.5, 1e6]


def positions(lo, hi):
    w = float(hi - lo) or 1.0
    v = [lo + r*w for r in REL]
    v.extend([lo, hi, np.nextafter(lo, -INF), np.nextafter(lo, INF), np.nextafter(hi, -INF), np.nextafter(hi, INF)])
    return [float(x) for x in v if np.isfinite(x)]


def expected(v, lo, hi):
    """
    The limited value, or None if any value within bounds is fine.
    """
    if lo <= v <= hi: return v, 'inside'
    if v < lo:
        r = 2*lo - v
        return (r, 'reflected low') if lo <= r <= hi else (None, 'too far out')
    r = 2*hi - v
    return (r, 'reflected high') if lo <= r <= hi else (None, 'too far out')


def judge(ctx, v, x, lo, hi):
    if not lo <= x <= hi:
        ctx.fail("Value {} became {}, outside of {} to {}", v, x, lo, hi)
    e, what = expected(v, lo, hi)
    ctx.mark(what)
    if what == 'inside':
        if x != v: ctx.fail("Value {} within {} to {} was changed to {}", v, lo, hi, x)
    elif e is not None:
        if abs(x - e) > 1e-9*max(abs(e), abs(lo), abs(hi), abs(v)):
            ctx.fail("Value {} with bounds {} to {} became {}, not {}", v, lo, hi, x, e)


def limiter(ctx):
    w = World(ctx)
    b0 = ctx.pick(LIMITS, "bounds 0")
    b1 = ctx.pick(LIMITS, "bounds 1")
    p = Pop(lambda v: 1.0, NAMES[:2], [b0, b1])
    form = ctx.pick(('array', 'list'), "form")
    P0, P1 = positions(*b0), positions(*b1)
    for v0 in P0:
        for v1 in P1:
            v = [v0, v1]
            if form == 'array': v = np.array(v)
            i = Individual(p, v)
            p.limit(i)
            x = [float(y) for y in i.values]
            if len(x) != 2: ctx.fail("{} values after limiting", len(x))
            judge(ctx, v0, x[0], *b0)
            judge(ctx, v1, x[1], *b1)
            ctx.state(v0, v1, x)
    ctx.log("done", b0, b1, form)


def setup(ctx):
    w = World(ctx)
    b0 = ctx.pick(LIMITS[:5] + LIMITS[6:], "bounds 0")
    b1 = ctx.pick(LIMITS[:3] + LIMITS[4:5], "bounds 1")
    bounds = [b0, b1]
    uniform = ctx.pick((True, False), "uniform")
    blank = ctx.pick((False, True), "blank")
    seen = []
    def func(values):
        seen.append(values)
        for v, (lo, hi) in zip(values, bounds):
            if not lo <= v <= hi: ctx.fail("{} evaluated with bounds {}", values, bounds)
        return 10.0 + len(seen)
    p = Pop(lambda v: ctx.guard(func, v), NAMES[:2], bounds)
    w.enumerate_draws('nparray', grid=(0.0, 1.0-2.0**-53, 0.5), cost=1)
    f = Fired(p.setup(uniform=uniform, blank=blank))
    w.pump()
    w.seeded_draws()
    if f.result is not True: ctx.fail("Setup did not complete")
    for i in p:
        for v, (lo, hi) in zip(i.values, bounds):
            if not lo <= v <= hi: ctx.fail("Member {} with bounds {}", i.values, bounds)
    ctx.mark("setup extremes")
    ctx.log("members", members(p))
    ctx.state(members(p))


def evolve(ctx):
    q = ctx.params
    Nd = q['Nd']
    w = World(ctx)
    bounds = q['bounds']
    lo = np.array([b[0] for b in bounds], dtype=float); hi = np.array([b[1] for b in bounds], dtype=float)
    p, ev = make_pop(w, [10., 11., 12., 13.], Nd=Nd, bounds=bounds)
    corners = q['corners']
    if corners:
        # Members at extreme positions
        pattern = ctx.pick(corners, "corner pattern")
        for k, i in enumerate(p):
            i.update([float(lo[j] if (pattern[k] >> j) & 1 == 0 else hi[j]) for j in range(Nd)])
    F = ctx.pick(q['Fs'], "F")
    CR = ctx.pick((0.0, 1.0), "CR")
    def raws():
        """
        All mutants that could be had now.
        """
        V = [i.values for i in p]
        for kb, k0, k1 in itertools.permutations(range(4), 3):
            yield V[kb] + (V[k0] - V[k1])*F
    def policy(c):
        v = c.values
        if np.any(v < lo) or np.any(v > hi):
            ctx.fail("Vector {} evaluated with bounds {}", v, bounds)
        ok = [False]*Nd
        outside = False
        tvals = [i.values for i in p]
        for r in raws():
            for j in range(Nd):
                if r[j] < lo[j] or r[j] > hi[j]: outside = True
                e, what = expected(float(r[j]), float(lo[j]), float(hi[j]))
                if e is None or abs(e - v[j]) <= 1e-9*max(1.0, abs(e), abs(r[j])): ok[j] = True
        for j in range(Nd):
            if any(v[j] == t[j] for t in tvals): ok[j] = True
        if not all(ok):
            ctx.fail("Vector {} is not from reflecting any mutant at the bounds {}", v, bounds)
        if outside: ctx.mark("evolution out of bounds")
        return 1.0/len(ev.calls) if ctx.choose(2, "win") else 1000.0
    ev.policy = policy
    de = DifferentialEvolution(p, logHandle=None, CR=CR, F=F, maxiter=q['gens'], adaptive=False,
                               randomBase=q.get('randomBase', False))
    w.enumerate_draws('sets', 'below', cost=q.get('drawcost', 0))
    f = Fired(de())
    w.pump()
    w.seeded_draws()
    if not f: ctx.fail("Evolution did not end")
    for i in p:
        if np.any(i.values < lo) or np.any(i.values > hi): ctx.fail("Member {}", i.values)
    ctx.log("members", members(p))
    ctx.state(members(p))


def scenarios(tier, seed):
    T = tier == "thorough"
    Fs = (0.5, 1.0, 3.0, 1e6)
    S = [
        ("limiter", limiter, {}, {}),
        ("setup", setup, {}, {'bound': 2}),
        ("evolution", evolve, {'Nd': 2, 'bounds': [(-10., 10.), (0., 1.)], 'corners': (), 'Fs': Fs, 'gens': 1}, {}),
        ("evolution at corners", evolve, {
            'Nd': 2, 'bounds': [(1e-9, 3e-9), (-1e6, -1e5)], 'Fs': (0.5, 1.0, 3.0), 'gens': 1,
            'corners': ((0, 1, 2, 3), (3, 3, 0, 0), (0, 3, 0, 3), (1, 0, 3, 2)), 'drawcost': 1},
         {'bound': 3 if T else 2}),
        ("evolution, degenerate", evolve, {
            'Nd': 3, 'bounds': [(5.0, 5.0), (0.1, 0.3), (-1., 1.)], 'corners': (), 'Fs': (1.0, 3.0), 'gens': 2 if T else 1,
            'drawcost': 1, 'randomBase': 0.5}, {'bound': 3}),
    ]
    return S
