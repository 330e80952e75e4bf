"""
C09: sampling positions: distinct, never excluded, in range, biased to the
better.
"""

import itertools
from .drive import *

BOUNDS = {
    "quick": "population sizes 4..6 x 2 rank orders (one with ties and invalid members) x every exclusion "
    "set leaving enough x every N (1..3) x 12 bias settings, every outcome of the draws on a grid with both "
    "extremes; all sequences of 4 samples, replacements and blacklistings; probability of each position over a complete grid of 48 midpoints per unit variate for all "
    "candidate counts 2..8 x 12 settings",
    "thorough": "as quick with sizes to 7 and a grid of 160 midpoints",
}
ASSUMPTIONS = ["probabilities are measured on a regular grid of draws, with a tolerance of two cells"]
MUST_COVER = ("no bias", "best only", "biased", "several", "changed")
SETTINGS = (False, 0, 0.001, 0.05, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.99, 1.0, True, 1)
ENDS = (0.0, 2.0**-53, 0.5, 1.0-2.0**-53)


class Deep(Exception):
    pass


class Odometer(object):
    """
    Enumerates all draws made by a function, giving each outcome its weight.
    """
    def __init__(self, M):
        self.grid = [(k+0.5)/M for k in range(M)]

    def choose(self, n, label, cost=0):
        k = len(self.path)
        # A rejection loop would go on forever with the same draws
        if k == 4: raise Deep()
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.path.append((c, n))
        self.weight /= n
        return c

    def __call__(self, f):
        result = {}
        self.prefix = []
        while True:
            self.path = []
            self.weight = 1.0
            RNG.ctx = self; RNG.kinds = ('random', 'below', 'np'); RNG.grid = self.grid
            RNG.left = None
            try: x = f()
            except Deep: x = None
            finally: RNG.ctx = None
            result[x] = result.get(x, 0.0) + self.weight
            path = self.path
            while path and path[-1][0] + 1 >= path[-1][1]: path.pop()
            if not path:
                undecided = result.pop(None, 0.0)
                if undecided > 0.5: raise Prune()
                return dict((k, x/(1.0 - undecided)) for k, x in result.items())
            self.prefix = [c for c, n in path[:-1]] + [path[-1][0] + 1]


def population(w, sses):
    p, ev = make_pop(w, [x if x < INF else 50. for x in sses], Nd=2)
    for k, x in enumerate(sses):
        if x == INF: p[k].blacklist()
    return p


def outcomes(ctx):
    q = ctx.params
    w = World(ctx)
    sses = q['sses']
    p = population(w, sses)
    n = len(sses)
    rb = ctx.pick(SETTINGS, "setting")
    N = ctx.pick((1, 2, 3), "N")
    if not rb and N > 1: raise Prune
    exclude = ctx.pick([
        c for r in range(n) for c in itertools.combinations(range(n), r) if n - r >= N], "excluded")
    if isinstance(rb, float) and 0 < rb < 1: ctx.mark("biased")
    if N > 1: ctx.mark("several")
    w.enumerate_draws('random', 'below', 'perms', 'np', grid=ENDS, left=6 if ctx.params.get('deep') else 4)
    try:
        if rb is True and ctx.choose(2, "default"): result = p.sample(N, *exclude)
        else: result = p.sample(N, *exclude, randomBase=rb)
    finally: w.seeded_draws()
    ks = [result] if N == 1 else list(result)
    if N == 1 and isinstance(result, (list, tuple)): ctx.fail("Got {} for one position", result)
    if len(ks) != N: ctx.fail("Got {} for {} positions", ks, N)
    for k in ks:
        if int(k) != k or not 0 <= k < n: ctx.fail("Position {}", k)
        if k in exclude: ctx.fail("Position {} was excluded with {}", k, exclude)
    if len(set(int(k) for k in ks)) != N: ctx.fail("Positions {} are not distinct", ks)
    if not rb:
        ctx.mark("best only")
        low = min(float(p[k].SSE) for k in range(n) if k not in exclude)
        if float(p[ks[0]].SSE) != low: ctx.fail("Position {} is not the best of those not in {}", ks[0], exclude)
    ctx.log(rb, N, exclude, [int(k) for k in ks])
    ctx.state(rb, N, exclude, [int(k) for k in ks])


def mass(ctx):
    """
    Probabilities, one execution for each number of candidates.
    """
    q = ctx.params
    w = World(ctx)
    n = ctx.pick(range(4, q['Nmax']+1), "size")
    sses = [10. + (7*k) % n for k in range(n)]
    p = population(w, sses)
    exclude = ctx.pick([(), (0,), (1, 2), (0, 3)], "excluded")
    ranked = sorted((k for k in range(n) if k not in exclude), key=lambda k: sses[k])
    od = Odometer(q['M'])
    prev = None
    for rb in (0.001, 0.02, 0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.55, 0.6, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99, 1.0):
        pr = od(lambda: int(p.sample(1, *exclude, randomBase=rb)))
        m = [pr.get(k, 0.0) for k in ranked]
        if abs(sum(m) - 1.0) > 1e-9: ctx.fail("Setting {}: positions {}", rb, sorted(pr))
        tol = 2.5/q['M']
        for a, b in zip(m[:-1], m[1:]):
            if b > a + tol:
                ctx.fail("Setting {}: probabilities by rank {}", rb, m)
        top = np.cumsum(m)
        if prev is not None:
            for x, y in zip(prev, top):
                if y > x + tol:
                    ctx.fail("Setting {} is less uniform than a smaller one: {} vs {}", rb, top, prev)
        prev = top
        ctx.state(n, exclude, rb, [round(x, 4) for x in m])
        if rb < 0.01 and m[0] < 0.99: ctx.fail("Setting {}: probabilities by rank {}", rb, m)
    ctx.mark("no bias")
    if max(m) - min(m) > 1e-9: ctx.fail("Setting 1.0: probabilities {}", m)
    ctx.log("masses", n, exclude, [round(x, 4) for x in m])


def sequences(ctx):
    """
    Samples with changes of the population in between.
    """
    q = ctx.params
    w = World(ctx)
    sses = list(q['sses'])
    n = len(sses)
    p = population(w, sses)
    od = Odometer(8)
    changed = False
    for step in range(q['steps']):
        what = ctx.pick(('sample', 'replace', 'blacklist'), "operation")
        if what == 'sample':
            exclude = ctx.pick(q['excluded'], "excluded")
            left = [k for k in range(n) if k not in exclude]
            best = min(sses[k] for k in left)
            if ctx.choose(2, "biased"):
                # So close to the best one only that anything else is due to
                # an outdated ranking
                pr = od(lambda: int(p.sample(1, *exclude, randomBase=0.01)))
                ks = [k for k in pr if pr[k] > 0.01]
            else: ks = [int(p.sample(1, *exclude, randomBase=False))]
            for k in ks:
                if k not in left: ctx.fail("Position {} with {} excluded", k, exclude)
                if sses[k] != best: ctx.fail("Position {} is not the best of {} with {} excluded", k, sses, exclude)
            if changed: ctx.mark("changed")
            ctx.log(what, exclude, ks)
        else:
            k = ctx.choose(n, "position")
            if what == 'replace':
                sses[k] = ctx.pick((min(sses)/2, 2*max([x for x in sses if x < INF] + [1.0])), "SSE")
                i = Individual(p, [0.1*step, 0.3*k])
                i.SSE = sses[k]
                p[k] = i
                w.pump()
            else:
                p[k].blacklist()
                sses[k] = INF
                w.pump()
            changed = True
            ctx.log(what, k, sses[k])
        ctx.state(what, sses)


def scenarios(tier, seed):
    T = tier == "thorough"
    S = [
        ("outcomes 4", outcomes, {'sses': [12., 10., 13., 11.], 'deep': T}, {}),
        ("outcomes 5", outcomes, {'sses': [12., 10., 12., 11., INF]}, {}),
        ("sequences", sequences, {'sses': [12., 10., 13., 11.], 'steps': 4, 'excluded': [(), (1,), (0, 3)]}, {}),
        ("probabilities", mass, {'M': 160 if T else 48, 'Nmax': 10 if T else 8}, {}),
    ]
    if T: S.append(("longer sequences", sequences, {'sses': [12., 10., 13., 11.], 'steps': 5, 'excluded': [(), (1,)]}, {}))
    if T: S.append(("outcomes 6", outcomes, {'sses': [15., 10., 13., 14., 11., 12.]}, {}))
    return S
