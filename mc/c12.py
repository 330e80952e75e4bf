"""
C12: the differential weight adapts only within its configured range.
"""

import copy
from .drive import *

BOUNDS = {
    "quick": "27 weight settings (single, ranges, at/below/above the critical value, integers, zero lower end, "
    "non-adaptive): all sequences of 12 good and bad generations, and all sequences of up to 4 stretches of "
    "alternately bad and good ones with 0..24 generations each; the same setting used again afterwards; two whole evolutions in a row with 4 members and 7 generations, "
    "all sequences of good and bad ones",
    "thorough": "all sequences of 15; 5 stretches; evolutions with 9 generations",
}
ASSUMPTIONS = ["weight range configured with its ends in order"]
MUST_COVER = ("limited", "restored", "lowest lowered", "highest lowered", "single lowered", "non-adaptive",
              "at critical", "evolution limited", "evolved again")

# F, CR, Np, adaptive
CONFIGS = [
    ((0.5, 1.0), 0.8, 20, True),
    ((0.5, 1.0), 0.8, 100, True),
    ([0.5, 1.0], 0.0, 4, True),
    ((0.1, 1.0), 0.8, 20, True),
    ((0.18, 0.19), 0.8, 20, True),
    ((0.5, 0.5), 0.8, 20, True),
    ((0.2, 3.0), 1.0, 40, True),
    ((1, 2), 0.5, 10, True),
    ([0.5, 1.0], 0.8, 100, True),
    (np.array([0.5, 1.0]), 0.8, 100, True),
    (0.7, 0.8, 20, True),
    (0.7, 0.8, 400, True),
    (1, 0.8, 20, True),
    (0.1, 0.8, 20, True),
    (0.18, 0.8, 20, True),
    ((0, 1.0), 0.8, 20, True),
    ((0.0, 0.9), 0.2, 10, False),
    ((0, 0.3), 0.0, 5, True),
    ((0.5, 1.0), 0.8, 20, False),
    (0.7, 0.8, 20, False),
    ((0.3, 0.9), 0.0, 4, True),
    ((0.02, 0.06), 0.9, 50, True),
    ((0.174, 0.53), 0.8, 20, True),
    ((0.05, 0.95), 0.8, 20, True),
    ((0.1, 0.6), 0.8, 400, True),
    ((0.04, 0.3), 1.0, 300, True),
    ((0.3, 1.7), 0.8, 80, True),
]


class Judge(object):
    def __init__(self, ctx, F, CR, Np, adaptive):
        self.ctx = ctx
        seq = isinstance(F, (tuple, list, np.ndarray))
        lo, hi = F if seq else (F, F)
        self.seq = seq
        self.adaptive = adaptive and not (seq and lo == 0)
        crit = ((1.0 - 0.5*CR)/Np)**0.5
        self.zero = seq and lo == 0
        if self.zero: lo = min(crit, hi)
        self.orig = (float(lo), float(hi))
        self.crit = crit
        self.floor = min(crit, lo)
        self.seen = None

    def look(self, fm):
        lo, hi, limited = float(fm.lowest), float(fm.highest), bool(fm.limited)
        ctx = self.ctx
        if lo > hi: ctx.fail("Lower end {} above upper end {}", lo, hi)
        if lo < self.floor*(1-1e-12): ctx.fail("Lower end {} is below {}", lo, self.floor)
        if lo > self.orig[0] or hi > self.orig[1]:
            ctx.fail("Weight {} to {} is beyond original {}", lo, hi, self.orig)
        if not self.seq and lo != hi: ctx.fail("Single weight became {} to {}", lo, hi)
        w = float(fm.get())
        tol = 1e-12*hi
        if not lo-tol <= w <= hi+tol: ctx.fail("Weight {} is not within {} to {}", w, lo, hi)
        if not self.adaptive:
            ctx.mark("non-adaptive")
            if (lo, hi) != self.orig: ctx.fail("Non-adaptive weight went from {} to {}", self.orig, (lo, hi))
        return lo, hi, limited

    def start(self, fm):
        self.seen = self.look(fm)
        if self.seen[:2] != self.orig: self.ctx.fail("Starts with {} not {}", self.seen, self.orig)
        if self.seen[2]: self.ctx.fail("Exhausted from the start")

    def step(self, fm, good):
        ctx = self.ctx
        lo, hi, limited = self.seen
        now = self.look(fm)
        if good:
            if now[0] < lo or now[1] < hi: ctx.fail("Good generation lowered {} to {}", self.seen, now)
            if now[2]: ctx.fail("Exhausted after a good generation")
        else:
            if now[0] > lo or now[1] > hi: ctx.fail("Bad generation raised {} to {}", self.seen, now)
            lowered = now[0] < lo or now[1] < hi
            if now[0] < lo: ctx.mark("lowest lowered" if self.seq else "single lowered")
            elif now[1] < hi: ctx.mark("highest lowered")
            if lowered and now[2] and not limited: ctx.fail("Exhausted though lowered {} to {}", self.seen, now)
            if self.adaptive:
                if limited and not now[2]: ctx.fail("No longer exhausted after a bad generation")
                if not lowered and not now[2]: ctx.fail("Not exhausted though stuck at {}", now)
                if now[2]: ctx.mark("limited")
                if now[0] < self.crit*1.15: ctx.mark("at critical")
            elif now[2]: ctx.fail("Non-adaptive weight exhausted")
        self.seen = now
        return now


def managed(ctx):
    q = ctx.params
    w = World(ctx)
    w.seeded_draws()
    cfg = CONFIGS[ctx.choose(len(CONFIGS), "config")]
    # The setting supplied is this execution's own
    cfg = (F, CR, Np, adaptive) = (copy.copy(cfg[0]),) + cfg[1:]
    j = Judge(ctx, *cfg)
    fm = FManager(F, CR, Np, adaptive)
    j.start(fm)
    now = j.seen
    if 'stretches' in q:
        word = []
        first = ctx.choose(2, "starts with good")
        for k in range(q['stretches']):
            word += [bool((k+first) % 2)] * ctx.pick(q['lengths'], "stretch")
    else: word = [bool(ctx.choose(2, "good")) for _ in range(q['length'])]
    for good in word:
        if good: fm.up()
        else: fm.down()
        now = j.step(fm, good)
    ctx.state(repr(cfg), now)
    # Enough good ones
    for k in range(2000):
        if k > 2 and j.seen[:2] == j.orig: break
        fm.up()
        j.step(fm, True)
    if j.seen[:2] != j.orig: ctx.fail("{} was not restored to {}", j.seen, j.orig)
    if now[:2] != j.orig: ctx.mark("restored")
    # Bad ones only
    n = 0
    while adaptive and j.adaptive and not j.seen[2]:
        fm.down()
        j.step(fm, False)
        n += 1
        if n > 2000: ctx.fail("Never exhausted")
    # The same setting again
    again = Judge(ctx, *cfg)
    again.orig = j.orig
    again.start(FManager(F, CR, Np, adaptive))
    ctx.log("end", repr(cfg), now)


def evolving(ctx):
    """
    The weight follows the generations of a real evolution.
    """
    q = ctx.params
    w = World(ctx)
    p, ev = make_pop(w, [1E20, 1.1E20, 1.2E20, 1.3E20], Nd=2)
    cfg = ctx.pick([(0.7, 0.8, 4, True), ((0.5, 1.9), 0.8, 4, True), ((0.5, 1.0), 0.8, 4, False), ([0.5, 1.9], 0.8, 4, True)], "config")
    cfg = (copy.copy(cfg[0]),) + cfg[1:]
    orig = repr(cfg[0])
    j = Judge(ctx, *cfg)
    word = []
    def policy(c):
        n = len(ev.calls) - 1
        if n % 4 == 0: word.append(ctx.choose(2, "good"))
        if word[-1]: return float(p.best().SSE)*0.01
        return 1E30
    ev.policy = policy
    de = DifferentialEvolution(
        p, logHandle=None, CR=cfg[1], F=cfg[0], maxiter=q['gens'], adaptive=cfg[3], bitterEnd=True)
    ref = FManager(eval(orig), cfg[1], 4, cfg[3])
    j.start(ref)
    def gen(k):
        # The first status quo inquiry always has a positive answer
        good = bool(word[k]) or k == 0
        if good: ref.up()
        else: ref.down()
        now = j.step(ref, good)
        real = float(de.fm.lowest), float(de.fm.highest), bool(de.fm.limited)
        ctx.state(now)
        if real != now: ctx.fail("Weight is {} after generations {}, should be {}", real, word, now)
        if now[2]: ctx.mark("evolution limited")
    f = Fired(de(lambda k: ctx.guard(gen, k)))
    w.pump()
    if ctx.sticky: return
    if not f: ctx.fail("Not done")
    if len(word) != q['gens']: ctx.fail("Only {} generations", len(word))
    # Another one with the same setting
    first = []
    def policy(c):
        first.append((float(de.fm.lowest), float(de.fm.highest)))
        return 1E30
    ev.policy = policy
    de = DifferentialEvolution(
        p, logHandle=None, CR=cfg[1], F=cfg[0], maxiter=1, adaptive=cfg[3], bitterEnd=True)
    f = Fired(de())
    w.pump()
    if not f: ctx.fail("Not done again")
    if first[0] != j.orig: ctx.fail("Second evolution starts with weight {} rather than {}", first[0], j.orig)
    ctx.mark("evolved again")


def scenarios(tier, seed):
    T = tier == "thorough"
    L = list(range(25)) if not T else list(range(0, 25, 2)) + [1, 3, 5]
    S = [
        ("words", managed, {'length': 15 if T else 12}, {}),
        ("stretches", managed, {'lengths': [0, 1, 2, 3, 5, 8, 13, 14, 15, 24], 'stretches': 5 if T else 4}, {}),
        ("long stretches", managed, {'lengths': L, 'stretches': 2}, {}),
        ("evolution", evolving, {'gens': 9 if T else 7}, {}),
    ]
    return S
