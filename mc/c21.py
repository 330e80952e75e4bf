"""
C21: improvement ratios and the generation score follow their documented scale.
"""

from .drive import *

BOUNDS = {
    "quick": "all ordered pairs of 32 results around every threshold (incl. 0, inf, None, NaN, negative; Python and NumPy types) "
    "by each of three ways to report; scores of all pairs of sequences of up to 3-4 ratios out of 0-3 and 9 with a target of 4, up to 2 out of 0-1000 with one of 40, with an inquiry in between or not, the "
    "deciding draw located by bisection to 1e-9; sequences of 4 reports with every outcome; evolutions of 4 members, 3 generations, "
    "all outcomes up to 4 non-default decisions, draw just below and above where it must matter",
    "thorough": "sequences of up to 4 ratios; evolutions with one more non-default decision",
}
ASSUMPTIONS = [
    "a ratio halfway between two integers may be rounded either way",
    "an invalid new result vs. a valid old one gives 0 (as the existing tests have it) or None (as the docstring has it)",
    "what draw decides about the status quo is a unit variate, less than some threshold for keeping it"]
MUST_COVER = ("worse", "insignificant", "significant", "invalid old", "both invalid", "invalid new", "fatal", "zero new", "both zero",
              "bonus", "always kept", "below", "above", "afresh", "evolved", "target changed")
EPS = 1E-7

RESULTS = [
    0, 0.0, 1E-300, 1E-9, 1.01E-9, 4E-9, 1.0, np.float32(1.0), 1, 99.0, 99.9, 100.0, np.float64(100.0), 100, 101.0, 101.9, 102.5, 103.0, 149.0, 151.0,
    249.0, 251.0, 349.0, 940.0, 960.0, 1040.0, 1E5, 1E300, INF, None, NAN, np.float64('nan'), np.float32('inf'), -1, -1E-9]


def bogus(x):
    return x is None or fatal(x) or eff(x) == INF


def ratios(old, new):
    """
    Returns the ratios that are permitted by the documentation.
    """
    if fatal(old) or fatal(new): return {None}, "fatal"
    if bogus(old):
        if bogus(new): return {0}, "both invalid"
        return "high", "invalid old"
    if bogus(new): return {0, None}, "invalid new"
    old, new = float(old), float(new)
    if new > old: return {None}, "worse"
    if new == old: return {0}, "both zero" if new == 0 else "insignificant"
    if new == 0: return "high", "zero new"
    if abs(new/old - 1.0) < 0.02 - EPS: return {0}, "insignificant"
    if abs(new/old - 1.0) < 0.02 + EPS: return {0, 1}, "insignificant"
    r = old/new
    if r > 1E200: return "high", "zero new"
    return {np.floor(r + 0.5 - EPS), np.floor(r + 0.5 + EPS)}, "significant"


def individual(p, x, n=0):
    i = Individual(p, [1.0 + n, 2.0 - n])
    i.SSE = x
    return i


def fine(got, want):
    if want == "high": return got is not None and got >= 100
    return got in want


def pairs(ctx):
    w = World(ctx)
    p, ev = make_pop(w, [1.0, 2.0, 3.0, 4.0])
    old = ctx.pick(RESULTS, "old")
    new = ctx.pick(RESULTS, "new")
    want, tag = ratios(old, new)
    ctx.mark(tag)
    iOld, iNew = individual(p, old), individual(p, new, 1)
    how = ctx.pick(('msgRatio', 'reporter', 'population'), "how")
    p.reporter = Reporter(p)
    if how == 'msgRatio': got = p.reporter.msgRatio(iOld, iNew)
    elif how == 'reporter': got = p.reporter(iNew, iOld)
    else: got = p.report(iNew, iOld)
    ctx.log("ratio", got)
    ctx.state(repr(old), repr(new))
    if not fine(got, want): ctx.fail("Ratio of {!r} vs {!r} is {}, not {}", old, new, got, want)


SQS = 4.0


def fresh(w, sqs=SQS):
    """
    A population that has had its first inquiry.
    """
    p, ev = make_pop(w, [100.0 + k for k in range(4)], Nd=2)
    p.replacement(sqs=sqs)
    if not p.replacement(): raise Prune
    return p


class Draw(object):
    """
    A draw with a given result.
    """
    class Ctx(object):
        def choose(self, n, *args):
            return 0

    def __init__(self, w, x):
        w.enumerate_draws('np', 'random', grid=(x,))
        RNG.ctx = self.Ctx()

    def __enter__(self): return self
    def __exit__(self, *args): RNG.ctx = None


def threshold(w, p, build):
    """
    Locates the draw below which the status quo is kept after having called
    build, which records replacements.
    """
    def keeps(x):
        build()
        with Draw(w, x): return bool(p.replacement())
    top = 1.0 - 2.0**-53
    if keeps(top): return 1.0
    if not keeps(0.0): return 0.0
    lo, hi = 0.0, top
    while hi - lo > 1E-9:
        x = 0.5*(lo + hi)
        if keeps(x): lo = x
        else: hi = x
    return lo


def score(rirs):
    """
    Reference: weighted sum.
    """
    return sum(0.1 if r == 0 else r - 0.5 for r in rirs)


def scores(ctx):
    q = ctx.params
    w = World(ctx)
    SQS = q.get('sqs', 4.0)
    p = fresh(w, SQS)
    def sequence():
        n = ctx.choose(q['length']+1, "length")
        return [ctx.pick(q['rirs'], "ratio") for k in range(n)]
    a, b = sequence(), sequence()
    if score(a) > score(b): raise Prune
    def build(rirs):
        for r in rirs: p.replacement(r)
    Ta = threshold(w, p, lambda: build(a))
    Tb = threshold(w, p, lambda: build(b))
    ctx.log("thresholds", round(Ta, 6), round(Tb, 6))
    for s, T in ((score(a), Ta), (score(b), Tb)):
        if s == 0 and T > 1E-3: ctx.fail("Without replacements, the status quo is kept with probability {}", T)
        if s >= SQS + EPS:
            ctx.mark("always kept")
            if T < 1.0: ctx.fail("Score {} above {} keeps the status quo with {} only", s, SQS, T)
        if EPS < s < SQS - EPS and T in (0.0, 1.0) and SQS*0.1 < s < SQS*0.9:
            ctx.fail("Score {} of {} keeps the status quo with {}", s, SQS, T)
    if score(b) - score(a) < EPS:
        if abs(Ta - Tb) > 1E-4: ctx.fail("{} and {} have the same score, but {} vs {}", a, b, Ta, Tb)
    else:
        if Ta > Tb + EPS: ctx.fail("{} has a lower score than {}, but {} vs {}", a, b, Ta, Tb)
        if score(b) < SQS and score(b) - score(a) > 0.05*SQS and Tb - Ta < 1E-4:
            ctx.fail("{} has a lower score than {}, but {} vs {}", a, b, Ta, Tb)
    # Afresh each time
    build(b)
    with Draw(w, 0.5): p.replacement()
    T = threshold(w, p, lambda: build(a))
    ctx.mark("afresh")
    if abs(T - Ta) > 1E-8: ctx.fail("Threshold {} rather than {} after another generation", T, Ta)
    # A different target score. Twice as much of everything is the same.
    p.replacement(sqs=2*SQS)
    T = threshold(w, p, lambda: build(a + a))
    ctx.mark("target changed")
    if abs(T - Ta) > 1E-4: ctx.fail("Threshold {} rather than {} with twice the target", T, Ta)
    ctx.state(tuple(a), tuple(b))


def reports(ctx):
    """
    Reports of whole sequences of outcomes, with the bonus for a new best.
    """
    q = ctx.params
    w = World(ctx)
    p = fresh(w)
    r = fresh(w)
    best = 100.0
    done = []
    rirs = []
    quiet = bool(ctx.choose(2, "no progress characters"))
    for k in range(q['length']):
        old, new = ctx.pick(q['pairs'], "outcome")
        if new == 'best': new = best*0.5
        done.append((old, new))
        want, tag = ratios(old, new)
        if want == "high": rirs.append(1000)
        elif len(want) == 1 and None not in want: rirs.extend(want)
        elif None in want and len(want) == 2: rirs.append(None)
        if not bogus(new) and new < best:
            best = new
            ctx.mark("bonus")
            rirs.append(1)
    def play():
        p.reporter = Reporter(p)
        p.report(individual(p, 100.0, 7))
        n = 0
        for old, new in done:
            got = p.report(individual(p, new, 10+n), individual(p, old, 20+n), noProgress=quiet)
            n += 1
            if None in rirs and got is None and bogus(new) and not bogus(old):
                rirs.remove(None)
        while None in rirs: rirs[rirs.index(None)] = 0
    play()
    with Draw(w, 0.5): p.replacement()
    T = threshold(w, p, play)
    def build():
        for x in rirs: r.replacement(x)
    want = threshold(w, r, build)
    ctx.log("T", round(T, 6))
    if abs(T - want) > 1E-6: ctx.fail("After {}, threshold is {}, not {} as with {}", done, T, want, rirs)
    ctx.state(tuple(rirs))


def evolution(ctx):
    q = ctx.params
    w = World(ctx)
    p, ev = make_pop(w, q['sses'], Nd=3)
    p.replacement(sqs=q['sqs'])
    r = fresh(w)
    r.replacement(sqs=q['sqs'])
    kinds = Kinds()
    rirs = []
    best = [min(q['sses'])]
    counts = [0]
    draws = []
    kept = [None]
    Fs = []
    class DE(DifferentialEvolution): pass
    de = DE(p, logHandle=None, CR=0.0, F=0.9, maxiter=q['gens'], adaptive=True, bitterEnd=True)
    def prepare():
        """
        All results are in except for those at hand, so what decides the
        next inquiry is known.
        """
        def build():
            for x in rirs: r.replacement(x)
        T = threshold(w, r, build)
        k = ctx.choose(2, "draw")
        below = k == 0
        if T == 0.0: below = False; x = 1E-6 if k else 0.5
        elif T == 1.0: below = True; x = 1.0 - 2.0**-53 if k else 0.5
        else: x = T - 1E-6 if below else T + 1E-6
        ctx.mark("below" if below else "above")
        kept[0] = below
        w.enumerate_draws('np', grid=(x,))
        RNG.ctx = Draw.Ctx()
    def func(kg):
        RNG.ctx = None
        Fs.append(float(de.fm.lowest))
        if kg > 0:
            down = Fs[-1] < Fs[-2] - EPS
            if kept[0] and down: ctx.fail("Generation {} with {} counted as bad", kg, rirs)
            if not kept[0] and not down: ctx.fail("Generation {} with {} counted as good", kg, rirs)
        del rirs[:]
    f = Fired(de(lambda kg: ctx.guard(func, kg)))
    w.pump()
    N = len(p)
    while ev.pending and not ctx.sticky:
        c = ev.pending[ctx.choose(len(ev.pending), "which finishes", 1)]
        own = owners(p, c.values, 3)
        if len(own) != 1: raise Prune
        t = float(p[own[0]].SSE)
        x = kinds(ctx.pick(q['kinds'], "result", 1), t, best[0])
        want, tag = ratios(t, x)
        if want == "high": rirs.append(1000)
        elif len(want) == 2 and None not in want: raise Prune
        elif len(want) == 2: rirs.append(0)
        elif None not in want: rirs.extend(want)
        if x is not None and eff(x) < best[0]:
            best[0] = x
            rirs.append(1)
        counts[0] += 1
        if counts[0] % N == 0 and counts[0] > N: prepare()
        ev.finish(c, x)
        w.pump()
        ctx.state(tuple(rirs), len(ev.pending))
    if ctx.sticky: return
    if not f: ctx.fail("Not done")
    if len(Fs) != q['gens']: ctx.fail("{} generations", len(Fs))
    ctx.log("Fs", Fs)
    ctx.mark("evolved")


def scenarios(tier, seed):
    T = tier == "thorough"
    S = [("pairs", pairs, {}, {}),
         ("scores", scores, {'length': 3, 'rirs': (0, 1, 2, 9)}, {}),
         ("scores, longer", scores, {'length': 5 if T else 4, 'rirs': (0, 1, 3)}, {}),
         ("scores, high target", scores, {'length': 2, 'rirs': (0, 1, 3, 9, 10, 15, 38, 39, 1000), 'sqs': 40.0}, {}),
         ("reports", reports, {'length': 3+T, 'pairs': (
             (200.0, 'best'), (150.0, 145.0), (300.0, 299.0), (300.0, 100.0), (None, 500.0), (None, None), (200.0, 400.0),
             (200.0, None))}, {})]
    S.append(("evolution", evolution, {'sses': [104., 101., 100., 103.], 'sqs': 1.5, 'gens': 3,
                                       'kinds': ('lose', 'slight', 'win', 'best', 'half', 'equal')}, {"bound": 2+T}))
    S.append(("evolution, low target", evolution, {'sses': [104., 101., 100., 103.], 'sqs': 0.3, 'gens': 2,
                                                   'kinds': ('lose', 'slight', 'win', 'none', 'best')}, {"bound": 3+T}))
    return S
