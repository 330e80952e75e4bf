"""
C08: every trial vector follows the DE recipe.
"""

import itertools
from .drive import *

BOUNDS = {
    "quick": "Np=4 and 5, 2-3 parameters, CR in {0, 0.3, 1}, F single or range, base best/random/biased, "
    "adaptive or not: for each target position in turn, every outcome of every draw made for its trial "
    "(ordered donor pairs, forced coordinate, unit variates on a grid of 4), with all contests before "
    "won or lost; up to 3 generations",
    "thorough": "as quick with a grid of 6 unit variates",
}
ASSUMPTIONS = [
    "unit variates that are exactly zero are left out (they would count as below a crossover rate of 0)"]
MUST_COVER = ("mutated coordinate", "kept coordinate", "target is best", "reflected", "weight adapted")
TINY = 2.0**-53


def fits(v, base, diff, Flo, Fhi, lo, hi):
    """
    Returns a list of the F values in range (or ANY) that make a limited base +
    F*diff equal to v.
    """
    result = []
    tol = 1e-9*max(1.0, abs(base), abs(diff))
    for raw, reflected in ((v, False), (2*lo - v, True), (2*hi - v, True)):
        if reflected and lo < raw < hi: continue
        if abs(diff) < 1e-300:
            if abs(raw - base) <= tol: result.append((Flo, reflected))
            continue
        F = (raw - base) / diff
        if Flo - 1e-9 <= F <= Fhi + 1e-9: result.append((F, reflected))
    return result


def decode(ctx, v, M, CR, Flo, Fhi, lo, hi, bestOK):
    """
    Returns True if v can be explained as a trial of members M. bestOK(t, b)
    tells if b is permitted as base for target t.
    """
    Nd = len(v)
    for t, b, k0, k1 in itertools.permutations(range(len(M)), 4):
        if not bestOK(t, b): continue
        cand = []
        for j in range(Nd):
            same = v[j] == M[t][j]
            f = fits(v[j], M[b][j], M[k0][j] - M[k1][j], Flo, Fhi, lo, hi)
            cand.append((same, f))
        # Common F
        Fs = [F for same, f in cand for F, r in f]
        for F in Fs:
            ok = True; Nm = Nsame = 0; refl = False
            for same, f in cand:
                hit = [r for F2, r in f if abs(F2 - F) <= 1e-7]
                if hit:
                    Nm += 1
                    refl = refl or any(hit)
                if same: Nsame += 1
                if not hit and not same: ok = False
            if not ok or not Nm: continue
            if CR == 0.0 and Nsame < Nd-1: continue
            if CR == 1.0 and Nm < Nd: continue
            if refl: ctx.mark("reflected")
            if Nsame: ctx.mark("kept coordinate")
            ctx.mark("mutated coordinate")
            return (t, b, k0, k1, F)


def run(ctx):
    q = ctx.params
    w = World(ctx)
    Nd = q['Nd']
    N = q['N']
    B = q.get('limit', 10.0)
    p, ev = make_pop(w, q['sses'], Nd=Nd, bounds=[(-B, B)]*Nd)
    CR = q['CR']
    target = ctx.choose(N*q['gens'], "explored contest")
    wins = ctx.choose(4, "wins")
    grid = q['grid']
    gen = {'de': None}
    used = []
    def explore(on):
        if on: w.enumerate_draws('perms', 'below', 'random', grid=grid)
        else: w.seeded_draws()
    def policy(c):
        n = len(ev.calls) - 1
        explore(False)
        M = [np.array(i.values, dtype=float) for i in p]
        SSEs = [float(i.SSE) for i in p]
        best = SSEs.index(min(SSEs))
        fm = gen['de'].fm
        Flo, Fhi = float(fm.lowest), float(fm.highest)
        if Flo < q['lowest'] - 1e-12: ctx.mark("weight adapted")
        def bestOK(t, b):
            if q.get('randomBase'): return True
            return t == best or b == best
        d = decode(ctx, c.values, M, CR, Flo, Fhi, -B, B, bestOK)
        if d is None:
            ctx.fail("Trial {} is not made from members {} with F in {} to {}, CR={}, best {}",
                     c.values, M, Flo, Fhi, CR, best)
        if d[0] == best: ctx.mark("target is best")
        ctx.log("trial", n, d)
        ctx.state(n, tuple(c.values))
        if n+1 == target: explore(True)
        if n+1 > target: raise Prune
        won = (True, False, n % 2 == 0, n % 3 == 2)[wins]
        return 9.0 - 0.01*n if won else 100.0
    def guarded(c):
        try: return policy(c)
        except Prune:
            de.shutdown()
            return 100.0
    ev.policy = guarded
    de = gen['de'] = DifferentialEvolution(
        p, logHandle=None, CR=CR, F=q['F'], maxiter=q['gens'], adaptive=q.get('adaptive', False),
        randomBase=q.get('randomBase', False), bitterEnd=True)
    if target == 0: explore(True)
    f = Fired(de())
    w.pump()
    explore(False)
    if not f: ctx.fail("Evolution did not end")
    if len(ev.calls) <= target:
        ctx.fail("There were only {} trials", len(ev.calls))


def scenarios(tier, seed):
    T = tier == "thorough"
    grid = (TINY, 0.2, 0.45, 0.8, 1.0-TINY) if T else (TINY, 0.2, 0.8, 1.0-TINY)
    S = []
    s = [12., 11., 10., 13., 14.]
    def add(name, **q):
        q.setdefault('grid', grid)
        q['lowest'] = q['F'] if isinstance(q['F'], float) else q['F'][0]
        S.append((name, run, q, {}))
    for CR in (0.0, 0.3, 1.0):
        add("N=4 CR={}".format(CR), N=4, Nd=2, sses=s[:4], CR=CR, F=0.7, gens=1)
        add("N=4 CR={} F range".format(CR), N=4, Nd=3, sses=s[:4], CR=CR, F=(0.4, 0.9), gens=1)
        add("N=5 CR={} F range random base".format(CR), N=5, Nd=2, sses=s, CR=CR, F=(0.4, 0.9), gens=1,
            randomBase=True)
    add("N=5 best base", N=5, Nd=3, sses=s, CR=0.3, F=0.7, gens=1)
    add("N=5 best base, second generation", N=5, Nd=2, sses=s, CR=0.3, F=0.7, gens=2)
    add("N=4 biased base", N=4, Nd=2, sses=s[:4], CR=0.3, F=0.7, gens=1, randomBase=0.4)
    add("N=4 tight bounds", N=4, Nd=2, sses=s[:4], CR=1.0, F=(0.9, 1.0), gens=1, limit=0.5)
    add("N=4 adaptive", N=4, Nd=2, sses=s[:4], CR=0.3, F=(0.8, 1.0), gens=3, adaptive=True)
    add("N=4 adaptive single", N=4, Nd=2, sses=s[:4], CR=1.0, F=0.9, gens=3, adaptive=True)
    return S
