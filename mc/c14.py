"""
C14: early-exit evaluations get the right cutoff and leave no false records.
"""

from collections import Counter
from .drive import *

BOUNDS = {
    "quick": "4 and 5 members (also with members of equal and of infinite SSE), option on and off: all completion "
    "orders x all results out of {best, win, equal, lose, none, inf, nan} with up to 4 (1 generation) or 3 (2 generations) "
    "non-default decisions; all results in order, 1 generation; results at once or late; setup as well",
    "thorough": "one more non-default decision",
}
ASSUMPTIONS = [
    "no report callback complains about a target while its contest is under way",
    "the trials' values differ in single precision (checked; others are skipped)",
    "the history is bigger than the number of records"]
MUST_COVER = ("on: won", "on: lost", "on: invalid", "off: won", "off: lost", "off: invalid", "cutoff of new member",
              "infinite cutoff", "zero cutoff", "best replaced", "lost by tie", "reported")
KINDS = ('lose', 'win', 'best', 'equal', 'none', 'inf', 'nan')


def key(v):
    return tuple(float(np.float32(x)) for x in v)


def run(ctx):
    q = ctx.params
    w = World(ctx)
    on = q['on']
    tag = "on: " if on else "off: "
    Nd = 3
    # Setup
    ev = Evaluator()
    p, ev = make_pop(w, [100.0 + k for k in range(len(q['sses']))], Nd=Nd, evaluator=ev)
    for k, x in enumerate(q['sses']):
        p[k].SSE = x
        if x == INF: p[k].blacklist()
    resort(p)
    reported = []
    p.addCallback(lambda values, counter, SSE: reported.append((key(values), float(SSE))))
    kinds = Kinds()
    initial = [(key(m[0]), m[1]) for m in members(p)]
    losers = Counter()
    winners = []
    invalid = set()
    used = set(k for k, x in initial)
    def outcome(c):
        if key(c.values) in used: raise Prune
        used.add(key(c.values))
        x = c.kw.get('xSSE') if on else None
        SSEs = [m[1] for m in members(p)]
        if on: t = eff(x)
        else: t = sorted(SSEs)[len(SSEs)//2]
        k = ctx.pick(q['kinds'], "result", q['cost'])
        r = kinds(k, t, min(SSEs))
        if t == 0.0:
            # Nobody is better than that
            if k in ('win', 'best'): raise Prune
            if k == 'lose': r = 0.001*kinds.n
            ctx.mark("zero cutoff")
        elif on and k == 'lose' and x is not None and eff(x) < INF:
            # Partial result, just above the cutoff
            r = eff(x)*(1.0 + 1E-6*kinds.n)
        return k, r
    state = {}
    def given(c):
        if not on:
            if c.kw: ctx.fail("Got {} with the option off", c.kw)
            return
        if set(c.kw) != {'xSSE'} or c.kw['xSSE'] is None: ctx.fail("Trial got {}", c.kw)
        x = float(c.kw['xSSE'])
        if x == INF: ctx.mark("infinite cutoff")
        if x not in [m[1] for m in members(p)]: ctx.fail("Cutoff {} is not the SSE of a member", x)
        if x not in q['sses']: ctx.mark("cutoff of new member")
    def policy(c):
        if c.values is None: return
        given(c)
        state['before'] = members(p)
        if q['late'] or ctx.choose(2, "at once") == 0: return ev.HOLD
        # Decided along with others
        k, r = outcome(c)
        note(c, k, r, None)
        return r
    atonce = []
    def note(c, k, r, before):
        x = eff(r)
        atonce.append((c, k, x))
    ev.policy = policy
    de = DifferentialEvolution(
        p, logHandle=None, CR=0.5, F=0.7, maxiter=q['gens'], adaptive=False, xSSE=on,
        randomBase=q.get('randomBase', False))
    f = Fired(de())
    w.pump()
    while ev.pending and not ctx.sticky:
        c = ev.pending[ctx.choose(len(ev.pending), "which finishes", 1)]
        before = members(p)
        if on and float(c.kw['xSSE']) not in [m[1] for m in before]:
            ctx.fail("No member has SSE {} when the contest is decided", c.kw['xSSE'])
        k, r = outcome(c)
        note(c, k, r, before)
        ev.finish(c, r)
        w.pump()
        if ctx.sticky: break
        now = members(p)
        # What became of c
        kc = key(c.values)
        ctx.log("finish", c.n, k)
        ctx.state([m[1] for m in now])
        for j, m in enumerate(now):
            if key(m[0]) == kc and on and before[j][1] != float(c.kw['xSSE']):
                ctx.fail("Target with SSE {} got replaced, but the cutoff was {}", before[j][1], c.kw['xSSE'])
    if ctx.sticky: return
    w.pump()
    if not f: ctx.fail("Not done")
    # Who won?
    inpop = set(key(m[0]) for m in members(p))
    records = hist_records(p.history)
    for c, k, x in atonce:
        kc = key(c.values)
        rows = [r for r in records if r[1] == kc]
        won = any(r[2] in ('in', 'former') for r in rows) or kc in inpop
        if x == INF:
            ctx.mark(tag+"invalid")
            if rows: ctx.fail("Invalid trial recorded: {}", rows)
            continue
        if won:
            ctx.mark(tag+"won")
            if k == 'best': ctx.mark("best replaced")
            if len(rows) != 1: ctx.fail("Winner recorded {} times", len(rows))
            if on and not x < float(c.kw['xSSE']): ctx.fail("Won with {} vs {}", x, c.kw)
            continue
        ctx.mark(tag+"lost")
        if on:
            if k == 'equal': ctx.mark("lost by tie")
            if x < float(c.kw['xSSE']): ctx.fail("Lost with {} vs {}", x, c.kw)
            if rows: ctx.fail("Losing trial recorded with the option on: {}", rows)
            if any(r[0] == kc for r in reported): ctx.fail("Losing trial reported: {}", reported)
        else:
            if len(rows) != 1: ctx.fail("Losing trial recorded {} times", len(rows))
            if rows[0][2] != 'never': ctx.fail("Losing trial recorded as {}", rows)
            if rows[0][0] != float(np.float32(x)): ctx.fail("Losing trial with {} recorded as {}", x, rows)
    if reported: ctx.mark("reported")
    ok = set(initial) | set((key(c.values), x) for c, k, x in atonce)
    for r in reported:
        if r not in ok: ctx.fail("Report of {} whom nobody evaluated", r)


def setting_up(ctx):
    """
    No cutoff for initial evaluations, even if the population is set up
    again after having evolved with the option on.
    """
    w = World(ctx)
    ev = Evaluator()
    p, ev = make_pop(w, [12., 11., 13., 10.], evaluator=ev)
    for n in range(2):
        on = ctx.choose(2, "option")
        def policy(c):
            if c.values is None: return
            if bool(on) != ('xSSE' in c.kw): ctx.fail("Got {}", c.kw)
            return ctx.pick((20.0 + c.n, 5.0 - 0.1*c.n), "result")
        ev.policy = policy
        f = Fired(DifferentialEvolution(p, logHandle=None, maxiter=1, xSSE=bool(on))())
        w.pump()
        if ctx.sticky: return
        if not f: ctx.fail("Not done")
        def policy(c):
            if c.kw: ctx.fail("Initial evaluation got {}", c.kw)
            return 10.0 + c.n
        ev.policy = policy
        f = Fired(p.setup(uniform=bool(ctx.choose(2, "uniform"))))
        w.pump()
        if ctx.sticky: return
        if f.result is not True: ctx.fail("Setup again failed")


def scenarios(tier, seed):
    T = tier == "thorough"
    S = []
    def add(name, bound, sses, gens=1, kinds=KINDS, late=True, cost=1, **q):
        for on in (True, False):
            S.append(("{}, {}".format(name, "on" if on else "off"), run, dict(
                q, sses=sses, gens=gens, kinds=kinds, late=late, cost=cost, on=on), {'bound': bound}))
    add("5 members", 4+T, [12., 11., 10., 13., 14.])
    add("5 members, mostly winning", 4+T, [12., 11., 10., 13., 14.], kinds=('win', 'best', 'lose', 'equal', 'none'))
    add("4 members, 2 generations", 3+T, [12., 11., 10., 13.], gens=2)
    add("4 members, 2 generations, winning", 2+T, [12., 11., 10., 13.], gens=2, kinds=('best', 'lose', 'equal', 'inf'))
    add("all results", 0, [12., 11., 10., 13.], cost=0)
    add("equal and infinite", 2+T, [12., INF, 10., 10., INF])
    add("zero", 3+T, [12., 0.0, 10., 10., 0.0], kinds=('lose', 'equal', 'none'))
    add("at once", 1+T, [12., 11., 10., 13., 14.], late=False, kinds=('lose', 'best', 'none'))
    add("random base", 2+T, [12., 11., 10., 13., 14.], randomBase=True)
    S.append(("setup", setting_up, {}, {}))
    return S
