"""
C13: generations are counted right and a run stops exactly when it should.
"""

from .drive import *

BOUNDS = {
    "quick": "4 members; each generation good, bad or reaching the goal, all sequences of up to 7 generations; "
    "weights that are exhausted after 0, 1 or 2 bad generations or never, or not adaptive; dwelling 0..2 or to the bitter end; goal none, "
    "reached initially or only later, met exactly, nearly or surpassed; with results immediate or delayed (in and out of order); "
    "callback given or not; best, random or biased base; 5 members and 2 generations with all completion orders of one",
    "thorough": "9 generations",
}
ASSUMPTIONS = []
MUST_COVER = ("maxiter", "goal", "dwelled", "bitter end past dwelling", "goal equal", "no generations", "late good",
              "exhausted again", "contested")


def run(ctx):
    q = ctx.params
    w = World(ctx)
    N = q.get('N', 4)
    start = [1E10*(1+0.1*k) for k in range(N)]
    p, ev = make_pop(w, start, Nd=2)
    gens = q['gens']
    maxiter = ctx.pick(q['maxiter'], "maxiter")
    dwell = ctx.pick(q['dwell'], "dwell")
    bitter = ctx.pick(q['bitter'], "bitter end")
    F = ctx.pick(q['F'], "F")
    goal = ctx.pick(q['goal'], "goal")
    base = ctx.pick(q['base'], "base")
    adaptive = ctx.pick(q.get('adaptive', [True]), "adaptive")
    hold = ctx.pick(q['hold'], "delay")
    useFunc = ctx.pick(q.get('func', [True]), "callback")
    kinds = ['bad', 'good'] + (q.get('near', ['goal', 'meet']) if goal == 1.0 else [])
    word = []
    cutoffs = []
    lastbest = [1E10]
    def result(n):
        kg, k = divmod(n, N)
        if k == 0:
            if len(word) != kg: ctx.fail("Generation {} while evaluating {}", len(word), n)
            word.append(ctx.pick(kinds, "generation"))
            cutoffs.append([])
        kind = word[kg]
        # Only the contest last in line makes it good
        if k < N-1 or kind == 'bad': return 1E12 + n
        lastbest[0] = {'good': lastbest[0]*1E-1, 'over': 1.001, 'meet': 1.0, 'under': 0.999, 'goal': 0.5}[kind]
        if kind == 'good' and lastbest[0] < 2.0: raise Prune
        return lastbest[0]
    SSEs = []
    def policy(c):
        if c.values is None: return
        n = len(ev.vectors) - 1
        if n // N >= maxiter: ctx.fail("Evaluation {} is past {} generations", n, maxiter)
        if not q.get('xSSE') and c.kw.get('xSSE') is not None: ctx.fail("Cutoff")
        if hold == 'no':
            r = result(n)
            note(n, c)
            return r
        return ev.HOLD
    def note(n, c):
        cutoffs[n//N].append(c.kw.get('xSSE'))
    ev.policy = policy
    ref = FManager(F, 0.8, N, adaptive)
    seen = []
    state = {'dwell': 0, 'stop': None}
    def model(kg):
        """
        What happens after generation kg.
        """
        kind = word[kg]
        if goal and lastbest[0] < goal: return 'goal'
        if goal and lastbest[0] == goal: ctx.mark("goal equal")
        # The first inquiry into the status quo always has a positive answer
        if kind == 'bad' and kg > 0:
            ref.down()
            if ref.limited:
                state['dwell'] += 1
                if state['dwell'] > dwell:
                    if not bitter: return 'dwelled'
                    ctx.mark("bitter end past dwelling")
        else:
            if state['dwell']: ctx.mark("late good")
            if state['dwell'] and ref.limited: ctx.mark("exhausted again")
            ref.up()
            state['dwell'] = 0
    def func(k):
        if k != len(seen): ctx.fail("Called with {} after {}", k, seen)
        if (k+1)*N != len(ev.vectors) or ev.pending:
            ctx.fail("Called with {} after {} evaluations", k, len(ev.vectors))
        seen.append(k)
        ctx.state(k, tuple(word), state['dwell'])
    kw = {'xSSE': True} if q.get('xSSE') else {}
    de = DifferentialEvolution(
        p, logHandle=None, CR=0.8, F=F, maxiter=maxiter, adaptive=adaptive, bitterEnd=bitter,
        dwellByGrave=dwell, goalSSE=goal, randomBase=base, **kw)
    f = Fired(de((lambda k: ctx.guard(func, k)) if useFunc else None))
    w.pump()
    n = 0
    judged = 0
    order = []
    while True:
        while hold != 'no' and ev.pending:
            if hold == 'fifo': c = ev.pending[0]
            elif hold == 'lifo': c = ev.pending[-1]
            else: c = ev.pending[ctx.choose(len(ev.pending), "which finishes")]
            note_n = n; n += 1
            r = result(note_n)
            note(note_n, c)
            ev.finish(c, r)
            w.pump()
            if ctx.sticky: return
        break
    if ctx.sticky: return
    if not f or f.failure: ctx.fail("Not done: {}", f.failure)
    # Replay the generations with the model
    bests = []
    lastbest[0] = 1E10
    for kg in range(maxiter):
        if kg >= len(word): ctx.fail("Stopped after {}, too early: {}", kg, word)
        lastbest[0] = {'bad': lastbest[0], 'good': lastbest[0]*1E-1, 'over': 1.001, 'meet': 1.0, 'under': 0.999, 'goal': 0.5}[word[kg]]
        state['stop'] = model(kg)
        if state['stop']: break
        if useFunc and (len(seen) <= kg or seen[kg] != kg): ctx.fail("Not called back for {}: {}", kg, word)
    else:
        state['stop'] = 'maxiter'
        kg = maxiter
    ctx.mark(state['stop'])
    if not maxiter: ctx.mark("no generations")
    ctx.log(state['stop'], word)
    early = state['stop'] != 'maxiter'
    if len(word) != kg + early: ctx.fail("Should have stopped after {} but did {}: {}", kg+early, len(word), word)
    if len(ev.vectors) != N*len(word): ctx.fail("{} evaluations in {} generations", len(ev.vectors), len(word))
    if useFunc and seen != list(range(kg)): ctx.fail("Callbacks {} for {}, stopped by {}", seen, word, state['stop'])
    if q.get('xSSE'):
        # Each position contested once: its SSE was the cutoff
        now = sorted(start)
        for kg, X in enumerate(cutoffs):
            if kg and word[kg-1] != 'bad': 
                # One has been replaced
                new = set(X) - set(now)
                gone = set(now) - set(X)
                if len(new) != 1 or len(gone) != 1: ctx.fail("Contested {} with members {}", X, now)
                now = sorted((set(now) - gone) | new)
            if sorted(X) != now: ctx.fail("Contested {} with members {}", X, now)
            ctx.mark("contested")


def scenarios(tier, seed):
    T = tier == "thorough"
    g = 9 if T else 7
    # Exhausted right away; after one or two; range; non-adaptive effectively never
    Fs = [0.1, 0.42, 0.46, (0.42, 1.25)]
    one = {'base': [False], 'hold': ['no'], 'goal': [None], 'gens': g}
    return [
        ("dwelling", run, dict(one, maxiter=[g], dwell=[0, 1, 2], bitter=[False, True], F=Fs), {}),
        ("few", run, dict(one, maxiter=[0, 1, 2, 3], dwell=[0, 1], bitter=[False], F=[0.1], goal=[None, 1.0, 2E10],
                          base=[False, True, 0.5], hold=['no', 'fifo', 'lifo'], func=[True, False]), {}),
        ("goal", run, dict(one, maxiter=[5], dwell=[0, 1], bitter=[False, True], F=[0.1, 0.42], goal=[1.0]), {}),
        ("near goal", run, dict(one, maxiter=[4], dwell=[0], bitter=[True], F=[0.1], goal=[1.0], near=['over', 'meet', 'under'],
                                hold=['no', 'fifo'], base=[False, True]), {}),
        ("non-adaptive", run, dict(one, maxiter=[g], dwell=[0, 1], bitter=[False], F=[0.1, 0.42, (0.5, 1.0)], adaptive=[False]), {}),
        ("contests", run, dict(one, maxiter=[4], dwell=[1], bitter=[False], F=[0.1, (0.5, 1.0)], xSSE=True,
                               base=[False, True, 0.5]), {}),
        ("completion orders", run, dict(
            one, N=5, maxiter=[2], dwell=[0], bitter=[False], F=[0.1], goal=[None, 1.0], hold=['any']), {}),
    ]
