"""
C17: a saved population reloads as the same population and evolves on
identically.
"""

import os, sys, json, shutil, subprocess, tempfile
from .drive import *

BOUNDS = {
    "quick": "4 members, history of 4, 6 or 1500 records: saved after all sequences of up to 2 out of 10 things happening (generations evolved with "
    "different results, members replaced by better, equal or invalid ones, blacklisted, rejected trials recorded, end by Enter, "
    "reloading), or at every evaluation, report and end of generation of an evolution; evolved on for 2-3 generations "
    "with 6 patterns of results and 3 settings, loaded or not; all 3x3x3x3 new bounds per parameter; histories of 254 to 400 records; other "
    "processes with other hash seeds for 12 of the sequences",
    "thorough": "sequences of 3; all 36 sequences in other processes",
}
ASSUMPTIONS = [
    "the history is idle when saving (nobody is just being bumped)",
    "evaluation function and constraints are the same; draws are the same"]
MUST_COVER = ("evolved on", "evolved adaptively", "mid-evolution", "new bounds", "limited", "other process",
              "aborted", "invalid member", "full history", "long history")
Nd = 2


class PPop(Pop):
    """
    Can be pickled.
    """


def constraint(params):
    return params[NAMES[0]] + params[NAMES[1]] < 15.0


def always(params):
    return True


def digest(p, h=None):
    """
    All there is to know about p.
    """
    h = p.history
    pm = p.pm
    return {
        'members': [(float(i.SSE), [float(x) for x in i.values]) for i in p],
        'params': [sorted((k, float(v)) for k, v in i.params.items()) for i in p],
        'ranking': [int(k) for k in p.KS],
        'best': float(p.best().SSE), 'kBest': int(p.kBest),
        'iSorted': [float(i.SSE) for i in p.iSorted],
        'bounds': [[float(x) for x in pm.mins], [float(x) for x in pm.maxs]],
        'scales': [[float(x) for x in pm.scales], [float(x) for x in pm.mids]],
        'unity': [float(x) for x in pm.fromUnity(np.array([0.25, 0.75]))],
        'names': list(pm.names),
        'sorted names': list(pm.sortedNamerator(namesOnly=True)),
        'constraints': [pm.passesConstraints(v) for v in ([1.0, 2.0], [8.0, 8.0], [-1.0, 9.0])],
        'size': [p.Np, p.Nd, len(p), p.popsize, float(p.targetFraction), float(p.statusQuoScore)],
        'history': [[r[0], list(r[1]), r[2]] for r in hist_records(h)],
        'history names': list(h.names),
        'limit': h.N_max, 'total': h.N_total,
    }


def same(ctx, a, b, what="loaded"):
    for k in a:
        if a[k] != b[k]: ctx.fail("{}: {} is {}, was {}", what, k, b[k], a[k])


THINGS = ('good gen', 'bad gen', 'mixed gen', 'replace', 'twin', 'invalid', 'blacklist', 'never', 'enter', 'reload')


def results(pattern, n, best):
    """
    The result of evaluation n.
    """
    x = best*0.9 - 0.001*n
    if pattern == 'good': return x
    if pattern == 'bad': return 900.0 + n
    if pattern == 'mixed': return x if n % 3 == 1 else None if n % 3 == 2 else 900.0 + n
    if pattern == 'late': return x if n >= 6 else 900.0 + n
    if pattern == 'slight': return best*0.9999
    if pattern == 'early': return x if n < 3 else INF if n == 4 else 800.0 - n
    raise ValueError(pattern)


SETTINGS = (
    {'adaptive': False, 'F': 0.7},
    {'adaptive': True, 'F': (0.5, 1.0), 'bitterEnd': True},
    {'adaptive': True, 'F': 0.4, 'dwellByGrave': 0, 'randomBase': 0.5},
)


class Evo(object):
    """
    The evaluation function, repeatable.
    """
    def __init__(self):
        self.reset('bad')

    def reset(self, pattern):
        self.pattern = pattern
        self.n = 0
        self.best = 20.0
        self.log = []
        self.hook = None

    def __call__(self, values, xSSE=None):
        if values is None: return
        self.log.append(tuple(float(x) for x in values))
        if self.hook: self.hook("evaluation")
        r = results(self.pattern, self.n, self.best)
        if r and r < self.best: self.best = r
        self.n += 1
        return r


def evolve(w, p, evo, pattern, setting, gens, seed=99):
    """
    Evolves p and returns everything observed.
    """
    w.seeded_draws(seed)
    evo.reset(pattern)
    evo.best = min(float(p.best().SSE), 20.0)
    weights = []
    de = DifferentialEvolution(p, logHandle=None, CR=0.7, maxiter=gens, **setting)
    def func(k):
        weights.append((k, float(de.fm.lowest), float(de.fm.highest), bool(de.fm.limited)))
    f = Fired(de(func))
    w.pump()
    if not f: raise Violation("Evolution never ended")
    p.running = True
    return {'evaluated': list(evo.log), 'weights': weights}


def start(ctx, w, N_max):
    evo = Evo()
    evo.reset('bad')
    it = iter([22., 20., 23., 21.])
    # A constraints sequence and a target fraction of its own
    p = PPop(lambda v: next(it), NAMES[:Nd], [(-10.0, 10.0), (-5.0, 12.0)], constraints=[constraint, always])
    p.history = History(NAMES[:Nd], N_max=N_max)
    f = Fired(p.setup(uniform=True))
    w.pump()
    p.func = evo
    return p, evo


def reload(p, evo, **kw):
    path = tempfile.mkdtemp(prefix="mc")
    try:
        p.save(os.path.join(path, "p.dat"))
        return PPop.load(os.path.join(path, "p.dat"), func=evo, **kw)
    finally: shutil.rmtree(path)


def happen(ctx, w, p, evo, thing, n):
    def new(SSE, values=None):
        i = Individual(p, [1.0 + 0.37*n, -2.0 + 0.41*n] if values is None else list(values))
        i.SSE = SSE
        return i
    if thing.endswith('gen'):
        evolve(w, p, evo, thing.split()[0], SETTINGS[n % 3], 1, seed=n)
    elif thing == 'replace': p[n % 4] = new(19.0 - n)
    elif thing == 'twin': p[0] = p[3].copy()
    elif thing == 'invalid': p[1] = new(INF)
    elif thing == 'blacklist': p.best().blacklist()
    elif thing == 'never': p.history.add(new(30.0 + n), neverInPop=True)
    elif thing == 'enter':
        w.enter()
        w.pump()
        abort.restart()
        ctx.mark("aborted")
    elif thing == 'reload': p = reload(p, evo)
    w.pump()
    return p


def words(ctx):
    q = ctx.params
    w = World(ctx)
    p, evo = start(ctx, w, ctx.pick(q['N_max'], "limit"))
    for n in range(q['length']):
        p = happen(ctx, w, p, evo, ctx.pick(THINGS, "thing"), n)
    if any(i.SSE == INF for i in p): ctx.mark("invalid member")
    if len(p.history) == p.history.N_max: ctx.mark("full history")
    before = digest(p)
    ctx.state(before)
    if q.get('process'): return elsewhere(ctx, w, p, before)
    p2 = reload(p, evo)
    same(ctx, before, digest(p2))
    same(ctx, before, digest(p), "saving changed it")
    pattern = ctx.pick(q['patterns'], "pattern")
    setting = SETTINGS[ctx.choose(3, "setting")]
    # A population that was aborted is ready to go on after having been
    # loaded, so the unsaved one has to be, too
    if p.running is False: p.running = True
    one = evolve(w, p, evo, pattern, setting, q['gens'])
    two = evolve(w, p2, evo, pattern, setting, q['gens'])
    ctx.mark("evolved adaptively" if setting['adaptive'] else "evolved on")
    same(ctx, one, two, "evolution of the loaded one")
    same(ctx, digest(p), digest(p2), "evolution")
    ctx.log("end", pattern, digest(p)['members'])


CODE = """
import sys, json
from mc import c17
from mc.explore import Ctx
print("DIGEST" + json.dumps(c17.child(sys.argv[1], json.loads(sys.argv[2]))))
"""

class Dummy(object):
    seed = 0
    params = {}
    sticky = None
    def mark(self, *args): pass


def child(path, settings):
    """
    What another process makes of it.
    """
    w = World(Dummy())
    evo = Evo()
    p = PPop.load(path, func=evo)
    result = [digest(p)]
    for pattern, k in settings:
        result.append(evolve(w, p, evo, pattern, SETTINGS[k], 2))
        result.append(digest(p))
    return result


def elsewhere(ctx, w, p, before):
    """
    Loads it in another process, too.
    """
    hashseed = ctx.pick(("1", "77"), "hash seed")
    settings = [("mixed", 0), ("good", 1)]
    path = tempfile.mkdtemp(prefix="mc")
    try:
        name = os.path.join(path, "p.dat")
        p.save(name)
        out = subprocess.run(
            [sys.executable, "-c", CODE, name, json.dumps(settings)], capture_output=True, text=True, timeout=300,
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, PYTHONHASHSEED=hashseed))
    finally: shutil.rmtree(path)
    lines = [x for x in out.stdout.split('\n') if x.startswith("DIGEST")]
    if len(lines) != 1: ctx.fail("Other process failed: {}", out.stderr[-2000:])
    other = json.loads(lines[0][6:])
    def norm(x): return json.loads(json.dumps(x))
    same(ctx, norm(before), other[0], "other process")
    if p.running is False: p.running = True
    for n, (pattern, k) in enumerate(settings):
        mine = evolve(w, p, p.func, pattern, SETTINGS[k], 2)
        same(ctx, norm(mine), other[1+2*n], "evolution in other process")
        same(ctx, norm(digest(p)), other[2+2*n], "evolution in other process")
    ctx.mark("other process")


def mid(ctx):
    """
    Saved at any moment of an evolution.
    """
    q = ctx.params
    w = World(ctx)
    p, evo = start(ctx, w, ctx.pick(q['N_max'], "limit"))
    moment = ctx.choose(q['moments'], "moment")
    count = [0]
    def hook(what):
        lock = getattr(p.history, 'dLock', None)
        if lock is not None and lock.locked: return
        count[0] += 1
        if count[0] != moment + 1: return
        before = digest(p)
        ctx.state(before)
        p2 = reload(p, evo)
        same(ctx, before, digest(p2), "saved at " + what)
        ctx.mark("mid-evolution")
        loaded.append(p2)
    loaded = []
    pattern = ctx.pick(q['patterns'], "pattern")
    setting = SETTINGS[ctx.choose(2, "setting")]
    evo.reset(pattern)
    evo.hook = lambda what: ctx.guard(hook, what)
    p.addCallback(lambda *args: ctx.guard(hook, "report"))
    f = Fired(DifferentialEvolution(p, logHandle=None, CR=0.7, maxiter=2, **setting)(
        lambda k: ctx.guard(hook, "generation")))
    w.pump()
    if ctx.sticky: return
    if not f: ctx.fail("Evolution never ended")
    if not loaded: raise Prune
    # The one loaded can evolve
    p2 = loaded[0]
    evolve(w, p2, evo, 'mixed', setting, 1)
    d = digest(p2)
    have = sorted(r[1] for r in d['history'] if r[2] == 'in')
    want = sorted([float(np.float32(x)) for x in m[1]] for m in d['members'] if m[0] < INF)
    if have != want: ctx.fail("History has members {} not {}", have, want)


def bounds(ctx):
    """
    New bounds when loading.
    """
    w = World(ctx)
    p, evo = start(ctx, w, 1500)
    if ctx.choose(2, "evolve first"): evolve(w, p, evo, "mixed", SETTINGS[0], 2)
    old = digest(p)
    B = []
    for k in range(Nd):
        lo = ctx.pick((-10.0, -1.0, 1.5), "lower")
        hi = lo + ctx.pick((0.25, 3.0, 30.0), "upper")
        B.append((lo, hi))
    p2 = reload(p, evo, bounds=B)
    ctx.mark("new bounds")
    new = digest(p2)
    if new['bounds'] != [[b[0] for b in B], [b[1] for b in B]]: ctx.fail("Bounds {} not {}", new['bounds'], B)
    want = [B[0][0] + 0.25*(B[0][1] - B[0][0]), B[1][0] + 0.75*(B[1][1] - B[1][0])]
    if not np.allclose(new['unity'], want): ctx.fail("Scaling not according to bounds {}", B)
    for k, (SSE, values) in enumerate(new['members']):
        inside = True
        for j, x in enumerate(values):
            if not B[j][0] <= x <= B[j][1]: ctx.fail("Member {} is not within bounds {}", values, B)
            if not B[j][0] <= old['members'][k][1][j] <= B[j][1]: inside = False
        if inside and [SSE, values] != list(old['members'][k]): ctx.fail("Member within bounds got changed")
        if not inside: ctx.mark("limited")
    same(ctx, {k: old[k] for k in ('names', 'size', 'constraints', 'limit')}, new, "new bounds")
    ctx.state(new)
    evolve(w, p2, evo, "mixed", SETTINGS[0], 1)
    for v in evo.log:
        for j, x in enumerate(v):
            if not B[j][0] <= x <= B[j][1]: ctx.fail("Trial {} is not within bounds {}", v, B)


def long(ctx):
    """
    A history so long that row numbers get large.
    """
    w = World(ctx)
    p, evo = start(ctx, w, 400)
    N = ctx.pick((250, 251, 252, 253, 300, 396), "records")
    kind = ctx.pick(('never', 'former', 'alternating'), "kind")
    for n in range(N):
        i = Individual(p, [1.0 + 0.001*n, -2.0 + 0.002*n])
        i.SSE = 30.0 + (n*7) % 50
        never = kind == 'never' or kind == 'alternating' and n % 2
        p.history.add(i, neverInPop=bool(never))
        if not never: p.history.notInPop(i)
    # New members get high row numbers
    for k in range(ctx.choose(3, "replaced")):
        i = Individual(p, [3.0 + k, 4.0 - k])
        i.SSE = 19.0 - k
        p[k] = i
    w.pump()
    before = digest(p)
    p2 = reload(p, evo)
    same(ctx, before, digest(p2), "long history")
    ctx.mark("long history")
    ctx.state(N, kind)
    evolve(w, p, evo, "mixed", SETTINGS[0], 1)
    evolve(w, p2, evo, "mixed", SETTINGS[0], 1)
    same(ctx, digest(p), digest(p2), "evolution with long history")


def scenarios(tier, seed):
    T = tier == "thorough"
    P = ['good', 'bad', 'mixed', 'late', 'slight', 'early']
    S = [
        ("words 0", words, {'N_max': (4, 6, 1500), 'length': 0, 'patterns': P, 'gens': 3}, {}),
        ("words 1", words, {'N_max': (4, 6, 1500), 'length': 1, 'patterns': P, 'gens': 3}, {}),
        ("words 2", words, {'N_max': (5, 6, 1500), 'length': 2, 'patterns': P, 'gens': 2}, {}),
        ("moments", mid, {'N_max': (4, 6, 1500), 'moments': 24, 'patterns': P}, {}),
        ("bounds", bounds, {}, {}),
        ("long history", long, {}, {}),
        ("other process", words, {'N_max': (6,), 'length': 1, 'process': True}, {}),
    ]
    if T:
        S.append(("words 3", words, {'N_max': (5,), 'length': 3, 'patterns': P[1:4], 'gens': 2}, {}))
        S.append(("other process 2", words, {'N_max': (5,), 'length': 2, 'process': True}, {}))
    return S
