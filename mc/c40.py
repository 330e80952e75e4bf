"""
C40: settings are exactly those given, or else the documented defaults.
"""

import io, sys
from .drive import *

BOUNDS = {
    "quick": "evolution objects with every pair of 10 settings having each of 2-5 values, given by keyword, as None, by attribute of a subclass or not at all; "
    "populations with every combination of 5 settings; each with an object of default settings made before and after; 7 ways of logging",
    "thorough": "every three settings",
}
ASSUMPTIONS = ["what the settings do is the matter of other properties"]
MUST_COVER = ("keyword", "None", "subclass", "default", "falsy", "refused", "log handle", "log to STDOUT", "no log", "population", "size limited", "constraints")
DEFAULTS = {
    'CR': 0.8, 'F': (0.5, 1.0), 'maxiter': 500, 'randomBase': False, 'uniform': False, 'adaptive': True, 'bitterEnd': False, 'dwellByGrave': 5,
    'goalSSE': None, 'xSSE': False}
VALUES = {
    'CR': (0.0, 1, 0.25), 'F': (0.7, (0.2, 0.9), [0, 1]), 'maxiter': (0, 1, 1000), 'randomBase': (True, 0.0, 0.5), 'uniform': (True, False),
    'adaptive': (False, True), 'bitterEnd': (True, False), 'dwellByGrave': (0, 1, 40), 'goalSSE': (0.0, 1E-9, 12), 'xSSE': (True, False)}


def same(x, y):
    if isinstance(y, (list, tuple)): return hasattr(x, '__len__') and list(x) == list(y)
    if y is None or isinstance(y, bool): return x is y
    return not isinstance(x, bool) and x == y


def evolution(ctx):
    q = ctx.params
    w = World(ctx)
    p = Pop(lambda values: 1.0, NAMES[:2], [(-1.0, 1.0)]*2)
    def check(de, want):
        for name in DEFAULTS:
            if not same(getattr(de, name, 'missing'), want[name]): ctx.fail("Setting {} is {!r} rather than {!r}", name, getattr(de, name, 'missing'), want[name])
    want = dict(DEFAULTS)
    kw = {}; attrs = {}
    first = -1
    names = sorted(DEFAULTS)
    for k in range(q['N']):
        n = first + 1 + ctx.choose(len(names) - first - q['N'] + k, "setting")
        first = n
        name = names[n]
        value = ctx.pick(VALUES[name], "value")
        source = ctx.pick(('keyword', 'subclass', 'None', 'both'), "source")
        if not value: ctx.mark("falsy")
        if source == 'keyword':
            ctx.mark("keyword")
            want[name] = kw[name] = value
        elif source == 'subclass':
            ctx.mark("subclass")
            want[name] = attrs[name] = value
        elif source == 'both':
            attrs[name] = VALUES[name][-1]
            want[name] = kw[name] = value
        else:
            ctx.mark("None")
            kw[name] = None
    cls = type("Sub", (DifferentialEvolution,), attrs) if attrs else DifferentialEvolution
    one = DifferentialEvolution(p, logHandle=None)
    given = dict(kw)
    de = cls(p, logHandle=None, **kw)
    two = DifferentialEvolution(p, logHandle=None)
    check(de, want)
    if kw != given: ctx.fail("Keywords {} became {}", given, kw)
    if de.p is not p or de.running is not True: ctx.fail("Population or running flag not set")
    for other in (one, two): check(other, DEFAULTS)
    ctx.mark("default")
    ctx.state(sorted(kw.items(), key=str), sorted(attrs.items(), key=str))
    ctx.log("settings", sorted(want.items(), key=str))


def rates(ctx):
    """
    Crossover rates.
    """
    w = World(ctx)
    p = Pop(lambda values: 1.0, NAMES[:2], [(-1.0, 1.0)]*2)
    CR = ctx.pick((0.0, 0, 1E-300, 0.5, 1.0, 1, np.float64(0.3), -1E-300, -0.1, 1.0000001, 2, -INF, INF), "CR")
    good = 0 <= CR <= 1
    try: de = DifferentialEvolution(p, logHandle=None, CR=CR)
    except ValueError:
        ctx.mark("refused")
        if good: ctx.fail("Crossover rate {} refused", CR)
    else:
        if not good: ctx.fail("Crossover rate {} accepted", CR)
        if de.CR != CR: ctx.fail("Crossover rate {} became {}", CR, de.CR)
    ctx.state(repr(CR))


def logs(ctx):
    """
    Where the log goes.
    """
    w = World(ctx)
    class P(Pop): Np_min = 4
    p = P(lambda values: 1.0, NAMES[:2], [(-1.0, 1.0)]*2)
    f = Fired(p.setup(uniform=True)); w.pump()
    how = ctx.pick(('default', 'True', 'None', 'False', 'handle', 'handle twice', 'handle then default'), "how")
    real, sys.stdout = sys.stdout, io.StringIO()
    try:
        class Handle(io.StringIO):
            # So what was written can still be read
            def close(self): pass
        h1 = Handle(); h2 = Handle()
        quiet = (h1, h2, sys.stdout)
        kw = {'maxiter': 2, 'bitterEnd': True}
        if how == 'default': de = DifferentialEvolution(p, **kw); where = sys.stdout
        elif how == 'True': de = DifferentialEvolution(p, logHandle=True, **kw); where = sys.stdout
        elif how in ('None', 'False'): de = DifferentialEvolution(p, logHandle=None if how == 'None' else False, **kw); where = None
        elif how == 'handle': de = DifferentialEvolution(p, logHandle=h1, **kw); where = h1
        elif how == 'handle twice':
            DifferentialEvolution(p, logHandle=h1)
            de = DifferentialEvolution(p, logHandle=h2, **kw)
            where = h2
        else:
            DifferentialEvolution(p, logHandle=h1)
            de = DifferentialEvolution(p, **kw)
            where = sys.stdout
        f = Fired(de()); w.pump()
        if not f: ctx.fail("Not done")
        for h in quiet:
            text = h.getvalue()
            if h is where:
                for x in ("Generation 1/2", "Generation 2/2"):
                    if text.count(x) != 1: ctx.fail("With log handle {}, {!r} was logged {} times", how, x, text.count(x))
            elif text: ctx.fail("With log handle {}, something else got {!r}", how, text)
        ctx.mark("log to STDOUT" if where is sys.stdout else "log handle" if where else "no log")
    finally:
        msg(None)
        sys.stdout = real
    ctx.state(how)


def passing(params): return True


def population(ctx):
    w = World(ctx)
    n = ctx.pick((1, 2, 5), "parameters")
    popsize = ctx.pick((None, 1, 4, 7.0, 150), "popsize")
    debug = ctx.pick((None, True, False), "debug")
    fraction = ctx.pick((None, 0.05, 1), "target fraction")
    constraints = ctx.pick((None, [], [passing], (passing,)), "constraints")
    limits = ctx.pick((None, (8, 12), (4, 6)), "limits")
    attrs = {} if limits is None else {'Np_min': limits[0], 'Np_max': limits[1]}
    if limits and ctx.choose(2, "subclass with others"): attrs.update({'popsize': 3, 'targetFraction': 0.1, 'debug': True})
    cls = type("Sub", (Population,), attrs)
    kw = {}
    if popsize is not None: kw['popsize'] = popsize
    if debug is not None: kw['debug'] = debug
    if fraction is not None: kw['targetFraction'] = fraction
    if constraints is not None: kw['constraints'] = constraints
    func = lambda values: 1.0
    def make(cls, **kw): return cls(func, NAMES[:n], [(-1.0, 1.0)]*n, **kw)
    def check(p, popsize, debug, fraction, limits, many):
        lo, hi = limits
        Np = max(lo, min(int(popsize)*n, hi))
        if not popsize*n == Np: ctx.mark("size limited")
        if (p.Np, p.Nd, p.popsize) != (Np, n, popsize): ctx.fail("Size is {} for {} parameters with popsize {}", p.Np, p.Nd, p.popsize)
        if bool(p.debug) != debug: ctx.fail("Debugging is {}", p.debug)
        if not same(p.targetFraction, fraction) or abs(p.statusQuoScore - fraction*Np) > 1E-12: ctx.fail("Target fraction is {}", p.targetFraction)
        if p.running is not None or len(p): ctx.fail("Running already, with {} members", len(p))
        seen.clear()
        p.pm.passesConstraints(np.zeros(n))
        if len(seen) != many: ctx.fail("{} constraints checked rather than {}", len(seen), many)
    seen = []
    def extra(params):
        seen.append(1)
        return True
    one = make(Population)
    p = make(cls, **kw)
    two = make(Population)
    for q in (one, two): check(q, 10, False, 0.02, (20, 500), 0)
    other = attrs.get('popsize', 10), attrs.get('debug', False), attrs.get('targetFraction', 0.02)
    check(p, popsize or other[0], bool(debug) or other[1], fraction or other[2], limits or (20, 500), 0)
    p.setConstraints(extra)
    check(p, popsize or other[0], bool(debug) or other[1], fraction or other[2], limits or (20, 500), 1)
    for q in (one, two, make(Population)): check(q, 10, False, 0.02, (20, 500), 0)
    if isinstance(constraints, list) and constraints not in ([], [passing]): ctx.fail("The list of constraints became {}", constraints)
    if constraints: ctx.mark("constraints")
    ctx.mark("population")
    ctx.state(n, popsize, debug, fraction, str(type(constraints)), sorted(attrs.items()))


def scenarios(tier, seed):
    T = tier == "thorough"
    return [("one setting", evolution, {'N': 1}, {}), ("two settings", evolution, {'N': 2}, {})] + (
        [("three settings", evolution, {'N': 3}, {})] if T else []) + [
        ("rates", rates, {}, {}), ("logs", logs, {}, {}), ("population", population, {}, {})]
