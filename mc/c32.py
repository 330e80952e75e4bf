"""
C32: displayed values have their own names and the right near-bound marks.
"""

import itertools, pickle, re
from .drive import *

BOUNDS = {
    "quick": "every combination of 9 positions between the bounds for 1-3 parameters (and 2 beyond them for 1-2) with 10 kinds of bounds and every order of their names, "
    "shown by the parameter manager and by an individual having each of 10 results, also with bounds set anew and after pickling; scaling to "
    "and from unity for all of them; tables of 2-10 members with every ranking (up to 5) or 4 of them, of 1-12 parameters",
    "thorough": "every combination of 4 parameters",
}
ASSUMPTIONS = [
    "a value exactly 5% of the way from a bound may have its mark or not",
    "how many digits are shown isn't known except that there are at least five"]
MUST_COVER = ("low", "high", "neither", "sorted names", "prelude", "no result", "reset bounds", "pickled", "many lines", "table", "some not in table",
              "table sorted", "invalid member", "zero SSE")
KINDS = ((-10.0, 10.0), (0.0, 1.0), (0, 1), (5.0, 5.001), (1E-9, 2E-9), (-3, -1), (1E6, 2E7), (-1E-4, 1E5), (0.0, 1E-300), (-20, 0))
POSITIONS = (0.5, 0.0, 0.01, 0.049, 0.051, 0.949, 0.951, 0.99, 1.0)
BEYOND = (-0.25, 1.2)
SETS = (("a",), ("b", "a"), ("x10", "x2"), ("X", "a", "_b"), ("c", "a", "b"), ("a2", "a", "a1"), ("p3", "p2", "p1", "p0"))
RESULTS = (0.0, 1.5, 12345.678, 0.00004, None, INF, NAN, -1.0, np.float32(2.5), 7)


def token(u):
    """
    Reference: marks for a position.
    """
    return 1 if u < 0.05 else 2 if u > 0.95 else 0


def close(x, y, scale=0.0):
    """
    Equal to five digits or more.
    """
    return abs(x-y) <= 1E-4*abs(y)


def shows(ctx, text, names, values, marks):
    """
    Whether the text shows exactly the values with their names and marks.
    """
    got = re.findall(r'(?:^|[\s<])([A-Za-z_]\w*)=([^\s>*]+)(\**)(?=[\s>]|$)', text)
    got = [x for x in got if x[0] != "SSE"]
    if [x[0] for x in got] != sorted(names): ctx.fail("Names in {!r} are {}", text, [x[0] for x in got])
    for name, value, stars in got:
        k = names.index(name)
        if not close(float(value), float(values[k])): ctx.fail("Value of {} is {} in {!r}", name, values[k], text)
        if len(stars) != marks[k]: ctx.fail("Value {} of {} has the wrong mark in {!r}", values[k], name, text)
        ctx.mark(("neither", "low", "high")[marks[k]])


def settle(ctx, names, kinds, us):
    """
    Bounds, values and marks.
    """
    return [KINDS[k] for k in kinds], [KINDS[k][0] + u*(KINDS[k][1] - KINDS[k][0]) for k, u in zip(kinds, us)], [token(u) for u in us]


def pretty(ctx):
    q = ctx.params
    w = World(ctx)
    names = list(ctx.pick(q['sets'], "names"))
    N = len(names)
    if N > 1 and sorted(names) != names: ctx.mark("sorted names")
    first = ctx.choose(len(KINDS), "bounds")
    kinds = [(first + 3*k) % len(KINDS) for k in range(N)]
    us = [ctx.pick(q['positions'], "position") for k in range(N)]
    bounds, values, marks = settle(ctx, names, kinds, us)
    how = ctx.choose(3, "how", cost=1)
    if how == 1:
        ctx.mark("reset bounds")
        pm = ParameterManager(names, [(x[0]-3.0, x[1]+3.0) for x in bounds])
        pm.prettyValues(np.array(values, dtype=float))
        pm.setup(bounds)
    else: pm = ParameterManager(names, bounds)
    if how == 2:
        ctx.mark("pickled")
        pm = pickle.loads(pickle.dumps(pm))
    x = np.array(values, dtype=float)
    prelude = ctx.choose(3, "prelude", cost=1)
    if prelude: ctx.mark("prelude")
    text = pm.prettyValues(x) if prelude == 0 else pm.prettyValues(x, "SSE={:.5f} with", 1.25) if prelude == 1 else pm.prettyValues(x, "Just")
    if prelude and not text.startswith("SSE=1.25000 with" if prelude == 1 else "Just"): ctx.fail("No prelude in {!r}", text)
    shows(ctx, text, names, values, marks)
    if list(x) != [float(v) for v in values]: ctx.fail("Showing modified the values")
    for k in range(N):
        for col in (False, True):
            s = pm.stringValue(k, values[k], forColumn=col).strip()
            if not close(float(s.rstrip('*')), float(values[k])) or len(s) - len(s.rstrip('*')) != marks[k]:
                ctx.fail("Value {} of {} within {} is shown as {!r}", values[k], names[k], bounds[k], s)
    want = [names.index(n) for n in sorted(names)]
    if [k for k, n in pm.sortedNamerator()] != want or list(pm.sortedNamerator(namesOnly=True)) != sorted(names):
        ctx.fail("Sorted names are {}", list(pm.sortedNamerator()))
    if [t[2] for t in pm.sortedNamerator(values)] != [values[k] for k in want]: ctx.fail("Sorted values are {}", list(pm.sortedNamerator(values)))
    # Scaling
    u = pm.toUnity(x)
    v = pm.fromUnity(np.array(us))
    for k in range(N):
        scale = max(abs(bounds[k][0]), abs(bounds[k][1]))
        span = bounds[k][1] - bounds[k][0]
        if not abs(u[k] - us[k]) <= 1E-12*max(1.0, scale/span): ctx.fail("{} within {} scaled is {}", values[k], bounds[k], u[k])
        if not abs(v[k] - values[k]) <= 1E-12*scale: ctx.fail("{} scaled to {} is {}", us[k], bounds[k], v[k])
    # Individual
    p = Pop(lambda values: 1.0, names, bounds)
    i = Individual(p, list(values))
    SSE = ctx.pick(RESULTS, "result", cost=1)
    i.SSE = SSE
    if SSE is None: ctx.mark("no result")
    text = repr(i)
    shows(ctx, text, names, values, marks)
    m = re.search(r'SSE=([^\s>]+)', text)
    if m:
        got = float(m.group(1))
        want = eff(SSE)
        if not (got == want or abs(got-want) <= 0.0001): ctx.fail("Individual with result {} is shown as {!r}", SSE, text)
    elif eff(SSE) < INF: ctx.fail("No SSE in {!r}", text)
    ctx.state(names, kinds, us)
    ctx.log("text", text)


def lines(ctx):
    """
    With many parameters, on several lines.
    """
    w = World(ctx)
    N = ctx.pick((1, 5, 8, 9, 10, 11, 20), "parameters")
    long = ctx.choose(4, "longer names")
    names = ["n{}{:d}".format("_abc_d"*long, (7*k) % N if N % 7 else k) for k in range(N)]
    bounds = [(-1.0 - k, 1.0 + k) for k in range(N)]
    low = ctx.choose(N, "low"); high = ctx.choose(N, "high")
    us = [0.01 if k == low else 0.99 if k == high else 0.3 + 0.4*k/N for k in range(N)]
    values = [b[0] + u*(b[1]-b[0]) for b, u in zip(bounds, us)]
    pm = ParameterManager(names, bounds)
    text = pm.prettyValues(np.array(values), "SSE={:.5f} with", 1234.5)
    if '\n' in text: ctx.mark("many lines")
    for x in text.split('\n'):
        if len(x) > 130: ctx.fail("Line {!r} is too long", x)
    shows(ctx, text, names, values, [token(u) for u in us])
    ctx.state(N, long, low, high)
    ctx.log("text", text)


def table(ctx):
    q = ctx.params
    w = World(ctx)
    N, Nd = q['N'], q['Nd']
    names = ["n{:d}".format((5*k) % Nd if Nd % 5 else k) for k in range(Nd)]
    bounds = [(0.0, 10.0 + k) for k in range(Nd)]
    class P(Pop):
        Np_min = N
        popsize = 1
        Np_max = N
    p = P(lambda values: 5.0, names, bounds)
    if p.Np != N: raise Prune
    f = Fired(p.setup(uniform=True)); w.pump()
    if not f or len(p) != N: raise Prune
    if ctx.choose(2, "shown before"): repr(p)
    if q['perms']:
        left = list(range(N)); order = []
        while left: order.append(left.pop(ctx.choose(len(left), "rank")))
    else:
        stride = ctx.pick((1, -1, 3, 7), "stride")
        order = [(k*stride) % N for k in range(N)]
        if len(set(order)) < N: raise Prune
    bad = ctx.choose(2, "invalid") if N > 2 else 0
    zero = ctx.choose(2, "zero SSE")
    if zero: ctx.mark("zero SSE")
    members = []
    marked = ctx.choose(Nd+1, "marked parameter")
    for k in range(N):
        us = [0.1 + 0.8*(k+1.5*j)/(N+1.5*Nd) for j in range(Nd)]
        if marked: us[marked-1] = 0.02 if k % 2 else 0.97
        i = Individual(p, [b[0] + u*(b[1]-b[0]) for b, u in zip(bounds, us)])
        i.SSE = 0.5*(order[k]+1-zero)
        if bad and order[k] == N-1:
            ctx.mark("invalid member")
            i.SSE = INF
        p[k] = i
        members.append((order[k], float(i.SSE), list(i.values), [token(u) for u in us]))
    w.pump()
    resort(p)
    text = repr(p)
    ctx.mark("table")
    members.sort(key=lambda m: m[0])
    if order != sorted(order): ctx.mark("table sorted")
    rows = {}
    for line in text.split('\n'):
        if line.count('|') != 1: continue
        name, rest = [x.strip() for x in line.split('|')]
        if name in rows: ctx.fail("{} shown twice in {!r}", name, text)
        rows[name] = rest.split()
    if set(rows) != set(names) | {"SSE"}: ctx.fail("Names {} shown in {!r}", sorted(rows), text)
    n = len(rows["SSE"])
    if n < min(N, 5) or n > N: ctx.fail("{} of {} members shown in {!r}", n, N, text)
    if n < N: ctx.mark("some not in table")
    for j in range(n):
        if not float(rows["SSE"][j]) == members[j][1] and not close(float(rows["SSE"][j]), members[j][1]):
            ctx.fail("Member {} with SSE {} has {} in {!r}", j, members[j][1], rows["SSE"][j], text)
    for k, name in enumerate(names):
        row = rows[name]
        if len(row) != n: ctx.fail("{} of {} values of {} in {!r}", len(row), n, name, text)
        for j in range(n):
            x = row[j].rstrip('*')
            if not close(float(x), members[j][2][k]) or len(row[j]) - len(x) != members[j][3][k]:
                ctx.fail("Member {} has {}={} but {} in {!r}", j, name, members[j][2][k], row[j], text)
    # The best one, in full
    shows(ctx, text[text.rindex('<'):], names, members[0][2], members[0][3])
    m = re.search(r'(\d+) individuals with SSE (\S+) to (\S+),', text)
    if m:
        if int(m.group(1)) != N: ctx.fail("Number of individuals is {} in {!r}", N, text)
        if not close(float(m.group(2)), members[0][1]) or (float(m.group(3)) != members[-1][1] and not close(float(m.group(3)), members[-1][1])):
            ctx.fail("Range of SSEs is wrong in {!r}", text)
    ctx.state(members)
    ctx.log("text", text.split('\n')[2:])


def scenarios(tier, seed):
    T = tier == "thorough"
    S = [("pretty", pretty, {'sets': SETS[:3], 'positions': POSITIONS + BEYOND}, {'bound': 1}),
         ("pretty three", pretty, {'sets': SETS[3:6], 'positions': POSITIONS}, {'bound': 0}),
         ("pretty three with others", pretty, {'sets': SETS[3:6], 'positions': POSITIONS[::4]}, {'bound': 2}),
         ("lines", lines, {}, {})]
    if T: S.append(("pretty four", pretty, {'sets': SETS[6:], 'positions': POSITIONS}, {'bound': 0}))
    for N in (2, 3, 4, 5): S.append(("table of {}".format(N), table, {'N': N, 'Nd': 2, 'perms': True}, {}))
    for N in (7, 8, 10):
        for Nd in (1, 3, 6): S.append(("table of {}x{}".format(N, Nd), table, {'N': N, 'Nd': Nd, 'perms': False}, {}))
    S.append(("table of 9x12", table, {'N': 12, 'Nd': 12, 'perms': False}, {}))
    return S
