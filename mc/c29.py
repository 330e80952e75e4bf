"""
C29: individuals compare by result only, with failures ranking last.
"""

import itertools, json, math, os, pickle, subprocess, sys
from .drive import *

BOUNDS = {
    "quick": "all pairs of 25 kinds of SSE (missing, zeros, integers, numpy floats, a float subclass, tiny, infinite, not-a-number, negative) with "
    "equal and different vectors of 2 values out of 4, or of one; each also versus plain numbers; all sequences of 4 operations out of sum, difference, "
    "scaling, copying, spawning, pickling, changing a value and setting the SSE on up to 4 individuals, and of 3 on those with one or three values",
    "thorough": "sequences of 5 operations",
}
ASSUMPTIONS = ["individuals are only compared with individuals and nonnegative numbers"]
MUST_COVER = ("missing", "fatal", "not a number", "infinite", "equal", "different", "same hash", "copy", "sum", "difference", "scaled", "changed",
              "other process", "pickled", "lowest")


class Result(float):
    """
    An SSE with something more to it.
    """
    extra = "foo"


INF, NAN = float('inf'), float('nan')
SSES = (None, 0, 0.0, -0.0, 1, 1.5, np.float64(1.5), np.float32(1.5), Result(1.5), 2.0, math.nextafter(2.0, 3), np.float64(2.0), np.int64(2), 1E-300, 1E300, INF, np.float64(INF), NAN,
        np.float64(NAN), Result(NAN), -1, -0.5, -1E-300, -INF, Result(-1.0))
VALUES = (0.0, -0.0, 1.0, -1E-12)
NUMBERS = (0, 0.0, 1, 1.5, np.float64(2.0), INF, 1E-300)


class PM(object):
    names = ['a', 'b']
    def prettyValues(self, values, *args): return str(values)


class Pop(object):
    pm = PM()
    def __init__(self, Nd=2): self.Nd = Nd


def key(SSE):
    """
    Reference for what an SSE counts as.
    """
    if SSE is None: return INF
    x = float(SSE)
    if math.isnan(x) or x < 0: return INF
    return x


def isFatal(SSE): return SSE is not None and float(SSE) < 0


def mark(ctx, SSE):
    if SSE is None: ctx.mark("missing")
    elif isFatal(SSE): ctx.mark("fatal")
    elif math.isnan(float(SSE)): ctx.mark("not a number")
    elif math.isinf(float(SSE)): ctx.mark("infinite")


def make(p, SSE, values):
    i = Individual(p, list(values))
    i.SSE = SSE
    return i


def pairs(ctx):
    q = ctx.params
    p = Pop(q['Nd'])
    A = ctx.pick(SSES, "SSE")
    B = ctx.pick(SSES, "other SSE")
    if q['Nd'] == 1:
        a = make(p, A, (ctx.pick(VALUES, "value"),))
        b = make(p, B, (ctx.pick(VALUES, "value"),))
    else:
        a = make(p, A, (VALUES[0], ctx.pick(VALUES, "value")))
        b = make(p, B, (ctx.pick(VALUES[:3], "value"), ctx.pick(VALUES, "value")))
    for SSE in (A, B): mark(ctx, SSE)
    kA, kB = key(A), key(B)
    for one, two, k1, k2 in ((a, b, kA, kB), (b, a, kB, kA), (a, a, kA, kA)):
        for what, got, want in (("<", one < two, k1 < k2), (">", one > two, k1 > k2)):
            if bool(got) != want: ctx.fail("{!r} {} {!r}: {}", A if one is a else B, what, B if two is b else A, got)
    for i, SSE, k in ((a, A, kA), (b, B, kB)):
        if bool(i) != (not isFatal(SSE)): ctx.fail("Truth of one with SSE {!r}: {}", SSE, bool(i))
        if float(i) != k: ctx.fail("Float of one with SSE {!r}: {}", SSE, float(i))
        if float(i.SSE) != k: ctx.fail("SSE of one with SSE {!r}: {}", SSE, i.SSE)
    same = kA == kB and [float(x) for x in a.values] == [float(x) for x in b.values]
    for one, two in ((a, b), (b, a)):
        if bool(one == two) != same: ctx.fail("Equality of {!r} {} and {!r} {}: {}", A, a.values, B, b.values, one == two)
        if bool(one != two) == same: ctx.fail("Inequality of {!r} {} and {!r} {}: {}", A, a.values, B, b.values, one != two)
        if bool(one.equals(two)) != ([float(x) for x in a.values] == [float(x) for x in b.values]): ctx.fail("Values {} vs {}", a.values, b.values)
    ctx.mark("equal" if same else "different")
    if same:
        if hash(a) != hash(b): ctx.fail("Hashes of equal individuals {!r} {} and {!r} {} differ", A, a.values, B, b.values)
        ctx.mark("same hash")
    ctx.state(repr(A), repr(B), repr(list(a.values)), repr(list(b.values)))


def numbers(ctx):
    p = Pop()
    A = ctx.pick(SSES, "SSE")
    x = ctx.pick(NUMBERS, "number")
    i = make(p, A, (0.0, 1.0))
    k = key(A)
    for what, got, want in (("<", i < x, k < x), (">", i > x, k > x), ("reflected <", x < i, x < k), ("reflected >", x > i, x > k)):
        if bool(got) != want: ctx.fail("SSE {!r} {} {!r}: {}", A, what, x, got)
    ctx.state(repr(A), repr(x))


def lowest(ctx):
    """
    Order of several, where the failures must be last.
    """
    p = Pop()
    kinds = [None, 0.0, 1.5, np.float64(2.0), INF, NAN, -1]
    S = [ctx.pick(kinds, "SSE") for _ in range(4)]
    who = [make(p, SSE, (n, n)) for n, SSE in enumerate(S)]
    best = min(who)
    if float(best) != min(key(SSE) for SSE in S): ctx.fail("Best of {} has {}", S, best.SSE)
    order = [float(i) for i in sorted(who)]
    if order != sorted(key(SSE) for SSE in S): ctx.fail("Order of {} is {}", S, order)
    ctx.mark("lowest")
    ctx.state([repr(x) for x in S])


SCRIPT = '''
import sys, json
sys.dont_write_bytecode = True
from ade.individual import Individual
class P: Nd = 2
out = []
for SSE, values in json.load(sys.stdin):
    i = Individual(P(), values)
    i.SSE = SSE
    out.append(hash(i))
print("HASHES", json.dumps(out))
'''


def process(ctx):
    """
    Hashes must be the same in another process.
    """
    p = Pop()
    cases = []
    for SSE in (None, 0, 0.0, 1, 1.5, 1E-300, INF, -1, 123.456):
        for values in itertools.product((0.0, 1.0, -1E-12, 3), repeat=2): cases.append((SSE, values))
    hashes = [hash(make(p, SSE, values)) for SSE, values in cases]
    env = dict(os.environ, PYTHONHASHSEED=str(ctx.pick((1, 4321), "hash seed")))
    out = subprocess.run([sys.executable, "-c", SCRIPT], input=json.dumps(cases), capture_output=True, text=True, env=env, timeout=300)
    lines = [x for x in out.stdout.splitlines() if x.startswith("HASHES ")]
    if out.returncode or not lines: raise RuntimeError("Other process: " + out.stderr[-500:])
    others = json.loads(lines[0][7:])
    for k, case in enumerate(cases):
        if others[k] != hashes[k]: ctx.fail("Hash of {} differs in another process", case)
    ctx.mark("other process")
    ctx.state(len(cases))


def operations(ctx):
    q = ctx.params
    Nd = q['Nd']
    p = Pop(Nd)
    start = [(1.5, [1.0, -2.0, 3.5][:Nd]), (ctx.pick((-1, None, 2), "SSE"), [0.25, 4.0, -1.5][:Nd])]
    who = [make(p, SSE, values) for SSE, values in start]
    ref = [[SSE, list(values)] for SSE, values in start]
    for n in range(q['length']):
        N = len(who)
        ops = []
        if N < 4:
            ops.extend(('sum', a, b) for a in range(N) for b in range(N))
            ops.extend(('difference', a, b) for a in range(N) for b in range(N))
            ops.extend(('scaled', a, F) for a in range(N) for F in (1, 0.5, 0))
            ops.extend(('copy', a, None) for a in range(N))
            ops.extend(('pickled', a, None) for a in range(N))
            ops.append(('spawn', 0, None))
        ops.extend(('changed', a, k) for a in range(N) for k in range(Nd))
        ops.extend(('set', a, None) for a in range(N))
        ops.append(('update', 0, None))
        op, a, b = ops[ctx.choose(len(ops), "operation")]
        if op == 'sum':
            who.append(who[a] + who[b])
            ref.append([None, [x+y for x, y in zip(ref[a][1], ref[b][1])]])
        elif op == 'difference':
            who.append(who[a] - who[b])
            ref.append([None, [x-y for x, y in zip(ref[a][1], ref[b][1])]])
        elif op == 'scaled':
            who.append(who[a] * b)
            ref.append([None, [b*x for x in ref[a][1]]])
        elif op == 'copy':
            who.append(who[a].copy())
            ref.append([ref[a][0], list(ref[a][1])])
            if not who[-1] == who[a] or hash(who[-1]) != hash(who[a]): ctx.fail("Copy is different")
        elif op == 'pickled':
            who.append(pickle.loads(pickle.dumps(who[a])))
            who[-1].p = p
            ref.append([ref[a][0], list(ref[a][1])])
        elif op == 'spawn':
            who.append(who[a].spawn([7.0, 8.0, 9.0][:Nd]))
            ref.append([None, [7.0, 8.0, 9.0][:Nd]])
        elif op == 'changed':
            who[a][b] = 10.5 + n
            ref[a][1][b] = 10.5 + n
        elif op == 'set':
            who[a].SSE = 100.0 + n
            ref[a][0] = 100.0 + n
        elif op == 'update':
            who[a].update([20.0, n, -n][:Nd])
            ref[a][1] = [20.0, float(n), -float(n)][:Nd]
        if op not in ('spawn', 'set', 'update'): ctx.mark(op)
        for m, (i, (SSE, values)) in enumerate(zip(who, ref)):
            if [float(x) for x in i] != values or [float(x) for x in i.values] != values:
                ctx.fail("After {} {} {}, values of #{} are {} rather than {}", op, a, b, m, i.values, values)
            if float(i) != key(SSE) or bool(i) != (not isFatal(SSE)):
                ctx.fail("After {} {} {}, #{} has SSE {} (true: {}) rather than {}", op, a, b, m, i.SSE, bool(i), SSE)
        ctx.state(ref)
    ctx.log("result", ref)


def scenarios(tier, seed):
    T = tier == "thorough"
    return [("pairs", pairs, {'Nd': 2}, {}), ("pairs of one value", pairs, {'Nd': 1}, {}), ("numbers", numbers, {}, {}), ("lowest", lowest, {}, {}), ("other process", process, {}, {}),
            ("operations", operations, {'Nd': 2, 'length': 4+T}, {}), ("operations on one value", operations, {'Nd': 1, 'length': 3+T}, {}),
            ("operations on three", operations, {'Nd': 3, 'length': 3}, {})]
