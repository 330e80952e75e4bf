"""
C23: history queries return exactly the records asked for, consistently.
"""

import itertools, pickle
from .drive import *

BOUNDS = {
    "quick": "all histories of up to 4 records with SSEs from {0, 1, 2, 4} in each category (added in any order), 4 kinds of query, ratios around "
    "each boundary, all selections of 3 names for histories of up to 2 records; after clearing, purging and pickling; all sequences of 5 "
    "operations or queries (2-4 records, full or not) of which any are not awaited",
    "thorough": "histories of up to 5 records, sequences of 6",
}
ASSUMPTIONS = [
    "records with the same SSE may be in any order",
    "only one category is requested at a time"]
MUST_COVER = ("in", "former", "never", "all", "empty result", "empty history", "zero best", "ties", "excluded by ratio", "at ratio",
              "names in other order", "amid update", "pickled", "cleared", "purged", "default ratio")
NAMES3 = ["gamma", "alpha", "beta"]
KW = {'in': {'inPop': True}, 'former': {'notInPop': True}, 'never': {'neverInPop': True}, 'all': {}}


class Holder(object):
    """
    Stands in for a population.
    """
    Nd = 3
    KS = None
    def __init__(self): self.history = None


def individual(SSE, n):
    i = Individual(Holder(), [n + 0.25, -n - 0.5, 2.0*n + 1.0])
    i.SSE = SSE
    return i


def ask(w, ctx, h, names, **kw):
    f = Fired(h.value_vs_SSE(names, **kw))
    w.pump()
    if not f: ctx.fail("Query never answered")
    if f.failure: ctx.fail("Query of {} with {} failed: {}", names, kw, f.failure.value)
    return f.result


def rows(ctx, result, names):
    """
    Checks the result's form and returns its rows as a list.
    """
    if len(result) != len(names) + 1: ctx.fail("{} columns for {}", len(result), names)
    n = len(result[0])
    for col in result:
        if len(col) != n: ctx.fail("Columns of {} elements", [len(x) for x in result])
    SSEs = [float(x) for x in result[0]]
    if SSEs != sorted(SSEs): ctx.fail("SSEs {} not ascending", SSEs)
    return [tuple(float(col[k]) for col in result) for k in range(n)]


def expect(records, cat, ratio, names, ctx):
    """
    Reference. Records are tuples of SSE, values, category.
    """
    if not records: return []
    best = min(r[0] for r in records)
    result = []
    for SSE, values, c in records:
        if cat not in ('all', c): continue
        if SSE > ratio*best:
            ctx.mark("excluded by ratio")
            continue
        if SSE == ratio*best: ctx.mark("at ratio")
        result.append((SSE,) + tuple(values[NAMES3.index(name)] for name in names))
    return sorted(result)


def static(ctx):
    q = ctx.params
    w = World(ctx)
    h = History(NAMES3, N_max=q.get('N_max', 8))
    records = []
    N = ctx.choose(q['N']+1, "records")
    for n in range(N):
        SSE = ctx.pick(q['SSEs'], "SSE")
        cat = ctx.pick(('in', 'former', 'never'), "category")
        i = individual(SSE, n)
        h.add(i, neverInPop=(cat == 'never'))
        if cat == 'former': h.notInPop(i)
        records.append((SSE, tuple(float(x) for x in i.values), cat))
    w.pump()
    after = ctx.pick(q['after'], "afterwards")
    if after == 'pickle':
        h = pickle.loads(pickle.dumps(h))
        ctx.mark("pickled")
    elif after == 'clear':
        h.clear()
        # Something of another kind
        records = records[:1]
        for SSE, values, cat in records: h.add(individual(SSE, 0))
        records = [(SSE, values, 'in') for SSE, values, cat in records]
        w.pump()
        ctx.mark("cleared")
    elif after == 'purge':
        h.purgePop()
        records = [r for r in records if r[2] != 'in']
        w.pump()
        ctx.mark("purged")
    SSEs = [r[0] for r in records]
    if len(set(SSEs)) < len(SSEs): ctx.mark("ties")
    if 0 in SSEs: ctx.mark("zero best")
    if not records: ctx.mark("empty history")
    names = ctx.pick(q['names'], "names")
    ratio = ctx.pick(q['ratios'], "ratio")
    want_names = sorted(NAMES3) if not names else names
    if names and isinstance(names[0], int): want_names = sorted(NAMES3)[slice(*names)]
    if want_names != sorted(want_names): ctx.mark("names in other order")
    total = []
    for cat in ('in', 'former', 'never', 'all'):
        kw = dict(KW[cat])
        if ratio is None: ctx.mark("default ratio")
        else: kw['maxRatio'] = ratio
        got = sorted(rows(ctx, ask(w, ctx, h, names, **kw), want_names))
        want = expect(records, cat, 1000 if ratio is None else ratio, want_names, ctx)
        ctx.mark(cat if want else "empty result")
        if got != want:
            ctx.fail("Query of {} with {} gave {} but history is {}", names, kw, got, records)
        if cat == 'all':
            if sorted(total) != got: ctx.fail("Categories have {} but there is {}", total, got)
        else: total.extend(got)
    ctx.state(records, after)


OPS = ('in', 'never', 'former', 'leave', 'purge', 'clear', 'query in', 'query former', 'query never', 'query all')


def play(ctx, w, ops, N_max, awaited):
    """
    Plays the operations and returns the query results at each query, along with
    the operation number, and (if all were awaited) the answers to all queries
    possible after each operation.
    """
    h = History(NAMES3, N_max=N_max)
    first = []
    for n in range(2):
        first.append(individual(2.0 + n, n))
        h.add(first[-1])
    w.pump()
    queries = []
    answers = [{}]
    def snap():
        for cat in KW: answers[-1][cat] = rows(ctx, ask(w, ctx, h, NAMES3, **KW[cat]), NAMES3)
    if awaited is None: snap()
    inside = list(first)
    for n, op in enumerate(ops):
        i = individual(1.0 + (n*7) % 4, 10+n)
        if op in ('in', 'former', 'never'):
            h.add(i, neverInPop=(op == 'never'))
            if op == 'former': h.notInPop(i)
            elif op == 'in': inside.append(i)
        elif op == 'leave':
            if inside: h.notInPop(inside.pop(0))
        elif op == 'purge':
            h.purgePop()
            inside = []
        elif op == 'clear':
            h.clear()
            inside = []
        else:
            cat = op.split()[1]
            queries.append((n, cat, Fired(h.value_vs_SSE(NAMES3, **KW[cat]))))
        if op.startswith('query') and not queries[-1][2]: ctx.mark("amid update")
        if awaited is None or awaited[n]: w.pump()
        if awaited is None:
            answers.append({})
            snap()
    w.pump()
    result = []
    for n, cat, f in queries:
        if not f or f.failure: ctx.fail("Query never answered properly: {}", f.failure)
        result.append((n, cat, rows(ctx, f.result, NAMES3)))
    return result, answers


def amid(ctx):
    q = ctx.params
    w = World(ctx)
    N_max = ctx.pick(q['N_max'], "limit")
    ops = []
    for k in range(q['length']):
        ops.append(ctx.pick(q['ops'], "operation"))
    if not any(op.startswith('query') for op in ops): raise Prune
    if ops[0].startswith('query'): raise Prune
    # Which ones to await: all that precede the ones not awaited
    awaited = [ctx.choose(2, "await") == 1 if k < q['length']-1 else True for k in range(q['length'])]
    results, _ = play(ctx, w, ops, N_max, awaited)
    _, answers = play(ctx, w, ops, N_max, None)
    for n, cat, got in results:
        # Any state from where the last wait was to the end
        k0 = max([k+1 for k in range(n) if awaited[k]] or [0])
        k1 = min([k for k in range(n, len(ops)) if awaited[k]]) + 1
        possible = [answers[k][cat] for k in range(k0, k1+1)]
        if sorted(got) not in [sorted(x) for x in possible]:
            ctx.fail("Query {} of {} awaited {} gave {}, not one of {}", n, ops, awaited, got, possible)
    ctx.log("results", results)
    ctx.state(results)


def scenarios(tier, seed):
    T = tier == "thorough"
    perms = [list(x) for n in (1, 2, 3) for x in itertools.permutations(NAMES3, n)]
    S = [("records", static, {'N': 4+T, 'SSEs': (0.0, 1.0, 2.0, 4.0) if not T else (0.0, 1.0, 3.0), 'names': (["beta", "gamma"],),
                              'ratios': (1.0, 2.0, 3.0), 'after': (None,)}, {}),
         ("afterwards", static, {'N': 3, 'SSEs': (0.0, 1.0, 2.0), 'names': (["alpha"],), 'ratios': (None, 2.0),
                                 'after': ('pickle', 'clear', 'purge')}, {}),
         ("names", static, {'N': 2, 'SSEs': (1.0, 2.0), 'names': perms + [[], [0, 2], [1, 3], [2]], 'ratios': (None, 1.5),
                            'after': (None, 'pickle')}, {}),
         ("ratios", static, {'N': 2, 'SSEs': (0.0, 1.0, 2.0, 1000.0, 1001.0, 2.0**90), 'names': (["alpha"],),
                             'ratios': (None, 0, 0.5, 1.0, 1.5, 2.0, 1000, 1001.0, 1E9), 'after': (None,)}, {})]
    S.append(("amid updates", amid, {'N_max': (2, 3), 'length': 4+T, 'ops': OPS}, {}))
    S.append(("amid updates, longer", amid, {'N_max': (3,), 'length': 5, 'ops': ('never', 'in', 'leave', 'query all', 'query former')}, {}))
    return S
