"""
C15: the history roster is an exact, sorted, bounded record of what was added.
"""

import pickle
from .drive import *

BOUNDS = {
    "quick": "rosters of at most 3 (and 1, 2) records: from 9 initial rosters, all sequences of 3 operations out of 22 (adding "
    "members and rejected trials with equal, nearly equal, new, infinite and too big SSEs and equal or different values; "
    "members leaving, by individual and by row; purging rows, purging the population, clearing, pickling), each sequence "
    "also with up to 2 operations not awaited; all sequences of 6 additions; a roster of 150 (sampled pairs)",
    "thorough": "sequences of 4 operations; sequences of 7 additions",
}
ASSUMPTIONS = [
    "rows are purged by index only while the history is idle",
    "which record gets bumped is left open here, see C30"]
MUST_COVER = ("bumped", "nobody to bump", "not finite", "left", "left by row", "purged", "purged member", "purged population",
              "cleared", "pickled", "not awaited", "duplicate", "nearly equal", "big roster")
A, B = (1.0, 2.0), (1.5, -3.0)


class Rec(object):
    __slots__ = ['n', 'i', 'SV', 'key', 'row']


def f4(x):
    with np.errstate(over='ignore'): return float(np.float32(x))


class Model(object):
    """
    All the rosters there may be: each a dict of record number to category.
    """
    def __init__(self, ctx, h, N_max):
        self.ctx, self.h, self.N_max = ctx, h, N_max
        self.recs = []
        self.S = [{}]

    def dedupe(self, S):
        seen = set(); result = []
        for s in S:
            k = tuple(sorted(s.items()))
            if k not in seen:
                seen.add(k)
                result.append(s)
        self.S = result

    def add(self, i, never):
        ctx = self.ctx
        SSE = float(i.SSE)
        SV = tuple(f4(x) for x in [SSE] + list(i.values))
        if not all(np.isfinite(SV)):
            ctx.mark("not finite")
            return
        r = Rec()
        r.n = len(self.recs)
        r.i = i
        r.SV = SV
        r.key = (SSE, tuple(float(x) for x in i.values))
        r.row = None
        if any(x.key == r.key for x in self.recs): ctx.mark("duplicate")
        elif any(x.SV[0] == r.SV[0] and x.key[0] != r.key[0] for x in self.recs): ctx.mark("nearly equal")
        self.recs.append(r)
        S = []
        for s in self.S:
            if len(s) < self.N_max:
                S.append(dict(s)); S[-1][r.n] = 'never' if never else 'in'
                continue
            who = [n for n, cat in s.items() if cat != 'in']
            if not who:
                ctx.mark("nobody to bump")
                S.append(s)
            else: ctx.mark("bumped")
            for n in who:
                t = dict(s)
                del t[n]
                t[r.n] = 'never' if never else 'in'
                S.append(t)
        self.dedupe(S)
        return r

    def left(self, key):
        S = []
        for s in self.S:
            who = [n for n, cat in s.items() if cat == 'in' and self.recs[n].key == key]
            # Doesn't matter which, they're equal
            t = dict(s)
            if who:
                t[who[0]] = 'former'
                self.ctx.mark("left")
            S.append(t)
        self.dedupe(S)

    def listing(self, s):
        return sorted((self.recs[n].SV, cat) for n, cat in s.items())

    def check(self):
        h, ctx = self.h, self.ctx
        rows = hist_records(h)
        if len(h) > self.N_max: ctx.fail("{} records with limit {}", len(h), self.N_max)
        SSEs = [r[0] for r in rows]
        if SSEs != sorted(SSEs): ctx.fail("Not in order: {}", SSEs)
        if [tuple(float(x) for x in v) for v in h] != [r[1] for r in rows]: ctx.fail("Iteration and items differ")
        K = [int(k) for k in h.K]
        if len(set(K)) != len(K): ctx.fail("Rows {} used more than once", K)
        if not set(int(k) for k in h.Kp) <= set(K): ctx.fail("Members {} not on the roster {}", h.Kp, K)
        if not set(int(k) for k in h.Kn) <= set(K): ctx.fail("Rejected {} not on the roster {}", h.Kn, K)
        if set(h.Kn) & set(h.Kp): ctx.fail("Both members and rejected: {} {}", h.Kn, h.Kp)
        have = sorted(((r[0],) + r[1], r[2]) for r in rows)
        S = [s for s in self.S if self.listing(s) == have]
        if not S:
            ctx.fail("History lists {} but could only list {}", have, [self.listing(s) for s in self.S])
        self.S = S
        ctx.state(have)

    def known(self, cat=None):
        """
        Records that are certain to be listed (with category cat).
        """
        return [r for r in self.recs if all(r.n in s and (cat is None or s[r.n] == cat) for s in self.S)]


ADDS = [(x, v, never) for x, v in ((10.0, A), (20.0, B), (15.0, None), (10.0 + 1E-9, B)) for never in (False, True)]
BAD = [(INF, A, False), (1E39, A, True), (NAN, B, False)]
OTHERS = [('leave', 'first'), ('leave', 'last'), ('leave', 'gone'), ('leave', 'never'), ('leave', 'stranger'),
          ('leaverow', 'first'), ('leaverow', 'never'),
          ('purge', 'first'), ('purge', 'last'), ('purgePop',), ('clear',), ('pickle',)]

STARTS = {
    'empty': "",
    'members': "mmm",
    'former': "fff",
    'never': "nnn",
    'mixed': "mfn",
    'room': "mf",
    'one room': "mn",
    'never+members': "nmm",
    'gaps': "mxfx",
}


def words(ctx):
    q = ctx.params
    w = World(ctx)
    p = Pop(lambda v: 1.0, NAMES[:2], [(-10.0, 10.0)]*2)
    N_max = q['N_max']
    h = History(NAMES[:2], N_max=N_max)
    m = Model(ctx, h, N_max)
    fresh = [0]
    def individual(x, v):
        if v is None:
            fresh[0] += 1
            v = (3.0 + 0.7*fresh[0], 1.0/fresh[0])
        i = Individual(p, list(v))
        i.SSE = x
        return i
    def add(x, v, never):
        i = individual(x, v)
        r = m.add(i, never)
        d = m.h.add(i, neverInPop=True) if never else m.h.add(i)
        def added(kr):
            if r is not None: r.row = kr
        d.addCallback(added)
        return r
    def idle():
        w.pump()
        m.check()
    if 'start' in q:
        start = ctx.pick(q['start'], "initial roster")
        purge = []
        for k, x in enumerate(STARTS[start]):
            r = add(5.0 + 3*k, None, x == 'n')
            if x == 'f':
                m.left(r.key); h.notInPop(r.i)
            if x == 'x': purge.append(r)
            w.pump()
        for r in purge:
            h.purge(r.row)
            m.S = [{n: c for n, c in s.items() if n != r.n} for s in m.S]
        idle()
    busy = False
    for step in range(q['length']):
        if q.get('ops'):
            ops = q['ops']
        op = ctx.pick(ops, "operation")
        ctx.log(op)
        if op[0] not in ('leave', 'leaverow', 'purge', 'purgePop', 'clear', 'pickle'):
            add(*op)
        elif op[0] == 'leave':
            if op[1] == 'stranger': i = individual(77.0, A)
            elif op[1] == 'gone':
                who = [r for r in m.recs if all(s.get(r.n) != 'in' for s in m.S)]
                who = [r for r in who if not any(x.key == r.key for x in m.recs if x is not r)]
                if not who: raise Prune
                i = who[0].i
            elif op[1] == 'never':
                who = m.known('never')
                if not who: raise Prune
                i = who[0].i
            else:
                who = m.known('in')
                if not who: raise Prune
                i = who[0 if op[1] == 'first' else -1].i
            m.left((float(i.SSE), tuple(float(x) for x in i.values)))
            m.h.notInPop(i)
        elif op[0] == 'leaverow':
            if busy:
                idle()
                busy = False
            who = m.known('in' if op[1] == 'first' else 'never')
            who = [r for r in who if r.row is not None]
            if not who: raise Prune
            r = who[0]
            m.h.notInPop(r.row)
            if op[1] == 'first':
                for s in m.S: s[r.n] = 'former'
                ctx.mark("left by row")
        elif op[0] == 'purge':
            if busy:
                idle()
                busy = False
            who = [r for r in m.known() if r.row is not None]
            if not who: raise Prune
            r = who[0 if op[1] == 'first' else -1]
            if r in m.known('in'): ctx.mark("purged member")
            m.h.purge(r.row)
            for s in m.S: del s[r.n]
            ctx.mark("purged")
        elif op[0] == 'purgePop':
            m.h.purgePop()
            m.dedupe([{n: c for n, c in s.items() if c != 'in'} for s in m.S])
            ctx.mark("purged population")
        elif op[0] == 'clear':
            m.h.clear()
            m.S = [{}]
            ctx.mark("cleared")
        elif op[0] == 'pickle':
            if busy:
                idle()
                busy = False
            m.h = pickle.loads(pickle.dumps(m.h))
            ctx.mark("pickled")
        if step < q['length']-1 and ctx.choose(2, "not awaited", 1):
            busy = True
            ctx.mark("not awaited")
            continue
        idle()
        busy = False


def big(ctx):
    """
    So many expendable records that pairs of them get sampled.
    """
    w = World(ctx)
    p = Pop(lambda v: 1.0, NAMES[:2], [(-10.0, 10.0)]*2)
    h = History(NAMES[:2], N_max=150)
    m = Model(ctx, h, 150)
    never = ctx.choose(2, "rejected trials")
    order = ctx.choose(3, "order")
    for k in range(156):
        i = Individual(p, [0.1*k, 1.0/(k+1)])
        i.SSE = (1000.0 + k, 1000.0 - k, 1000.0 + (k*37) % 150)[order]
        r = m.add(i, never)
        h.add(i, neverInPop=bool(never))
        w.pump()
        if not never:
            m.left(r.key); h.notInPop(i)
        if k > 148: m.check()
    ctx.mark("big roster")


def scenarios(tier, seed):
    T = tier == "thorough"
    every = ADDS + BAD + OTHERS
    starts = list(STARTS)
    S = [("operations", words, {'N_max': 3, 'length': 3, 'start': starts, 'ops': every}, {'bound': 2}),
         ("small roster", words, {'N_max': 1, 'length': 3, 'ops': every}, {'bound': 2}),
         ("roster of two", words, {'N_max': 2, 'length': 3, 'ops': every}, {'bound': 2}),
         ("additions", words, {'N_max': 3, 'length': 7 if T else 6, 'ops': ADDS[:6]}, {'bound': 0}),
         ("coming and going", words, {'N_max': 2, 'length': 7, 'ops': [ADDS[0], ADDS[2], ADDS[1], ('leave', 'first')]},
          {'bound': 1}),
         ("big roster", big, {}, {})]
    if T:
        S.append(("operations 4", words, {
            'N_max': 3, 'length': 4, 'start': ['empty', 'members', 'mixed', 'gaps'], 'ops': every}, {'bound': 1}))
    return S
