"""
C35: each outcome is shown by its documented progress character.
"""

import io

from .drive import *
from ade.util import msg

BOUNDS = {
    "quick": "all ordered pairs of 31 results as reports of one vs. another, after each of 5 best results; all sequences of 4 reports out of 13 on one individual "
    "or two, shown or not; setup of 4 members with up to 3 non-default results (out of 8) or completions; 1-2 generations of 4-5 members with all completion orders or all "
    "results out of 9 (and constraints failing at any one or two trials); runs of characters around multiples of the line length with a message, a reset or nothing in between",
    "thorough": "sequences of 5 reports; evolutions with one more non-default decision",
}
ASSUMPTIONS = [
    "which character a fatal result gets is left open",
    "a ratio halfway between two integers may be rounded either way",
    "what is shown for the very first individual reported on is left open if its result is invalid"]
MUST_COVER = ("worse", "equivalent", "digit", "at least nine", "invalid target", "invalid trial", "both invalid", "new best", "first", "better than best",
              "worse than best", "invalid vs best", "suppressed", "constraint", "wrapped", "reset", "after message")
EPS = 1E-7
RESULTS = [
    0, 0.0, 1E-300, 1.0, np.float32(1.0), 1, 99.0, 99.9, 100.0, np.float64(100.0), 100, 101.0, 101.9, 102.5, 103.0, 149.0, 151.0,
    249.0, 251.0, 349.0, 940.0, 960.0, 1040.0, 840.0, 1E5, 1E300, INF, None, NAN, np.float64('nan'), np.float32('inf')]
SYMBOLS = set("X0123456789!#%+*?~")


class Log(object):
    """
    Context with everything logged in my text.
    """
    def __init__(self): self.fh = io.StringIO()

    def __enter__(self):
        self.old = msg(self.fh)
        return self

    def __exit__(self, *args): msg(self.old)

    def pop(self):
        """
        What got logged since last time, as lines.
        """
        text = self.fh.getvalue()
        self.fh.seek(0)
        self.fh.truncate()
        return text.split('\n')

    def chars(self):
        """
        The progress characters logged since last time.
        """
        return ''.join(x for x in self.pop() if x and set(x) <= SYMBOLS)


def digits(worse, better):
    """
    The characters permitted for how much better one (valid) result is than
    another (valid) one.
    """
    worse, better = float(worse), float(better)
    if worse == better: return {"0"}
    if better == 0: return {"9"}
    x = 1.0 - better/worse
    if x < 0.02 - EPS: return {"0"}
    r = worse/better
    result = set() if x > 0.02 + EPS else {"0"}
    for e in (-EPS, EPS): result.add(str(int(min(9, np.floor(r + 0.5 + e)))))
    return result


def versus(ctx, new, old):
    """
    The characters permitted for a trial vs. its target.
    """
    if eff(old) == INF:
        ctx.mark("both invalid" if eff(new) == INF else "invalid target")
        return {"%"} if eff(new) == INF else {"!"}
    if eff(new) == INF:
        ctx.mark("invalid trial")
        return {"#"}
    if float(new) > float(old):
        ctx.mark("worse")
        return {"X"}
    result = digits(old, new)
    ctx.mark("equivalent" if "0" in result else "at least nine" if "9" in result else "digit")
    return result


class Best(object):
    """
    Reference: the best result reported thus far.
    """
    def __init__(self): self.SSE = None

    def alone(self, ctx, x):
        if self.SSE is None:
            ctx.mark("first")
            self.SSE = eff(x)
            return None if eff(x) == INF else {"*"}
        best, new = self.SSE, eff(x)
        if new < best:
            ctx.mark("better than best")
            self.SSE = new
            return {"!"}
        if new == INF:
            ctx.mark("invalid vs best")
            return {"%"} if best == INF else {"#"}
        ctx.mark("worse than best")
        return digits(new, best)

    def two(self, ctx, x, y):
        result = versus(ctx, x, y)
        if self.SSE is None or eff(x) < self.SSE:
            self.SSE = eff(x)
            ctx.mark("new best")
            result = {c + "+" for c in result}
        return result


def individual(p, x, n=[0]):
    n[0] += 1
    i = Individual(p, [0.001*(n[0] % 1000), 2.0])
    i.SSE = x
    return i


def bare(w):
    p, ev = make_pop(w, [1.0, 2.0, 3.0, 4.0])
    p.reporter = Reporter(p)
    return p, ev


def same(ctx, got, want, what, *args):
    if want is not None and got not in want: ctx.fail("Characters {!r} rather than {} for " + what, got, sorted(want), *args)


def pairs(ctx):
    w = World(ctx)
    p, ev = bare(w)
    first = ctx.pick(ctx.params['best'], "best")
    old = ctx.pick(RESULTS, "old")
    new = ctx.pick(RESULTS, "new")
    best = Best()
    with Log() as log:
        if first != 'none':
            best.alone(ctx, first)
            p.reporter(individual(p, first))
            log.pop()
        how = ctx.pick(('reporter', 'population'), "how")
        i, iOther = individual(p, new), individual(p, old)
        if how == 'reporter': p.reporter(i, iOther)
        else: p.report(i, iOther)
        got = log.chars()
    want = best.two(ctx, new, old)
    ctx.log("characters", got)
    ctx.state(repr(first), repr(old), repr(new))
    same(ctx, got, want, "{!r} vs {!r} with best {!r}", new, old, first)


def sequences(ctx):
    """
    Sequences of reports, with just the result of a new individual or that of
    another one, too.
    """
    q = ctx.params
    w = World(ctx)
    p, ev = bare(w)
    best = Best()
    done = []
    with Log() as log:
        for k in range(q['length']):
            r = ctx.pick(q['reports'], "report")
            done.append(r)
            quiet = 'quiet' in r
            kw = {'noProgress': True} if quiet else {}
            if len(r) - quiet == 1:
                p.report(individual(p, r[0]), **kw)
                want = best.alone(ctx, r[0])
            else:
                p.report(individual(p, r[0]), individual(p, r[1]), **kw)
                want = best.two(ctx, r[0], r[1])
            if quiet:
                ctx.mark("suppressed")
                want = {""}
            got = log.chars()
            ctx.log(r, got)
            same(ctx, got, want, "the last of {}", done)
    ctx.state(best.SSE, tuple(done))


def setup(ctx):
    """
    Initial evaluations.
    """
    q = ctx.params
    w = World(ctx)
    N = q['N']
    class P(Pop):
        Np_min = N
        failedConstraintChar = '~'
    ev = Evaluator()
    p = P(ev, NAMES[:2], [(-10.0, 10.0)]*2)
    best = Best()
    with Log() as log:
        f = Fired(p.setup(uniform=True))
        w.pump()
        log.pop()
        n = 0
        while ev.pending and n < q['most']:
            n += 1
            x = ctx.pick(q['results'], "result", 1)
            c = ev.pending[ctx.choose(len(ev.pending), "which", 1)]
            want = best.alone(ctx, x)
            ev.finish(c, x)
            w.pump()
            got = log.chars()
            ctx.log(x, got)
            same(ctx, got, want, "initial result {!r}", x)
            if f: break
    ctx.state(best.SSE, n)


class Failing(object):
    """
    A constraint that fails when told to.
    """
    def __init__(self, ctx): self.ctx = ctx; self.n = 0; self.on = False
    def __call__(self, params):
        if not self.on: return True
        if self.ctx.choose(2, "constraint fails", 1):
            self.n += 1
            return False
        return True


def evolution(ctx):
    q = ctx.params
    w = World(ctx)
    N = q['N']
    Nd = 3
    class P(Pop): failedConstraintChar = '~'
    p, ev = make_pop(w, q['sses'], Nd=Nd, cls=P)
    con = Failing(ctx)
    if q.get('constraint'): p.setConstraints(con)
    for k in q.get('blacklist', ()): p[k].blacklist()
    best = Best()
    best.SSE = min(eff(p[k].SSE) for k in range(N))
    kinds = Kinds()
    fh = io.StringIO()
    log = Log()
    log.fh = fh
    de = DifferentialEvolution(p, logHandle=fh, CR=0.0, F=0.7, maxiter=q['gens'], adaptive=False)
    con.on = True
    try:
        f = Fired(de())
        w.pump()
        def constraints(got):
            """
            Constraint failures may be shown before and after.
            """
            if con.n: ctx.mark("constraint")
            if got.count('~') != con.n: ctx.fail("{} failed constraints shown as {!r}", con.n, got)
            con.n = 0
            return got.replace('~', '')
        same(ctx, constraints(log.chars()), {""}, "no results yet")
        while ev.pending:
            c = ev.pending[ctx.choose(len(ev.pending), "which evaluation finishes", q.get('schedcost', 0))]
            who = owners(p, c.values, Nd)
            if len(who) != 1: raise Prune
            old = p[who[0]].SSE
            kind = ctx.pick(q['kinds'], "result", q.get('outcost', 0))
            x = kinds(kind, eff(old), best.SSE)
            want = best.two(ctx, x, old)
            ev.finish(c, x)
            w.pump()
            got = constraints(log.chars())
            ctx.log(kind, x, got)
            same(ctx, got, want, "trial with {!r} vs {!r}", x, old)
            ctx.state(x, old, len(ev.pending))
    finally: msg(None)
    w.pump()
    if not f: raise Prune


def wrapping(ctx):
    """
    Many characters.
    """
    q = ctx.params
    w = World(ctx)
    p, ev = bare(w)
    L = p.pm.maxLineLength
    near = (0, 1, 2, L-1, L, L+1, 2*L-1, 2*L, 2*L+1)
    with Log() as log:
        p.reporter(individual(p, 100.0))
        p.reporter.progressChar()
        log.pop()
        lengths = []    # Of each line
        exact = True
        n = 0           # On the current line
        for k in range(q['runs']):
            m = ctx.pick(near, "number")
            for j in range(m):
                p.reporter(individual(p, 120.0 + j % 30))
                n += 1
            if n >= L: ctx.mark("wrapped")
            while n > L:
                lengths.append(L)
                n -= L
            what = ctx.pick(('nothing', 'reset', 'message'), "between")
            if what == 'reset':
                if n: lengths.append(n)
                p.reporter.progressChar()
                n = 0
                ctx.mark("reset")
            elif what == 'message':
                if n: lengths.append(n)
                msg("A message")
                p.reporter.progressChar()
                n = 0
                ctx.mark("after message")
        if n: lengths.append(n)
        lines = log.pop()
    got = [len(x) for x in lines if x and set(x) <= SYMBOLS]
    rest = [x for x in lines if x and not set(x) <= SYMBOLS]
    ctx.log("lines", got)
    ctx.state(tuple(got))
    if got != lengths: ctx.fail("Progress characters in lines of {} rather than {}", got, lengths)
    for x in rest:
        if x != "A message": ctx.fail("Line {!r}", x)


def scenarios(tier, seed):
    T = tier == "thorough"
    reports = [(100.0,), (50.0,), (99.0,), (300.0,), (INF,), (100.0, 150.0), (40.0, 100.0), (30.0, 30.2), (150.0, 100.0), (INF, 100.0),
               (100.0, INF), (40.0, 'quiet'), (20.0, 60.0, 'quiet')]
    S = [("pairs", pairs, {'best': ('none', 1E-9, 50.0, 100.0, 1E6)}, {}),
         ("sequences", sequences, {'length': 4+T, 'reports': reports}, {}),
         ("setup", setup, {'N': 4, 'most': 6, 'results': (100.0, 101.0, 50.0, 98.9, 99.0, 260.0, INF, None)}, {'bound': 3+T}),
         ("wrapping", wrapping, {'runs': 2+T}, {})]
    all_ = ('win', 'lose', 'equal', 'nan', 'none', 'zero', 'best', 'slight', 'half')
    S += [("N=4 all results", evolution, {'N': 4, 'gens': 1, 'sses': [10., 11., 12., 13.], 'kinds': all_}, {}),
          ("N=5 orders", evolution, {'N': 5, 'gens': 1, 'sses': [10., 11., 12., 13., 14.], 'kinds': ('win', 'lose', 'best'), 'outcost': 1}, {'bound': 3+T}),
          ("N=4 blacklisted", evolution, {'N': 4, 'gens': 1, 'sses': [10., 11., 12., 13.], 'blacklist': (0, 2), 'kinds': ('win', 'lose', 'nan', 'inf', 'zero')}, {}),
          ("N=4 two generations", evolution, {'N': 4, 'gens': 2, 'sses': [10., 11., 12., 13.], 'kinds': all_, 'outcost': 1, 'schedcost': 1}, {'bound': 2+T}),
          ("N=4 constraints", evolution, {'N': 4, 'gens': 2, 'sses': [10., 11., 12., 13.], 'kinds': ('win', 'lose'), 'outcost': 1, 'schedcost': 1, 'constraint': True}, {'bound': 2+T})]
    return S
