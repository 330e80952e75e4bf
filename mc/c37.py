"""
C37: evaluations are counted and timed as they actually happened.
"""

import sys, time
from .drive import *

BOUNDS = {
    "quick": "setup and one generation of 4-5 members with up to 1, 2 or 12 evaluations at once, every order of finishing the "
    "setup (and up to 2 or 3 deviations from first-come order in generations), each after one of 3 periods of time with one of 3 results (up to 2 "
    "deviations, 3 with generations); up to two invalid results; set up again; 3 individuals evaluated 3 times in all, in any order, together or not; reports to a callback",
    "thorough": "one more deviation, two generations",
}
ASSUMPTIONS = ["clocks are stand-ins", "the time of an evaluation that failed is left open"]
MUST_COVER = ("overlapping", "out of order", "invalid result", "immediate", "set up again", "reported", "replaced", "shown", "blank", "evaluated again")
CLOCKS = ('time', 'monotonic', 'perf_counter', 'process_time')


class Time(object):
    """
    Makes all clocks show my time I{t}, however ade imported them.
    """
    def __init__(self): self.t = 1.6E9
    def now(self): return self.t
    def ns(self): return int(self.t*1E9)

    def __enter__(self):
        self.saved = []
        modules = [time] + [m for name, m in sorted(sys.modules.items()) if m is not None and name.split('.')[0] == 'ade']
        for name in CLOCKS:
            for fname, f in ((name, self.now), (name+"_ns", self.ns)):
                real = getattr(time, fname)
                for module in modules:
                    for attr, value in list(vars(module).items()):
                        if value is real:
                            self.saved.append((module, attr, real))
                            setattr(module, attr, f)
        return self

    def __exit__(self, *args):
        for module, attr, real in self.saved: setattr(module, attr, real)


def run(ctx):
    with Time() as clock: play(ctx, clock)


def play(ctx, clock):
    q = ctx.params
    w = World(ctx)
    N = q['N']
    class P(Pop):
        Np_min = N
        N_maxParallel = q['parallel']
    ev = Evaluator()
    started = {}; took = {}
    n = {'finished': 0, 'invalid': 0}
    def key(values): return tuple(float(x) for x in values)
    def policy(c):
        if c.values is None: return None
        started[key(c.values)] = clock.t
        if q.get('immediate') and ctx.choose(2, "immediate", 1):
            ctx.mark("immediate")
            clock.t += 2.0
            finished(c)
            return 50.0 + c.n
        return ev.HOLD
    def finished(c):
        n['finished'] += 1
        took[key(c.values)] = clock.t - started[key(c.values)]
    ev.policy = policy
    p = P(ev, NAMES[:2], [(-10.0, 10.0)]*2)
    def reported(values, counter, SSE):
        ctx.mark("reported")
        if counter != n['finished']: ctx.guard(ctx.fail, "Report after {} evaluations had a count of {}", n['finished'], counter)
    p.addCallback(reported)

    def look():
        want = []
        for i in p:
            k = key(i.values)
            if k in took:
                if i.dt is None or abs(i.dt - took[k]) > 1E-3: ctx.fail("Evaluation took {} rather than {}", i.dt, took[k])
                want.append(took[k])
        got = [float(x) for x in p.evalTimes()]
        if len(got) != len(want) or any(abs(x-y) > 1E-3 for x, y in zip(got, want)): ctx.fail("Times of members are {} rather than {}", got, want)

    def finish(f, label, schedcost):
        steps = 0
        w.pump()
        while ev.pending and not f:
            steps += 1
            if steps > 30*N: raise Prune
            if len(ev.pending) > 1: ctx.mark("overlapping")
            m = ctx.choose(len(ev.pending), "which finishes", schedcost)
            if m: ctx.mark("out of order")
            c = ev.pending[m]
            clock.t += ctx.pick((1.0, 0.0, 5.0), "time passes", 1)
            finished(c)
            k = ctx.choose(3, "result", 1)
            if k == 1 and n['invalid'] >= 2: raise Prune
            if k == 1:
                n['invalid'] += 1
                ctx.mark("invalid result")
            ev.finish(c, (10.0 + ((7*c.n) % 11), None, 0.5/(1+c.n))[k])
            w.pump()
            look()
            ctx.state(label, sorted(took.values()), len(ev.pending))
        w.pump()

    for again in range(q.get('times', 1)):
        if again: ctx.mark("set up again")
        n['finished'] = n['invalid'] = 0
        took.clear()
        f = Fired(p.setup(uniform=True))
        finish(f, "setup", q.get('schedcost', 0))
        if not f or f.result is not True: ctx.fail("Setup isn't done")
        look()
    T = [took[key(i.values)] for i in p]
    text = repr(p)
    import re
    m = re.search(r'avg eval time (\S+) sec', text)
    if m:
        ctx.mark("shown")
        if abs(float(m.group(1)) - sum(T)/len(T)) > 0.01*sum(T)/len(T) + 1E-9: ctx.fail("Average time of {} shown as {}", T, m.group(1))
    if q.get('maxiter'):
        before = set(key(i.values) for i in p)
        de = DifferentialEvolution(p, logHandle=None, maxiter=q['maxiter'], bitterEnd=True)
        f = Fired(de())
        finish(f, "evolution", 1)
        if not f: ctx.fail("Evolution isn't done")
        look()
        if set(key(i.values) for i in p) != before: ctx.mark("replaced")
    ctx.log("times", [float(x) for x in p.evalTimes()])


def again(ctx):
    """
    Evaluating individuals again, members or not.
    """
    with Time() as clock:
        w = World(ctx)
        class P(Pop): Np_min = 4
        ev = Evaluator(lambda c: None if c.values is None else ev.HOLD)
        p = P(ev, NAMES[:2], [(-10.0, 10.0)]*2)
        f = Fired(p.setup(uniform=True, blank=True))
        w.pump()
        counts = []
        p.addCallback(lambda values, counter, SSE: counts.append(counter))
        someone = p.spawn([1.0, 2.0])
        I = [p[0], p[1], someone]
        took = [None]*3
        running = []
        total = n = 0
        while n < ctx.params['length']:
            can = [k for k in range(3) if k not in [r[0] for r in running]]
            k = ctx.choose(len(can) + len(running), "what")
            if k < len(can):
                k = can[k]
                running.append((k, clock.t, Fired(I[k].evaluate())))
                if len(running) > 1: ctx.mark("overlapping")
            else:
                n += 1
                total += 1
                k, t0, f = running.pop(k - len(can))
                clock.t += ctx.pick((1.0, 0.0, 7.0), "time passes", 1)
                for c in ev.pending:
                    if list(c.values) == list(I[k].values): break
                if took[k] is not None: ctx.mark("evaluated again")
                took[k] = clock.t - t0
                ev.finish(c, 100.0*0.5**total)
                w.pump()
                if not f: ctx.fail("Not done")
                before = len(counts)
                p.report(I[k])
                w.pump()
                if any(x != total for x in counts[before:]): ctx.fail("Report after {} evaluations had a count of {}", total, counts[-1])
            for i, t in zip(I, took):
                if (i.dt is None) != (t is None) or t is not None and abs(i.dt - t) > 1E-3: ctx.fail("Evaluation took {} rather than {}", i.dt, t)
            got = [float(x) for x in p.evalTimes()]
            want = [t for t in took[:2] if t is not None]
            if len(got) != len(want) or any(abs(x-y) > 1E-3 for x, y in zip(got, want)): ctx.fail("Times of members are {} rather than {}", got, want)
            ctx.state(took, len(running))


def blank(ctx):
    """
    No evaluations, no times.
    """
    w = World(ctx)
    class P(Pop): Np_min = ctx.pick((4, 7), "N")
    p = P(lambda values: 1.0, NAMES[:2], [(-10.0, 10.0)]*2)
    f = Fired(p.setup(uniform=True, blank=True))
    w.pump()
    if list(p.evalTimes()) != []: ctx.fail("Times without evaluations: {}", p.evalTimes())
    ctx.mark("blank")
    ctx.state(len(p))


def scenarios(tier, seed):
    T = tier == "thorough"
    return [("setup", run, {'N': 4, 'parallel': 12}, {'bound': 2+T}),
            ("setup of 5, two at once", run, {'N': 5, 'parallel': 2}, {'bound': 2+T}),
            ("setup of 5, one at once", run, {'N': 5, 'parallel': 1}, {'bound': 3+T}),
            ("set up again", run, {'N': 4, 'parallel': 12, 'times': 2, 'schedcost': 1}, {'bound': 3+T}),
            ("immediate", run, {'N': 4, 'parallel': 12, 'immediate': True, 'schedcost': 1}, {'bound': 3+T}),
            ("evolution", run, {'N': 4, 'parallel': 12, 'schedcost': 1, 'maxiter': 1+T}, {'bound': 3+T}),
            ("immediate evolution", run, {'N': 4, 'parallel': 12, 'schedcost': 1, 'maxiter': 1, 'immediate': True}, {'bound': 2+T}),
            ("again", again, {'length': 3+T}, {'bound': 1}),
            ("blank", blank, {}, {})]
