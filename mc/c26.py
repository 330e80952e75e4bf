"""
C26: piecewise evaluation parts come out fastest-first.
"""

import pickle, time
from .drive import *
import ade.util
from ade.util import EvalTimer

BOUNDS = {
    "quick": "all histories of up to 8 events: time passing by 1 or 4 units, calls of up to 3 parts starting, any pending call succeeding or "
    "failing, one iteration begun and continued at any point, pickling once; and of up to 5 after each part has been called taking 1, 2 or 4 units (of a second, or a tenth of a millisecond)",
    "thorough": "up to 9 events",
}
ASSUMPTIONS = [
    "parts with equal average times may come in either order",
    "an iteration is under way once it has yielded its first part"]
MUST_COVER = ("overlapping", "failed", "succeeded", "pickled", "iterating amid calls", "order differs from starting order", "tie", "several calls")
CLOCKS = ('time', 'monotonic', 'perf_counter', 'process_time')


class Time(object):
    """
    Makes all clocks show my time I{t}, however they were imported.
    """
    def __init__(self): self.t = 1.6E9
    def now(self): return self.t
    def ns(self): return int(self.t*1E9)

    def __enter__(self):
        self.saved = []
        for name in CLOCKS:
            for fname, f in ((name, self.now), (name+"_ns", self.ns)):
                real = getattr(time, fname)
                for module in (time, ade.util):
                    for attr, value in list(vars(module).items()):
                        if value is real:
                            self.saved.append((module, attr, real))
                            setattr(module, attr, f)
        return self

    def __exit__(self, *args):
        for module, attr, real in self.saved: setattr(module, attr, real)


def ascending(ctx, order, averages, what):
    """
    The order must have each of the parts once, fastest first.
    """
    if sorted(order, key=str) != sorted(averages, key=str): ctx.fail("{} yields {} but averages are {}", what, order, averages)
    for one, two in zip(order, order[1:]):
        if averages[one] > averages[two] + 1E-6: ctx.fail("{} yields {} but averages are {}", what, order, averages)


def history(ctx):
    q = ctx.params
    with Time() as clock: play(ctx, q, clock)


def play(ctx, q, clock):
    k = q['k']
    timer = EvalTimer(k)
    IDs = q['IDs']
    pending = []; started = []; spent = {}
    iteration = None; pickled = False
    def averages(): return {ID: sum(x)/len(x) for ID, x in spent.items()}
    last = None
    for ID in IDs if 'before' in q else ():
        # Has been called before
        t = ctx.pick(q['before'], "took")
        d = defer.Deferred()
        started.append(ID)
        timer(lambda *args: d, *(["other"]*k + [ID]))
        clock.t += t
        d.callback(None)
        spent[ID] = [t]
    q = dict(q, calls=q['calls'] + len(started))
    for n in range(q['length']):
        used = len(set(started))
        events = [('start', p) for p in range(min(used+1, len(IDs)))] if len(started) < q['calls'] else []
        if last != 'wait': events.extend(('wait', x) for x in q.get('waits', (1, 4)))
        for m in range(len(pending)): events.extend((('succeed', m), ('fail', m)))
        if spent:
            if iteration is None: events.append(('iterate', None))
            if not pickled: events.append(('pickle', None))
        if iteration and last not in ('iterate', 'next'): events.append(('next', None))
        if not events: break
        what, x = events[ctx.choose(len(events), "event")]
        last = what
        if what == 'start':
            ID = IDs[x]
            started.append(ID)
            d = defer.Deferred()
            args = ["other"]*k + [ID, "last"]
            seen = []
            def func(*args, **kw):
                seen.append((args, kw))
                return d
            f = Fired(timer(func, *args, foo=1))
            if seen != [(tuple(args), {'foo': 1})]: ctx.fail("Called with {} rather than {}", seen, args)
            pending.append((ID, clock.t, d, f))
            if len(pending) > 1: ctx.mark("overlapping")
        elif what == 'wait': clock.t += x
        elif what in ('succeed', 'fail'):
            ID, t0, d, f = pending.pop(x)
            spent.setdefault(ID, []).append(clock.t - t0)
            if len(spent[ID]) > 1: ctx.mark("several calls")
            if iteration: ctx.mark("iterating amid calls")
            result = object() if what == 'succeed' else ValueError("Part failed")
            if f: ctx.fail("Result before there is one")
            if what == 'succeed':
                ctx.mark("succeeded")
                d.callback(result)
                if not f or f.result is not result: ctx.fail("Result of {} lost", ID)
            else:
                ctx.mark("failed")
                d.errback(result)
                if not f or not f.failure or f.failure.value is not result: ctx.fail("Failure of {} lost", ID)
        elif what == 'pickle':
            timer = pickle.loads(pickle.dumps(timer))
            # The calls pending aren't part of it
            pending = []
            pickled = True
            ctx.mark("pickled")
        elif what == 'iterate':
            it = iter(timer)
            iteration = [it, [next(it)], averages()]
        elif what == 'next':
            for ID in iteration[0]:
                iteration[1].append(ID)
                break
        if what not in ('wait', 'start'):
            order = list(timer)
            av = averages()
            if len(set(av.values())) < len(av): ctx.mark("tie")
            ascending(ctx, order, av, "Timer")
            if order != sorted(order, key=started.index): ctx.mark("order differs from starting order")
            ctx.state(sorted(av.items(), key=str), len(pending))
    if iteration:
        it, order, av = iteration
        ascending(ctx, order + list(it), av, "Iteration begun")
    ctx.log("order", list(timer))


def scenarios(tier, seed):
    T = tier == "thorough"
    return [("histories", history, {'k': 0, 'IDs': (0, 1, 2), 'length': 8+T, 'calls': 4}, {}),
            ("called before", history, {'k': 0, 'IDs': (0, 1, 2), 'length': 5+T, 'calls': 2, 'before': (1, 2, 4)}, {}),
            ("brief", history, {'k': 0, 'IDs': (0, 1, 2), 'length': 4+T, 'calls': 2, 'before': (1E-4, 2E-4, 4E-4), 'waits': (1E-4, 5E-4)}, {}),
            ("names", history, {'k': 1, 'IDs': ("foo", ("bar", 1), 2), 'length': 6, 'calls': 3}, {})]
