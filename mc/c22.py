"""
C22: abort requests reach every registered party exactly once.
"""

from .drive import *

BOUNDS = {
    "quick": "all sequences of 5 events out of 11: registering a plain function (as object, method or lambda) or one that while running registers another, presses the "
    "key, or requests an abort; key press (Enter or other data), abort request, keyboard shutdown, restart, ignoring, time passing; "
    "all sequences of 7 out of 6 of them; with a population and an evolution registering along with functions",
    "thorough": "all sequences of 6 out of 11, 8 out of 6",
}
ASSUMPTIONS = [
    "an abort request whose time has not come by the next restart is not followed up (either effect is fine)",
    "after the keyboard was shut down without an abort, functions may run or not, but not twice",
    "functions registered for an abort do not raise"]
MUST_COVER = ("ran", "nested registration", "nested key press", "nested request", "late registration", "ignored", "restarted",
              "forgotten by restart", "key pressed again", "population aborted")
EVENTS = ('plain', 'registering', 'pressing', 'requesting', 'press', 'data', 'request', 'tick', 'restart', 'ignore', 'shutdown')
FEWER = ('plain', 'registering', 'press', 'request', 'tick', 'restart')


class Party(object):
    """
    A function that gets registered.
    """
    def __init__(self, model, kind, n):
        self.model, self.kind, self.n = model, kind, n
        self.era = model.era
        # Must it run, must it not, or may it?
        self.due = 'maybe' if model.dubious else None
        self.ran = 0
        self.registering = False

    def __call__(self):
        self.model.ctx.guard(self.run)

    def call(self):
        self()

    def run(self):
        m = self.model
        ctx = m.ctx
        self.ran += 1
        m.order.append(self)
        ctx.log("run", self.n)
        ctx.mark("ran")
        if self.registering: ctx.fail("Function {} was called while being registered", self.n)
        if self.ran > 1: ctx.fail("Function {} was called again", self.n)
        if self.due is None: ctx.fail("Function {} was called without any abort", self.n)
        if self.due == 'never': ctx.fail("Function {} was called after restart", self.n)
        # In the order of registration
        for other in m.parties:
            if other.era == self.era and other.n < self.n and not other.ran and other.due == 'must':
                ctx.fail("Function {} was called before {}", self.n, other.n)
        if self.kind == 'registering':
            ctx.mark("nested registration")
            m.register('plain')
        elif self.kind == 'pressing':
            ctx.mark("nested key press")
            m.press(b"\n")
        elif self.kind == 'requesting':
            ctx.mark("nested request")
            m.request()


class Model(object):
    def __init__(self, ctx, w):
        self.ctx, self.w = ctx, w
        self.form = ctx.pick(('object', 'method', 'lambda'), "form")
        self.parties = []
        self.order = []
        self.era = 0
        self.aborted = False
        self.ignored = False
        self.dubious = False
        self.requested = 0

    def register(self, kind):
        x = Party(self, kind, len(self.parties))
        if self.aborted:
            if x.due is None: x.due = 'must'
            self.ctx.mark("late registration")
        self.parties.append(x)
        x.registering = True
        abort.callOnAbort({'object': x, 'method': x.call, 'lambda': lambda: x()}[self.form])
        x.registering = False

    def trigger(self):
        """
        An abort has been triggered.
        """
        if self.ignored:
            self.ctx.mark("ignored")
            return
        if self.aborted: self.ctx.mark("key pressed again")
        self.aborted = True
        for x in self.parties:
            if x.era == self.era and x.due is None: x.due = 'must'

    def press(self, data):
        self.trigger()
        W.kbd.dataReceived(data)

    def request(self):
        self.requested += 1
        # Just before it takes effect
        W.clock.callLater(0, self.effect)
        abort.abortNow()

    def effect(self):
        self.requested -= 1
        self.trigger()

    def tick(self):
        self.w.pump(10)

    def do(self, e):
        if e in ('plain', 'registering', 'pressing', 'requesting'): self.register(e)
        elif e == 'press': self.press(b"\n")
        elif e == 'data': self.press(b"hello\nworld\n")
        elif e == 'request': self.request()
        elif e == 'tick': self.tick()
        elif e == 'restart':
            if self.requested: raise Prune
            for x in self.parties:
                # Those told to run soon still will
                if x.due is None:
                    x.due = 'never'
                    self.ctx.mark("forgotten by restart")
            self.era += 1
            self.aborted = self.ignored = self.dubious = False
            self.ctx.mark("restarted")
            abort.restart()
        elif e == 'ignore':
            self.ignored = True
            abort.ignoreKeyboard()
        elif e == 'shutdown':
            if not self.aborted:
                self.dubious = True
                for x in self.parties:
                    if x.due is None: x.due = 'maybe'
            abort.shutdown()

    def check(self, final=False):
        for x in self.parties:
            if x.due == 'must' and not x.ran and final:
                self.ctx.fail("Function {} never called", x.n)
            if x.due in (None, 'never') and x.ran: self.ctx.fail("Function {} called", x.n)


def words(ctx):
    q = ctx.params
    w = World(ctx)
    m = Model(ctx, w)
    for k in range(q['length']):
        e = ctx.pick(q['events'], "event")
        ctx.log("event", e)
        ready = [x for x in m.parties if x.due is None and x.era == m.era]
        m.do(e)
        if ctx.sticky: return
        m.check()
        if e in ('press', 'data') and not m.ignored and not m.dubious:
            # These don't wait
            for x in ready:
                if not x.ran: ctx.fail("Function {} not called by key press", x.n)
        ctx.state([(x.kind, x.due, x.ran, x.era) for x in m.parties], m.era, m.aborted, m.ignored, m.dubious, m.requested)
    m.tick()
    if ctx.sticky: return
    m.check(True)
    ctx.log("order", [x.n for x in m.order])


def population(ctx):
    """
    Populations and evolutions register themselves along with functions.
    """
    w = World(ctx)
    m = Model(ctx, w)
    aborts = []
    class P(Pop):
        def abort(self, *args, **kw):
            aborts.append(('p', bool(args or kw)))
            return Pop.abort(self, *args, **kw)
    for k in range(ctx.choose(3, "functions before")): m.register(ctx.pick(EVENTS[:4], "kind"))
    p, ev = make_pop(w, [3., 2., 1., 4.], cls=P)
    for k in range(ctx.choose(2, "functions after")): m.register(ctx.pick(EVENTS[:4], "kind"))
    evolving = ctx.choose(2, "evolution")
    if evolving:
        de = DifferentialEvolution(p, logHandle=None, maxiter=1)
        f = Fired(de())
        w.pump()
    m.do(ctx.pick(('press', 'request', 'data'), "abort"))
    m.do(ctx.pick(('tick', 'press', 'request'), "again"))
    m.tick()
    if ctx.sticky: return
    m.check(True)
    if p.running is not False: ctx.fail("Population still running")
    if not aborts: ctx.fail("Population not aborted")
    if evolving and de.running: ctx.fail("Evolution still running")
    if evolving and not f: ctx.fail("Evolution not done")
    ctx.mark("population aborted")
    # One that comes late
    q = P(lambda x: 1.0, NAMES[:2], [(-1, 1)]*2)
    if q.running is False: ctx.fail("Aborted at once")
    w.pump()
    if q.running is not False: ctx.fail("Late population not aborted")
    ctx.state(len(m.parties), evolving)


def scenarios(tier, seed):
    T = tier == "thorough"
    return [("words", words, {'length': 5+T, 'events': EVENTS}, {}),
            ("longer words", words, {'length': 7+T, 'events': FEWER}, {}),
            ("population", population, {}, {})]
