"""
Takes control of everything nondeterministic and then imports ade from /repo.
Import this module before anything of ade.
"""

import os, sys, gc

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

import random, time, warnings, io, itertools
import numpy as np
import numpy.random
import scipy.stats
import pyDOE
import twisted.internet.inotify
from twisted.internet import reactor, task, stdio, defer, protocol
from twisted.python import failure, filepath
from twisted.logger import globalLogPublisher
import asynqueue, asynqueue.util, asynqueue.iteration
import yampex.plot

warnings.simplefilter("ignore")
np.seterr(all="ignore")

from .explore import Violation, Divergence, Prune

RealStdout = sys.stdout


#--- Randomness ---------------------------------------------------------------

# The unit variates tried where every draw is enumerated
GRID_FULL = (0.0, 0.25, 0.5, 0.75, 1.0 - 2.0**-53)
GRID_ENDS = (0.0, 1.0 - 2.0**-53)


class CtlRandom(random.Random):
    """
    The generator behind the functions of the random module. Either seeded
    or, with a ctx, each primitive draw is a decision.
    """
    ctx = None
    kinds = ()
    grid = GRID_FULL
    cost = 0

    # How many more draws are decisions
    left = None

    def controlled(self, kind):
        if self.ctx is None or kind not in self.kinds: return False
        if self.left is None: return True
        self.left -= 1
        return self.left >= 0

    def random(self):
        if self.controlled('random'):
            return self.grid[self.ctx.choose(len(self.grid), 'unit variate', self.cost)]
        return super(CtlRandom, self).random()

    def _randbelow(self, n):
        if self.controlled('below'):
            return self.ctx.choose(n, 'integer variate', self.cost)
        return self._randbelow_without_getrandbits(n)

    def sample(self, population, k, **kw):
        if self.ctx is not None and 'perms' in self.kinds and not kw:
            combos = list(itertools.permutations(range(len(population)), k))
            c = combos[self.ctx.choose(len(combos), 'sample', self.cost)]
            return [population[j] for j in c]
        if self.ctx is not None and 'sets' in self.kinds and not kw:
            # Which set of k is sampled is the decision, not its order
            combos = list(itertools.combinations(range(len(population)), k))
            c = combos[self.ctx.choose(len(combos), 'sample', self.cost)]
            return [population[j] for j in c]
        return super(CtlRandom, self).sample(population, k, **kw)


RNG = CtlRandom(0)
for _name in (
        'random', 'uniform', 'triangular', 'randint', 'choice', 'randrange',
        'sample', 'shuffle', 'choices', 'normalvariate', 'lognormvariate',
        'expovariate', 'vonmisesvariate', 'gammavariate', 'gauss',
        'betavariate', 'paretovariate', 'weibullvariate', 'getstate',
        'setstate', 'getrandbits', 'randbytes', 'seed'):
    setattr(random, _name, getattr(RNG, _name))
random._inst = RNG


def _np_unit():
    return RNG.grid[RNG.ctx.choose(len(RNG.grid), 'unit variate', RNG.cost)]


def _np_wrap(name):
    real = getattr(np.random, name)
    def wrapper(*args, **kw):
        if RNG.ctx is None:
            return real(*args, **kw)
        lo, hi = 0.0, 1.0
        if name == 'uniform':
            lo = kw.get('low', args[0] if args else 0.0)
            hi = kw.get('high', args[1] if len(args) > 1 else 1.0)
            size = kw.get('size', args[2] if len(args) > 2 else None)
        elif name == 'rand': size = args if args else None
        else: size = kw.get('size', args[0] if args else None)
        if size is None and 'np' in RNG.kinds:
            return lo + (hi - lo)*_np_unit()
        if size is not None and 'nparray' in RNG.kinds:
            # All elements the same extreme, or seeded ones
            k = RNG.ctx.choose(len(RNG.grid)+1, 'array of variates', RNG.cost)
            if k: return lo + (hi - lo)*np.full(size, RNG.grid[k-1])
        return real(*args, **kw)
    wrapper.__name__ = name
    return wrapper

for _name in ('random_sample', 'random', 'ranf', 'sample', 'rand', 'uniform'):
    setattr(np.random, _name, _np_wrap(_name))


#--- Time ---------------------------------------------------------------------

class W:
    """
    The current world.
    """
    clock = None
    ctx = None
    triggers = {}
    kbd = None
    errors = []
    nextID = 0


def _callLater(delay, f, *args, **kw):
    return W.clock.callLater(delay, f, *args, **kw)

def _addTrigger(phase, eventType, f, *args, **kw):
    W.nextID += 1
    W.triggers[W.nextID] = (phase, eventType, f, args, kw)
    return W.nextID

def _removeTrigger(ID):
    del W.triggers[ID]

reactor.callLater = _callLater
reactor.seconds = lambda: W.clock.seconds()
reactor.addSystemEventTrigger = _addTrigger
reactor.removeSystemEventTrigger = _removeTrigger
reactor.run = None
reactor.stop = lambda *args: None
reactor.callFromThread = lambda f, *a, **k: W.clock.callLater(0, f, *a, **k)
# One unit of cooperative work per tick
task._theCooperator._terminationPredicateFactory = lambda: lambda: True


#--- Keyboard -----------------------------------------------------------------

class FakeTransport(object):
    connected = True
    def __init__(self, proto): self.proto = proto
    def loseConnection(self, *args): self.connected = False
    abortConnection = loseConnection
    def write(self, data): pass
    def writeSequence(self, data): pass
    disconnecting = False


class FakeStandardIO(FakeTransport):
    def __init__(self, proto, *args, **kw):
        self.proto = proto
        W.kbd = proto
        proto.makeConnection(self)

stdio.StandardIO = FakeStandardIO


#--- Errors Twisted would log -------------------------------------------------

def _observer(event):
    f = event.get('log_failure')
    if f is not None:
        W.errors.append(f)

globalLogPublisher.addObserver(_observer)
# Twisted's log buffers events and reports critical ones on STDERR until
# logging starts; we have our own observer
from twisted.logger import globalLogBeginner
globalLogBeginner._temporaryObserver and globalLogPublisher.removeObserver(
    globalLogBeginner._temporaryObserver)


#--- ade ----------------------------------------------------------------------

if not sys.path or sys.path[0] != "/repo":
    sys.path.insert(0, "/repo")
# No cached byte-code for ade: always what the source says now
_prefix = sys.pycache_prefix
sys.pycache_prefix = "/nonexistent/mc"
import ade
import ade.util, ade.abort, ade.individual, ade.history, ade.report
import ade.population, ade.de, ade.constraints, ade.specs
sys.pycache_prefix = _prefix
assert ade.__file__.startswith("/repo/"), ade.__file__

from ade import abort
from ade.util import msg
from ade.individual import Individual
from ade.history import History, Analysis, ClosestPairFinder
from ade.report import Reporter
from ade.population import Population, ParameterManager, ProbabilitySampler
from ade.de import DifferentialEvolution, FManager


class Pop(Population):
    """
    A population that can be small.
    """
    Np_min = 4
    Np_max = 500
    popsize = 1


class World(object):
    """
    A fresh world for one execution.
    """
    def __init__(self, ctx, seed=None):
        self.ctx = W.ctx = ctx
        W.clock = self.clock = task.Clock()
        W.triggers = {}
        W.errors = self.errors = []
        coop = task._theCooperator
        coop._tasks = []
        coop._metarator = iter(())
        coop._delayedCall = None
        RNG.ctx = None
        RNG.left = None
        RNG.kinds = ()
        RNG.cost = 0
        RNG.grid = GRID_FULL
        s = (ctx.seed if seed is None else seed)
        RNG.seed(s)
        np.random.seed(s % 2**32)
        msg(None)
        msg.newlineNeeded = False
        abort.restart()
        self.kbd = W.kbd

    def enumerate_draws(self, *kinds, **kw):
        """
        From now on, draws of the specified kinds are decisions.
        """
        RNG.grid = kw.get('grid', GRID_FULL)
        RNG.cost = kw.get('cost', 0)
        RNG.left = kw.get('left', None)
        RNG.kinds = kinds
        RNG.ctx = self.ctx

    def seeded_draws(self, seed=None):
        RNG.ctx = None
        if seed is not None:
            RNG.seed(seed)
            np.random.seed(seed % 2**32)

    def busy(self):
        return bool(task._theCooperator._tasks)

    def tick(self, amount=10.0):
        """
        Lets time pass, running each delayed call that is due.
        """
        self.clock.advance(amount)

    def pump(self, polls=3):
        """
        Lets time pass until nothing happens any more by itself.
        """
        n = 0
        while self.clock.calls:
            self.clock.advance(10.0)
            if self.busy():
                n += 1
                if n > 100000: raise Violation("Endless cooperative work")
                continue
            polls -= 1
            if polls <= 0: break

    def enter(self):
        """
        The user presses the Enter key.
        """
        self.kbd.dataReceived(b"\n")

    def flush_errors(self):
        """
        Returns the failures logged so far, after having garbage collected.
        """
        gc.collect()
        return self.errors


class Call(object):
    """
    One call of the evaluation function.
    """
    __slots__ = ['n', 'values', 'kw', 'd', 'done', 'result', 'held', 'tag']


NOTHING = object()


class Evaluator(object):
    """
    The evaluation function. An instance of me is supplied to the population.

    My I{policy} is called with each Call and returns the result right
    away, or HOLD to have it stay pending.
    """
    HOLD = object()

    def __init__(self, policy=None):
        self.policy = policy
        self.calls = []
        self.pending = []
        self.maxPending = 0

    def __call__(self, values, **kw):
        c = Call()
        c.n = len(self.calls)
        c.values = None if values is None else np.array(values, dtype=float)
        c.kw = kw
        c.done = False
        c.held = False
        c.result = NOTHING
        c.tag = None
        self.calls.append(c)
        result = W.ctx.guard(self.policy, c) if self.policy else self.HOLD
        if result is self.HOLD:
            c.held = True
            c.d = defer.Deferred()
            self.pending.append(c)
            self.maxPending = max(self.maxPending, len(self.pending))
            return c.d
        c.d = None
        c.done = True
        c.result = result
        if isinstance(result, Exception): raise result
        return result

    def finish(self, c, result):
        """
        Delivers the result of a pending call.
        """
        self.pending.remove(c)
        c.done = True
        c.result = result
        if isinstance(result, Exception):
            c.d.errback(failure.Failure(result))
        else: c.d.callback(result)

    @property
    def vectors(self):
        return [c for c in self.calls if c.values is not None]


class Fired(object):
    """
    Watches a Deferred.
    """
    def __init__(self, d):
        self.count = 0
        self.result = NOTHING
        self.failure = None
        d.addCallbacks(self._cb, self._eb)

    def _cb(self, x):
        self.count += 1
        self.result = x

    def _eb(self, f):
        self.count += 1
        self.failure = f

    def __bool__(self):
        return self.count > 0


NAMES = ["delta", "alpha", "gamma", "beta", "epsilon"]


def make_pop(world, sses, Nd=2, bounds=None, N_max=None, cls=Pop, evaluator=None, **kw):
    """
    Returns a population with len(sses) members having the SSEs given,
    and its evaluator, which from now on holds each evaluation.
    """
    sses = list(sses)
    ev = evaluator or Evaluator()
    it = iter(sses)
    ev.policy = lambda c: next(it)
    if bounds is None: bounds = [(-10.0, 10.0)]*Nd
    class P(cls):
        Np_min = len(sses)
    p = P(ev, NAMES[:Nd], bounds, **kw)
    if N_max:
        p.history = History(NAMES[:Nd], N_max=N_max)
    if p.Np != len(sses):
        raise Divergence("Could not make a population of {}".format(len(sses)))
    f = Fired(p.setup(uniform=True))
    world.pump()
    if not f or f.result is not True:
        raise Violation("Setup with immediate valid results did not complete")
    if len(p) != len(sses):
        raise Violation("Setup gave {} members instead of {}".format(len(p), len(sses)))
    ev.policy = None
    del ev.calls[:]
    ev.maxPending = 0
    return p, ev


def members(p):
    """
    Observable members: tuples of values and SSE.
    """
    return [
        (tuple(float(x) for x in p[k].values), float(p[k].SSE))
        for k in range(len(p))]
