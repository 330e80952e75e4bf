"""
Stateless depth-first model checker.

A *scenario* is a function run(ctx) that performs one complete execution of
the real code and asks ctx.choose(n) whenever something is nondeterministic.
The explorer enumerates every sequence of answers.  A prefix of answers is
replayed by running the scenario again; if the replay meets a decision with a
different label or arity than recorded, the execution was not under control
and exploration stops with a Divergence error.
"""

import collections
import concurrent.futures
import gc
import hashlib
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ADE = os.path.realpath("/repo/ade") + os.sep


class Violation(Exception):
    """The property is broken in this execution."""


class Divergence(Exception):
    """A replayed prefix did not reproduce: an error of the check."""


class Runaway(BaseException):
    """The execution used far more CPU time than any execution should."""


class Prune(Exception):
    """The scenario asks not to continue with this execution."""


def digest(obj):
    return int.from_bytes(
        hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Ctx(object):
    """
    What a scenario sees.
    """
    def __init__(self, prefix=(), params=None, seed=0, bound=None, verbose=False):
        self.prefix = prefix
        self.params = params
        self.seed = seed
        self.bound = bound
        self.trace = []
        self.events = []
        self.states = set()
        self.deviations = 0
        self.verbose = verbose
        self.findings = []
        self.marks = set()
        self.sticky = None

    def choose(self, n, label="", cost=0):
        """
        Returns an int in range(n), enumerated exhaustively. With a
        deviation bound in force, a non-zero answer uses up I{cost} of it.
        """
        if n < 1:
            raise Divergence("No alternatives for '{}'".format(label))
        if n == 1:
            return 0
        if self.bound is not None and cost and self.deviations + cost > self.bound:
            return 0
        k = len(self.trace)
        if k < len(self.prefix):
            label0, n0, c = self.prefix[k]
            if label0 != label or n0 != n:
                raise Divergence(
                    "Decision {}: replayed ({}, {}) but met ({}, {})".format(
                        k, label0, n0, label, n))
        else:
            c = 0
        if c: self.deviations += cost
        self.trace.append((label, n, c))
        if self.verbose:
            print("  decision {:>3d}: {} -> {} of {}".format(k, label, c, n))
        return c

    def pick(self, seq, label="", cost=0):
        return seq[self.choose(len(seq), label, cost)]

    def log(self, *args):
        """
        Records an observation.
        """
        self.events.append(args)
        if self.verbose:
            print("   ", *args)

    def state(self, *args):
        """
        Records the canonical observable state reached.
        """
        self.states.add(digest(args))

    def mark(self, what):
        """
        Records that something worth covering happened.
        """
        self.marks.add(what)

    def fail(self, text, *args):
        """
        The property is broken. Sticky, because what calls the scenario's
        callbacks may swallow the exception.
        """
        e = Violation(text.format(*args) if args else text)
        if self.sticky is None: self.sticky = e
        raise e

    def guard(self, f, *args, **kw):
        """
        Calls part of the scenario from within the code under test. Whatever
        is raised is also remembered.
        """
        try:
            return f(*args, **kw)
        except Exception as e:
            if self.sticky is None:
                self.sticky = e
            raise

    def finding(self, key, text):
        """
        A failure that is listed as a known finding, if key is listed.
        """
        self.findings.append((key, text))


class Result(object):
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.decisions = 0
        self.maxdepth = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.errors = []
        self.findings = {}
        self.replayed = 0
        self.capped = False
        self.marks = {}
        self.leftover = []

    def merge(self, other):
        self.executions += other.executions
        self.transitions += other.transitions
        self.decisions += other.decisions
        self.maxdepth = max(self.maxdepth, other.maxdepth)
        self.states |= other.states
        self.outcomes |= other.outcomes
        self.replayed += other.replayed
        if len(self.samples) < 3: self.samples.extend(other.samples[:1])
        self.violations.extend(other.violations)
        self.errors.extend(other.errors)
        for k, v in other.findings.items(): self.findings.setdefault(k, v)
        for k, v in other.marks.items(): self.marks[k] = self.marks.get(k, 0) + v
        self.capped |= other.capped


def _blame(tb):
    """
    True if the innermost frame that belongs to either the harness or ade
    belongs to ade.
    """
    last = None
    for frame, lineno in traceback.walk_tb(tb):
        fn = frame.f_code.co_filename
        if fn.startswith(ADE): last = True
        elif fn.startswith(HERE): last = False
    return bool(last)


CPU_LIMIT = 60.0


def _alarm(signum, frame):
    raise Runaway()


def execute(run, prefix, params, seed, bound=None, verbose=False, known=()):
    """
    Runs one execution. Returns ctx, violation text (or None), error text (or
    None).
    """
    ctx = Ctx(prefix, params, seed, bound, verbose)
    violation = error = None
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try: run(ctx)
        except Exception as e:
            if ctx.sticky is None: raise
        if ctx.sticky is not None: raise ctx.sticky
        if len(ctx.trace) < len(prefix):
            error = "Replay ended after {} of {} decisions".format(
                len(ctx.trace), len(prefix))
    except Violation as e:
        violation = str(e)
    except Prune:
        pass
    except Runaway:
        violation = "The execution did not come to an end"
    except Divergence as e:
        error = "DIVERGENCE " + str(e)
    except Exception as e:
        text = traceback.format_exc()
        if _blame(e.__traceback__):
            violation = "Unexpected exception in ade:\n" + text
        else: error = text
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    for key, text in ctx.findings:
        if key not in known and violation is None:
            violation = "[{}] {}".format(key, text)
    return ctx, violation, error


def next_prefix(ctx, root):
    """
    The next decision sequence in depth-first order, or None.
    """
    trace = ctx.trace
    while len(trace) > root:
        label, n, c = trace[-1]
        if c + 1 < n:
            return trace[:-1] + [(label, n, c+1)]
        trace = trace[:-1]
    return None


def subtree(job):
    """
    Explores everything below a prefix.
    """
    name, run, params, seed, bound, prefix, deadline, known, slice_ = job
    res = Result()
    root = len(prefix)
    p = list(prefix)
    # The last decision of the prefix leads to somewhere new
    new_from = max(0, root - 1)
    stop = min(deadline, time.time() + slice_)
    while p is not None:
        if time.time() > stop and res.executions:
            # What is left is somebody else's job
            res.leftover = pending(p, root)
            break
        ctx, violation, error = execute(run, p, params, seed, bound, known=known)
        res.executions += 1
        res.transitions += len(ctx.trace) - new_from
        res.decisions += len(ctx.trace)
        res.maxdepth = max(res.maxdepth, len(ctx.trace))
        res.states |= ctx.states
        res.outcomes.add(digest(ctx.events))
        for m in ctx.marks: res.marks[m] = res.marks.get(m, 0) + 1
        for key, text in ctx.findings:
            if key in known: res.findings.setdefault(key, text)
        if error:
            res.errors.append((name, ctx.trace, error))
            break
        if violation:
            res.violations.append(
                (name, ctx.trace, violation, [list(map(str, e)) for e in ctx.events]))
            break
        if res.executions == 1 or res.executions % 4096 == 0:
            # The same decisions must give the same observations
            ctx2, v2, e2 = execute(run, ctx.trace, params, seed, bound, known=known)
            res.replayed += 1
            if e2 or v2 or repr(ctx2.events) != repr(ctx.events) or ctx2.trace != ctx.trace:
                res.errors.append((
                    name, ctx.trace,
                    "NONDETERMINISM on replay: {}".format(
                        e2 or v2 or diff(ctx.events, ctx2.events))))
                break
            if not res.samples:
                res.samples.append({
                    "scenario": name,
                    "decisions": [list(x) for x in ctx.trace][:60],
                    "observations": [
                        " ".join(str(y) for y in x)[:160] for x in ctx.events][:40]})
        p = next_prefix(ctx, root)
        if p is not None: new_from = len(p) - 1
    return res


def pending(p, root):
    """
    Prefixes that together cover p and everything after it in depth-first
    order below the first root decisions.
    """
    result = [p]
    for k in range(root, len(p)):
        label, n, c = p[k]
        for c2 in range(c+1, n):
            result.append(p[:k] + [(label, n, c2)])
    return result


def diff(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y: return "event {}: {} vs {}".format(k, x, y)
    return "lengths {} vs {}".format(len(a), len(b))


_SCEN = None


def _worker(jobs):
    """
    Each job is (k, prefix, seed, deadline, known, slice). Returns a Result
    and a list of jobs left over.
    """
    total = Result()
    left = []
    stop = time.time() + jobs[0][5]
    for n, job in enumerate(jobs):
        k, prefix, seed, deadline, known, slice_ = job
        if n and time.time() > stop:
            left.append(job)
            continue
        if time.time() > deadline:
            total.capped = True
            break
        name, run, params, opts = _SCEN[k]
        res = subtree((
            name, run, params, seed, opts.get("bound"), prefix, deadline, known,
            slice_))
        for p in res.leftover:
            left.append((k, p, seed, deadline, known, slice_))
        total.merge(res)
        if total.violations or total.errors: break
    return total, left


def explore(scenarios, seed, deadline, known=(), workers=None):
    """
    Explores all scenarios: each is (name, run, params, opts).
    """
    global _SCEN
    _SCEN = scenarios
    if workers is None:
        workers = int(os.environ.get("MC_WORKERS", 0)) or os.cpu_count() or 4
    total = Result()
    mp = multiprocessing.get_context("fork")
    gc.collect(); gc.freeze()
    ex = concurrent.futures.ProcessPoolExecutor(workers, mp_context=mp)
    N = len(scenarios)
    todo = collections.deque((k, []) for k in range(N))
    running = set()
    slice_ = 0.3
    try:
        while todo or running:
            while todo and len(running) < 2*workers:
                # Few enough per batch to keep everybody busy
                n = max(1, min(50, len(todo) // (4*workers)))
                batch = []
                while todo and len(batch) < n:
                    k, p = todo.popleft()
                    batch.append((k, p, seed, deadline, known, slice_))
                running.add(ex.submit(_worker, batch))
            done, running = concurrent.futures.wait(
                running, return_when=concurrent.futures.FIRST_COMPLETED)
            for f in done:
                res, left = f.result()
                total.merge(res)
                todo.extend((x[0], x[1]) for x in left)
                if left and time.time() > deadline: total.capped = True
            if total.violations or total.errors: break
            if len(todo) > 4*workers: slice_ = min(4.0, slice_*1.1)
            else: slice_ = 0.3
            if time.time() > deadline:
                total.capped = total.capped or bool(todo)
                break
    finally:
        for pr in list((ex._processes or {}).values()):
            pr.kill()
        ex.shutdown(wait=False, cancel_futures=True)
    return total
