"""
Drives a differential evolution run under the explorer.
"""

import math
import numpy as np
from twisted.internet import error
from .world import *

INF = float('inf')
NAN = float('nan')


def eff(x):
    """
    Reference: the SSE that an evaluation result amounts to.
    """
    if x is None or isinstance(x, Exception): return INF
    x = float(x)
    if math.isnan(x) or x < 0: return INF
    return x


def fatal(x):
    """
    Reference: is this evaluation result fatal?
    """
    if isinstance(x, Exception): return True
    if x is None: return False
    return float(x) < 0


# Kinds of exceptions, by name
ERRORS = dict((x.__name__, x) for x in (
    ZeroDivisionError, OverflowError, FloatingPointError, ValueError, TypeError, KeyError, IndexError, AttributeError, AssertionError,
    NotImplementedError, MemoryError, RecursionError, OSError, TimeoutError, UnicodeError, EOFError, StopIteration, np.linalg.LinAlgError,
    defer.CancelledError, defer.AlreadyCalledError, defer.QueueUnderflow, error.ConnectionLost, error.ProcessTerminated, abort.AbortError))


class Kinds(object):
    """
    Makes evaluation results of the kind requested, relative to the target
    member's SSE and the population's.
    """
    def __init__(self):
        self.n = 0

    def __call__(self, kind, target, best):
        """
        target and best are effective SSEs (possibly inf).
        """
        self.n += 1
        t = target if target < INF else 1000.0
        b = best if best < INF else 500.0
        if kind == 'win': return t*(0.97 - 0.0001*self.n)
        if kind == 'slight': return t*(0.9999 - 0.000001*self.n)
        if kind == 'best': return b*(0.9 - 0.0001*self.n)
        if kind == 'half': return t*(0.45 - 0.0001*self.n)
        if kind == 'equal': return target
        if kind == 'under': return math.nextafter(t, 0.0)
        if kind == 'over': return math.nextafter(t, INF)
        if kind == 'lose': return t*(1.1 + 0.001*self.n)
        if kind == 'none': return None
        if kind == 'inf': return INF
        if kind == 'nan': return NAN
        if kind == 'npnan': return np.float64('nan')
        if kind == 'zero': return 0.0
        if kind == 'intzero': return 0
        if kind == 'huge': return 1e300
        if kind == 'np32': return np.float32(t*0.95)
        if kind == 'neg': return -1.0
        if kind == 'negtiny': return -1e-300
        if kind == 'neginf': return -INF
        if kind == 'error': return RuntimeError("Evaluation failed on purpose")
        if kind in ERRORS: return ERRORS[kind]("On purpose")
        raise ValueError(kind)


def owners(p, v, Nd):
    """
    The positions of those members that share all but one coordinate with v.
    """
    result = []
    for k in range(len(p)):
        m = p[k].values
        if sum(1 for j in range(Nd) if v[j] == m[j]) >= Nd-1:
            result.append(k)
    return result


def result_text(x):
    return repr(x) if isinstance(x, Exception) else x if x is None else float(x)


def hist_records(h):
    """
    The history as a list of (SSE, values, category), sorted as it is.
    """
    result = []
    for k in range(len(h)):
        row = h[k]
        kr = h.K[k]
        cat = 'in' if kr in h.Kp else 'never' if kr in h.Kn else 'former'
        result.append((float(row[0]), tuple(float(x) for x in row[1:]), cat))
    return result


def resort(p):
    """
    Has the population rank its members anew after their SSEs were changed.
    """
    try: del p.KS
    except AttributeError: pass
