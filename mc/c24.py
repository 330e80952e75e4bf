"""
C24: constraint objects judge each registered rule on its own parameters.
"""

import itertools
from .drive import *
from ade.constraints import Constraints, RelationsChecker
from ade.population import ParameterManager

BOUNDS = {
    "quick": "all pairs of rules over 3 parameters, each not used, linear or log (27 x 27), with every presence pattern and every pair of "
    "verdicts, consulted twice with different values in 5 ways (while iterating, from a stored list forward and backward, with two "
    "interleaved iterations, through the parameter manager); all triples of rules over 2 parameters; 0-2 appended functions with up to "
    "2 rules; sets, frozensets, lists and tuples of names; all 2-relation checkers over small grids of values, slopes, intercepts and "
    "deviations",
    "thorough": "triples of rules with all presence patterns in all modes",
}
ASSUMPTIONS = [
    "no parameter is both linear and log for the same rule",
    "a function appended to the object is called with the parameters as they are"]
MUST_COVER = ("accepted", "rejected", "absent", "stored", "iterated", "manager", "reversed", "interleaved", "shared parameter",
              "both linear and log", "at limit", "beyond limit", "appended")
ROLES = ('unused', 'linear', 'log')
FIRST = {'a': 1.5, 'b': 2.0, 'c': -1.0}
SECOND = {'a': -2.0, 'b': 0.5, 'c': 3.0}


def build(rules, verdicts, calls, container=set, extra=()):
    """
    Returns a constraints object having a method for each of the rules, which are
    dicts of roles by parameter name.
    """
    def method(n):
        def f(self, params):
            calls.append((n, dict(params)))
            return verdicts[n]
        f.__name__ = "rule{:d}".format(n)
        return f
    dct = {'registry': {}}
    for n, rule in enumerate(rules):
        f = method(n)
        dct[f.__name__] = f
        entry = []
        for role in ('linear', 'log'):
            names = [name for name in sorted(rule) if rule[name] == role]
            entry.append(container(names) if names else None)
        dct['registry'][f.__name__] = entry
    c = type("TheConstraints", (Constraints,), dct)()
    for k, verdict in enumerate(extra):
        def f(params, n=len(rules)+k, verdict=verdict):
            calls.append((n, dict(params)))
            return verdict
        c.append(f)
    return c


def view_of(rule, params):
    """
    The view of a rule that is the only one.
    """
    calls = []
    for f in build([rule], [True], calls): f(dict(params))
    return calls[0][1] if calls else None


def close(x, y):
    return abs(float(x) - float(y)) <= 1E-12*max(abs(x), abs(y))


def same(one, other):
    return set(one) == set(other) and all(close(one[name], other[name]) for name in one)


def consult(ctx, mode, c, params, stored):
    """
    Returns the list of verdicts, or just whether it's accepted.
    """
    if mode == 'stored': return [bool(f(params)) for f in stored]
    if mode == 'reversed': return [bool(f(params)) for f in reversed(stored)][::-1]
    if mode == 'iterated': return [bool(f(params)) for f in c]
    if mode == 'interleaved':
        result = []
        it = iter(c)
        for f in c:
            other = next(it)
            result.append(bool(f(params)))
            if bool(other(params)) != result[-1]: ctx.fail("Same rule accepts and rejects same parameters {}", params)
        return result
    pm = ParameterManager(sorted(params), [(-10, 10)]*len(params), c)
    return bool(pm.passesConstraints(np.array([params[name] for name in sorted(params)])))


def judge(ctx):
    q = ctx.params
    rules = []
    for n in range(q['N'] if not q.get('fewer') else ctx.choose(q['N']+1, "rules")):
        rules.append({name: ctx.pick(ROLES, "role of "+name) for name in q['names']})
    present = [name for name in q['names'] if not ctx.choose(2, "absent")]
    if not present: raise Prune
    verdicts = [ctx.choose(2, "reject") == 0 for _ in rules]
    extra = []
    for _ in range(ctx.choose(q.get('extra', 0)+1, "appended")): extra.append(ctx.choose(2, "reject") == 0)
    container = ctx.pick(q.get('containers', (set,)), "container")
    mode = ctx.pick(q['modes'], "mode")
    ctx.mark(mode)
    if extra: ctx.mark("appended")
    for name in present:
        roles = [rule[name] for rule in rules if rule[name] != 'unused']
        if len(roles) > 1: ctx.mark("shared parameter")
        if len(set(roles)) > 1: ctx.mark("both linear and log")
    calls = []
    c = build(rules, verdicts, calls, container, extra)
    if len(c) != len(rules) + len(extra): ctx.fail("Length {} with {} rules, {} functions", len(c), len(rules), len(extra))
    if bool(c) != bool(rules or extra): ctx.fail("Truth {} with {} rules, {} functions", bool(c), len(rules), len(extra))
    stored = list(c) if mode in ('stored', 'reversed') else None
    for values in (FIRST, SECOND, FIRST):
        params = {name: values[name] for name in present}
        given = dict(params)
        want = []
        for rule, verdict in zip(rules, verdicts):
            absent = [name for name in rule if rule[name] != 'unused' and name not in present]
            if absent: ctx.mark("absent")
            want.append(True if absent else verdict)
        want.extend(extra)
        del calls[:]
        got = consult(ctx, mode, c, params, stored)
        if isinstance(got, bool):
            if got != all(want): ctx.fail("Accepted: {}, but verdicts of rules {} are {} with {}", got, rules, want, given)
        elif got != want:
            ctx.fail("Verdicts {} rather than {} of rules {} with {}", got, want, rules, given)
        ctx.mark("accepted" if all(want) else "rejected")
        if params != given: ctx.fail("Parameters {} became {}", given, params)
        for n, view in calls:
            if n >= len(rules):
                if view != given: ctx.fail("Appended function saw {} of {}", view, given)
                continue
            for name, role in rules[n].items():
                if role == 'unused' or name not in given: continue
                expected = given[name] if role == 'linear' else 10.0**given[name]
                if name not in view or not close(view[name], expected):
                    ctx.fail("Rule {} of {} saw {} with {}", n, rules, view, given)
            alone = view_of(rules[n], given)
            if alone is not None and not same(view, alone):
                ctx.fail("Rule {} of {} saw {}, but {} if alone, with {}", n, rules, view, alone, given)
        ctx.log("calls", calls)
    ctx.state([sorted(rule.items()) for rule in rules], present, verdicts, extra, mode)


def relation(ctx):
    q = ctx.params
    relations = {}
    params = {name: ctx.pick(q['values'], "value") for name in q['names']}
    for xName, yName in q['pairs']:
        m = ctx.pick(q['slopes'], "slope")
        b = ctx.pick(q['intercepts'], "intercept")
        err = ctx.pick(q['errs'], "deviation")
        relations.setdefault(xName, {})[yName] = (m, b, err)
    want = True
    for xName in relations:
        for yName, (m, b, err) in relations[xName].items():
            dev = abs(m*params[xName] + b - params[yName])
            if dev == err: ctx.mark("at limit")
            if dev > err:
                ctx.mark("beyond limit")
                want = False
    rc = RelationsChecker(relations)
    for k in range(2):
        got = bool(rc(dict(params)))
        if got != want: ctx.fail("Relations {} with {}: {}", relations, params, got)
    ctx.state(params, relations)


def scenarios(tier, seed):
    T = tier == "thorough"
    modes = ('iterated', 'stored', 'reversed', 'interleaved', 'manager')
    S = [("one rule", judge, {'N': 1, 'names': 'abc', 'modes': modes, 'containers': (set, frozenset, list, tuple)}, {}),
         ("appended", judge, {'N': 2, 'fewer': True, 'names': 'ab', 'modes': modes, 'extra': 2}, {}),
         ("three rules", judge, {'N': 3, 'names': 'ab', 'modes': modes if T else ('stored', 'manager')}, {}),
         ("relation", relation, {'names': 'xy', 'values': (-1.0, 0.0, 0.5, 2.0), 'pairs': ('xy',), 'slopes': (-1.0, 0.0, 2.0),
                                 'intercepts': (-0.5, 0.0, 1.0), 'errs': (0.0, 0.5, 1.5, 2.5)}, {})]
    for pairs in (('xy', 'xz'), ('xy', 'yz'), ('xy', 'yx'), ('xz', 'yz')):
        S.append(("relations "+' '.join(pairs), relation, {
            'names': 'xyz', 'values': (-1.0, 0.5, 1.0), 'pairs': pairs, 'slopes': (-1.0, 2.0), 'intercepts': (0.0, 0.5), 'errs': (0.0, 1.0)}, {}))
    for mode in modes: S.append(("two rules "+mode, judge, {'N': 2, 'names': 'abc', 'modes': (mode,)}, {}))
    return S
