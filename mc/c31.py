"""
C31: the log viewer shows what the log says.
"""

import contextlib, io, os, re, sys, tempfile, textwrap
from .drive import *
from ade.scripts import lgg

BOUNDS = {
    "quick": "logs of up to 3 entries, in every order, with every combination of 5 steps in SSE and 9 in the values of a parameter of either "
    "sign; entries with every combination of 12 forms of value, and of mark, for 2 parameters; every 1 or 2 of 19 requests for parameters; "
    "up to 6 entries with every pattern of marks; entries wrapped over lines after each of 14 parameters; 1-3 entries with any 2 of 10 kinds of text in "
    "between; tables of up to 9 final members; 39-90 entries all worth showing",
    "thorough": "up to 4 entries, any 3 kinds of text in between",
}
ASSUMPTIONS = [
    "the log is written in the format of ade's own reports and examples",
    "all entries have the same parameters and different SSEs, none of them just at the limit of a criterion for showing it",
    "which of the entries in excess of the maximum number are left out is only known as far as it's not the best one"]
MUST_COVER = ("shown", "similar left out", "bad left out", "negative", "zero", "exponent", "one mark", "two marks", "glob", "number range",
              "letter range", "marked names", "mark only in a bad entry", "wrapped", "other text", "debug entry", "final population", "too many", "end of file")
scratch = {}


def path():
    pid = os.getpid()
    if pid not in scratch: scratch[pid] = tempfile.mkdtemp()
    return os.path.join(scratch[pid], "the.log")


def write(text):
    with open(path(), 'w') as fh: fh.write(text)
    return path()


def entry(SSE, names, tokens, prelude="SSE={} with", width=120):
    """
    An entry the way ade's examples write it, blank lines and all.
    """
    text = " ".join([prelude.format(SSE)] + ["{}={}".format(name, token) for name, token in sorted(zip(names, tokens))])
    return "\n" + textwrap.fill(text, width=width, break_on_hyphens=False) + "\n\n"


def number(token):
    return float(token.rstrip('*'))


def marks(token):
    return len(token) - len(token.rstrip('*'))


def parsed(ctx, text):
    """
    What gets read from the log.
    """
    result = []
    g = lgg.Grepper(write(text), ["nosuch"])
    for SSE, pd in g.filerator():
        result.append((float(SSE), {name: (float(pd[name][0]), len(pd[name][1])) for name in pd}))
    return result


def reads(ctx, text, want):
    try: got = parsed(ctx, text)
    except Exception as e: ctx.fail("Reading {!r} failed: {!r}", text, e)
    want = [(float(SSE), {name: (number(token), marks(token)) for name, token in zip(names, tokens)}) for SSE, names, tokens in want]
    if got != want: ctx.fail("Reading {!r} gave {} rather than {}", text, got, want)


class Interactive(Exception):
    pass


def shown(ctx, text, args):
    """
    Runs the script. Returns the parameter names and the rows of what it
    printed, each with the SSE and a list of (value, marks).
    """
    def post_mortem(*args): raise Interactive()
    stdout = io.StringIO()
    argv, pm = sys.argv, lgg.pdb.post_mortem
    sys.argv = ["lgg", write(text)] + list(args)
    lgg.pdb.post_mortem = post_mortem
    try:
        with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(io.StringIO()): lgg.main()
    except (Exception, SystemExit) as e:
        ctx.fail("Showing {} of {!r} failed: {!r}", args, text, e)
    finally:
        sys.argv = argv
        lgg.pdb.post_mortem = pm
    lines = [line for line in stdout.getvalue().split('\n') if line.strip()]
    heading = lines[0].split()
    if heading[0] != "SSE": ctx.fail("No heading in {}", lines)
    rows = []
    for line in lines[1:]:
        if not line.strip('- '): continue
        tokens = line.split()
        if len(tokens) != len(heading): ctx.fail("Line {!r} doesn't match the heading {!r}", line, lines[0])
        rows.append((float(tokens[0]), [(number(token), marks(token)) for token in tokens[1:]]))
    return heading[1:], rows


def close(x, y):
    return abs(x-y) <= 1E-4*abs(y)


def differs(a, b):
    if b == 0: return abs(a) > 0.01
    return abs(a-b)/abs(b) > 0.01


def expected(ctx, entries):
    """
    Reference: the rows to be shown, best last, out of (SSE, [token...]).
    """
    rows = sorted([(SSE, [(number(x), marks(x)) for x in tokens]) for SSE, tokens in entries], key=lambda x: x[0])
    best = rows[0][0]
    result = rows[:1]
    for SSE, values in rows[1:]:
        if SSE > 2*best:
            ctx.mark("bad left out")
            break
        if differs(SSE, result[-1][0]) or any(differs(x[0], y[0]) for x, y in zip(values, result[-1][1])): result.append((SSE, values))
        else: ctx.mark("similar left out")
    return result[::-1]


def compare(ctx, text, rows, want):
    ctx.mark("shown")
    if len(rows) != len(want) or any(
            not close(r[0], w[0]) or len(r[1]) != len(w[1]) or any(
                not close(x[0], y[0]) or x[1] != y[1] for x, y in zip(r[1], w[1])) for r, w in zip(rows, want)):
        ctx.fail("Log {!r} was shown as {} rather than {}", text, rows, want)


STEPS = (1.003, 1.02, 1.5, 1.95, 2.2)
VALUES = ("5", "5.01", "5.3", "-5", "-5.01", "-5.3", "0", "0.005", "-0.02")


def steps(ctx):
    """
    Which entries are shown.
    """
    q = ctx.params
    N = 1 + ctx.choose(q['N'], "entries")
    SSE = 0.5
    entries = []
    for k in range(N):
        if k: SSE *= ctx.pick(q['steps'], "step")
        x = ctx.pick(q['values'], "x")
        y = q['other'] if not q['both'] or k == 0 else ctx.pick((q['other'], "{:g}".format(1.1*float(q['other']))), "y")
        if x[0] == '-': ctx.mark("negative")
        if x == "0": ctx.mark("zero")
        entries.append((round(SSE, 5), (x, y)))
    order = []
    left = list(range(N))
    while left: order.append(left.pop(ctx.choose(len(left), "next")))
    text = "".join(entry("{:.5f}".format(entries[k][0]), "xy", entries[k][1]) for k in order)
    names, rows = shown(ctx, text, ["x", "y"])
    if sorted(names) != ["x", "y"]: ctx.fail("Names are {}", names)
    if names == ["y", "x"]: rows = [(r[0], r[1][::-1]) for r in rows]
    compare(ctx, text, rows, expected(ctx, entries))
    ctx.state(entries, order)
    ctx.log("rows", rows)


FORMS = ("1.5", "-2.25", "0", "-0", "1e-07", "-3.2e+15", "123457", "1e+06", "0.0001", "7", "-1e-300", "4.5e-05")


def forms(ctx):
    """
    What's read from an entry, and how it's shown.
    """
    q = ctx.params
    tokens = []
    for k in range(2):
        x, stars = ctx.pick(FORMS, "form"), ctx.choose(3, "marks")
        if 'e' in x: ctx.mark("exponent")
        if stars == 1: ctx.mark("one mark")
        if stars == 2: ctx.mark("two marks")
        tokens.append(x + '*'*stars)
    SSE = ctx.pick(("12345.6789", "1.5e-07"), "SSE")
    names = q['names']
    prelude = ctx.pick(("SSE={} with", "SSE={}, with", "SSE={}"), "prelude")
    text = entry(SSE, names, tokens, prelude)
    if ctx.choose(2, "individual"): text = "\n<" + text.strip() + ">\n"
    if ctx.choose(2, "EOF"):
        ctx.mark("end of file")
        text = text.rstrip('\n')
    reads(ctx, text, [(SSE, names, tokens)])
    got, rows = shown(ctx, text, ["*"])
    if sorted(got) != sorted(names): ctx.fail("Names are {}", got)
    compare(ctx, text, rows, [(float(SSE), [(number(tokens[names.index(x)]), marks(tokens[names.index(x)])) for x in got])])
    ctx.state(SSE, tokens)
    ctx.log("rows", rows)


ALL = ("x1", "x2", "x3", "x9", "x10", "x11", "ya", "yb", "yc", "z", "foo_bar", "Q7", "m9b")
REQUESTS = (
    ("x1", ("x1",)), ("z", ("z",)), ("x?", ("x1", "x2", "x3", "x9")), ("x*", ("x1", "x2", "x3", "x9", "x10", "x11")),
    ("y[ac]", ("ya", "yc")), ("*", ALL), ("*_*", ("foo_bar",)), ("nosuch", ()), ("x1-3", ("x1", "x2", "x3")), ("x9-11", ("x9", "x10", "x11")),
    ("x10-11", ("x10", "x11")), ("ya-c", ("ya", "yb", "yc")), ("yb-c", ("yb", "yc")), ("x2-2", ("x2",)), ("[!x]*", ALL[6:]), ("?9*", ("x9", "m9b")), ("Q7", ("Q7",)), ("Q*", ("Q7",)), ("q*", ()))


def requests(ctx):
    q = ctx.params
    want = set()
    args = []
    for k in range(q['N']):
        arg, names = ctx.pick(REQUESTS, "request")
        args.append(arg)
        want |= set(names)
        if set(arg) & set("*?["): ctx.mark("glob")
        elif '-' in arg: ctx.mark("letter range" if arg[0] == 'y' else "number range")
    tokens = ["{:d}.5".format(k+1) + '*'*(k % 3) for k in range(len(ALL))]
    text = entry("0.25", ALL, tokens)
    got, rows = shown(ctx, text, args)
    if sorted(got) != sorted(want): ctx.fail("Asking for {} showed {} rather than {}", args, got, sorted(want))
    compare(ctx, text, rows, [(0.25, [(number(tokens[ALL.index(x)]), marks(tokens[ALL.index(x)])) for x in got])])
    ctx.state(args)
    ctx.log("names", got)


def marked(ctx):
    """
    Without any request, the parameters with a mark in one of the best four
    are shown.
    """
    q = ctx.params
    N = q['N']
    names = ("x", "y")
    entries = []
    for k in range(N):
        tokens = [ctx.pick(("1.5", "2.5*", "3.5**")[:2 if k else 3], "mark") for x in names]
        entries.append((1.0 + 0.05*k, tokens))
    order = ctx.pick(q['orders'], "order")
    want = sorted(x for j, x in enumerate(names) if any(marks(tokens[j]) for SSE, tokens in entries[:4]))
    more = sorted(x for j, x in enumerate(names) if any(marks(tokens[j]) for SSE, tokens in entries))
    if want: ctx.mark("marked names")
    if more != want: ctx.mark("mark only in a bad entry")
    text = "".join(entry("{:.5f}".format(entries[k][0]), names, entries[k][1]) for k in order)
    got, rows = shown(ctx, text, [])
    if sorted(got) != want: ctx.fail("Log {!r} showed {} rather than {}", text, got, want)
    compare(ctx, text, rows, expected(ctx, [(SSE, [tokens[names.index(x)] for x in got]) for SSE, tokens in entries]))
    ctx.state(entries, order)
    ctx.log("rows", rows)


def wrapped(ctx):
    """
    Entries wrapped over lines at all possible places, by ade itself.
    """
    N = 14
    names = ["parameter_{}{:d}".format("abc"[k % 3]*ctx.choose(4, "longer") if k in (1, 3) else "", k) for k in range(N)]
    SSE = ctx.pick(("0.01234", "123456.12345"), "SSE")
    pm = ParameterManager(names, [(-100.0, 100.0)]*N)
    low = ctx.choose(N, "low"); high = ctx.choose(N, "high")
    values = [-99.5 if k == low else 99.25 if k == high else k*1.25 - 8 for k in range(N)]
    text = "\n" + pm.prettyValues(values, "SSE={} with", SSE) + "\n\n"
    if '\n' in text.strip(): ctx.mark("wrapped")
    got = parsed(ctx, text)
    if len(got) != 1: ctx.fail("Reading {!r} gave {}", text, got)
    if got[0][0] != float(SSE): ctx.fail("Reading {!r} gave SSE {}", text, got[0][0])
    want = {name: (values[k], 1 if k == low else 2 if values[k] > 90 else 0) for k, name in enumerate(names)}
    if got[0][1] != want: ctx.fail("Reading {!r} gave {} rather than {}", text, got[0][1], want)
    ctx.state(names, low, high)
    ctx.log("text", text)


OTHER = (
    ("progress", "X0!12XX9\n"), ("generation", "Generation 3/10  F=0.5  N_hist=25\n" + "-"*79 + "\n"), ("blank", "\n"), ("blanks", "\n\n\n\n\n\n\n"),
    ("text", "Whatever x=3.5 or y=4.5**\n"), ("dashes", "-"*120 + "\n"), ("elapsed", "\nElapsed time: 1.23 seconds\n\n"),
    ("goal", "Goal SSE of 0.5 has been met, stopped.\n"), ("table", "  x | 1.5 2.5\n"), ("characters", "\tx = 7\r\n"))


def among(ctx):
    """
    Entries among other text.
    """
    q = ctx.params
    text = ""
    want = []
    names = ("x", "y")
    for k in range(1 + ctx.choose(q['N'], "entries")):
        for j in range(2):
            c = ctx.choose(len(OTHER)+1, "other", cost=1)
            if c:
                ctx.mark("other text")
                text += OTHER[c-1][1]
        tokens = ("{:d}.5*".format(k), "-{:d}.25".format(k))
        SSE = "{:.5f}".format(1.5 - 0.1*k)
        kind = ctx.choose(3, "kind")
        if kind == 0: text += entry(SSE, names, tokens)
        else:
            e = "<SSE={} x={} y={}>".format(SSE, *tokens)
            if kind == 2:
                # Replacement of one individual with another
                ctx.mark("debug entry")
                worse = ("9.5", "8.5**"); SSE2 = "1.7"
                want.append((SSE2, names, worse))
                text += "<SSE={} x={} y={}>\n\t--->\n".format(SSE2, *worse)
            text += e + "\n\n"
        want.append((SSE, names, tokens))
    c = ctx.choose(len(OTHER)+1, "other", cost=1)
    if c: text += OTHER[c-1][1]
    reads(ctx, text, want)
    ctx.state(want)
    ctx.log("text", text)


def final(ctx):
    """
    A final population's table, written by ade itself.
    """
    q = ctx.params
    names = ["b1", "a", "c_"]
    N = 2 + ctx.choose(q['N']-1, "size")
    w = World(ctx)
    class P(Pop): Np_min = N
    p = P(lambda values: 5.0, names, [(-10.0, 10.0)]*3)
    if p.Np != N: raise Prune
    f = Fired(p.setup(uniform=True)); w.pump()
    if not f or len(p) != N: raise Prune
    members = []
    for k in range(N):
        values = [ctx.pick((-9.75, 1.25, 9.75), "value") if k < 2 and j < 2 else round(-7.5 + k + 0.25*j, 3) for j in range(3)]
        i = Individual(p, values)
        i.SSE = 0.5 + 0.125*((k*q['stride']) % 11)
        p[k] = i
        members.append((float(i.SSE), {n: (v, 1 if v < -9 else 2 if v > 9 else 0) for n, v in zip(names, values)}))
    w.pump()
    resort(p)
    table = repr(p)
    text = ctx.pick(("", "\nGeneration 1/2\n---\n"), "before") + "Final population:\n" + table
    text += ctx.pick(("", "\n", "\nElapsed time: 1 seconds\n\n", "\n\n\n"), "after")
    ctx.mark("final population")
    got = parsed(ctx, text)
    best = min(members, key=lambda m: m[0])
    if got[:1] != [best]: ctx.fail("Reading {!r} gave {} rather than {}", text, got[:1], best)
    n = len(got) - 1
    if n < min(N, 7): ctx.fail("Reading {!r} gave {} of {} members", text, n, N)
    want = sorted(members, key=lambda m: m[0])[:n]
    if sorted(got[1:], key=lambda m: m[0]) != want: ctx.fail("Reading {!r} gave {} rather than {}", text, got[1:], want)
    ctx.state(members)
    ctx.log("text", text)


def many(ctx):
    """
    More entries than are shown.
    """
    N = ctx.pick((2, 39, 40, 41, 42, 60, 90), "entries")
    what = ctx.pick(("up", "down", "mixed"), "order")
    entries = [(round(1.0 + 0.01*k, 5), ("{:g}".format(1 + 0.1*k), )) for k in range(N)]
    order = list(range(N))
    if what == 'down': order.reverse()
    if what == 'mixed': order = order[::2] + order[1::2]
    text = "".join(entry("{:.5f}".format(entries[k][0]), "x", entries[k][1]) for k in order)
    names, rows = shown(ctx, text, ["x"])
    if N > 40: ctx.mark("too many")
    if len(rows) != min(N, 40): ctx.fail("{} entries worth showing gave {} rows", N, len(rows))
    if not close(rows[-1][0], 1.0): ctx.fail("The last row is {} rather than the best one", rows[-1])
    for a, b in zip(rows, rows[1:]):
        if not a[0] > b[0]: ctx.fail("Rows not in order: {}, {}", a, b)
    for SSE, values in rows:
        k = int(round((SSE - 1)/0.01))
        if len(values) != 1 or not close(values[0][0], 1 + 0.1*k) or values[0][1]: ctx.fail("Row with SSE {} has {}", SSE, values)
    ctx.state(N, what)
    ctx.log("rows", rows)


def scenarios(tier, seed):
    T = tier == "thorough"
    orders = [list(range(6)), list(range(6))[::-1], [3, 0, 5, 1, 4, 2], [4, 5, 0, 1, 2, 3]]
    S = [("steps", steps, {'N': 3, 'steps': STEPS, 'values': VALUES, 'other': "2.5", 'both': False}, {}),
         ("steps, others negative", steps, {'N': 3, 'steps': STEPS[:2], 'values': VALUES[:5], 'other': "-2.5", 'both': True}, {})]
    if T: S.append(("steps of four", steps, {'N': 4, 'steps': STEPS[:4], 'values': VALUES[:5], 'other': "-2.5", 'both': False}, {}))
    for names in (("x", "y"), ("y", "x"), ("xx", "x"), ("SSEx", "e")):
        S.append(("forms {}".format(names), forms, {'names': names}, {}))
    for N in (1, 2): S.append(("requests {}".format(N), requests, {'N': N}, {}))
    for N in (1, 2, 4, 5, 6):
        S.append(("marked {}".format(N), marked, {'N': N, 'orders': [[k for k in o if k < N] for o in orders]}, {}))
    S.append(("wrapped", wrapped, {}, {}))
    S.append(("among", among, {'N': 3}, {'bound': 2+T}))
    for stride in (1, 5): S.append(("final {}".format(stride), final, {'N': 9, 'stride': stride}, {}))
    S.append(("many", many, {}, {}))
    return S
