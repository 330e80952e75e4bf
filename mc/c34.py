"""
C34: command-line options and arguments have their documented effect.
"""

import contextlib, io, sys
from .drive import *
from ade.args import Args

BOUNDS = {
    "quick": "every sequence of up to 2 of 22 option forms (3 of 6) (short, attached, long, long with equals sign; numbers, text and switches; valid, "
    "invalid and unknown ones), with up to 3 positional arguments at every place, with and without positional arguments being permitted, "
    "one lacking its value after up to one other, and the values looked at in each of four orders",
    "thorough": "sequences of up to 4 of 6 option forms",
}
ASSUMPTIONS = ["positional arguments are given next to each other (a limitation of argparse) and don't start with a hyphen"]
MUST_COVER = ("default", "short", "attached", "long", "equals", "switch", "repeated", "positional", "no positional", "invalid", "unknown", "help", "in between", "lacking",
              "unwanted positional")
# Form, tokens, name, value (or what's wrong)
FORMS = (
    ("short", ("-m", "5"), 'm', 5), ("attached", ("-m7",), 'm', 7), ("long", ("--maxiter", "12"), 'm', 12), ("equals", ("--maxiter=0",), 'm', 0),
    ("short", ("-C", "0.25"), 'C', 0.25), ("equals", ("--CR=1e-3",), 'C', 1e-3), ("long", ("--CR", "3"), 'C', 3.0),
    ("short", ("-F", "0.5,1"), 'F', "0.5,1"), ("equals", ("--F=",), 'F', ""), ("long", ("--F", "007"), 'F', "007"),
    ("switch", ("-e",), 'e', True), ("switch", ("--bitter-end",), 'e', True), ("switch", ("-N",), 'N', True),
    ("short", ("-c", "x=1"), 'c', "x=1"), ("short", ("-k", "4"), 'k', 4), ("equals", ("--ratio=2",), 'r', 2.0), ("invalid", ("-k", "y"), None, None),
    ("invalid", ("-m", "x"), None, None), ("invalid", ("--CR=foo",), None, None), ("invalid", ("-m", "2.5"), None, None),
    ("unknown", ("--nosuch",), None, None), ("help", ("-h",), None, None))
DEFAULTS = {'m': 100, 'C': 0.8, 'F': "0.5,1.0", 'e': False, 'N': False, 'c': "", 'k': 0, 'r': 0.0}


def make(positional):
    args = Args(
        """
        Some program.

        That does something, which takes more
        than one line to tell.
        """)
    args('-m', '--maxiter', 100, "Maximum number of generations")
    args('-C', '--CR', 0.8, "Crossover rate {} to use")
    args('-F', '--F', "0.5,1.0", "Scaling (default is a range)")
    args('-e', '--bitter-end', "Keep working to the end")
    args('-N', '--not-adaptive', "No adaptation")
    args('-c', '--comment', "", "Some text")
    args('-k', '--kores', 0, "Number of cores")
    args('-r', '--ratio', 0.0, "Some ratio")
    if positional: args("[file1 file2 ...] Files to use")
    return args


def run(ctx):
    q = ctx.params
    args = make(q['positional'])
    argv = []
    want = dict(DEFAULTS)
    bad = None
    names = []
    Na = ctx.choose(4, "arguments")
    more = ["a.dat", " b\t", "3"][:Na]
    chunks = []
    for k in range(ctx.choose(q['N']+1, "options")):
        form, tokens, name, value = ctx.pick(q['forms'], "option")
        ctx.mark(form)
        chunks.append(tokens)
        if name is None: bad = bad or form
        else: want[name] = value
        if name in names: ctx.mark("repeated")
        names.append(name)
    at = ctx.choose(len(chunks)+1, "place") if Na else 0
    if Na and 0 < at < len(chunks): ctx.mark("in between")
    chunks.insert(at, tuple(more))
    if q.get('lacking'):
        # An option lacks its value, which whatever comes next isn't
        chunks.append(ctx.pick((("-m",), ("--CR",), ("-F",), ("-m", "-e"), ("--comment", "--bitter-end"), ("-r", "-k", "3")), "lacking"))
        bad = bad or "lacking"
        ctx.mark("lacking")
    argv = [x for tokens in chunks for x in tokens]
    if Na and not q['positional']:
        bad = bad or "unwanted"
        ctx.mark("unwanted positional")
    order = ctx.pick((('o', 'p', 'o'), ('p', 'o', 'p'), ('n', 'o', 'p'), ('i', 'b', 'o')), "order")
    old = sys.argv
    sys.argv = ["prog"] + argv
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            for what in order:
                if what == 'o':
                    for name in sorted(want):
                        got = getattr(args, name)
                        if type(got) is not type(want[name]) or got != want[name]:
                            ctx.fail("With {}, option {} is {!r} rather than {!r}", argv, name, got, want[name])
                        if name not in names: ctx.mark("default")
                elif what == 'n' and len(args) != Na: ctx.fail("With {} there are {} arguments", argv, len(args))
                elif what == 'i' and list(args) != more: ctx.fail("With {} the arguments are {}", argv, list(args))
                elif what == 'b' and bool(args) != bool(Na): ctx.fail("With {} truth value is {}", argv, bool(args))
                elif what == 'p' and q['positional']:
                    for k, x in enumerate(more):
                        if args[k] != x or args[k-Na] != x: ctx.fail("With {} argument {} is {!r}", argv, k, args[k])
                    if list(args[1:]) != more[1:]: ctx.fail("With {} arguments after the first are {}", argv, args[1:])
    except SystemExit as e:
        if not bad: ctx.fail("{} was refused: {}", argv, out.getvalue())
        if bad == "help" and "Crossover" not in out.getvalue(): ctx.fail("No help given")
    else:
        if bad: ctx.fail("{} was accepted although {}", argv, bad)
        ctx.mark("positional" if Na else "no positional")
    finally:
        sys.argv = old
    ctx.state(argv)
    ctx.log("argv", argv)


def scenarios(tier, seed):
    T = tier == "thorough"
    S = []
    for positional in (True, False):
        S.append(("all, positional {}".format(positional), run, {'positional': positional, 'N': 2, 'forms': FORMS}, {}))
        few = [FORMS[k] for k in (0, 3, 5, 8, 11, 14)]
        S.append(("some, positional {}".format(positional), run, {'positional': positional, 'N': 3+T, 'forms': few}, {}))
    S.append(("lacking a value", run, {'positional': True, 'N': 1, 'forms': FORMS, 'lacking': True}, {}))
    return S
