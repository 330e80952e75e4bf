"""
C39: the parameter viewer plots exactly what its options ask for.
"""

import importlib.util, io, os, sys, tempfile
from .c33 import *
import ade

BOUNDS = {
    "quick": "all combinations of maximum ratio (absent or one of 3), members only, number of correlated pairs (absent or one of 3), 5 requests for parameters, "
    "4 of file and dimensions, logarithmic scale and verbosity, for a saved population of 5 with 3 parameters and a history of 12 records",
    "thorough": "another population",
}
ASSUMPTIONS = [
    "what the plots show is decided by what the analysis object (property C33) plots when asked directly for the same",
    "the order of the plots is left open except that those of values come before those of correlations"]
MUST_COVER = ("values", "correlations", "both", "nothing", "no file", "unknown parameter", "to file", "dimensions", "verbose", "members only", "semilog", "missing")
PATH = os.path.join(os.path.dirname(os.path.abspath(ade.__file__)), "scripts", "pv.py")


def load():
    spec = importlib.util.spec_from_file_location("pv_script", PATH)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


# Record the use of a logarithmic scale, too
StandIn.plot_semilogy = lambda self: self.opts.__setitem__('semilog', True)


class Small(Pop):
    Np_min = 5


def evaluate(values): return 1.0 + abs(float(values[0]))


saved = {}


def population(w, n):
    """
    Returns the contents of a file with a saved population.
    """
    if n not in saved:
        p = Small(evaluate, NAMES[:3], [(-10.0, 10.0)]*3)
        f = Fired(p.setup(uniform=True))
        w.pump()
        if not f or len(p) != 5: raise Prune
        for k in range(7):
            i = Individual(p, [0.3*k, (k*k) % 5 - 2.0, 1.5 - k*(n+1) % 4])
            i.SSE = 1.5 + 0.7*k
            if k % 2: p[k % 5] = i
            else: p.history.add(i, neverInPop=True)
            w.pump()
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, "p.dat")
            p.save(path)
            with open(path, 'rb') as fh: saved[n] = fh.read()
    return saved[n]


def record():
    """
    What was plotted, as a list of plain values.
    """
    result = []
    for s in StandIn.made:
        result.append((
            s.args, sorted((k, v) for k, v in s.kw.items() if k in ('filePath', 'width', 'height')),
            [(sorted(ax.opts.items()), ax.curves) for ax in s.axes]))
    return result


def view(ctx):
    q = ctx.params
    w = World(ctx)
    content = population(w, q['n'])
    ratio = ctx.pick((None, 1.5, 3.0, 1000.0), "ratio")
    inPop = ctx.choose(2, "members only")
    N = ctx.pick((None, 1, 2, 10), "correlated")
    names = ctx.pick(([], ["delta"], ["gamma", "alpha"], ["alpha", "delta", "gamma"], ["omega"]), "parameters")
    filed = ctx.pick((0, 1, 2, 3), "file")
    semilog = ctx.choose(2, "semilog")
    verbose = ctx.choose(2, "verbose")
    missing = ctx.choose(2, "file missing") if not names else 0
    argv = ["pv"]
    if ratio is not None: argv += ["-r", str(ratio)]
    if inPop: argv.append("-i")
    if N is not None: argv += ["-N", str(N)]
    if semilog: argv.append("--semilog")
    if verbose: argv.append("-v")
    dims = ("", "600x300", "", "500")[filed]
    if dims: argv += ["-d", dims]
    stdout, sys.stdout = sys.stdout, io.StringIO()
    old = sys.argv
    try:
        with tempfile.TemporaryDirectory() as tmp:
            path = os.path.join(tmp, "pop.dat")
            if not missing:
                with open(path, 'wb') as fh: fh.write(content)
            png = os.path.join(tmp, "plot.png") if filed > 1 else None
            if png: argv += ["-f", png]
            sys.argv = argv + [path] + names
            StandIn.made = []
            error = None
            try: load().main()
            except (Exception, SystemExit) as e: error = e
            got = record()
            made = StandIn.made
            text = sys.stdout.getvalue()
            if missing:
                ctx.mark("missing")
                if error is None: ctx.fail("No error without a file")
                return
            # Reference
            sys.stdout = io.StringIO()
            StandIn.made = []
            a = Population.load(path).history.a
            if png: a.filePath(png, dims=dims)
            unknown = None
            try:
                if ratio: a.plot(names, maxRatio=ratio, inPop=bool(inPop), noShow=True, semilog=bool(semilog), dims=dims)
                if N:
                    for name in names or [None]:
                        a.plotCorrelated(name=name, N=N, noShow=True, verbose=bool(verbose), dims=dims)
            except Exception as e: unknown = e
            want = record()
            reference = sys.stdout.getvalue()
    finally:
        sys.stdout = stdout
        sys.argv = old
        StandIn.made = []
    ctx.log("plots", len(got), repr(error))
    ctx.state(argv[1:-2], names, len(got))
    if "omega" in names:
        ctx.mark("unknown parameter")
        if unknown is None: return
        if error is None: ctx.fail("No error for an unknown parameter with {}", argv)
        return
    if not ratio and not N:
        ctx.mark("nothing")
        if error is None: ctx.fail("No error with nothing to do for {}", argv)
        return
    if error is not None: ctx.fail("{!r} with {}", error, argv)
    if unknown is not None: raise Prune
    ctx.mark("values" if ratio else "correlations")
    if ratio and N: ctx.mark("both")
    if filed > 1: ctx.mark("to file")
    else: ctx.mark("no file")
    if dims: ctx.mark("dimensions")
    if inPop: ctx.mark("members only")
    if semilog: ctx.mark("semilog")
    if verbose: ctx.mark("verbose")
    if got != want:
        for k in range(max(len(got), len(want))):
            x = got[k] if k < len(got) else None
            y = want[k] if k < len(want) else None
            if repr(x) != repr(y): ctx.fail("Plot {} with {} is {} rather than {}", k, argv, x, y)
    if not any(s.shows for s in made): ctx.fail("Nothing was shown with {}", argv)
    if sum(s.shows for s in made) > 1: ctx.fail("Shown more than once with {}", argv)
    if reference.strip() != text.strip(): ctx.fail("{!r} printed with {} rather than {!r}", text, argv, reference)


def scenarios(tier, seed):
    S = [("first population", view, {'n': 0}, {})]
    if tier == "thorough": S.append(("second population", view, {'n': 1}, {}))
    return S
