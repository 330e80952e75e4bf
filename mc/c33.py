"""
C33: analysis plots show exactly the records and parameters they're asked for.
"""

import math, sys
from .drive import *
import yampex.plot

Original = yampex.plot.Plotter


class Axes(object):
    """
    Records what is plotted into one subplot.
    """
    def __init__(self, fig):
        self.fig = fig
        self.curves = []
        self.opts = {}

    def plot(self, X, Y, *args, **kw):
        self.curves.append(([float(x) for x in X], [float(y) for y in Y]))
        return [None]

    def __getattr__(self, name):
        if name.startswith('_'): raise AttributeError(name)
        return lambda *args, **kw: self


class StandIn(object):
    """
    Stands in for yampex's Plotter, just recording.
    """
    DPI = Original.DPI
    parseArgs = staticmethod(Original.parseArgs)
    made = []

    def __init__(self, *args, **kw):
        self.args = args
        self.kw = kw
        self.N = args[0]
        self.axes = []
        self.opts = {}
        self.shows = 0
        StandIn.made.append(self)

    def __enter__(self): return self
    def __exit__(self, *args): pass

    def __call__(self, *args, **kw):
        ax = Axes(self)
        ax.opts = self.opts
        self.opts = {}
        self.axes.append(ax)
        if len(args) > 1: ax.plot(*args)
        return ax

    def set_title(self, proto, *args): self.opts['title'] = proto.format(*args) if args else proto
    def set_xlabel(self, x): self.opts['x'] = x
    def set_ylabel(self, x): self.opts['y'] = x
    def show(self, *args, **kw): self.shows += 1
    showAll = show

    def __getattr__(self, name):
        if name.startswith('_'): raise AttributeError(name)
        return lambda *args, **kw: None



# Wherever it has been imported
for mod in [m for m in sys.modules.values() if getattr(m, '__name__', None) != __name__]:
    for name, value in list(getattr(mod, '__dict__', {}).items()):
        if value is Original: setattr(mod, name, StandIn)

BOUNDS = {
    "quick": "correlations for every 3-5 rows of 3-4 parameters over a grid of 3 values (constant ones included); plots of 1-11 parameters "
    "with 0-5 records, every pattern of membership for up to 3, every subset or slice of names, 3 ratios, with own or given plotter; "
    "the correlated pairs for every number and every parameter named; selections by fraction for every 3-4 SSEs out of 5, all bands; sequences of "
    "4 (or 12) file names for 6 paths and 5 dimensions",
    "thorough": "sequences of 5 rows with 3 parameters",
}
ASSUMPTIONS = [
    "how a plot looks isn't known, only the points, titles and labels given to the plotting library, for which a recording stand-in is used",
    "selecting by fraction isn't defined for SSEs that are all the same"]
MUST_COVER = ("correlations", "tied", "constant", "plotted", "slice", "subset", "in population only", "own plotter", "given plotter", "several figures",
              "ratio", "correlated", "named", "fraction", "portion", "file", "file with dimensions", "no file", "line fit")


def correlation(X, Y):
    """
    Reference: the correlation coefficient, None if there is none.
    """
    mx = math.fsum(X)/len(X); my = math.fsum(Y)/len(Y)
    xx = math.fsum((x-mx)**2 for x in X); yy = math.fsum((y-my)**2 for y in Y)
    if xx < 1E-20 or yy < 1E-20: return None
    return math.fsum((x-mx)*(y-my) for x, y in zip(X, Y)) / math.sqrt(xx*yy)


def analysis(rows, order=None, Kp=(), Kn=(), names=None, junk=True):
    """
    An analysis of rows (SSE, value...), in ascending order of SSE, scattered
    over an array with junk in between.
    """
    N = len(rows)
    Nc = len(names) + 1
    X = np.full([2*N+3, Nc], 12345.0)
    K = []
    for k, row in enumerate(rows):
        kr = ((order[k] if order else k)*2 + 1)
        X[kr,:] = row
        K.append(kr)
    return Analysis(list(names), X, K, set(K[k] for k in Kp), set(K[k] for k in Kn)), X, K


def correlations(ctx):
    q = ctx.params
    N, Nd = q['N'], q['Nd']
    names = NAMES[:Nd]
    rows = []
    for k in range(N):
        rows.append([1.0 + k] + [ctx.pick(q['grid'], "value") for j in range(Nd)])
    a, X, K = analysis(rows, names=names)
    with np.errstate(all='ignore'): got = [(k1, k2, float(R)) for k1, k2, R in a.correlator()]
    ctx.mark("correlations")
    pairs = [(k1, k2) for k1 in range(1, Nd+1) for k2 in range(k1+1, Nd+1)]
    if sorted((k1, k2) for k1, k2, R in got) != pairs: ctx.fail("Pairs for {} are {}", rows, got)
    last = INF
    for k1, k2, R in got:
        want = correlation([r[k1] for r in rows], [r[k2] for r in rows])
        if want is None:
            # Not correlated as far as one can tell
            ctx.mark("constant")
            want = 0.0
            if not (math.isnan(R) or abs(R) < 1E-6): ctx.fail("Correlation of {}, {} in {} is {}", k1, k2, rows, R)
        elif not abs(R-want) <= 1E-9: ctx.fail("Correlation of {}, {} in {} is {} rather than {}", k1, k2, rows, R, want)
        if abs(want) > last + 1E-9: ctx.fail("Correlations for {} are not in order: {}", rows, got)
        if abs(abs(want) - last) < 1E-9: ctx.mark("tied")
        last = abs(want)
    ctx.state(rows)
    ctx.log("got", got)


def points(X, K, k):
    return [float(X[kr,0]) for kr in K], [float(X[kr,k]) for kr in K]


def plots(ctx):
    """
    Plots of values vs SSE.
    """
    q = ctx.params
    N, Nd = q['N'], q['Nd']
    names = ["n{:d}".format((5*k) % Nd if Nd % 5 else k) for k in range(Nd)]
    status = [ctx.choose(3, "status") for k in range(N)] if q['status'] else [k % 3 for k in range(N)]
    rows = [[0.5*2**k] + [k + 0.25*j for j in range(Nd)] for k in range(N)]
    order = list(range(N))[::-1] if ctx.choose(2, "order") else None
    a, X, K = analysis(rows, order, [k for k in range(N) if status[k] == 0], [k for k in range(N) if status[k] == 2], names)
    which = ctx.choose(3 if Nd > 1 else 2, "names")
    if which == 0: args = []; shown = sorted(names)
    elif which == 1:
        args = [n for k, n in enumerate(names) if k == Nd-1 or (k < 4 and ctx.choose(2, "name"))]
        shown = list(args)
        ctx.mark("subset")
    else:
        k1 = ctx.choose(min(Nd-1, 3), "from")
        args = [k1, Nd-1]
        shown = sorted(names)[k1:Nd-1]
        if not shown: raise Prune
        ctx.mark("slice")
    kw = {}
    ratio = ctx.choose(3, "ratio")
    if ratio:
        kw['maxRatio'] = (None, 3.0, 100.0)[ratio]
        ctx.mark("ratio")
    inPop = ctx.choose(2, "inPop")
    if inPop:
        kw['inPop'] = True
        ctx.mark("in population only")
    if ctx.choose(2, "semilog"): kw['semilog'] = True
    del StandIn.made[:]
    given = ctx.choose(2, "given")
    if given:
        ctx.mark("given plotter")
        sp = kw['sp'] = StandIn(len(shown))
        a.plot(args, **kw)
        if len(StandIn.made) > 1: ctx.fail("Another plotter used instead of the one given")
        if sp.shows: ctx.fail("Showed the plotter given")
        pts = [sp]
    else:
        ctx.mark("own plotter")
        if ctx.choose(2, "noShow"):
            pt = a.plot(args, noShow=True, **kw)
            if pt is not StandIn.made[-1] or any(x.shows for x in StandIn.made): ctx.fail("Last plotter not returned, or shown")
        else:
            a.plot(args, **kw)
            if sum(x.shows for x in StandIn.made) != 1: ctx.fail("Shown {} times", [x.shows for x in StandIn.made])
        pts = list(StandIn.made)
        if len(pts) > 1: ctx.mark("several figures")
        for pt in pts:
            if len(pt.axes) > pt.N: ctx.fail("{} subplots in a figure for {}", len(pt.axes), pt.N)
    axes = [ax for pt in pts for ax in pt.axes]
    if [ax.opts.get('title') for ax in axes] != shown: ctx.fail("Asked for {}, plotted {}", args, [ax.opts.get('title') for ax in axes])
    limit = kw.get('maxRatio', 1000)*rows[0][0] if N else 0
    for name, ax in zip(shown, axes):
        k = names.index(name) + 1
        want = [points(X, [K[j] for j in range(N) if status[j] == s and rows[j][0] <= limit], k) for s in (0, 1, 2)]
        if inPop: want = want[:1]
        if ax.curves != want: ctx.fail("Curves of {} are {} rather than {}", name, ax.curves, want)
        ctx.mark("plotted")
    ctx.state(rows, status, args)
    ctx.log("axes", [(ax.opts.get('title'), ax.curves) for ax in axes])


def fit(P):
    """
    Reference: weighted least-squares line through (x, y, weight of the
    residual).
    """
    S = math.fsum(w*w for x, y, w in P)
    mx = math.fsum(w*w*x for x, y, w in P)/S; my = math.fsum(w*w*y for x, y, w in P)/S
    m = math.fsum(w*w*(x-mx)*(y-my) for x, y, w in P) / math.fsum(w*w*(x-mx)**2 for x, y, w in P)
    return m, my - m*mx


def correlated(ctx):
    """
    Plots of the most correlated pairs.
    """
    q = ctx.params
    Nd = q['Nd']
    names = ["n{:d}".format((5*k) % Nd if Nd % 5 else k) for k in range(Nd)]
    N = 6
    # All different correlations
    rows = [[1.0 + 0.5*k] + [k + 0.9*j*math.sin(7.0*k*(j+1)*q['phase'] + j*j) for j in range(Nd)] for k in range(N)]
    flip = ctx.choose(Nd+1, "flip")
    if flip:
        for row in rows: row[flip] = -row[flip]
    order = list(range(N))[::-1] if ctx.choose(2, "order") else None
    a, X, K = analysis(rows, order, names=names)
    n = 1 + ctx.choose(Nd*(Nd-1)//2 + 2, "N")
    c = ctx.choose(Nd+1, "name")
    name = names[c-1] if c else None
    del StandIn.made[:]
    kw = {'verbose': bool(ctx.choose(2, "verbose"))}
    pt = a.plotCorrelated(name=name, N=n, noShow=True, **kw)
    ctx.mark("correlated")
    if name: ctx.mark("named")
    pairs = [(abs(correlation([r[k1+1] for r in rows], [r[k2+1] for r in rows])), names[k1], names[k2]) for k1 in range(Nd) for k2 in range(k1+1, Nd)]
    pairs = sorted([x for x in pairs if not name or name in x], reverse=True)[:n]
    got = [(ax.opts.get('x'), ax.opts.get('y')) for ax in pt.axes]
    if [set(x) for x in got] != [set(x[1:]) for x in pairs]: ctx.fail("With N={} and name={}, plotted {} rather than {}", n, name, got, pairs)
    for (xn, yn), ax in zip(got, pt.axes):
        kx = names.index(xn) + 1; ky = names.index(yn) + 1
        (x1, x2), (y1, y2) = ax.curves[0]
        # The line is a fit to about the best half, weighted according to SSE
        fine = False
        for M in (N//2, N//2+1):
            m, b = fit([(r[kx], r[ky], 2*rows[0][0]/(r[0]+rows[0][0])) for r in rows[:M]])
            xs = [r[kx] for r in rows[:M]]
            if abs(x1-min(xs)) < 1E-9 and abs(x2-max(xs)) < 1E-9 and abs(m*x1+b-y1) < 1E-6 and abs(m*x2+b-y2) < 1E-6: fine = True
        if not fine: ctx.fail("Line for {}, {} is {}", xn, yn, ax.curves[0])
        ctx.mark("line fit")
        all = {(r[kx], r[ky]) for r in rows}
        pts = {p for c in ax.curves[1:] for p in zip(*c)}
        if not pts <= all: ctx.fail("Points {} plotted that aren't there", pts - all)
        if not {(r[kx], r[ky]) for r in rows[:N//2]} <= pts: ctx.fail("Some of the best half of the points aren't plotted: {}", pts)
    if pt.N < len(pt.axes): ctx.fail("{} subplots in a figure for {}", len(pt.axes), pt.N)
    ctx.state(rows, n, name)
    ctx.log("got", got)


def fractions(ctx):
    """
    Selections by fractions of the range of SSEs, or of the rows.
    """
    q = ctx.params
    N = q['N']
    SSEs = []
    for k in range(N):
        SSEs.append((SSEs[-1] if SSEs else 1.0) + ctx.pick((0.0, 0.03, 0.5, 2.0, 100.0), "step"))
    rows = [[x, float(k)] for k, x in enumerate(SSEs)]
    order = list(range(N))[::-1] if ctx.choose(2, "order") else None
    a, X, K = analysis(rows, order, names=["x"])
    if ctx.choose(2, "what"):
        if SSEs[-1] == SSEs[0]: raise Prune
        f = [0.0] + [x[0] for x in a.fmms] if q['bands'] else [0.0] + [ctx.pick((0.1, 0.25, 0.6), "fraction"), 1.01]
        seen = []
        for f1, f2 in zip(f, f[1:]):
            got = [int(k) for k in a.Kf12(f1, f2)]
            for k in got:
                u = (X[k,0] - SSEs[0]) / (SSEs[-1] - SSEs[0])
                if not f1 - 1E-9 <= u <= f2 + 1E-9: ctx.fail("Row with SSE {} of {} is not within {}-{}", X[k,0], SSEs, f1, f2)
            seen.extend(got)
        if sorted(seen) != sorted(K): ctx.fail("Bands {} of {} have rows {} rather than {}", f, SSEs, seen, K)
        ctx.mark("fraction")
    else:
        p1, p2 = ctx.pick(((0.0, 0.5), (0.0, 1.0), (0.25, 0.75), (0.5, 1.0), (0.0, 0.1)), "portion")
        got = [int(k) for k in a.Kp12(p1, p2)]
        if got != [k for k in K if k in got]: ctx.fail("Portion {}-{} of {} is {}", p1, p2, K, got)
        for k, kr in enumerate(K):
            # Certainly within or without
            lo, hi = k/float(N), (k+1)/float(N)
            if lo >= p1 and hi <= p2 and kr not in got: ctx.fail("Portion {}-{} of {} lacks {}: {}", p1, p2, K, kr, got)
            if (hi <= p1 or lo > p2) and kr in got: ctx.fail("Portion {}-{} of {} has {}: {}", p1, p2, K, kr, got)
        ctx.mark("portion")
    ctx.state(SSEs)
    ctx.log("got", got)


def files(ctx):
    """
    File names for plots.
    """
    path, directory, base, ext = ctx.pick((
        ("/tmp/x/foo.png", "/tmp/x/", "foo", ".png"), ("foo.png", "", "foo", ".png"), ("./a.b.png", "./", "a.b", ".png"),
        ("~/p-2.png", "~/", "p-2", ".png"), ("d.d/foo.PNG", "d.d/", "foo", ".PNG"), ("/q.png", "/", "q", ".png")), "path")
    dims, width, height = ctx.pick((("", 12.0, None), (None, 12.0, None), ("1200x800", 12.0, 8.0), ("500", 5.0, None), ("50x2000", 0.5, 20.0)), "dims")
    a, X, K = analysis([[1.0, 2.0], [2.0, 3.0]], names=["x"])
    how = ctx.choose(3, "how")
    if how == 0:
        if a.filePath() is not None: ctx.fail("There's a file path though none was set")
        pt = a.makePlotter(1, dims=dims)
        if 'filePath' in pt.kw: ctx.fail("Plots into a file though none was set")
        if dims and (abs(pt.kw['width']-width) > 1E-9 or (height and abs(pt.kw['height']-height) > 1E-9)):
            ctx.fail("Dimensions {} gave {}", dims, pt.kw)
        ctx.mark("no file")
        return
    a.filePath(path, dims=dims)
    got = []
    N_files = 12 if how == 1 else 4
    for k in range(N_files):
        if how == 1:
            stuff = a.filePath()
            if abs(stuff[1]-width) > 1E-9 or (stuff[2] != height and abs(stuff[2]-height) > 1E-9): ctx.fail("Dimensions {} gave {}", dims, stuff)
            got.append(stuff[0])
        else:
            N = ctx.pick((1, 4, 9), "subplots")
            pt = a.makePlotter(N)
            if abs(pt.kw['width']-width) > 1E-9 or (height and abs(pt.kw['height']-height) > 1E-9): ctx.fail("Dimensions {} gave {}", dims, pt.kw)
            if not pt.kw['height'] > 0: ctx.fail("No height for {}", dims)
            got.append(pt.kw['filePath'])
    ctx.mark("file with dimensions" if dims else "file")
    if got[0] != path: ctx.fail("First file for {} is {}", path, got[0])
    if len(set(got)) < N_files: ctx.fail("Files for {} are {}", path, got)
    for k, x in enumerate(got):
        if not (x.startswith(directory + base) and x.endswith(ext)): ctx.fail("Files for {} are {}", path, got)
        if k and x[len(directory+base):-len(ext)] != "-{:d}".format(k+1): ctx.fail("Files for {} are {}", path, got)
    ctx.state(path, dims, how)
    ctx.log("got", got)


def scenarios(tier, seed):
    T = tier == "thorough"
    grid = (0.0, 1.0, -2.5)
    S = [("correlations 3x3", correlations, {'N': 3, 'Nd': 3, 'grid': grid}, {}),
         ("correlations 4x3", correlations, {'N': 4, 'Nd': 3, 'grid': grid[:2]}, {}),
         ("correlations 5x3", correlations, {'N': 5, 'Nd': 3, 'grid': grid[:2]}, {}),
         ("correlations 3x4", correlations, {'N': 3, 'Nd': 4, 'grid': grid[:2]}, {})]
    if T: S.append(("correlations 4x3 more", correlations, {'N': 4, 'Nd': 3, 'grid': grid}, {}))
    for N, Nd in ((0, 2), (1, 1), (1, 2), (2, 2), (3, 2), (3, 4)): S.append(("plots {}x{}".format(N, Nd), plots, {'N': N, 'Nd': Nd, 'status': True}, {}))
    for Nd in range(3, 12): S.append(("plots 5x{}".format(Nd), plots, {'N': 5, 'Nd': Nd, 'status': False}, {}))
    S.append(("plots 12x3", plots, {'N': 12, 'Nd': 3, 'status': False}, {}))
    for Nd in (2, 3, 4, 5):
        for phase in (0.1, 0.23): S.append(("correlated {} {}".format(Nd, phase), correlated, {'Nd': Nd, 'phase': phase}, {}))
    for N in (2, 3, 4):
        for bands in (True, False): S.append(("fractions {} {}".format(N, bands), fractions, {'N': N, 'bands': bands}, {}))
    S.append(("files", files, {}, {}))
    return S
