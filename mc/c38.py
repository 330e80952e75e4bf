"""
C38: at most one image viewer is run for a plot file, the first one that works.
"""

import io, os, sys, tempfile
import twisted.internet.inotify as inotify

from .drive import *
from twisted.internet.error import ProcessExitedAlready
from ade import image

BOUNDS = {
    "quick": "2-3 viewers, each installed or not and working or not, with the file there beforehand, empty or missing; a PID file that is missing, empty, garbled, "
    "of a dead or a live process; all sequences of up to 5 events out of changes and removals of the file, viewers ending with and without complaints, and termination",
    "thorough": "sequences of up to 6 events",
}
ASSUMPTIONS = [
    "processes and change notifications are stand-ins",
    "whether a viewer gets run again after a previous one ended is left open, and so is what becomes of it when the file is removed"]
MUST_COVER = ("spawned", "already running", "stale", "next viewer", "none found", "file kept", "file created", "second change", "terminated", "nothing to terminate", "quiet", "options", "title")
LIVE = os.getpid()


class Notifier(object):
    """
    Stand-in for inotify.
    """
    all_ = []

    def __init__(self, *args, **kw):
        self.reading = False
        self.watches = []
        Notifier.all_.append(self)

    def startReading(self): self.reading = True
    def stopReading(self): self.reading = False
    def loseConnection(self, *args): self.reading = False

    def watch(self, path, mask=None, autoAdd=False, callbacks=None, recursive=False):
        self.watches.append((path, callbacks or []))

    def ignore(self, path): self.watches = [x for x in self.watches if x[0] != path]


class Process(object):
    def __init__(self, proto, path, args, pid):
        self.proto = proto
        self.path = path
        self.args = list(args)
        self.pid = pid
        self.signals = []
        self.ended = False

    def signalProcess(self, signal):
        if self.ended: raise ProcessExitedAlready()
        self.signals.append(signal)

    def loseConnection(self, *args): pass
    closeStdin = closeStdout = closeStderr = lambda self: None

    def end(self, complaint):
        if complaint: self.proto.childDataReceived(2, complaint)
        self.ended = True
        self.pid = None
        self.proto.processEnded(None)


def viewer(ctx):
    real = inotify.INotify
    inotify.INotify = Notifier
    Notifier.all_ = []
    stdout, sys.stdout = sys.stdout, io.StringIO()
    try:
        with tempfile.TemporaryDirectory() as tmp: play(ctx, tmp)
    finally:
        inotify.INotify = real
        sys.stdout = stdout
        msg(None)


OPTIONS = [["--plain", "--window-title={}"], ["-Teit"], []]


def play(ctx, tmp):
    q = ctx.params
    w = World(ctx)
    log = io.StringIO()
    msg(log)
    # What is there
    plot = os.path.join(tmp, "plot.png")
    before = ctx.pick(q['before'], "file")
    if before is not None:
        with open(plot, 'wb') as fh: fh.write(before)
    exList = []
    installed = []
    for k in range(q['viewers']):
        path = os.path.join(tmp, "viewer{:d}".format(k))
        exList.append([path] + OPTIONS[k])
        if ctx.choose(2, "installed") == 0:
            installed.append(k)
            with open(path, 'w'): pass
    pidPath = plot + ".pid"
    pid = ctx.pick(q['pids'], "PID file")
    if pid == 'dead':
        # No such process for sure
        pid = "4194999"
    elif pid == 'live': pid = "{:d}".format(LIVE)
    if pid is not None:
        with open(pidPath, 'w') as fh: fh.write(pid)
    live = pid is not None and pid.strip() == str(LIVE)
    class Viewer(image.ImageViewer): pass
    Viewer.exList = exList
    spawned = []
    def spawnProcess(proto, path, args=(), env={}, *more, **kw):
        p = Process(proto, path, args, 5000 + len(spawned))
        spawned.append(p)
        proto.makeConnection(p)
        return p
    reactor.spawnProcess = spawnProcess
    quiet = ctx.choose(2, "quiet")
    iv = Viewer(plot, noComplain=True) if quiet else Viewer(plot)
    with open(plot, 'rb') as fh: content = fh.read()
    if before is None:
        ctx.mark("file created")
        if content: ctx.fail("File created with content {!r}", content)
    else:
        ctx.mark("file kept")
        if content != before: ctx.fail("File changed from {!r} to {!r}", before, content)
    if spawned: ctx.fail("Viewer run before there was anything to view")

    def notify():
        for n in list(Notifier.all_):
            if not n.reading: continue
            for path, callbacks in list(n.watches):
                if getattr(path, 'path', path) != plot: ctx.fail("Watching {}", path)
                for f in callbacks: f(n, path, inotify.IN_MODIFY)

    tried = -1          # Position in installed
    active = None       # What has been spawned and not ended
    settled = False     # Nothing more is required
    changed = False
    for k in range(q['events']):
        events = ['change']
        if active: events += ['end', 'complain']
        if os.path.exists(plot): events.append('remove')
        if q.get('terminate'): events.append('terminate')
        what = ctx.pick(events, "event")
        N = len(spawned)
        if what == 'change':
            with open(plot, 'ab') as fh: fh.write(b"x")
            notify()
            w.pump()
            new = spawned[N:]
            if live:
                ctx.mark("already running")
                if new: ctx.fail("Viewer run though one is running")
            elif active:
                ctx.mark("second change")
                if new: ctx.fail("Another viewer run while one is running")
            elif settled: return
            elif not installed:
                ctx.mark("none found")
                if new: ctx.fail("Missing viewer {} was run", new[0].path)
                if not quiet and not log.getvalue().strip(): ctx.fail("No complaint about missing viewers")
                settled = True
            else:
                if pid is not None: ctx.mark("stale")
                ctx.mark("spawned")
                if len(new) != 1: ctx.fail("{} viewers run", len(new))
                tried = 0
                active = new[0]
                proper(ctx, active, exList[installed[0]], plot, pidPath)
        elif what == 'remove':
            os.remove(plot)
            notify()
            w.pump()
            if spawned[N:]: ctx.fail("Viewer run when the file got removed")
            # What becomes of a viewer is left open
            return
        elif what == 'end':
            active.end(None)
            w.pump()
            if spawned[N:]: ctx.fail("Another viewer run after one has ended properly")
            active = None
            settled = True
        elif what == 'complain':
            active.end(b"Can't open display")
            w.pump()
            new = spawned[N:]
            tried += 1
            if not quiet and not log.getvalue().strip(): ctx.fail("No complaint about what the viewer said")
            if tried < len(installed):
                ctx.mark("next viewer")
                if len(new) != 1: ctx.fail("{} viewers run after one has failed", len(new))
                active = new[0]
                proper(ctx, active, exList[installed[tried]], plot, pidPath)
            else:
                if new: ctx.fail("Viewer {} run after all have failed", new[0].path)
                active = None
                settled = True
        elif what == 'terminate':
            try:
                iv.termViewer()
                iv.termViewer()
            except Exception as e: ctx.fail("Termination raised {!r}", e)
            w.pump()
            ctx.mark("terminated")
            if not active: ctx.mark("nothing to terminate")
            elif active.signals != ['TERM']: ctx.fail("Viewer was sent signals {}", active.signals)
            for p in spawned:
                if p is not active and p.signals: ctx.fail("A viewer that has ended was sent signals {}", p.signals)
            return
        if quiet:
            ctx.mark("quiet")
            if log.getvalue().strip(): ctx.fail("Complaint {!r} in spite of noComplain", log.getvalue())
        ctx.log(what, len(spawned))
        ctx.state(what, len(spawned), tried, bool(active), settled)


def proper(ctx, p, ex, plot, pidPath):
    """
    The viewer was run with its options and has its PID recorded.
    """
    want = [os.path.basename(ex[0])]
    for x in ex[1:]:
        ctx.mark("title" if "{}" in x else "options")
        want.append(x.replace("{}", os.path.basename(plot)))
    want.append(plot)
    if p.path != ex[0] or p.args != want: ctx.fail("Viewer {} was run with {} rather than {}", p.path, p.args, want)
    with open(pidPath) as fh: text = fh.read().strip()
    if text != str(p.pid): ctx.fail("PID {!r} recorded rather than {}", text, p.pid)


def scenarios(tier, seed):
    T = tier == "thorough"
    return [("events", viewer, {'viewers': 2, 'before': (b"abc",), 'pids': (None, 'dead', 'live'), 'events': 5+T, 'terminate': True}, {}),
            ("three viewers", viewer, {'viewers': 3, 'before': (b"abc",), 'pids': (None,), 'events': 5+T}, {}),
            ("files", viewer, {'viewers': 2, 'before': (None, b"", b"abc"), 'pids': (None, "", "garbled", 'dead', 'live'), 'events': 3, 'terminate': True}, {})]
