"""
C28: extracting the examples never overwrites or loses a user's file.
"""

import io, os, re, shutil, sys, tempfile
from .drive import *
import ade, ade.util
from ade.scripts import examples

BOUNDS = {
    "quick": "every combination of each example file being absent, modified, empty or as packaged beforehand, older or newer than the package, with and without other files; "
    "no directory; a directory reached by symlink; up to 3 extractions with each possible user edit, deletion or addition in between; both entry points",
    "thorough": "also each combination of the files being absent or modified beforehand",
}
ASSUMPTIONS = [
    "the home directory is where the HOME environment variable says",
    "attempts to write outside of the home directory are blocked and recorded"]
MUST_COVER = ("directory created", "created", "kept modified", "kept empty", "deleted", "edited", "added", "directory deleted", "symlink", "old")
SOURCE = os.path.join(os.path.dirname(os.path.abspath(ade.__file__)), "examples")
reExample = re.compile(r'[a-z].+\.(py|c|txt)$')
ENTRY = (ade.extract_examples, examples.extract)


class Sentry(object):
    """
    Blocks and records everything that would change something outside the
    directory I'm watching over.
    """
    home = None
    escaped = None
    busy = False
    EVENTS = {
        'os.remove': (0,), 'os.rename': (0, 1), 'os.mkdir': (0,), 'os.rmdir': (0,), 'os.link': (1,), 'os.symlink': (1,), 'os.truncate': (0,),
        'os.chmod': (0,), 'os.chown': (0,), 'os.utime': (0,), 'shutil.rmtree': (0,), 'shutil.move': (0, 1), 'shutil.copyfile': (1,),
        'shutil.copytree': (1,)}
    REFUSED = ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'os.kill', 'os.fork')

    def __call__(self, event, args):
        if self.home is None or self.busy: return
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int): return
            if mode is None: writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            else: writing = any(x in mode for x in 'wax+')
            paths = [path] if writing else []
        elif event in self.EVENTS: paths = [args[k] for k in self.EVENTS[event]]
        elif event in self.REFUSED: paths = ["/"]
        else: return
        for path in paths:
            if isinstance(path, int): continue
            self.busy = True
            try: real = os.path.realpath(os.fsdecode(path))
            finally: self.busy = False
            if real in ("/dev/null",): continue
            if not (real + "/").startswith(self.home + "/"):
                self.escaped.append((event, str(path)))
                raise PermissionError("Outside of the scratch directory: {}".format(path))


sentry = Sentry()
hooked = []


def extract(ctx, which, home):
    """
    Does the extraction with the supplied home directory.
    """
    if not hooked:
        sys.addaudithook(sentry)
        hooked.append(True)
    env = os.environ.get('HOME')
    stdout = sys.stdout
    sys.stdout = io.StringIO()
    sentry.escaped = []
    os.environ['HOME'] = home
    sentry.home = os.path.realpath(home)
    error = None
    try: ENTRY[which]()
    except Exception as e: error = e
    finally:
        sentry.home = None
        ade.util.msg(None)
        sys.stdout = stdout
        os.environ['HOME'] = env
    if sentry.escaped: ctx.fail("Extraction tried to change something else: {}", sentry.escaped)
    if error is not None: ctx.fail("Extraction failed: {!r}", error)


packaged = {}


def package():
    """
    Returns the contents of packaged files.
    """
    if not packaged:
        for name in sorted(os.listdir(SOURCE)):
            path = os.path.join(SOURCE, name)
            if os.path.isfile(path):
                with open(path, 'rb') as fh: packaged[name] = fh.read()
    return packaged


def names(): return [name for name in sorted(package()) if reExample.match(name)]


def tree(path):
    result = {}
    for base, dirs, files in os.walk(path):
        for name in dirs: result[os.path.relpath(os.path.join(base, name), path) + "/"] = None
        for name in files:
            full = os.path.join(base, name)
            with open(full, 'rb') as fh: result[os.path.relpath(full, path)] = fh.read()
    return result


def put(path, content):
    with open(path, 'wb') as fh: fh.write(content)


def runs(ctx):
    q = ctx.params
    home = tempfile.mkdtemp()
    try: play(ctx, q, home)
    finally: shutil.rmtree(home)


def play(ctx, q, home):
    which = ctx.choose(2, "entry point")
    src = package()
    eDir = os.path.join(home, "ade-examples")
    # Things of the user's outside of the directory
    put(os.path.join(home, "data.py"), b"Mine")
    put(os.path.join(home, "thesis.txt"), b"Mine too")
    os.mkdir(os.path.join(home, "elsewhere"))
    users = {}
    kind = ctx.pick(q['dirs'], "directory")
    if kind == 'symlink':
        os.symlink(os.path.join(home, "elsewhere"), eDir)
        ctx.mark("symlink")
    elif kind == 'present': os.mkdir(eDir)
    else: ctx.mark("directory created")
    old = False
    if kind != 'absent':
        old = len(q['files']) > 1 and ctx.choose(2, "old")
        for name in names():
            x = ctx.pick(q['files'], name)
            if x is None: continue
            users[name] = src[name] if x == 'same' else {'modified': src[name] + b"# Mine\n", 'empty': b"", 'other': b"Mine\n"}[x]
            put(os.path.join(eDir, name), users[name])
            if old:
                # Since long before the package
                os.utime(os.path.join(eDir, name), (1E8, 1E8))
                ctx.mark("old")
        if ctx.choose(2, "other files"):
            users["mine.py"] = b"Mine"
            users["mine.c"] = b""
            for name in ("mine.py", "mine.c"): put(os.path.join(eDir, name), users[name])
    before = {k: v for k, v in tree(home).items() if not k.startswith("ade-examples/") and not k.startswith("elsewhere/")}
    for n in range(q['runs']):
        if n:
            ops = [None, 'add', 'rmdir'] + [(op, name) for name in names() for op in ('edit', 'truncate', 'delete')]
            op = ctx.pick(ops, "user")
            if op == 'add':
                users["added{:d}.txt".format(n)] = b"Mine"
                put(os.path.join(eDir, "added{:d}.txt".format(n)), b"Mine")
                ctx.mark("added")
            elif op == 'rmdir':
                if os.path.islink(eDir): raise Prune
                shutil.rmtree(eDir)
                users = {}
                ctx.mark("directory deleted")
            elif op:
                op, name = op
                path = os.path.join(eDir, name)
                if op == 'delete':
                    os.remove(path)
                    users.pop(name, None)
                    ctx.mark("deleted")
                else:
                    users[name] = b"" if op == 'truncate' else b"Edited %d" % n
                    put(path, users[name])
                    ctx.mark("edited")
        extract(ctx, which, home)
        got = tree(eDir)
        for name, content in users.items():
            if got.get(name) != content: ctx.fail("User's {} with {!r} has become {!r}", name, content[-20:], (got.get(name) or b"None")[-20:])
            ctx.mark("kept modified" if content else "kept empty")
        for name in names():
            if name in users: continue
            if name not in got: ctx.fail("Example {} wasn't created", name)
            if got[name] != src[name]: ctx.fail("Example {} created with wrong content {!r}", name, got[name][:20])
            ctx.mark("created")
        for name in got:
            if name not in users and (name not in src or got[name] != src[name]):
                ctx.fail("Extraction created {}", name)
        after = {k: v for k, v in tree(home).items() if not k.startswith("ade-examples/") and not k.startswith("elsewhere/")}
        if after != before: ctx.fail("Home directory had {} but now {}", sorted(before), sorted(after))
        ctx.state(sorted(users.items()), sorted(got))
    ctx.log("files", sorted(got))


def scenarios(tier, seed):
    T = tier == "thorough"
    return [("beforehand", runs, {'runs': 1, 'dirs': ('present',), 'files': (None, 'modified', 'empty', 'same')}, {}),
            ("repeated", runs, {'runs': 3, 'dirs': ('absent', 'present', 'symlink'), 'files': (None, 'other') if T else (None,)}, {})]
