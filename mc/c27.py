"""
C27: the log shows every message once, on lines of its own.
"""

import sys
from .drive import *
from ade.util import Messenger

BOUNDS = {
    "quick": "all sequences of 4 calls out of 37 (plain, formatted and multi-line text; single characters; blank lines and separators before "
    "and after in all documented combinations; switching logging to one of two files or to STDOUT, off and on, alone and along with a "
    "message; asking for the destination and whether a line was written) starting with logging on or off, and of 6 calls out of 10",
    "thorough": "sequences of 5 and 7",
}
ASSUMPTIONS = [
    "with both a blank line and a separator after the text, they may be in either order",
    "whether a line break still pending from characters is written at a new destination is left open"]
MUST_COVER = ("line after character", "off", "redirected", "line was written", "no line was written", "STDOUT", "character", "separator", "same destination again")
D = "-"*120


class Dest(object):
    """
    A log file.
    """
    def __init__(self, name): self.name, self.text, self.closed = name, "", False
    def write(self, text):
        if self.closed: raise ValueError("I/O operation on closed file")
        self.text += text
    def flush(self): pass
    def close(self): self.closed = True
    def __repr__(self): return self.name


def line(args, *texts): return ('line', args, texts)
def char(args, text): return ('char', args, (text,))


FORMS = [
    line(("hello",), "hello\n"),
    line(("val {:d}", 5), "val 5\n"),
    line(("{} and {}", "this", 0), "this and 0\n"),
    line(("two\nlines",), "two\nlines\n"),
    char(("x",), "x"),
    char(("",), "\n"),
    line(("-",), "\n" + D + "\n"),
    line((0, "hello"), "\nhello\n"),
    line((-1, "hello"), "\nhello\n"),
    line((0, "val {:d}", 0), "\nval 0\n"),
    line((-1, "val {}", -1), "\nval -1\n"),
    line(("hello", 0), "hello\n\n"),
    line(("hello", -1), "hello\n\n"),
    line(("val {}", 7, 0), "val 7\n\n"),
    line((0, "hello", 0), "\nhello\n\n"),
    line(("-", "hello"), "\n" + D + "\nhello\n"),
    line(("hello", "-"), "hello\n" + D + "\n"),
    line(("val {}", "-", "-"), "val -\n" + D + "\n"),
    line((0, "-", "hello"), "\n\n" + D + "\nhello\n"),
    line((-1, "-", "hello"), "\n\n" + D + "\nhello\n"),
    line(("-", 0, "hello"), "\n" + D + "\n\nhello\n"),
    line(("hello", 0, "-"), "hello\n" + D + "\n\n", "hello\n\n" + D + "\n"),
    line(("hello", "-", 0), "hello\n" + D + "\n\n", "hello\n\n" + D + "\n"),
    line(("-", "hello", "-"), "\n" + D + "\nhello\n" + D + "\n"),
    ('writeLine', ("direct",), ("direct\n",)),
    ('writeChar', ("y",), ("y",)),
    ('set', ('A',), ()), ('set', ('B',), ()), ('set', (None,), ()), ('set', (True,), ()), ('set', (False,), ()),
    ('setline', ('A', "hello"), ("hello\n",)), ('setline', ('B', "val {}", 3), ("val 3\n",)), ('setline', (True, "hello"), ("hello\n",)),
    ('get', (), ()),
    ('written', (), ()),
    ('bool', (), ()),
]
FEWER = [FORMS[k] for k in (0, 4, 7, 11, 26, 27, 28, 32, 35, 5)]


def sequences(ctx):
    q = ctx.params
    msg = Messenger()
    A, B, S = Dest('A'), Dest('B'), Dest('S')
    real, sys.stdout = sys.stdout, S
    try: play(ctx, q, msg, {'A': A, 'B': B, True: S, False: None, None: None})
    finally: sys.stdout = real


def play(ctx, q, msg, dests):
    all_ = [dests['A'], dests['B'], dests[True]]
    current = None
    pending = ('',)     # What may be written before the next line
    written = False
    def same(got, want, call):
        if got is not want: ctx.fail("Call {} returned {} rather than {}", call, got, want)
    if ctx.choose(2, "initially"):
        same(msg(dests['A']), None, "redirecting")
        current = dests['A']
    for n in range(q['length']):
        kind, args, texts = ctx.pick(q['forms'], "call")
        before = [d.text for d in all_]
        expected = None
        if kind in ('set', 'setline'):
            dest = dests[args[0]]
            if dest is not current:
                ctx.mark("redirected")
                if pending != ('',): pending = ('', '\n')
                if dest is dests[True]: ctx.mark("STDOUT")
                # Opened (again) for this
                if dest: dest.closed = False
            elif dest: ctx.mark("same destination again")
            args = (args[0] if args[0] in (None, True, False) else dest,) + args[1:]
        if kind == 'set':
            same(msg(*args), current, args)
            current = dest
        elif kind == 'get': same(msg(), current, args)
        elif kind == 'bool':
            if bool(msg) != (current is not None): ctx.fail("Truth value {} with destination {}", bool(msg), current)
        elif kind == 'written':
            got = msg.lineWritten()
            if bool(got) != written: ctx.fail("Line written: {}", got)
            ctx.mark("line was written" if written else "no line was written")
            written = False
        else:
            if kind == 'writeLine': msg.writeLine(*args)
            elif kind == 'writeChar': msg.writeChar(*args)
            elif kind == 'setline':
                current = dest
                same(msg(*args), current, args)
            else: same(msg(*args), current, args)
            if current is None: ctx.mark("off")
            elif 'har' in kind:
                expected = texts
                pending = ('\n',)
                ctx.mark("character")
            else:
                if '\n' in pending: ctx.mark("line after character")
                if D in texts[0]: ctx.mark("separator")
                expected = [x + text for x in pending for text in texts]
                pending = ('',)
                written = True
        for d, text in zip(all_, before):
            if d is current and expected is not None:
                if not d.text.startswith(text) or d.text[len(text):] not in expected:
                    ctx.fail("Call {} wrote {!r} rather than {!r} after {!r}", args, d.text[len(text):], expected, text)
            elif d.text != text: ctx.fail("Call {} wrote {!r} to {} when logging is to {}", args, d.text[len(text):], d, current)
    ctx.log("text", [d.text for d in all_])
    ctx.state([d.text for d in all_], str(current), written)


def scenarios(tier, seed):
    T = tier == "thorough"
    return [("all calls", sequences, {'length': 4+T, 'forms': FORMS}, {}),
            ("fewer calls", sequences, {'length': 6+T, 'forms': FEWER}, {})]
