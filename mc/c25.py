"""
C25: specification files mean what their documented grammar says.
"""

import os, tempfile
from .drive import *
from ade.specs import SpecsLoader

BOUNDS = {
    "quick": "single attribute lines with 1-2 values out of 43 forms (3 out of 5), each with every combination of equals sign (5 forms), "
    "commas, trailing comment (5 forms) and indentation; files of up to 3 attributes or dicts having up to 3 entries with 9 forms of keys, "
    "with up to 2 decorations (comments and blank lines anywhere, comment after a dict's name or hyphens, length of hyphens, equals sign, "
    "indentation, missing final newline); all files of up to 5 lines out of 9 kinds, well-formed or not",
    "thorough": "up to 3 decorations, files of up to 6 lines",
}
ASSUMPTIONS = [
    "no entry is defined twice, or as both a value and a dict",
    "text values don't contain quotes, start with an equals sign or start or end with a comma"]
MUST_COVER = ("float", "constant", "text", "list", "trailing comment", "equals sign", "comma", "integer key", "nested", "empty file",
              "error", "well-formed", "malformed", "decorated", "no final newline", "get")
VALUES = (("5", 5.0), ("-1", -1.0), ("+2.5", 2.5), ("0", 0.0), ("1e3", 1000.0), ("2E-4", 2E-4), ("-1.5e+2", -150.0), (".5", 0.5), ("5.", 5.0),
          ("None", None), ("TRUE", True), ("false", False), ("foo", "foo"), ("Bar_7", "Bar_7"), ("t0", "t0"), ("3x", "3x"))
ODD = VALUES + tuple((x, x) for x in (
    "a--b", "-foo", "--", "x-y", "-", ".", "1--2", "1e", "e5", "1.2.3", "0x1F", "1_000", "nonesuch", "Truer", "falsetto", "a:b", "5-6", "1e5x",
    "/a/b.c", "[1]", "(2)", "3:4", "1,000", "a,b", "1,2,x", "a=b", "1=2"))
FEW = (VALUES[0], VALUES[2], VALUES[9], VALUES[11], VALUES[13])
scratch = {}


def path():
    """
    A file in a scratch directory of this process's own.
    """
    pid = os.getpid()
    if pid not in scratch: scratch[pid] = tempfile.mkdtemp()
    return os.path.join(scratch[pid], "the.specs")


def load(text):
    """
    Returns a dict of what got loaded, and the object.
    """
    filePath = path()
    with open(filePath, 'w') as fh: fh.write(text)
    s = SpecsLoader(filePath)()
    return {name: value for name, value in vars(s).items() if not str(name).startswith('_')}, s


def same(x, y):
    """
    Whether values are the same including their kind.
    """
    if isinstance(y, dict):
        return isinstance(x, dict) and len(x) == len(y) and all(same_key(key, x) and same(x[key], y[key]) for key in y)
    if isinstance(y, list): return isinstance(x, (list, tuple)) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if y is None or isinstance(y, bool): return x is y
    if isinstance(y, float): return isinstance(x, (int, float)) and not isinstance(x, bool) and float(x) == y
    return type(x) is type(y) and x == y


def same_key(key, dct):
    return any(type(k) is type(key) and k == key for k in dct)


def check(ctx, text, want):
    try: got, s = load(text)
    except Prune: raise
    except Exception as e: ctx.fail("Loading {!r} failed: {!r}", text, e)
    if not same(got, want): ctx.fail("Loading {!r} gave {} rather than {}", text, got, want)
    return s


def gets(ctx, s, want):
    """
    Gets everything there is, and some that isn't.
    """
    def descend(keys, value):
        got = s.get(*keys)
        if not same(got, value): ctx.fail("Getting {} gave {} rather than {}", keys, got, value)
        got = s.get(*(keys + ["nosuch"]))
        if got != {}: ctx.fail("Getting nonexistent entry {} gave {}", keys + ["nosuch"], got)
        ctx.mark("get")
        if isinstance(value, dict):
            for key in value: descend(keys + [key], value[key])
    for name in want: descend([name], want[name])
    if s.get("nosuch") != {}: ctx.fail("Getting nonexistent attribute gave {}", s.get("nosuch"))


EQUALS = (" ", " = ", "\t", " =", "=", "= ")
COMMENTS = ("", " # comment 1", " #", "#comment", "\t# -- # x = 1")


def line(ctx):
    q = ctx.params
    values = []; tokens = []
    for k in range(q['N']):
        token, value = ctx.pick(q['values'], "value")
        comma = "," if ctx.choose(2, "comma") else ""
        if comma: ctx.mark("comma")
        tokens.append(token+comma)
        values.append(value)
    eq = ctx.pick(q['equals'], "equals")
    comment = ctx.pick(q['comments'], "comment")
    indent = ctx.pick(("", "  "), "indent")
    if comment: ctx.mark("trailing comment")
    if "=" in eq: ctx.mark("equals sign")
    text = indent + "name" + eq + ctx.pick((" ", "\t  "), "space").join(tokens) + comment + "\n"
    for value in values: ctx.mark("constant" if value in (None, True, False) and not isinstance(value, float) else "text" if isinstance(value, str) else "float")
    if len(values) > 1: ctx.mark("list")
    where = ctx.choose(2, "in dict")
    value = values[0] if len(values) == 1 else values
    if where: check(ctx, "dct\n---\n" + text + "---\n", {'dct': {'name': value}})
    else: check(ctx, text, {'name': value})
    ctx.state(values, where)
    ctx.log("text", text)


KEYS = ("a{}", "{}", "b:a{}", "c:{}", "4:{}", "x{}:y:z", "{}k", "-a{}", "1.{}:2x")


def structure(ctx):
    q = ctx.params
    want = {}
    lines = []
    def dec(options, label):
        k = ctx.choose(len(options), label, cost=1)
        if k: ctx.mark("decorated")
        return options[k]
    def between():
        extra = dec(((), ("",), ("# foo 1",), ("   ",), ("", "  # --")), "between")
        lines.extend(extra)
    n = 10
    for k in range(ctx.choose(q['items']+1, "items")):
        between()
        n += 1
        if ctx.choose(2, "dict") == 0:
            lines.append(dec(("", " "), "indent") + "attr{:d}".format(k) + dec(EQUALS, "equals") + "{:d}.5".format(n) + dec(COMMENTS, "comment"))
            want["attr{:d}".format(k)] = n + 0.5
            continue
        name = "dict{:d}".format(k)
        lines.append(dec(("", " "), "indent") + name + dec(COMMENTS, "comment"))
        between()
        lines.append(dec(("-----", "--", " -----------"), "hyphens") + dec(COMMENTS, "comment"))
        dct = want[name] = {}
        for kk in range(ctx.choose(q['entries']+1, "entries")):
            between()
            n += 1
            key = ctx.pick(q['keys'], "key").format(n)
            lines.append(dec(("", " "), "indent") + key + dec(EQUALS, "equals") + "{:d} {:d}".format(n, -n) + dec(COMMENTS, "comment"))
            keys = [int(x) if x.isdigit() else x for x in key.split(':')]
            if len(keys) > 1: ctx.mark("nested")
            if int in [type(x) for x in keys]: ctx.mark("integer key")
            d = dct
            for x in keys[:-1]: d = d.setdefault(x, {})
            d[keys[-1]] = [float(n), -float(n)]
        between()
        lines.append(dec(("-----", "--", " -----------"), "hyphens") + dec(COMMENTS, "comment"))
    between()
    text = '\n'.join(lines)
    if lines and dec((False, True), "final newline"): ctx.mark("no final newline")
    else: text += '\n'
    if not lines:
        if ctx.choose(2, "nothing"): text = ""
        ctx.mark("empty file")
    empties = [name for name in want if want[name] == {}]
    if empties:
        # Empty dicts are documented as not supported
        try: got, s = load(text)
        except Exception: raise Prune
        for name in empties:
            if name not in got: del want[name]
    s = check(ctx, text, want)
    gets(ctx, s, want)
    ctx.log("text", text)
    ctx.state(want)


KINDS = ("name", "hyphens", "one", "sub", "two", "blank", "comment", "equals", "tight")


def find(dct, key, value):
    for k in dct:
        if k == key and same(dct[k], value): return True
        if isinstance(dct[k], dict) and find(dct[k], key, value): return True
    return False


def raw(ctx):
    q = ctx.params
    N = 1 + ctx.choose(q['length'], "lines")
    lines = []; want = {}; entries = []
    pending = dct = None
    malformed = False
    for n in range(N):
        kind = ctx.pick(KINDS, "line")
        key, value = "k{:d}".format(n), n + 0.25
        if kind in ('blank', 'comment'):
            lines.append("" if kind == 'blank' else "# k9 12")
            continue
        if kind == 'name':
            lines.append("name{:d}".format(n))
            if dct is not None or pending: malformed = True
            if dct is None: pending = lines[-1]
            continue
        if kind == 'hyphens':
            lines.append('-'*(5 + n % 2))
            if dct is not None: dct = None
            elif pending:
                dct = want[pending] = {}
                pending = None
            else: malformed = True
            continue
        if pending: malformed = True
        if kind == 'sub':
            lines.append("s:{} {}".format(key, value))
            if dct is None: malformed = True
            else: dct.setdefault("s", {})[key] = value
            entries.append((key, value))
            continue
        if kind == 'one': lines.append("{} {}".format(key, value))
        elif kind == 'two':
            lines.append("{} {} true".format(key, value))
            value = [value, True]
        elif kind == 'equals': lines.append("{} = {}".format(key, value))
        elif kind == 'tight': lines.append("{}={}".format(key, value))
        entries.append((key, value))
        (want if dct is None else dct)[key] = value
    if pending or dct is not None: malformed = True
    text = '\n'.join(lines) + '\n'
    ctx.state(lines)
    if not malformed and any(want[x] == {} for x in want): raise Prune
    ctx.mark("malformed" if malformed else "well-formed")
    if not malformed:
        check(ctx, text, want)
        return
    try: got, s = load(text)
    except Exception as e:
        ctx.mark("error")
        return
    for key, value in entries:
        if not find(got, key, value): ctx.fail("Loading {!r} without an error gave {} lacking {}={}", text, got, key, value)


def scenarios(tier, seed):
    T = tier == "thorough"
    S = [("one value", line, {'N': 1, 'values': ODD, 'equals': EQUALS, 'comments': COMMENTS}, {}),
         ("two values", line, {'N': 2, 'values': ODD, 'equals': EQUALS[:2], 'comments': COMMENTS[:4:3]}, {}),
         ("two values decorated", line, {'N': 2, 'values': FEW, 'equals': EQUALS, 'comments': COMMENTS}, {}),
         ("three values", line, {'N': 3, 'values': FEW, 'equals': EQUALS[1:2], 'comments': COMMENTS[1:2]}, {}),
         ("structure", structure, {'items': 2, 'entries': 2, 'keys': KEYS[:6]}, {'bound': 1}),
         ("structure of any keys", structure, {'items': 1, 'entries': 3, 'keys': KEYS}, {'bound': 1}),
         ("structure decorated", structure, {'items': 2, 'entries': 1, 'keys': KEYS[:3]}, {'bound': 2+T}),
         ("structure larger", structure, {'items': 3, 'entries': 3, 'keys': KEYS[:3]}, {'bound': 0}),
         ("lines", raw, {'length': 5+T}, {})]
    return S
