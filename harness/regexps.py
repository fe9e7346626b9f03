"""Regular expressions and their flags (C19)."""
import re
from v8serialize import DecodeV8SerializeError, dumps, loads
from v8serialize.constants import JSRegExpFlag, SerializationFeature
from v8serialize.jstypes import JSArray, JSObject, JSRegExp
from v8serialize import JSRegExpV8SerializeError
from hx import v8

# letter, bit in V8's JSRegExp::Flags, Python's flag (None: no equivalent)
FLAGS = [("d", 128, 0), ("g", 1, 0), ("i", 2, re.I), ("l", 64, None), ("m", 4, re.M), ("s", 32, re.S), ("u", 16, re.U), ("v", 256, re.U), ("y", 8, 0)]
NAMES = {"d": "HasIndices", "g": "Global", "i": "IgnoreCase", "l": "Linear", "m": "Multiline", "s": "DotAll", "u": "Unicode", "v": "UnicodeSets", "y": "Sticky"}
BOTH = re.I | re.M | re.S | re.U


def letters(bits):
    return "".join(c for c, b, _ in FLAGS if bits & b)


def table(S):
    """Letters, bits and members map one to one."""
    i = S.choice("flag", list(range(len(FLAGS))))
    c, bit, py = FLAGS[i]
    f = JSRegExpFlag(bit)
    S.check(f is getattr(JSRegExpFlag, NAMES[c]) and f.value == bit and str(f) == c, "letter and bit of a flag")
    S.check(f.as_python_flags(throw=False) == (None if py is None else py), "Python's flag")


def sets(S, lo, hi):
    """Every set of flags."""
    bits = S.choice("bits%d" % hi, list(range(lo, hi)))
    f = JSRegExpFlag(bits)
    S.check(str(f) == letters(bits), "letters of a set")
    S.check(f.canonical == bits and f == bits, "bits of a set")
    S.check(f | JSRegExpFlag(512) | JSRegExpFlag(1024) != f and (f | JSRegExpFlag(512)).canonical == f, "bits without a meaning")
    linear = bool(bits & 64)
    py = f.as_python_flags(throw=False)
    S.check((py is None) == linear, "a set has Python flags")
    try:
        got = f.as_python_flags()
        S.check(not linear and got == py, "Python flags of a set")
        S.check(got == sum_py(bits), "Python flags of a set")
        back = JSRegExpFlag.from_python_flags(got)
        want = (bits & (2 | 4 | 32)) | (256 if bits & (16 | 256) else 0)
        S.check(back == want, "JavaScript flags of the Python flags")
    except JSRegExpV8SerializeError:
        S.check(linear, "a set without a Python equivalent")
    try:
        r = JSRegExp("a", f)
    except ValueError:
        S.reached("invalid")
        S.check(bits & 16 and bits & 256, "a valid set is rejected")
        return
    S.check(not (bits & 16 and bits & 256), "an invalid set is accepted")
    S.check(r.flags == bits and r.source == "a", "fields")


def sum_py(bits):
    r = re.NOFLAG
    for c, b, py in FLAGS:
        if bits & b and py:
            r |= py
    return r


def python_flags(S):
    """Python's flags as JavaScript's and back."""
    bits = S.choice("bits", list(range(512)))
    pf = re.RegexFlag(bits & 0x1FE)
    if bits & 1:
        pf = int(pf)
    try:
        f = JSRegExpFlag.from_python_flags(pf)
    except JSRegExpV8SerializeError:
        S.reached("rejected")
        S.check(pf & re.X, "flags with an equivalent are rejected")
        return
    S.check(not pf & re.X, "VERBOSE is accepted")
    S.check(f == (2 if pf & re.I else 0) | (4 if pf & re.M else 0) | (32 if pf & re.S else 0) | (256 if pf & re.U else 0), "JavaScript flags")
    S.check(f.as_python_flags() == pf & BOTH, "Python flags back")


def roundtrip(S, ns, flags, wrap=("top", "list", "object")):
    """Source and flags through V8's reader and loads."""
    n = S.choice("n", ns)
    bits = S.choice("flags%d" % len(flags), flags)
    src = S.str("source%d" % n, n)
    S.assume(not (bits & 16 and bits & 256))
    r = JSRegExp(src, JSRegExpFlag(bits))
    extra = S.flag("extra bit")
    if extra:
        r = JSRegExp(src, JSRegExpFlag(bits | 1024))
    S.check(r.source == (src if n > 0 else "(?:)"), "source")
    pos = S.choice("pos", list(wrap))
    g = {"top": r, "list": [r, 1, r, [r]], "object": JSObject(a=r, b=1, c=r)}[pos]
    data = dumps(g, features=SerializationFeature(15))
    tree = v8.parse(data)
    back = loads(data)
    if pos == "list":
        S.check(tree.items[0] is tree.items[2] and tree.items[3].items[0] is tree.items[0] and back[2] is back[0], "sharing")
        tree, back = tree.items[0], back[0]
    elif pos == "object":
        S.check(tree.props[0][1] is tree.props[2][1] and back["a"] is back["c"], "sharing")
        tree, back = tree.props[0][1], back["a"]
    S.check(tree.kind == "regexp" and tree.value[0] == r.source and tree.value[1] == bits, "source and flags written")
    S.check(type(back) is JSRegExp and back.source == r.source and back.flags == bits, "source and flags read back")
    if not extra:
        S.check(back == r and hash(back) == hash(r), "equality")


def read(S, flags, ns, forms=("onebyte", "utf8", "twobyte")):
    """What V8 writes is read, in every string encoding."""
    form = S.choice("form", list(forms))
    n = S.choice("n", ns)
    bits = S.choice("flags", flags)
    if form == "onebyte":
        src = S.str("s8.%d" % n, n, hi=0xFF)
        raw = src.encode("latin-1")
        head = b'"'
    elif form == "utf8":
        src = S.str("s.%d" % n, n)
        raw = src.encode("utf-8")
        head = b"S"
    else:
        src = S.str("s.%d" % n, n)
        raw = src.encode("utf-16-le")
        head = b"\x00c" if S.flag("padded") else b"c"
    fl = bytes([bits]) if bits < 128 else bytes([128 | (bits & 127), bits >> 7])
    if S.flag("long varint") and bits < 128:
        fl = bytes([128 | bits, 0])
    data = b"\xff\x0fA\x03R" + head + bytes([len(raw)]) + raw + fl + b"o{\x00^\x02$\x00\x03"
    try:
        back = loads(data)
    except DecodeV8SerializeError:
        S.reached("rejected")
        S.check(bits & 16 and bits & 256, "a regexp of V8 is rejected")
        return
    S.reached("accepted")
    S.check(not (bits & 16 and bits & 256), "invalid flags are accepted")
    S.check(type(back[0]) is JSRegExp and back[0].flags == bits and back[0].source == (src if n > 0 else "(?:)"), "regexp read")
    S.check(back[2] is back[1] and type(back[1]) is JSObject, "value after a regexp")


PATTERNS = [("a", ""), ("", ""), ("a.b", "i"), ("a", "m"), ("é\U0001F600", "s"), ("x", "ims"), ("x", "a"), ("x", "x"), ("(?i)a", "")]


def patterns(S):
    """Python patterns."""
    source, letters = PATTERNS[S.choice("pattern", list(range(len(PATTERNS))))]
    as_bytes = S.flag("bytes")
    flags = 0
    for c in letters:
        flags |= {"i": re.I, "m": re.M, "s": re.S, "a": re.A, "x": re.X}[c]
    p = re.compile(source.encode() if as_bytes else source, flags)
    throw = S.flag("throw")
    try:
        r = JSRegExp.from_python_pattern(p, throw=throw)
    except JSRegExpV8SerializeError:
        S.check(throw and "x" in letters, "a pattern is refused")
        return
    if "x" in letters:
        S.check(not throw and r is None, "a verbose pattern is accepted")
        return
    want = (2 if p.flags & re.I else 0) | (4 if p.flags & re.M else 0) | (32 if p.flags & re.S else 0) | (256 if p.flags & re.U else 0)
    S.check(r.source == (source or "(?:)") and r.flags == want, "regexp of a pattern")
    back = loads(dumps([p, p]))
    S.check(back[0] is back[1] and back[0] == r, "pattern read back")
    q = r.as_python_pattern()
    S.check(q.pattern == r.source and q.flags & BOTH == re.compile(r.source, p.flags & BOTH).flags & BOTH, "pattern of the regexp")


def no_pattern(S):
    """Regexps without a Python equivalent."""
    src, bits = S.choice("case", [0, 1, 2, 3]), S.choice("bits", [0, 2, 64, 66])
    source = ["a", "(", "[", "(?<n>a)"][src]
    r = JSRegExp(source, JSRegExpFlag(bits))
    ok = src == 0 and not bits & 64
    S.check((r.as_python_pattern(throw=False) is not None) == ok, "a pattern exists")
    try:
        r.as_python_pattern()
        S.check(ok, "a pattern exists")
    except JSRegExpV8SerializeError:
        S.check(not ok, "a pattern does not exist")
