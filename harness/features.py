"""Format features and the V8 versions that support them (C16)."""
from packaging.version import Version
from v8serialize import Encoder, UnhandledValueEncodeV8SerializeError, IllegalCyclicReferenceV8SerializeError, dumps, loads
from v8serialize.constants import JSRegExpFlag, SerializationFeature, SymbolicVersion
from v8serialize.jstypes import JSArrayBuffer, JSError, JSObject, JSRegExp, create_view
from v8serialize.constants import ArrayBufferViewTag
from hx import v8

# bit, first version of V8 with the feature
TABLE = [(1, (10, 7, 123)), (2, (11, 0, 193)), (4, (12, 1, 109)), (8, None)]
FIRST = (10, 0, 29)
TOP = 10 ** 6


class V(Version):
    """A version with symbolic components; pre is -1 before the release, 0 the release, 1 after it."""

    def __init__(self, key):
        super().__init__("1")
        self.sym = tuple(key)

    def key(self, other):
        if isinstance(other, V):
            return other.sym
        r = tuple(other.release) + (0, 0, 0)
        assert len(other.release) <= 3 and not (other.is_prerelease or other.is_postrelease or other.local or other.epoch)
        return r[:3] + (0,)

    def __lt__(self, o):
        return less(self.sym, self.key(o)) if isinstance(o, Version) else NotImplemented

    def __gt__(self, o):
        return less(self.key(o), self.sym) if isinstance(o, Version) else NotImplemented

    def __le__(self, o):
        return neg(less(self.key(o), self.sym)) if isinstance(o, Version) else NotImplemented

    def __ge__(self, o):
        return neg(less(self.sym, self.key(o))) if isinstance(o, Version) else NotImplemented

    def __eq__(self, o):
        return same(self.sym, self.key(o)) if isinstance(o, Version) else NotImplemented

    def __ne__(self, o):
        return neg(same(self.sym, self.key(o))) if isinstance(o, Version) else NotImplemented

    def __hash__(self):
        return 7


def neg(b):
    return not b


def same(a, b):
    for x, y in zip(a, b):
        if x != y:
            return False
    return True


def less(a, b):
    for x, y in zip(a, b):
        if x < y:
            return True
        if x > y:
            return False
    return False


def version(S, name, real=False):
    """-> (version, key)"""
    if S.flag("unreleased." + name):
        return SymbolicVersion.Unreleased, (TOP + 9, 0, 0, 0)
    key = tuple(S.int(c + "." + name, 0, TOP) for c in ("major", "minor", "patch")) + (S.int("pre." + name, -1, 1),)
    return V(key), key


def expect(key):
    """Feature bits supported by a version, None when it is too old."""
    if less(key, FIRST + (0,)):
        return None
    bits = 0
    for bit, first in TABLE:
        if not less(key, (first if first is not None else (TOP + 1, 0, 0)) + (0,)):
            bits |= bit
    return bits


def supported(v):
    try:
        return SerializationFeature.supported_by(v8_version=v).value
    except LookupError:
        return None


def versions(S):
    """Which features each version supports."""
    v, key = version(S, "v")
    got = supported(v)
    want = expect(key)
    S.reached("too old" if want is None else "supported")
    S.check(got == want, "features supported by a version", (got, want))
    S.check(supported(v) == want, "features supported by a version, asked again")


def monotone(S):
    """A newer version supports at least what an older one does."""
    v, kv = version(S, "v")
    w, kw = version(S, "w")
    S.assume(S.not_(less(kw, kv)))
    a, b = supported(v), supported(w)
    if a is None:
        return
    S.reached("ordered")
    S.check(b is not None and a & ~b == 0, "a newer version supports less")


def encoder(S):
    """Encoder options: the features used and the version they need."""
    f = S.choice("features", [None] + list(range(16)))
    features = None if f is None else SerializationFeature(f)
    v, key = (version(S, "v")) if S.flag("versioned") else (None, None)
    want = 0 if f is None else f
    if v is not None:
        more = expect(key)
        want = None if more is None else want | more
    try:
        enc = Encoder(features=features, v8_version=v)
    except LookupError:
        S.check(want is None, "a supported version is refused")
        return
    S.check(want is not None, "a version without the format is accepted")
    S.check(enc.features.value == want, "features of the encoder")
    first = FIRST
    for bit, introduced in TABLE:
        if want & bit:
            first = introduced
    got = enc.first_v8_version
    if first is None:
        S.check(got is SymbolicVersion.Unreleased, "first_v8_version")
    else:
        S.check(isinstance(got, Version) and tuple(got.release) == first, "first_v8_version", str(got))


TEXTS = [
    ("10.0.28", None), ("10.0.29", 0), ("10.0", None), ("10", None), ("9.9.999", None), ("10.0.29-node.8", 0),
    ("10.0.28-node.8", None), ("10.0.29.1", 0), ("10.0.28.999", None), ("10.1", 0), ("10.2.154.26-node.36", 0),
    ("10.7.122", 0), ("10.7.123", 1), ("10.7.123-x", 1), ("10.7.122-x", 0), ("10.10.0", 1), ("10.7.122.9", 0), ("10.7.1230", 1),
    ("11.0.192", 1), ("11.0.193", 3), ("11", 1), ("11.0.193-node.1", 3), ("11.1", 3), ("11.0.192-node.999", 1),
    ("12.1.108", 3), ("12.1.109", 7), ("12.1.109-foo", 7), ("12.1.108-foo", 3), ("12.4.254.20-node.14", 7), ("12.10", 7),
    ("100.0.0", 7), ("999999", 7), ("13", 7), ("v12.1.109", 7), ("12.1.109rc1", 3), ("12.1.109.dev3", 3), ("12.1.109.post1", 7),
    ("12.1.109+local", 7),
]
BAD = ["", "x", "12.1.", "12..1", "-12", "12.1.109-", "12.1.109- a", "12.1-a b"]


def texts(S):
    """Versions given as text, with Node's suffixes."""
    t = S.choice("text", list(range(len(TEXTS) + len(BAD))))
    if t >= len(TEXTS):
        try:
            SerializationFeature.supported_by(v8_version=BAD[t - len(TEXTS)])
        except ValueError:
            return
        S.fail("a malformed version is accepted")
        return
    text, want = TEXTS[t]
    S.check(supported(text) == want, "features supported by a version given as text", text)
    f = S.choice("features", [0, 5, 8])
    try:
        enc = Encoder(features=SerializationFeature(f), v8_version=text)
    except LookupError:
        S.check(want is None, "a supported version is refused")
        return
    S.check(want is not None and enc.features.value == want | f, "features of the encoder")


def names(S):
    """Each feature is known by its name, and has its own introduction version."""
    bit = S.choice("bit", [1, 2, 4, 8])
    f = SerializationFeature(bit)
    S.check(SerializationFeature.for_name(f.name) is f, "for_name")
    first = dict(TABLE)[bit]
    got = f.first_v8_version
    S.check(got is SymbolicVersion.Unreleased if first is None else tuple(got.release) == first, "first_v8_version")
    try:
        SerializationFeature.for_name(f.name + "x")
        S.fail("an unknown feature name is found")
    except LookupError:
        pass


def dump(S, value, f, how):
    """-> data, or None when refused.  how: the features directly, or through a version."""
    if how == "features":
        return dumps(value, features=SerializationFeature(f))
    v, key = version(S, "v")
    S.assume(expect(key) == f)
    S.reached("by version")
    return dumps(value, v8_version=v)


KINDS = ["rab", "rab view", "tracking view", "view", "f16", "f16 rab", "error", "cyclic error", "cyclic through", "shared cause", "regexp"]


def gating(S, kinds=KINDS, wrap=("top", "list", "object", "map")):
    """Optional constructs appear exactly when their feature is enabled."""
    kind = S.choice("kind", list(kinds))
    how = S.choice("how", ["features", "version"])
    f = S.choice("features", [0, 1, 3, 7, 15] if how == "version" else list(range(16)))
    pos = S.choice("pos", list(wrap))
    refusal = None
    flags = 0
    if kind == "rab":
        g = JSArrayBuffer(S.bytes("c", 2), max_byte_length=9)
    elif kind in ("rab view", "tracking view", "view"):
        b = JSArrayBuffer(S.bytes("c", 4)) if kind == "view" else JSArrayBuffer(S.bytes("c", 4), max_byte_length=9)
        g = create_view(b, ArrayBufferViewTag.kUint16Array, byte_offset=2, byte_length=None if kind == "tracking view" else 2)
    elif kind in ("f16", "f16 rab"):
        n = S.choice("n", [4, 0, 2])
        b = JSArrayBuffer(S.bytes("c", n)) if kind == "f16" else JSArrayBuffer(S.bytes("c", n), max_byte_length=9)
        off = S.int("off", 0, n // 2)
        items = None if kind == "f16 rab" else S.int("items", 0, n // 2)
        S.assume(items is None or off + items <= n // 2)
        g = create_view(b, ArrayBufferViewTag.kFloat16Array, byte_offset=2 * off, byte_length=items if items is None else 2 * items)
        refusal = None if f & 8 else UnhandledValueEncodeV8SerializeError
    elif kind in ("error", "shared cause"):
        inner = JSError("inner")
        g = JSError("m", cause=inner if kind == "error" else [inner, inner])
    elif kind in ("cyclic error", "cyclic through"):
        g = JSError("m")
        g.cause = g if kind == "cyclic error" else JSObject(a=[g])
        refusal = None if f & 4 else IllegalCyclicReferenceV8SerializeError
    else:
        flags = S.choice("flags", [0, 1, 16, 63, 64, 256, 256 + 1, 511 - 16, 511 - 256])
        g = JSRegExp("a", JSRegExpFlag(flags))
        if flags & 256 and not f & 1:
            S.finding("C16-regexp-v-flag")
    v = {"top": g, "list": [1, g, g], "object": JSObject(a=g, b=g), "map": {"a": g, "b": g}}[pos]
    try:
        data = dump(S, v, f, how)
    except (UnhandledValueEncodeV8SerializeError, IllegalCyclicReferenceV8SerializeError) as e:
        S.reached("refused")
        S.check(refusal is not None and isinstance(e, refusal), "a value is refused", type(e).__name__)
        return
    S.reached("written")
    S.check(refusal is None, "an optional construct is written without its feature")
    node = v8.parse(data)
    n = {"top": lambda: node, "list": lambda: node.items[1], "object": lambda: node.props[0][1], "map": lambda: node.items[0][1]}[pos]()
    if kind == "rab":
        S.check((n.kind == "resizable") == bool(f & 2), "resizable buffer")
    elif kind in ("rab view", "tracking view", "view", "f16", "f16 rab"):
        t, off, ln, tracking, rab = n.info
        resizable = kind in ("rab view", "tracking view", "f16 rab") and bool(f & 2)
        S.check((n.buffer.kind == "resizable") == resizable, "resizable buffer below a view")
        S.check(bool(rab) == resizable, "resizable flag of a view")
        S.check(bool(tracking) == (resizable and kind in ("tracking view", "f16 rab")), "length-tracking flag of a view")
    elif kind == "regexp":
        S.check(n.value[1] == flags, "flags written")
        S.check(f & 1 or not flags & 256, "the v flag is written without its feature")
    loads(data)


def plain_regexp(S):
    """A Python pattern takes JavaScript's Unicode mode."""
    import re
    f = S.choice("features", [None] + list(range(16)))
    data = dumps(re.compile(S.choice("source", ["a", ""])), features=None if f is None else SerializationFeature(f))
    if f is None or not f & 1:
        S.finding("C16-regexp-v-flag")
    S.check((f or 0) & 1 or not v8.parse(data).value[1] & 256, "the v flag is written without its feature")
