"""C34: == and hash() of values."""
import struct
from v8serialize._values import SharedArrayBufferId, TransferId
from v8serialize.constants import JSRegExpFlag, SerializationTag, TagConstraint
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSError, JSErrorData, JSHole, JSMap, JSObject,
                                 JSPrimitiveObject, JSRegExp, JSSet, JSSharedArrayBuffer, JSUndefined)
from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId
from hx.buffers import TAGS, VIEWS, cls


def hashes(S, x, what):
    try:
        return S.hash(x)
    except (TypeError, ValueError):
        S.fail("not hashable: " + what)


def unhashable(S, x, what):
    try:
        S.hash(x)
    except (TypeError, ValueError):
        S.reached("unhashable")
        return
    S.fail("a value that can change is hashable: " + what)


def agree(S, x, y, what, want=None):
    """want: whether x and y are the same value, None if that is left to the implementation."""
    r = x == y
    S.check(S.same(r, True) or S.same(r, False), "== is not a bool: " + what)
    if r:
        S.reached("equal")
    else:
        S.reached("different")
    S.check((y == x) == r, "== is not symmetric: " + what)
    S.check((x != y) != r, "!= disagrees with ==: " + what)
    if want is not None:
        S.check(r == want, "equality: " + what)
    hx, hy = hashes(S, x, what), hashes(S, y, what)
    S.check(hx == hashes(S, x, what), "the hash of a value changes: " + what)
    if r:
        S.check(hx == hy, "equal values have different hashes: " + what)


def backing(S, name, kind, d):
    if kind == "bytes":
        return d
    if kind == "memoryview":
        return memoryview(d)
    if kind == "buffer":
        return JSArrayBuffer(d, readonly=True)
    if kind == "shared":
        return JSArrayBuffer(memoryview(d), copy_data=False, readonly=True)
    raise AssertionError(kind)


def elements(tag, d):
    code = VIEWS[tag][2]
    return list(d) if code is None else [x[0] for x in struct.iter_unpack("<" + code, d)]


SMALL = [0.0, -0.0, 1.0, -1.5, float("nan")]


def data(S, name, tag, n):
    if tag in ("h", "f", "backport"):
        code, size = VIEWS[tag][2], VIEWS[tag][1]
        return b"".join(struct.pack("<" + code, S.choice("%s.%d" % (name, i), SMALL)) for i in range(n // size))
    return S.bytes(name, n)


def views(S, a, b, n, count=4, kinds=("bytes", "buffer")):
    """Views of any two types over data which cannot change."""
    ta, tb = S.choice("ta", a), S.choice("tb", b)
    sa, sb = VIEWS[ta][1], VIEWS[tb][1]
    la, lb = S.choice("la", list(range(min(count, n // sa) + 1))), S.choice("lb", list(range(min(count, n // sb) + 1)))
    S.assume(la == lb or la + lb <= 2)
    da, db = data(S, "a", ta, la * sa), data(S, "b", tb, lb * sb)
    oa = S.choice("oa", [0, 1])
    ka, kb = S.choice("ka", list(kinds)), S.choice("kb", list(kinds))
    x = cls(ta)(backing(S, "a", ka, bytes(oa * sa) + da), item_offset=oa, item_length=S.choice("wa", [None, la]))
    y = cls(tb)(backing(S, "b", kb, db))
    ea, eb = elements(ta, da), elements(tb, db)
    want = len(ea) == len(eb) and S.all([p == q for p, q in zip(ea, eb)])
    if "?" in (ta, tb) and ta != tb:
        want = None     # a DataView has no elements of its own
    agree(S, x, y, "views", want)
    S.check(x == x, "a view differs from itself")


def hidden(S):
    """Views of buffers whose contents are elsewhere: the same region of the same buffer."""
    def make(name):
        t = S.choice(name + ".t", ["B", "b", "W", "F", "?"])
        k = S.choice(name + ".k", ["shared", "transfer", "bytes"])
        i = S.int(name + ".id", 0, 9)
        off, ln = S.int(name + ".off", 0, 3), S.choice(name + ".len", [None, 0, 1])
        if k == "bytes":
            return cls(t)(b""), (k, t)
        bb = JSSharedArrayBuffer(SharedArrayBufferId(i)) if k == "shared" else JSArrayBufferTransfer(TransferId(i))
        return cls(t)(bb, item_offset=off, item_length=ln), (k, t, i, off, ln or 0)     # an unknown length is written as 0
    x, kx = make("x")
    y, ky = make("y")
    if kx[0] == ky[0] == "bytes":
        return
    want = len(kx) == len(ky) and S.all([p == q for p, q in zip(kx, ky)])
    agree(S, x, y, "views of inaccessible buffers", want)


def buffers(S, n):
    def make(name):
        k = S.choice(name + ".k", ["readonly", "memoryview", "shared", "transfer"])
        if k in ("shared", "transfer"):
            i = S.int(name + ".id", 0, 9)
            return (JSSharedArrayBuffer(SharedArrayBufferId(i)), (k, i)) if k == "shared" else (JSArrayBufferTransfer(TransferId(i)), (k, i))
        d = S.bytes(name, S.choice(name + ".n", [0, n]))
        return (JSArrayBuffer(d, readonly=True) if k == "readonly" else JSArrayBuffer(memoryview(d), copy_data=False, readonly=True)), ("data", d)
    x, kx = make("x")
    y, ky = make("y")
    agree(S, x, y, "array buffers", S.all([p == q for p, q in zip(kx, ky)]))


def number(S, name):
    k = S.choice(name + ".k", ["int", "double", "bool"])
    if k == "int":
        return S.int(name, -(2 ** 64), 2 ** 64)
    if k == "double":
        return S.double(name)
    return S.choice(name + ".b", [False, True])


def wrappers(S, n):
    def make(name):
        if S.flag(name + ".str"):
            v = S.str(name, S.choice(name + ".len", range(n)))
            return JSPrimitiveObject(v), ("s", v)
        v = number(S, name)
        if isinstance(v, int) and not isinstance(v, bool) and S.flag(name + ".big"):
            return JSPrimitiveObject(v, tag=SerializationTag.kBigIntObject), ("n", v)
        return JSPrimitiveObject(v), ("n", v)
    x, (ka, a) = make("x")
    y, (kb, b) = make("y")
    want = ka == kb and x.tag is y.tag and S.any([a == b])
    if S.any([a == a]):
        S.check(x == x, "a wrapper differs from itself")
    else:
        want = None
    agree(S, x, y, "wrapper objects", want)
    S.check(S.all([S.not_(x == a), S.not_(a == x)]), "a wrapper equals its primitive value")


def values(S, n):
    """Other immutable values."""
    def make(name):
        k = S.choice(name + ".k", ["regexp", "sab", "transfer", "shared", "conveyor", "undefined", "hole", "constraint"])
        if k == "regexp":
            s, f = S.str(name, S.choice(name + ".len", range(1, n)), 0x41, 0x5A), JSRegExpFlag(S.choice(name + ".f", [0, 1, 4, 255]))
            return JSRegExp(s, f), (k, s, f)
        i = S.int(name + ".id", 0, 9)
        if k == "sab":
            return SharedArrayBufferId(i), ("n", i)
        if k == "transfer":
            return TransferId(i), ("n", i)
        if k == "conveyor":
            return V8SharedValueId(i), ("n", i)
        if k == "shared":
            return V8SharedObjectReference(V8SharedValueId(i)), (k, i)
        if k == "constraint":
            ts = S.choice(name + ".ts", [(SerializationTag.kInt32,), (SerializationTag.kInt32, SerializationTag.kUint32)])
            return TagConstraint(name="x", allowed_tags=frozenset(ts)), (k, len(ts))
        return (JSUndefined, (k,)) if k == "undefined" else (JSHole, (k,))
    x, kx = make("x")
    y, ky = make("y")
    want = len(kx) == len(ky) and S.all([p == q for p, q in zip(kx, ky)])
    agree(S, x, y, "values", want)
    S.check(x == x, "a value differs from itself")


def mutable(S):
    """Values which can change cannot be hashed, nor values which hold them."""
    d = S.bytes("d", 2)
    k = S.choice("k", ["JSObject", "JSArray", "JSMap", "JSSet", "JSError", "JSErrorData", "buffer", "resizable", "bytearray", "memoryview",
                       "view of buffer", "view of resizable", "view of bytearray", "view of memoryview", "readonly view of bytearray"])
    base = {"buffer": lambda: JSArrayBuffer(d), "resizable": lambda: JSArrayBuffer(d, max_byte_length=9, resizable=True),
            "bytearray": lambda: JSArrayBuffer(bytearray(d), copy_data=False),
            "memoryview": lambda: JSArrayBuffer(memoryview(bytearray(d)), copy_data=False)}
    plain = {"bytearray": lambda: bytearray(d), "memoryview": lambda: memoryview(bytearray(d))}
    if k in base:
        x = base[k]()
    elif k.startswith("view of "):
        c = k[8:]
        x = cls(S.choice("t", ["B", "W", "?", "h"]))(plain.get(c, base[c])())
    elif k == "readonly view of bytearray":
        x = cls(S.choice("t", ["B", "W", "?", "h"]))(bytearray(d), readonly=True)
    else:
        x = {"JSObject": JSObject, "JSArray": JSArray, "JSMap": JSMap, "JSSet": JSSet, "JSError": lambda: JSError("m"),
             "JSErrorData": lambda: JSErrorData("m")}[k]()
        if S.flag("filled") and k in ("JSObject", "JSArray", "JSMap"):
            x[0] = d
    unhashable(S, x, k)
    S.check(x == x, "a value differs from itself")


def members(S, n):
    """Equal values are one member of a Python set and one key of a dict, wherever they came from."""
    ta, tb = S.choice("ta", ["B", "b", "W", "?"]), S.choice("tb", ["B", "b", "W"])
    da, db = S.bytes("a", n * VIEWS[ta][1]), S.bytes("b", n * VIEWS[tb][1])
    x, y = cls(ta)(da), cls(tb)(db)
    eq = x == y
    d = {x: "x"}
    d[y] = "y"
    S.check((len(d) == 1) == eq, "keys of a dict")
    S.check((y in {x}) == eq, "members of a set")
    S.check(d[y] == "y", "a key is not found")
    if not eq:
        S.check(d[x] == "x", "a key was replaced")
