"""Collections whose counts and positions need several bytes (C06, C07, C17, C24, C27, C30)."""
from v8serialize import dumps, loads
from v8serialize.constants import ArrayBufferViewTag, SerializationFeature
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSErrorData, JSHole, JSMap, JSObject, JSRegExp, JSSet,
                                 JSSharedArrayBuffer, create_view)
from hx import v8

KINDS = ["dict", "JSMap", "set", "JSSet", "JSObject", "names", "list", "dense names", "sparse", "sparse names", "holes"]


def build(kind, n, p, x):
    """A collection with n entries, the one at p being x -> (value, [(key, value)] of arrays and objects or entries of maps and sets)"""
    if kind in ("dict", "JSMap"):
        items = [(i, x if i == p else None) for i in range(n)]
        return (dict(items) if kind == "dict" else JSMap(items)), items
    if kind in ("set", "JSSet"):
        items = [x if i == p else "m%d" % i for i in range(n)]
        return (set(items) if kind == "set" else JSSet(items)), items
    if kind == "JSObject":
        items = [(i, x if i == p else None) for i in range(n)]
        return JSObject(items), items
    if kind == "names":
        items = [("k%d" % i, x if i == p else None) for i in range(n)]
        return JSObject(items), items
    if kind == "list":
        items = [x if i == p else None for i in range(n)]
        return items, list(enumerate(items))
    if kind == "holes":     # dense, every other element a hole
        a = JSArray([JSHole if i % 2 else x if i == p else None for i in range(2 * n)])
        return a, [(i, x if i == p else None) for i in range(0, 2 * n, 2)]
    a = JSArray()
    if kind == "dense names":
        a[0] = 7
        items = [(0, 7)]
    elif kind == "sparse":
        a.array.resize(10 ** 6)
        items = []
        for i in range(n):
            a[i * 1001] = v = x if i == p else None
            items.append((i * 1001, v))
        return a, items
    else:
        a.array.resize(10 ** 6)
        a[5] = 7
        items = [(5, 7)]
    for i in range(n):
        a["k%d" % i] = v = x if i == p else None
        items.append(("k%d" % i, v))
    return a, items


def number(t):
    return t.v if isinstance(t, (v8.Num, v8.Big)) else None if t is v8.NULL else t


def entries(kind, t):
    """What V8 reads, in the form of build()'s items."""
    if kind in ("dict", "JSMap"):
        return [(number(k), number(v)) for k, v in t.items]
    if kind in ("set", "JSSet"):
        return [number(k) for k in t.items]
    r = [(i, number(v)) for i, v in enumerate(t.items) if v is not v8.HOLE] if type(t.items) is list else []
    return r + [(number(k), number(v)) for k, v in t.props]


def collections(S, sizes, kinds=KINDS):
    kind = S.choice("kind", list(kinds))
    n = S.choice("n", list(sizes))
    p = S.choice("p", [0, n // 2, n - 1])
    x = S.str("x", 1, 1, 0x2FF)
    g, want = build(kind, n, p, x)
    after = S.flag("more")
    data = dumps([g, "end"] if after else g)
    try:
        t = v8.parse(data)
    except v8.Bad as e:
        S.fail("malformed data: " + str(e), kind)
    if after:
        S.check(len(t.items) == 2 and t.items[1] == "end", "what follows the collection")
        t = t.items[0]
    got = entries(kind, t)
    S.check(len(got) == len(want), "number of entries written: " + kind)
    if kind == "set":
        S.check(all(any(a is b or a == b for b in got) for a in (x, "m%d" % (0 if p else 1), "m%d" % (n - 1 if p != n - 1 else 0))), "members written")
    else:
        S.check(S.all([a == b for a, b in zip(got, want)]), "entries written: " + kind)
    back = loads(data)
    if after:
        S.check(back[1] == "end", "what follows the collection")
        back = back[0]
    S.reached("read")
    if kind in ("set", "JSSet"):
        S.check(S.all([a == b for a, b in zip(list(back), got)]), "members read")
    else:
        it = list(back.items())
        S.check(len(it) == len(got), "number of entries read: " + kind)
        S.check(S.all([a == c and b == d for (a, b), (c, d) in zip(it, got)]), "entries read: " + kind)
    if kind in ("list", "holes", "sparse", "sparse names", "dense names"):
        S.check(len(back.array) == {"list": n, "holes": 2 * n, "dense names": 1}.get(kind, 10 ** 6), "length of the array")


def references(S, sizes):
    """A reference to the k-th of n objects, for IDs of one, two (and three) bytes."""
    n = S.choice("n", list(sizes))
    k = S.choice("k", [0, 62, 63, 126, 127, 128, 129, n - 2, n - 1])
    S.assume(0 <= k < n)
    kind = S.choice("kind", ["list", "JSObject", "JSMap", "bytes"])
    make = {"list": lambda v: [v], "JSObject": lambda v: JSObject(a=v), "JSMap": lambda v: JSMap([("k", v)]),
            "bytes": lambda v: JSArrayBuffer(b"x")}[kind]
    x = S.int("x", 0, 300)
    objs = [make(None) if i != k else make(x) for i in range(n)]
    g = objs + [objs[k], {"again": objs[k]}]
    data = dumps(g)
    try:
        t = v8.parse(data)
    except v8.Bad as e:
        S.fail("malformed data: " + str(e), kind)
    S.check(t.items[n] is t.items[k], "the object a reference names")
    S.check(t.items[n + 1].items[0][1] is t.items[k], "the object a nested reference names")
    back = loads(data)
    S.check(len(back) == n + 2, "number of elements")
    S.check(S.same(back[n], back[k]), "the object referenced")
    S.check(S.same(back[n + 1]["again"], back[k]), "the object referenced by a nested value")
    S.check(sum(1 for i in range(n) if back[i] is back[n]) == 1, "an object is shared by more elements")
    S.reached("read")
    if kind == "list":
        S.check(back[k][0] == x, "contents of the object referenced")
    elif kind == "JSObject":
        S.check(back[k]["a"] == x, "contents of the object referenced")


def buffers(S, sizes):
    """Buffers and views whose lengths, offsets and limits need several bytes."""
    n = S.choice("n", list(sizes))
    kind = S.choice("kind", ["fixed", "rab", "view", "tracking", "offset", "second view"])
    c = S.bytes("c", 2)
    d = b"\x01" * (n // 2) + c + b"\x02" * (n - n // 2 - 2)
    m = S.choice("max", [0, 1, 127, 2 ** 14])
    if kind == "fixed":
        g = buf = JSArrayBuffer(d)
    else:
        buf = JSArrayBuffer(d, max_byte_length=n + m) if kind in ("rab", "tracking") else JSArrayBuffer(d)
        if kind == "rab":
            g = buf
        elif kind == "view":
            g = create_view(buf, ArrayBufferViewTag.kUint8Array)
        elif kind == "tracking":
            g = create_view(buf, ArrayBufferViewTag.kDataView, byte_offset=n // 2)
        else:
            g = create_view(buf, ArrayBufferViewTag.kUint8Array, byte_offset=n - 2, byte_length=S.choice("len", [0, 1, 2]))
            if kind == "second view":
                g = [create_view(buf, ArrayBufferViewTag.kInt8Array, byte_offset=n // 2 + 1), g]
    data = dumps([g, "end"], features=SerializationFeature.ResizableArrayBuffers)
    try:
        t = v8.parse(data)
    except v8.Bad as e:
        S.fail("malformed data: " + str(e), kind)
    S.check(len(t.items) == 2 and t.items[1] == "end", "what follows the buffer")
    back = loads(data)
    S.check(back[1] == "end", "what follows the buffer")
    b = back[0]
    S.reached("read")
    pairs = [(b, g)] if kind != "second view" else [(b[0], g[0]), (b[1], g[1])]
    for a, w in pairs:
        if kind in ("fixed", "rab"):
            bb = a
        else:
            bb = a.backing_buffer
            S.check(a.byte_offset == w.byte_offset and a.byte_length == w.byte_length, "region of a view: " + kind)
            S.check(a.is_length_tracking == w.is_length_tracking, "tracking")
            S.check(bytes(a.get_buffer_as_memoryview()) == bytes(w.get_buffer_as_memoryview()), "contents of a view")
        S.check(bytes(bb.data) == d, "contents of the buffer: " + kind)
        S.check(bb.max_byte_length == buf.max_byte_length and bb.resizable is buf.resizable, "limit of the buffer")
    if kind == "second view":
        S.check(S.same(b[0].backing_buffer, b[1].backing_buffer), "views share their buffer")
