"""Object numbering (C07): in both directions, for every kind of object."""
import re
from datetime import datetime, timezone
from v8serialize import DecodeV8SerializeError, dumps, loads
from v8serialize.constants import JSRegExpFlag, SerializationFeature
from v8serialize.encode import TagWriter, serialize_object_references
from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSDataView, JSErrorData, JSMap, JSObject,
                                 JSPrimitiveObject, JSRegExp, JSSet, JSSharedArrayBuffer, JSUint16Array, JSUint8Array,
                                 JSUndefined)
from v8serialize.jstypes._v8 import V8SharedObjectReference
from hx import v8

NO_ID = ["int", "float", "str", "none", "true", "undefined", "bigint"]
WITH_ID = {
    "list": "array", "tuple": "array", "dict": "map", "set": "set", "frozenset": "set", "JSObject": "object",
    "JSArray": "array", "sparse": "array", "JSMap": "map", "JSSet": "set", "wrap true": "wrapper", "wrap number": "wrapper",
    "wrap bigint": "wrapper", "wrap string": "wrapper", "regexp": "regexp", "py regexp": "regexp", "date": "date",
    "error": "error", "error cause": "error", "error msg": "error", "buffer": "buffer", "resizable": "resizable",
    "shared": "shared", "transfer": "transfer", "bytes": "buffer", "bytearray": "buffer", "view": "view",
    "view ba": "view", "dataview": "view", "view rab": "view", "shared obj": "shared-object", "exception": "error",
    "list 0": "array", "dict 0": "map", "set 0": "set", "JSObject 0": "object", "JSArray 0": "array", "JSMap 0": "map",
    "JSSet 0": "set", "buffer 0": "buffer", "bytearray 0": "buffer", "resizable 0": "resizable", "view 0": "view",
    "dataview 0": "view", "wrap false": "wrapper", "wrap zero": "wrapper", "wrap no text": "wrapper", "wrap other big": "wrapper",
    "regexp no text": "regexp", "date 0": "date", "tuple 0": "array", "frozenset 0": "set", "bytes 0": "buffer",
}
EMPTY = [k for k in WITH_ID if k[-2:] == " 0" or k in ("wrap false", "wrap zero", "wrap no text", "wrap other big", "regexp no text")]
SINGLETON = ("tuple 0", "frozenset 0", "bytes 0")
BY_VALUE = ("tuple", "frozenset", "wrap true", "wrap number", "wrap bigint", "wrap string", "date", "bytes", "regexp",
            "py regexp", "wrap false", "wrap zero", "wrap no text", "wrap other big", "regexp no text", "date 0") + SINGLETON
KINDS = NO_ID + [k for k in WITH_ID if k not in EMPTY]


def make(kind, i, x):
    """The i-th object (contents differ by i so that equal immutable ones do not merge)."""
    if kind == "int":
        return x
    if kind == "float":
        return 1.5 + i
    if kind == "str":
        return "s%d" % i
    if kind == "none":
        return None
    if kind == "true":
        return True
    if kind == "undefined":
        return JSUndefined
    if kind == "bigint":
        return (1 << 70) + x
    if kind == "list":
        return [x]
    if kind == "tuple":
        return (x, i)
    if kind == "dict":
        return {x: i}
    if kind == "set":
        return {"s%d" % i}
    if kind == "frozenset":
        return frozenset(["s%d" % i])
    if kind == "JSObject":
        return JSObject(k=x)
    if kind == "JSArray":
        return JSArray([x])
    if kind == "sparse":
        return JSArray({50: x})
    if kind == "JSMap":
        return JSMap([(x, i)])
    if kind == "JSSet":
        return JSSet([x])
    if kind == "wrap true":
        return JSPrimitiveObject(i % 2 == 0)
    if kind == "wrap number":
        return JSPrimitiveObject(1.5 + i)
    if kind == "wrap bigint":
        return JSPrimitiveObject((1 << 70) + i)
    if kind == "wrap string":
        return JSPrimitiveObject("w%d" % i)
    if kind == "regexp":
        return JSRegExp("a%d" % i, JSRegExpFlag(3))
    if kind == "py regexp":
        return re.compile("b%d" % i, re.ASCII)
    if kind == "date":
        return datetime(2024, 1, 2 + i, tzinfo=timezone.utc)
    if kind == "error":
        return JSErrorData()
    if kind == "error msg":
        return JSErrorData(message="m", stack="st", name="TypeError")
    if kind == "error cause":
        return JSErrorData(message="m", cause=[x])
    if kind == "exception":
        return ValueError("x")
    if kind == "buffer":
        return JSArrayBuffer(b"abcd")
    if kind == "resizable":
        return JSArrayBuffer(b"abcd", max_byte_length=8, resizable=True)
    if kind == "shared":
        return JSSharedArrayBuffer(i)
    if kind == "transfer":
        return JSArrayBufferTransfer(i)
    if kind == "bytes":
        return b"ab" + bytes([i])
    if kind == "bytearray":
        return bytearray(b"ab")
    if kind == "view":
        return JSUint16Array(JSArrayBuffer(b"abcdef"), item_offset=1, item_length=2)
    if kind == "view ba":
        return JSUint8Array(bytearray(b"abcdef"), item_offset=1, item_length=2)
    if kind == "dataview":
        return JSDataView(JSArrayBuffer(b"ab"))
    if kind == "view rab":
        return JSUint8Array(JSArrayBuffer(b"abcdef", max_byte_length=9, resizable=True))
    if kind == "shared obj":
        return V8SharedObjectReference(i)
    if kind in EMPTY:
        return empty(kind)
    raise AssertionError(kind)


def empty(kind):
    """Objects that are empty, or false in Python."""
    if kind == "list 0":
        return []
    if kind == "dict 0":
        return {}
    if kind == "set 0":
        return set()
    if kind == "JSObject 0":
        return JSObject()
    if kind == "JSArray 0":
        return JSArray()
    if kind == "JSMap 0":
        return JSMap()
    if kind == "JSSet 0":
        return JSSet()
    if kind == "buffer 0":
        return JSArrayBuffer(b"")
    if kind == "bytearray 0":
        return bytearray()
    if kind == "resizable 0":
        return JSArrayBuffer(b"", max_byte_length=3, resizable=True)
    if kind == "view 0":
        return JSUint8Array(JSArrayBuffer(b"ab"), item_offset=1, item_length=0)
    if kind == "dataview 0":
        return JSDataView(JSArrayBuffer(b""))
    if kind == "wrap false":
        return JSPrimitiveObject(False)
    if kind == "wrap zero":
        return JSPrimitiveObject(0)
    if kind == "wrap no text":
        return JSPrimitiveObject("")
    if kind == "wrap other big":
        return JSPrimitiveObject(1 << 70)
    if kind == "regexp no text":
        return JSRegExp("", JSRegExpFlag(0))
    if kind == "date 0":
        return datetime(1970, 1, 1, tzinfo=timezone.utc)
    if kind == "tuple 0":
        return ()
    if kind == "frozenset 0":
        return frozenset()
    if kind == "bytes 0":
        return b""
    raise AssertionError(kind)


def written(S, n, hi, kinds=KINDS, features=3, node=False):
    """[objects..., marker, same objects..., marker]: every reference leads to its object."""
    x = S.int("x", 0, hi)
    if kinds == "EMPTY":
        kinds = EMPTY + ["int", "list", "JSObject"]
    ks = [S.choice("kind%d" % i, kinds) for i in range(n)]
    vs = [make(k, i, x) for i, k in enumerate(ks)]
    marker = [7]
    steps = [serialize_object_references, TagWriter()]
    if node:
        steps.insert(1, serialize_js_array_buffer_views_as_nodejs_host_object)
    d = dumps([vs, marker, vs, marker], features=SerializationFeature(features), encode_steps=steps)
    w = v8.parse(d, v8.node_host if node else None)
    first, m1, second, m2 = w.items
    S.check(first.kind == "array" and first.id == 1, "list on the wire")
    S.check(second is first, "repeated list on the wire")
    S.check(m1.kind == "array" and m1 is m2, "reference to the last object on the wire")
    d2 = dumps(vs + [marker] + vs + [marker], features=SerializationFeature(features), encode_steps=steps)
    w2 = v8.parse(d2, v8.node_host if node else None)
    S.check(len(w2.items) == 2 * n + 2, "items on the wire")
    for i, k in enumerate(ks):
        a, b = w2.items[i], w2.items[n + 1 + i]
        if k in WITH_ID:
            kind = WITH_ID[k]
            if kind == "resizable" and features == 0:
                kind = "buffer"
            if node and k in ("view", "view ba", "dataview", "view rab"):
                kind = "host"
            S.check(isinstance(a, v8.N) and a.kind == kind, "kind on the wire: " + k)
            S.check(a is b, "a repeated object is not a reference to it: " + k)
            for j in range(i):
                if k in BY_VALUE and ks[j] == k:
                    continue
                S.check(w2.items[j] is not a, "different objects became one: " + k)
        else:
            S.check(not isinstance(a, v8.N), "primitive on the wire: " + k)
    S.check(w2.items[n].kind == "array" and w2.items[n] is w2.items[2 * n + 1], "reference past them: " + " ".join(ks))
    S.check(len(w2.items[n].items) == 1, "reference past them: " + " ".join(ks))
    r = loads(d2).array
    S.check(len(r) == 2 * n + 2, "items read back")
    for i, k in enumerate(ks):
        if k in WITH_ID:
            if k in BY_VALUE:
                S.check(r[i] == r[n + 1 + i], "read back: " + k)
            else:
                S.check(r[i] is r[n + 1 + i], "identity read back: " + k)
                for j in range(i):
                    S.check(r[j] is not r[i], "different objects became one: " + k)
    S.check(type(r[n]) is JSArray and r[n] is r[2 * n + 1] and r[n][0] == 7, "reference past them, read back: " + " ".join(ks))


# kind -> encoding of one value
PIECES = {
    "int32": b"I\x02", "uint32": b"U\x02", "double": b"N\x00\x00\x00\x00\x00\x00\xf8\x3f", "bigint": b"Z\x02\x05",
    "onebyte": b'"\x01a', "utf8": b"S\x02ab", "undefined": b"_", "null": b"0", "true": b"T", "false": b"F", "hole": b"-",
    "object": b"o{\x00", "object1": b"oS\x01kI\x02{\x01", "array": b"A\x00$\x00\x00", "array1": b"A\x01T$\x00\x01",
    "sparse": b"a\x05@\x00\x05", "map": b";:\x00", "map1": b";TT:\x02", "set": b"',\x00", "set1": b"'T,\x01",
    "date": b"D\x00\x00\x00\x00\x00\x00\x00\x00", "true object": b"y", "false object": b"x",
    "number object": b"n\x00\x00\x00\x00\x00\x00\xf8\x3f", "bigint object": b"z\x02\x05", "string object": b's"\x01a',
    "regexp": b'R"\x01a\x00', "error": b"r.", "error proto": b"rT.", "error msg": b"rmS\x01m.",
    "error cause": b"rc_.", "error cause obj": b"rco{\x00.", "error stack": b"rsS\x01s.", "error old": b"rTmS\x01mc0sS\x01s.",
    "error new": b"rTmS\x01msS\x01sc0.",
    "buffer": b"B\x01a", "resizable": b"~\x01\x02a", "shared": b"u\x03", "transfer": b"t\x04", "view": b"B\x01aVB\x00\x01\x00",
    "dataview": b"B\x01aV?\x00\x01\x00", "rab view": b"~\x01\x02aVB\x00\x01\x03", "host": b"\\\x01\x01a", "shared obj": b"p\x05",
    "shared view": b"u\x03VB\x00\x01\x00",
    "nested": b"A\x02o{\x00;T',\x00:\x02$\x00\x02",
}


def resolves(S, w, got, r, ws):
    """The value `got` is the Python object standing for the oracle's node w."""
    if w is ws[0]:
        S.check(got is r, "reference to the root")
        return
    top = None
    for i, x in enumerate(r_items(ws[0])):
        if x is w:
            top = i
            break
    if top is None:
        # an object inside one of the items
        S.reached("inner")
        for i, x in enumerate(r_items(ws[0])):
            if isinstance(x, v8.N):
                if x.kind == "view" and x.buffer is w:
                    S.check(got is r.array[i].backing_buffer, "reference to the buffer of a view")
                    return
                if x.kind == "error" and x.info.get("cause") is w:
                    S.check(got is r.array[i].cause, "reference to a cause")
                    return
                if x.kind == "array" and x.info == "dense":
                    for j, y in enumerate(x.items):
                        if y is w:
                            S.check(got is r.array[i].array[j], "reference to a nested object")
                            return
                        if isinstance(y, v8.N) and y.kind == "map" and y.items[0][1] is w:
                            S.check(got is r.array[i].array[j][True], "reference to a nested object")
                            return
        S.fail("reference resolves elsewhere")
    want = r.array[top]
    if w.kind == "wrapper":
        S.reached("wrapper")
        S.check(type(got) is type(want) and got == want, "reference to a wrapper")
    else:
        S.check(got is want, "reference to an object: " + w.kind)


def r_items(w):
    return w.items[:-1]


def read(S, kinds=None, n=2):
    """[pieces..., ^id] for any id."""
    ks = [S.choice("k%d" % i, sorted(PIECES)) for i in range(n)]
    i = S.int("id", 0, 127)
    d = b"\xff\x0fA" + bytes([n + 1]) + b"".join([PIECES[k] for k in ks]) + b"^" + bytes([i]) + b"$\x00" + bytes([n + 1])
    p = v8.Parser(d, v8.node_host)
    try:
        w = p.whole()
    except v8.Bad:
        w = None
    try:
        r = loads(d)
    except DecodeV8SerializeError:
        S.check(w is None, "reference to a known object refused: " + " ".join(ks))
        S.reached("unknown")
        return
    S.check(w is not None, "reference to an unknown object accepted: " + " ".join(ks))
    S.reached("known")
    resolves(S, w.items[-1], r.array[n], r, p.objs)


WRAP = {
    "object": (b"oS\x01k", b"{\x01"), "array": (b"A\x01", b"$\x00\x01"), "array prop": (b"A\x00S\x01k", b"$\x01\x00"),
    "sparse": (b"a\x05I\x02", b"@\x01\x05"), "map key": (b";", b"T:\x02"), "map value": (b";T", b":\x02"), "set": (b"'", b",\x01"),
    "error cause": (b"rc", b"."), "error late cause": (b"rTmS\x01mc", b"sS\x01s."),
}


def inner(o, k):
    if k == "object":
        return o["k"]
    if k == "array":
        return o[0]
    if k == "array prop":
        return o["k"]
    if k == "sparse":
        return o[1]
    if k == "map key":
        return list(o.keys())[0]
    if k == "map value":
        return o[True]
    if k == "set":
        return list(o)[0]
    return o.cause


def pending(S, depth):
    """References from inside objects that are still being read, and right after them."""
    ks = [S.choice("k%d" % i, sorted(WRAP)) for i in range(depth)]
    i = S.int("id", 0, 127)
    j = S.int("after", 0, 127)
    body = b"A\x02" + b"".join([WRAP[k][0] for k in ks]) + b"^" + bytes([i])
    body = body + b"".join([WRAP[k][1] for k in reversed(ks)]) + b"^" + bytes([j]) + b"$\x00\x02"
    d = b"\xff\x0f" + body
    try:
        r = loads(d)
    except DecodeV8SerializeError:
        S.check(S.any([i > depth, j > depth]), "reference to a known object refused: " + " ".join(ks))
        S.reached("unknown")
        return
    S.check(S.all([i <= depth, j <= depth]), "reference to an unknown object accepted")
    S.reached("known")
    objs = [r, r.array[0]]
    for k in ks[:-1]:
        objs.append(inner(objs[-1], k))
    leaf = inner(objs[-1], ks[-1])
    S.check(leaf is objs[S.concrete(i)], "reference to an object being read: " + " ".join(ks))
    S.check(r.array[1] is objs[S.concrete(j)], "reference after it: " + " ".join(ks))
