"""Primitive wrapper objects (C23)."""
import struct
from v8serialize import dumps, loads
from v8serialize.constants import SerializationTag
from v8serialize.decode import TagReader, TagReaderRegistry
from v8serialize.jstypes import JSObject, JSPrimitiveObject, JSUndefined
from hx import v8

T = SerializationTag
TAGS = {"true": T.kTrueObject, "false": T.kFalseObject, "number": T.kNumberObject, "bigint": T.kBigIntObject, "string": T.kStringObject}
SAFE = (1 << 53) - 1


def keep(tag_reader, tag, ctx):
    return ctx.stream.read_js_primitive_object(tag)[1]


def steps():
    """Decode steps that keep wrapper objects (loads itself unwraps them)."""
    r = TagReaderRegistry()
    for t in TAGS.values():
        r.register(t, keep)
    return [TagReader(tag_readers=r)]


def kept(data):
    return loads(data, decode_steps=steps())


def value(S, kind, bits, n):
    if kind == "int":
        return S.int("i", -(1 << bits), 1 << bits)
    if kind == "double":
        return S.double("d")
    if kind == "bool":
        return S.flag("b")
    if kind == "str":
        return S.str("s%d" % n, n)
    if kind == "none":
        return None
    if kind == "undefined":
        return JSUndefined
    if kind == "bytes":
        return b"a"
    if kind == "complex":
        return 1j
    if kind == "object":
        return JSObject()
    if kind == "wrapper":
        return JSPrimitiveObject(1)
    return [1]


LEGAL = ["int", "double", "bool", "str"]
ILLEGAL = ["none", "undefined", "bytes", "complex", "object", "list", "wrapper"]


def tags_of(S, kind, v):
    """(default tag, all tags) JavaScript allows."""
    if kind == "int":
        if v >= -SAFE and v <= SAFE:
            return "number", ["number", "bigint"]
        return "bigint", ["bigint"]
    if kind == "double":
        return "number", ["number"]
    if kind == "bool":
        return ("true", ["true"]) if v else ("false", ["false"])
    return "string", ["string"]


def accept(S, bits, ns=(0, 1), kinds=LEGAL + ILLEGAL):
    """Which values and tags are accepted."""
    kind = S.choice("kind", list(kinds))
    v = value(S, kind, bits, S.choice("n", list(ns)) if kind == "str" else 0)
    t = S.choice("tag", [None] + list(TAGS) + ["kDouble", "kBigInt", "kTrue"])
    tag = None if t is None else TAGS[t] if t in TAGS else getattr(T, t)
    if kind in ILLEGAL:
        try:
            JSPrimitiveObject(v, tag)
            S.fail("a value that is no primitive is accepted")
        except TypeError:
            S.reached("no primitive")
        return
    default, allowed = tags_of(S, kind, v)
    try:
        o = JSPrimitiveObject(v, tag) if S.flag("positional") else JSPrimitiveObject(v, tag=tag)
    except ValueError:
        S.reached("refused")
        S.check(t is not None and t not in allowed, "a legal tag is refused", t)
        return
    S.reached("accepted")
    S.check(t is None or t in allowed, "an illegal tag is accepted", t)
    S.check(o.tag is TAGS[default if t is None else t], "tag")
    S.check(type(o.value) is type(v) and S.same(o.value, v), "value")


def same_float(a, b):
    return a == b or a != a and b != b


def same_value(a, b):
    return type(a) is type(b) and (same_float(a, b) if type(a) is float else a == b)


def roundtrip(S, bits, ns=(0, 1, 2), kinds=LEGAL, wrap=("top", "list", "map")):
    """Each wrapper through V8's reader and loads."""
    kind = S.choice("kind", list(kinds))
    v = value(S, kind, bits, S.choice("n", list(ns)) if kind == "str" else 0)
    default, allowed = tags_of(S, kind, v)
    t = S.choice("tag", [None] + list(TAGS))
    S.assume(t is None or t in allowed)
    o = JSPrimitiveObject(v) if t is None else JSPrimitiveObject(v, TAGS[t])
    t = default if t is None else t
    pos = S.choice("pos", list(wrap))
    other = [1]
    g = o if pos == "top" else [other, o, other, o] if pos == "list" else {"k": o, "l": other, "m": other, "n": o}
    data = dumps(g)
    tree, back, plain = v8.parse(data), kept(data), loads(data)
    if pos == "list":
        S.check(tree.items[1] is tree.items[3] and tree.items[0] is tree.items[2] and back[0] is back[2] and back[1] is back[3], "sharing")
        S.check(plain[0] is plain[2] and plain[1] is plain[3], "sharing, unwrapped")
        tree, back, plain = tree.items[1], back[1], plain[3]
    elif pos == "map":
        S.check(tree.items[0][1] is tree.items[3][1] and tree.items[1][1] is tree.items[2][1] and back["k"] is back["n"] and back["l"] is back["m"], "sharing")
        S.check(plain["k"] is plain["n"] and plain["l"] is plain["m"], "sharing, unwrapped")
        tree, back, plain = tree.items[0][1], back["k"], plain["n"]
    S.check(tree.kind == "wrapper", "written as a wrapper")
    w = tree.value
    S.reached(t)
    S.check(type(back) is JSPrimitiveObject and back.tag is TAGS[t], "tag read back")
    S.check(same_value(plain, back.value), "the value unwrapped")
    if t == "number":
        S.check(isinstance(w, v8.Num) and same_float(w.v, v), "number written")
        S.check(same_float(back.value, v) and not isinstance(back.value, bool), "number read back")
        if kind == "double":
            S.check(struct.pack("<d", w.v) == struct.pack("<d", v) or v != v, "bits written")
            S.check(type(back.value) is float and (struct.pack("<d", back.value) == struct.pack("<d", v) or v != v), "bits read back")
    elif t == "bigint":
        S.check(isinstance(w, v8.Big) and w.v == v, "BigInt written")
        S.check(type(back.value) is int and back.value == v, "BigInt read back")
    elif t == "string":
        S.check(isinstance(w, str) and w == v and isinstance(back.value, str) and back.value == v, "string")
    else:
        S.check(w is (t == "true") and back.value is (t == "true"), "boolean")
    again = dumps(back)
    S.check(v8.parse(again).kind == "wrapper" and kept(again).tag is TAGS[t], "written again")


def read(S, ns):
    """Wrappers as V8 writes them."""
    t = S.choice("t", ["y", "x", "n", "z", "s"])
    want = None
    if t in ("y", "x"):
        body = t.encode()
    elif t == "n":
        raw = S.bytes("d", 8)
        body = b"n" + raw
        want = struct.unpack("<d", raw)[0]
    elif t == "z":
        k = S.choice("k", [0, 1, 8, 9])
        neg = S.flag("neg")
        raw = S.bytes("z%d" % k, k)
        body = b"z" + bytes([2 * k + (1 if neg else 0)]) + raw
        want = int.from_bytes(raw, "little")
        want = -want if neg else want
    else:
        n = S.choice("n", ns)
        form = S.choice("form", ["onebyte", "utf8", "twobyte"])
        if form == "onebyte":
            want = S.str("a%d" % n, n, hi=0xFF)
            raw = want.encode("latin-1")
            body = b's"' + bytes([len(raw)]) + raw
        else:
            want = S.str("s%d" % n, n)
            raw = want.encode("utf-8" if form == "utf8" else "utf-16-le")
            body = (b"sS" if form == "utf8" else b"s\x00c") + bytes([len(raw)]) + raw
    data = b"\xff\x0fA\x03" + body + b"o{\x00^" + bytes([S.choice("ref", [1, 2])]) + b"$\x00\x03"
    back = kept(data)
    o = back[0]
    plain = loads(data)
    S.check(type(o) is JSPrimitiveObject, "class")
    S.check(type(back[1]) is JSObject and back[2] is back[S.choice("ref", [1, 2]) - 1], "values after a wrapper")
    S.check(type(plain[1]) is JSObject and plain[2] is plain[S.choice("ref", [1, 2]) - 1], "values after a wrapper, unwrapped")
    S.check(same_value(plain[0], o.value), "the value unwrapped")
    if t in ("y", "x"):
        S.check(o.value is (t == "y") and o.tag is (T.kTrueObject if t == "y" else T.kFalseObject), "boolean")
    elif t == "n":
        S.check(type(o.value) is float and same_float(o.value, want) and o.tag is T.kNumberObject, "number")
    elif t == "z":
        S.check(type(o.value) is int and o.value == want and o.tag is T.kBigIntObject, "BigInt")
    else:
        S.check(isinstance(o.value, str) and o.value == want and o.tag is T.kStringObject, "string")


def pair(S, bits):
    """Two wrappers in one payload keep their own type and value."""
    ka, kb = S.choice("ka", ["number", "bigint", "double", "true", "string"]), S.choice("kb", ["number", "bigint", "double", "true", "false", "string", "plain"])

    def make(k, name):
        if k == "number":
            return S.int("i" + name, -2, 2)
        if k == "bigint":
            return S.int("z" + name, -2, 2)
        if k == "double":
            return S.double("d" + name)
        if k == "string":
            return S.str("s" + name, 1)
        if k == "plain":
            return S.int("p" + name, -2, 2)
        return k == "true"
    va, vb = make(ka, "a"), make(kb, "b")
    a = JSPrimitiveObject(va, T.kBigIntObject if ka == "bigint" else None)
    b = vb if kb == "plain" else JSPrimitiveObject(vb, T.kBigIntObject if kb == "bigint" else None)
    back = kept(dumps([a, b, [b, a]]))
    for got, k, v in ((back[0], ka, va), (back[1], kb, vb), (back[2][0], kb, vb), (back[2][1], ka, va)):
        if k == "plain":
            S.check(type(got) is int and got == v, "a plain number")
            continue
        S.check(type(got) is JSPrimitiveObject, "class")
        S.check(got.tag is TAGS[{"double": "number"}.get(k, k)], "tag")
        if k == "double":
            S.check(struct.pack("<d", got.value) == struct.pack("<d", v) or v != v, "double")
        elif k in ("true", "false"):
            S.check(got.value is (k == "true"), "boolean")
        else:
            S.check(got.value == v and not isinstance(got.value, bool), "value")
