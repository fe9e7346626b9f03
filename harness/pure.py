"""C31: dumps() and loads() leave nothing behind."""
from collections import abc
from v8serialize import DecodeV8SerializeError, Decoder, Encoder, EncodeV8SerializeError, dumps, loads
from v8serialize.constants import SerializationFeature
from v8serialize.decode import TagReader
from v8serialize.encode import TagWriter, default_encode_steps, serialize_object_references
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSError, JSErrorData, JSMap, JSObject, JSPrimitiveObject, JSSet, JSUint8Array)
from hx import again, bufrt, graphs, ids

ALL = SerializationFeature(15)
CONTAINERS = ["list", "tuple", "dict", "JSObject", "JSArray", "JSMap", "JSSet", "cause"]


def within(kind, xs):
    """A container of the given kind holding xs."""
    if kind == "list":
        return list(xs)
    if kind == "tuple":
        return tuple(xs)
    if kind == "dict":
        return {"k%d" % i: x for i, x in enumerate(xs)}
    if kind == "JSObject":
        return JSObject([("k%d" % i, x) for i, x in enumerate(xs)])
    if kind == "JSArray":
        return JSArray(xs)
    if kind == "JSMap":
        return JSMap([("k%d" % i, x) for i, x in enumerate(xs)])
    if kind == "JSSet":
        return JSSet(xs)
    return JSErrorData(message="m", cause=list(xs))


def seen(v, memo):
    """Everything that can be observed of v: (kind, contents), objects by the order they are met."""
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, (JSErrorData, JSObject, JSMap, JSSet, list, dict, set, tuple, frozenset, JSArrayBuffer, bytearray)):
        memo[id(v)] = ("again", len(memo))
    if isinstance(v, (JSErrorData, JSError)):
        return ("error", v.name, v.message, v.stack, seen(v.cause, memo))
    if isinstance(v, JSArray):
        return ("array", len(v.array), [seen(x, memo) for x in v.array], [(k, seen(x, memo)) for k, x in v.properties.items()])
    if isinstance(v, JSObject):
        return ("object", [(k, seen(x, memo)) for k, x in v.items()])
    if isinstance(v, (JSMap, dict)):
        return ("map", [(seen(k, memo), seen(x, memo)) for k, x in v.items()])
    if isinstance(v, (JSSet, set, frozenset)):
        return ("set", [seen(x, memo) for x in v])
    if isinstance(v, (list, tuple)):
        return ("list", [seen(x, memo) for x in v])
    if isinstance(v, JSArrayBuffer):
        return ("buffer", bytes(v.data), v.max_byte_length, v.resizable)
    if isinstance(v, bytearray):
        return ("bytearray", bytes(v))
    if isinstance(v, JSPrimitiveObject):
        return ("wrapper", v.tag, v.value)
    if hasattr(v, "backing_buffer"):
        return ("view", v.view_tag, v.byte_offset, v.is_length_tracking, v.byte_length, seen(v.backing_buffer, memo))
    return v


class Bad:
    """Not serializable."""


class Raises(abc.Mapping):
    """Fails while it is being written, after the first of its entries."""

    def __init__(self, first):
        self.first = first

    def __len__(self):
        return 2

    def __iter__(self):
        yield "a"
        raise KeyError("gone")

    def __getitem__(self, k):
        return self.first

    def items(self):
        yield "a", self.first
        raise KeyError("gone")


class Nested(abc.Mapping):
    """Serializes and deserializes other things while it is being written."""

    def __init__(self, other, data):
        self.other, self.data, self.got = other, data, []

    def __len__(self):
        return 1

    def __iter__(self):
        return iter(["a"])

    def __getitem__(self, k):
        return self.other

    def items(self):
        self.got.append((dumps(self.other, features=ALL), loads(self.data)))
        yield "a", self.other
        self.got.append((dumps(self.other, features=ALL), loads(self.data)))


def unchanged(S, n, hi, kinds=None, ins=None):
    """Values of every kind are as they were, and give the same bytes again."""
    x = S.int("x", 0, hi)
    c = S.choice("in", ins or CONTAINERS)
    ks = [S.choice("kind%d" % i, kinds or sorted(ids.WITH_ID) + ["int", "str", "bigint"]) for i in range(n)]
    vs = [ids.make(k, i, x) for i, k in enumerate(ks)]
    v = within(c, vs)
    before = seen(v, {})
    d = dumps(v, features=ALL)
    S.check(type(d) is bytes, "dumps returns bytes")
    S.check(seen(v, {}) == before, "dumps changed its value: " + c + " of " + " ".join(ks))
    S.check(dumps(v, features=ALL) == d, "written differently the second time")
    S.check(dumps(within(c, vs), features=ALL) == d, "an equal container is written differently")
    enc = Encoder(features=ALL)
    for _ in range(2):
        S.check(bytes(enc.encode(v)) == d, "an encoder that is used again writes something else")


def graph(S, n, kinds, arity=2):
    b = graphs.G(S, n, kinds, arity, False)
    g = b.node()
    before = seen(g, {})
    d = dumps(g, features=ALL)
    S.check(seen(g, {}) == before, "dumps changed its value")
    S.check(dumps(g, features=ALL) == d, "written differently the second time")
    p, q = loads(d), loads(d)
    again.Pairs(S).same(p, q)
    apart(S, p, q)
    S.check(seen(g, {}) == before, "loads changed the value written")


def mutable(v, out):
    """The mutable objects within v."""
    if id(v) in out:
        return
    if isinstance(v, again.MUTABLE):
        out[id(v)] = v
    if hasattr(v, "backing_buffer"):
        mutable(v.backing_buffer, out)
    elif isinstance(v, JSError):
        mutable(v.cause, out)
    elif isinstance(v, (JSObject, JSMap)):
        for k, x in v.items():
            mutable(k, out)
            mutable(x, out)
    elif isinstance(v, JSSet):
        for x in v:
            mutable(x, out)


def apart(S, p, q):
    a, b = {}, {}
    mutable(p, a)
    mutable(q, b)
    for i in a:
        S.check(i not in b, "two calls of loads share a " + type(a[i]).__name__)


OTHERS = [b"\xff\x0fo{\x00", b"\xff\x0fA\x01o{\x00", b"\xff\x0fA\x02o{\x00^\x01$\x00\x02", b"\xff\x0f;^\x00", b"\xff\x0frc^"]


def twice(S, n, others=OTHERS):
    """Data of every kind read twice, with another call in between that fails or not."""
    ks = [S.choice("k%d" % i, sorted(ids.PIECES)) for i in range(n)]
    i = S.int("id", 0, 127)
    d = b"\xff\x0fA" + bytes([n + 1]) + b"".join([ids.PIECES[k] for k in ks]) + b"^" + bytes([i]) + b"$\x00" + bytes([n + 1])
    other = S.choice("other", others)

    def read():
        try:
            return loads(d)
        except DecodeV8SerializeError as e:
            return e
    p = read()
    try:
        r = loads(other)
    except DecodeV8SerializeError:
        S.reached("failed in between")
        r = None
    q = read()
    if isinstance(p, DecodeV8SerializeError):
        S.reached("refused")
        S.check(type(p) is type(q) and p.message == q.message and p.position == q.position, "refused differently the second time")
        return
    S.reached("read")
    S.check(not isinstance(q, DecodeV8SerializeError), "refused the second time")
    again.Pairs(S).same(p, q)
    apart(S, p, q)
    apart(S, p, r)


def template(S):
    """Contents of each kind, read twice and by a decoder that is used again."""
    d = bufrt.template(S, S.choice("payload", sorted(bufrt.TEMPLATES)))
    dec = Decoder(decode_steps=[TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])
    got = []
    for f in (loads, dec.decodes, dec.decodes, loads):
        try:
            got.append(f(d))
        except DecodeV8SerializeError as e:
            got.append(e)
    if isinstance(got[0], DecodeV8SerializeError):
        S.reached("refused")
        for g in got[1:]:
            S.check(type(g) is type(got[0]) and g.message == got[0].message, "refused differently the second time")
        return
    S.reached("read")
    for g in got[1:]:
        S.check(not isinstance(g, DecodeV8SerializeError), "refused the second time")
        again.Pairs(S).same(got[0], g)
        apart(S, got[0], g)
    apart(S, got[1], got[2])


def failing(S, n, hi):
    """A dumps() that fails anywhere leaves the values, the steps and later calls alone."""
    x = S.int("x", 0, hi)
    c = S.choice("in", CONTAINERS)
    out = S.choice("around", CONTAINERS)
    ks = [S.choice("kind%d" % i, ["int", "list", "JSObject", "dict", "set", "error cause", "view", "wrap string", "date", "bigint"]) for i in range(n)]
    vs = [ids.make(k, i, x) for i, k in enumerate(ks)]
    own = S.flag("own steps")
    steps = [serialize_object_references, TagWriter()] if own else default_encode_steps
    at = S.choice("at", n + 1)
    bad = S.choice("bad", ["value", "raises", "in list", "raises again"])
    b = Bad() if bad == "value" else [vs[0], Bad()] if bad == "in list" else Raises(vs[0])
    if bad == "raises again":
        b = [b, b]
    v = within(c, vs)
    before = seen(v, {})
    d = dumps(v, features=ALL, encode_steps=steps)
    try:
        dumps(within(out, [v] + vs[:at] + [b] + vs[at:]), features=ALL, encode_steps=steps)
        S.fail("written")
    except EncodeV8SerializeError:
        S.reached("refused")
    except KeyError:
        S.reached("raised")
    S.check(seen(v, {}) == before, "a failed dumps changed a value")
    S.check(dumps(v, features=ALL, encode_steps=steps) == d, "written differently after a failed dumps")
    S.check(dumps(v, features=ALL) == d, "written differently by default steps after a failed dumps")
    w = within(c, [v] + vs + [v])
    e = dumps(w, features=ALL)
    S.check(dumps(w, features=ALL, encode_steps=steps) == e, "written differently after a failed dumps")


def nested(S, n, hi):
    """Calls within a call: each is as it would be alone."""
    x = S.int("x", 0, hi)
    c = S.choice("in", CONTAINERS)
    ks = [S.choice("kind%d" % i, ["int", "list", "JSObject", "JSMap", "error cause", "view"]) for i in range(n)]
    vs = [ids.make(k, i, x) for i, k in enumerate(ks)]
    v = within(c, vs)
    d = dumps(v, features=ALL)
    m = Nested(v, d)
    plain = {"a": v}
    at = S.choice("at", n + 1)
    e = dumps([v] + vs[:at] + [m] + vs[at:] + [m, v], features=ALL)
    S.check(e == dumps([v] + vs[:at] + [plain] + vs[at:] + [plain, v], features=ALL), "a call within it changed what is written")
    S.check(len(m.got) == 2, "written once")
    for dd, r in m.got:
        S.check(dd == d, "a call within another writes something else")
        again.Pairs(S).same(r, loads(d))


LENT = ["bytes", "bytearray", "view", "view of bytearray", "read-only view", "part", "signed"]


def lend(kind, b):
    if kind == "bytes":
        return b, b
    ba = bytearray(b)
    if kind == "bytearray":
        return ba, ba
    if kind == "view":
        return b, memoryview(b)
    if kind == "view of bytearray":
        return ba, memoryview(ba)
    if kind == "read-only view":
        return ba, memoryview(ba).toreadonly()
    if kind == "part":
        return ba, memoryview(ba)[1:]
    return ba, memoryview(ba).cast("b")


def lent(S, n):
    """Buffers of the caller hold what they held, are not closed and not kept."""
    b = S.bytes("b", n)
    base, v = lend(S.choice("kind", LENT), b)
    how = S.choice("as", ["value", "twice", "viewed", "buffer", "item", "key", "failing"])
    x = v if how == "value" else [v, v] if how == "twice" else JSUint8Array(v) if how == "viewed" else \
        JSArrayBuffer(v, copy_data=False) if how == "buffer" else {"a": v} if how == "item" else \
        JSMap([(v, 1)]) if how == "key" else [v, Bad()]
    got = []
    for _ in range(2):
        try:
            got.append(dumps(x, features=ALL))
        except EncodeV8SerializeError:
            S.check(how == "failing", "refused")
            got.append(None)
    S.check(got[0] == got[1], "written differently the second time")
    if type(v) is memoryview:
        S.check(v.tobytes() == (b[1:] if v.nbytes != n else b), "the contents changed")
        x = None
        v.release()
    S.check(bytes(base) == b, "the contents changed")
    x = v = None
    if type(base) is bytearray and how != "buffer":   # a JSArrayBuffer that shares memory may live until the next collection
        base.append(1)


def borrowed(S, n, pres):
    """Data given to loads() is not changed and not kept."""
    d = b"\xff\x0f" + S.choice("pre", pres).encode("latin-1") + S.bytes("d", n)
    kind = S.choice("as", ["bytearray", "view", "part"])
    base = bytearray(d) if kind != "part" else bytearray(b"\x01" + d)
    m = base if kind == "bytearray" else memoryview(base) if kind == "view" else memoryview(base)[1:]
    before = bytes(base)
    try:
        got = loads(m)
    except DecodeV8SerializeError as e:
        S.reached("refused")
        got = None
        S.check(bytes(e.data) == d, "the data of the error")
        e = None
    S.reached("read")
    S.check(bytes(base) == before, "loads changed its data")
    if got is not None:
        seen_before = seen(got, {})
    for i in range(len(base)):
        base[i] = 0xEE
    if got is not None:
        S.check(seen(got, {}) == seen_before, "what was read changes with the data it was read from")
    if kind != "bytearray":
        m.release()
    base.append(1)


NAMES = ["Error", "TypeError", "EvalError", "CustomError", "", "toString", "typeerror"]


def errors(S):
    """Errors of any name with and without each part are as they were."""
    form = S.choice("form", ["data", "error", "exception", "group"])
    name = S.choice("name", NAMES)
    message = S.choice("message", [None, "", "m"])
    stack = S.choice("stack", [None, "", "s"])
    cause = S.choice("cause", ["none", "int", "list", "error"])
    x = S.int("x", 0, 300)
    c = None if cause == "none" else x if cause == "int" else [x] if cause == "list" else JSErrorData(name=name, message=message)
    if form == "data":
        e = JSErrorData(name=name, message=message, stack=stack, cause=c)
    elif form == "error":
        e = JSError(message, name=name, stack=stack, cause=c)
    else:
        e = ValueError(message) if form == "exception" else ExceptionGroup(message or "", [KeyError(name)])
        e.__cause__ = JSError(message, name=name, stack=stack, cause=c) if cause != "none" else None

    def state():
        if isinstance(e, (JSErrorData, JSError)):
            return seen(e, {})
        return (e.args, e.__traceback__, e.__context__, e.__suppress_context__, e.__cause__ is None or seen(e.__cause__, {}),
                [y.args for y in getattr(e, "exceptions", ())])
    before = state()
    d = dumps([e, e], features=ALL)
    S.check(state() == before, "dumps changed an error")
    S.check(dumps([e, e], features=ALL) == d, "written differently the second time")
