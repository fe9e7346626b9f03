"""Whatever dumps() returns is well-formed V8 data (C17)."""
import datetime
import re
from v8serialize import Encoder, EncodeV8SerializeError, default_encode_steps, dumps
from v8serialize.constants import ArrayBufferViewTag, JSRegExpFlag, SerializationFeature, SerializationTag
from v8serialize.encode import DefaultEncodeContext, WritableTagStream
from v8serialize.extensions import serialize_js_array_buffer_views_as_nodejs_host_object
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSErrorData, JSHole, JSMap, JSObject,
                                 JSPrimitiveObject, JSRegExp, JSSet, JSSharedArrayBuffer, JSUndefined, create_view)
from v8serialize.jstypes._v8 import V8SharedObjectReference
from hx import v8

U32 = 1 << 32
PLAIN = ["int", "double", "str", "bool", "none", "undefined"]
BUFS = ["bytes", "bytearray", "buffer", "rab", "view", "tracking", "shared", "transfer", "shared view", "shared object"]
OBJS = ["wrap int", "wrap str", "wrap double", "wrap bool", "regexp", "pattern", "date", "error data", "exception"]
BAD = ["object", "complex", "iterator", "f16", "class"]
LEAVES = PLAIN + BUFS + OBJS + BAD + ["hole"]
DATE = datetime.datetime(2020, 1, 2, 3, 4, 5, 678000, tzinfo=datetime.timezone.utc)


class Unknown:
    pass


def leaf(S, name, kinds):
    k = S.choice("kind." + name, list(kinds))
    return leaf_of(S, name, k)


def leaf_of(S, name, k, big=True):
    if k == "int":
        return S.int("i." + name, -(1 << 70), 1 << 70) if big else S.int("i32." + name, -5, 300)
    if k == "double":
        return S.double("d." + name)
    if k == "str":
        return S.str("s." + name, 1, surrogates=True)
    if k == "bool":
        return S.bool("b." + name)
    if k == "none":
        return None
    if k == "undefined":
        return JSUndefined
    if k == "bytes":
        return S.bytes("c." + name, 2)
    if k == "bytearray":
        return bytearray(S.bytes("c." + name, 2))
    if k == "buffer":
        return JSArrayBuffer(S.bytes("c." + name, 2))
    if k == "rab":
        return JSArrayBuffer(S.bytes("c." + name, 2), max_byte_length=S.int("max." + name, 2, U32 + 9))
    if k == "view":
        return create_view(JSArrayBuffer(S.bytes("c." + name, 2)), ArrayBufferViewTag.kInt16Array)
    if k == "tracking":
        return create_view(JSArrayBuffer(S.bytes("c." + name, 2), max_byte_length=9), ArrayBufferViewTag.kDataView)
    if k == "f16":
        return create_view(JSArrayBuffer(S.bytes("c." + name, 2)), ArrayBufferViewTag.kFloat16Array)
    if k == "shared":
        return JSSharedArrayBuffer(S.int("m." + name, 0, U32 + 9))
    if k == "transfer":
        return JSArrayBufferTransfer(S.int("m." + name, 0, U32 + 9))
    if k == "shared view":
        return create_view(JSSharedArrayBuffer(3), ArrayBufferViewTag.kUint8Array, byte_offset=S.int("m." + name, 0, U32 + 9), byte_length=1)
    if k == "shared object":
        return V8SharedObjectReference(S.int("m." + name, 0, U32 + 9))
    if k == "wrap int":
        return JSPrimitiveObject(S.int("i." + name, -(1 << 70), 1 << 70))
    if k == "wrap str":
        return JSPrimitiveObject(S.str("s." + name, 1, surrogates=True))
    if k == "wrap double":
        return JSPrimitiveObject(S.double("d." + name))
    if k == "wrap bool":
        return JSPrimitiveObject(S.bool("b." + name))
    if k == "regexp":
        return JSRegExp("x" + S.str("s." + name, 1, surrogates=True), JSRegExpFlag(S.choice("flags." + name, [0, 16, 256, 239])))
    if k == "pattern":
        return re.compile("x+", re.I)
    if k == "date":
        return DATE
    if k == "error data":
        return JSErrorData(name=S.choice("en." + name, ["RangeError", "x"]), message=S.str("s." + name, 1, surrogates=True), stack="t")
    if k == "exception":
        return ValueError("m")
    if k == "hole":
        return JSHole
    if k == "object":
        return Unknown()
    if k == "complex":
        return 1j
    if k == "iterator":
        return iter([1])
    return Unknown


CONTAINERS = ["list", "tuple", "dict", "JSObject", "JSArray", "sparse", "JSMap", "JSSet", "error", "raw object", "raw array", "raw sparse", "top"]


def hashable(x):
    try:
        hash(x)
    except (TypeError, ValueError):
        return False
    return True


def container(S, kind, a, b):
    """-> (container, whether a hole in it is out of place)"""
    if kind == "list":
        return [a, 7, b], False
    if kind == "tuple":
        return (a, b), False
    if kind == "dict":
        S.assume(hashable(a))
        return {a: b}, True
    if kind == "JSObject":
        return JSObject([("k", a), (3, b), ("l", a)]), False
    if kind == "JSArray":
        r = JSArray([a, b])
        r["k"] = a
        return r, False
    if kind == "sparse":
        r = JSArray()
        r[100] = a
        r[50] = b
        r["k"] = b
        return r, False
    if kind == "JSMap":
        return JSMap([(a, b), ("kk", a)]), True
    if kind == "JSSet":
        return JSSet([a, b]), True
    if kind == "error":
        return JSErrorData(message="m", cause=a), True
    if kind == "raw object":
        return Raw("object", [(a, 1), ("k", b)]), True
    if kind == "raw array":
        return Raw("array", [(a, 1), ("k", b)]), True
    if kind == "raw sparse":
        return Raw("sparse", [(a, 1), ("k", b)]), True
    return a, True


class Raw:
    """Properties written through the stream, with any keys."""

    def __init__(self, kind, items):
        self.kind = kind
        self.items = items


def raw_step(value, ctx, next):
    if not isinstance(value, Raw):
        return next(value)
    if value.kind == "object":
        ctx.stream.write_js_object(value.items, ctx, identity=value)
    elif value.kind == "array":
        ctx.stream.write_js_array_dense([5, JSHole], ctx, properties=value.items, identity=value)
    else:
        ctx.stream.write_js_array_sparse(value.items, ctx, length=60, identity=value)


RAW_STEPS = (default_encode_steps[0], raw_step) + tuple(default_encode_steps[1:])


def substitute(value, ctx, next):
    """Keys that cannot be written are replaced."""
    if ctx.stream.allowed_tags is None:
        return next(value)
    start = ctx.stream.pos
    try:
        next(value)
    except EncodeV8SerializeError:
        if ctx.stream.pos != start:
            raise           # partly written: too late
        next("replacement")


def order_ok(n):
    want = ["proto", "message", "stack", "cause"]
    i = -1
    for x in n.value:
        j = want.index(x)
        if j <= i:
            return False
        i = j
    return True


def check_written(S, g, steps=None, hole=False, features=None):
    """-> the tree V8 reads, or None when refused"""
    try:
        if steps is None:
            data = dumps(g, features=features)
        else:
            data = dumps(g, features=features, encode_steps=steps)
    except ValueError:
        S.reached("refused")
        return None
    S.reached("written")
    if hole:
        S.finding("C17-hole")
    try:
        p = v8.Parser(data)
        tree = p.whole()
    except v8.Bad as e:
        S.fail("malformed data: " + str(e))
        return None
    for n in p.objs:
        if n.kind == "error":
            S.check(order_ok(n), "order of an error's fields")
    return tree


def nested(S, containers=CONTAINERS, leaves=LEAVES, second=("int", "bytes", "hole", "object"), wrap=("top", "list", "key")):
    """Any leaf, in any container, anywhere."""
    kind = S.choice("container", list(containers))
    ka = S.choice("kind.a", list(leaves))
    kb = S.choice("kind.b", list(second))
    a = leaf_of(S, "a", ka)
    b = leaf_of(S, "b", kb, False) if kind not in ("top", "error") else 1
    g, out = container(S, kind, a, b)
    w = S.choice("wrap", list(wrap))
    if w == "list":
        g = [a, g, g] if kind == "list" else [g, a, g]
    elif w == "key":
        g = JSMap([(g, 1), (2, a)]) if hashable(g) else [{"k": g}, a]
        out = out or hashable(g)
    hole = (ka == "hole" and (out or w == "key")) or (kb == "hole" and kind not in ("top", "error") and out)
    raw = kind.startswith("raw")
    if raw and ka == "hole":
        hole = kb == "hole"          # a hole is refused as a key
    tree = check_written(S, g, RAW_STEPS, hole, SerializationFeature(S.choice("features", [0, 2])))
    if tree is None:
        return
    S.check(ka not in BAD and (kb not in BAD or kind in ("top", "error")), "a value with no JavaScript form is written")
    if raw:
        S.check(ka in ("int", "double", "str"), "an illegal key is written", ka)


ILLEGAL = ["bool", "none", "undefined", "hole", "bytes", "bytearray", "buffer", "view", "shared view", "shared object", "wrap str", "regexp", "pattern", "date", "error data", "exception",
           "list", "tuple", "dict", "JSObject", "JSArray", "sparse", "JSSet", "raw object", "host", "object"]


def substituted(S, kinds=ILLEGAL, after=("same", "list", "raw object", "view")):
    """A key that was refused, then replaced, leaves nothing behind."""
    outer = S.choice("outer", ["object", "array", "sparse"])
    ka = S.choice("kind.a", list(kinds))
    node = ka == "host"
    if ka in CONTAINERS:
        a = container(S, ka, 1, 2)[0]
    elif node:
        a = create_view(JSArrayBuffer(S.bytes("c.a", 2)), ArrayBufferViewTag.kInt16Array)
    else:
        a = leaf_of(S, "a", ka)
    x = S.int("x", 0, 300)
    shared = [x]
    then = S.choice("after", list(after))
    if then == "same":
        tail = a
    elif then == "list":
        tail = [True, None]
    elif then == "view":
        tail = create_view(JSArrayBuffer(b"abcd"), ArrayBufferViewTag.kInt32Array)
    else:
        tail = Raw("object", [(None, [True]), (x, JSUndefined)])
    inner = Raw(outer, [(a, shared), ("k", True), (x, tail)])
    steps = ((substitute, default_encode_steps[0], raw_step) + ((serialize_js_array_buffer_views_as_nodejs_host_object,) if node else ())
             + tuple(default_encode_steps[1:]))
    g = [shared, inner, shared, None, inner]
    try:
        data = dumps(g, encode_steps=steps)
    except ValueError:
        S.check(ka in ("view", "shared view") or then == "same" and ka in ("hole", "object", "wrap str", "regexp", "error data", "shared view", "shared object"), "a value is refused after an illegal key was replaced")
        return
    if then == "same" and ka == "hole":
        S.finding("C17-hole")
    S.reached("written")
    try:
        tree = v8.parse(data, v8.node_host)
    except v8.Bad as e:
        S.fail("malformed data: " + str(e))
        return
    o = tree.items[1]
    S.check(tree.items[2] is tree.items[0] and tree.items[4] is o, "a reference names another object")
    S.check(tree.items[0].items[0].v == x, "first value")
    S.check(o.props[0][0] == "replacement" and o.props[0][1] is tree.items[0], "replaced key and its value")
    S.check(o.props[1][0] == "k" and o.props[1][1] is True, "second property")
    S.check(o.props[2][0].v == x, "third property")
    if then == "raw object":
        S.check(o.props[2][1].props[0][0] == "replacement" and o.props[2][1].props[0][1].items[0] is True and o.props[2][1].props[1][1] is v8.UNDEFINED, "nested object")
    elif then == "view":
        S.check(o.props[2][1].kind == ("host" if node else "view") and (o.props[2][1] if node else o.props[2][1].buffer).value == b"abcd", "view")


def leak(S, kinds=ILLEGAL):
    """A refused key leaves the stream unconstrained."""
    ka = S.choice("kind.a", list(kinds))
    if ka in CONTAINERS:
        a = container(S, ka, 1, 2)[0]
    else:
        a = leaf_of(S, "a", "view" if ka == "host" else ka)
    kind = S.choice("outer", ["object", "array", "sparse"])
    where = S.choice("where", ["key", "value"])
    stream = WritableTagStream()
    ctx = DefaultEncodeContext(encode_steps=RAW_STEPS, stream=stream)
    refused = True
    try:
        ctx.encode_object(Raw(kind, [("k", 1), (a, 2)] if where == "key" else [("k", Unknown())]))
        refused = False
    except ValueError:
        pass
    S.check(refused, "an illegal key is written")
    S.check(stream.allowed_tags is None, "a constraint is left behind")
    start = len(stream.data)
    x = S.int("x", 1 << 60, 1 << 70)
    ctx.encode_object([None, True, {"a": x}])
    p = v8.Parser(bytes(stream.data[start:]))
    t = p.value()
    S.check(p.end() and t.items[0] is v8.NULL and t.items[1] is True and t.items[2].items[0][1].v == x, "the value after a refused key")


class Sized:
    """A collection whose length need not be the number of its elements."""

    def __init__(self, n, items):
        self.n, self.items = n, items

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter(self.items)

    def __contains__(self, x):
        return x in self.items


def sized(S, n, top):
    """Declared lengths are the actual ones even for odd collections."""
    m = S.choice("m", n + 1)
    claimed = S.int("claimed", 0, top)
    items = [S.int("x%d" % i, 0, 300) for i in range(m)]
    g = Sized(claimed, items)
    try:
        data = dumps([g, 1] if S.flag("inside") else g)
    except (ValueError, AssertionError):
        S.check(claimed != m, "an honest collection is refused")
        S.reached("refused")
        return
    S.reached("written")
    try:
        v8.parse(data)
    except v8.Bad as e:
        S.fail("malformed data: " + str(e))


def references(S, n):
    """References written by ID name objects that exist."""
    k = S.choice("n", n + 1)
    stream = WritableTagStream()
    ctx = DefaultEncodeContext(stream=stream)
    i = S.int("id", -5, n + 5)
    stream.write_header()
    by_obj = S.flag("by object")
    objs = [[j] for j in range(k)]
    other = []

    def step(value, ctx, next):
        if value == "ref":
            if by_obj:
                S.assume(i >= 0)
                t = objs[i] if i < k else other
                ctx.stream.write_object_reference(obj=t)
            else:
                ctx.stream.write_object_reference(serialized_id=i)
        else:
            next(value)
    ctx = DefaultEncodeContext(encode_steps=[step] + list(default_encode_steps), stream=stream)
    try:
        ctx.encode_object(Raw2(objs + ["ref"]))
    except (ValueError, KeyError, LookupError):
        S.reached("refused")
        S.check(i < 0 or i >= k + (0 if by_obj else 1), "a reference to a written object is refused")
        return
    S.reached("written")
    try:
        t = v8.parse(bytes(stream.data))
    except v8.Bad as e:
        S.fail("malformed data: " + str(e))
        return
    S.check(t.items[k] is (t.items[i] if by_obj else ([t] + t.items)[i]), "target of a reference")


def Raw2(items):
    return list(items)
