"""C33: the stream methods which encode steps, decode steps and host object handlers call."""
import datetime
import struct
from v8serialize import DecodeV8SerializeError
from v8serialize.constants import (JS_ARRAY_BUFFER_TAGS, JS_CONSTANT_TAGS, JS_OBJECT_KEY_TAGS, JS_PRIMITIVE_OBJECT_TAGS, JS_STRING_TAGS,
                                   JSErrorName, JSRegExpFlag, SerializationFeature, SerializationTag, TagConstraint)
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream
from v8serialize.encode import DefaultEncodeContext, EncodeV8SerializeError, WritableTagStream
from v8serialize.constants import ArrayBufferViewTag
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSError, JSErrorData, JSHole, JSMap, JSObject,
                                 JSPrimitiveObject, JSRegExp, JSSet, JSSharedArrayBuffer, JSUndefined, create_view)
from v8serialize._values import SharedArrayBufferId, TransferId
from v8serialize._references import SerializedId
from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId

T = SerializationTag
KINDS = ["double", "onebyte", "twobyte", "utf8", "bigint", "int32", "uint32", "varint", "zigzag", "constant"]
TAGS = {"double": T.kDouble, "onebyte": T.kOneByteString, "twobyte": T.kTwoByteString, "utf8": T.kUtf8String, "bigint": T.kBigInt,
        "int32": T.kInt32, "uint32": T.kUint32}
CONSTANTS = [T.kTheHole, T.kUndefined, T.kNull, T.kTrue, T.kFalse]


def value_for(S, kind, name, big):
    """A value and whether the method has to take it."""
    if kind == "double":
        if S.flag(name + ".int"):
            x = S.choice(name + ".whole", [0, -3, 2 ** 53, 2 ** 1024, -(2 ** 1024)])
            return x, -(2 ** 1023) < x < 2 ** 1023
        return S.double(name), True
    if kind in ("onebyte", "twobyte", "utf8"):
        s = S.str(name, S.choice(name + ".len", [0, 1]), surrogates=True)
        if kind == "onebyte":
            return s, S.all([ord(c) <= 0xFF for c in s])
        return s, S.all([S.any([ord(c) < 0xD800, ord(c) > 0xDFFF]) for c in s])
    if kind == "bigint":
        return S.int(name, -(2 ** big), 2 ** big), True
    if kind == "int32":
        x = S.int(name, -(2 ** 33), 2 ** 33)
        return x, S.all([x >= -(2 ** 31), x < 2 ** 31])
    if kind == "uint32":
        x = S.int(name, -(2 ** 33), 2 ** 33)
        return x, S.all([x >= 0, x < 2 ** 32])
    if kind == "varint":
        x = S.int(name, -2, 2 ** big)
        return x, x >= 0
    if kind == "zigzag":
        return S.int(name, -(2 ** big), 2 ** big), True
    return S.choice(name + ".constant", CONSTANTS + [T.kInt32, T.kVersion]), None


def write(st, kind, x, tagged):
    if kind == "varint":
        st.write_varint(x)
    elif kind == "zigzag":
        st.write_zigzag(x)
    elif kind == "constant":
        st.write_constant(x)
    elif kind in ("onebyte", "twobyte", "utf8"):
        f = getattr(st, "write_string_" + kind)
        if tagged:
            f(x)
        else:
            f(x, tag=None)
    else:
        f = getattr(st, "write_" + kind)
        if tagged:
            f(x)
        else:
            f(x, tag=None)


def read(rs, kind, tagged):
    if kind == "varint":
        return rs.read_varint()
    if kind == "zigzag":
        return rs.read_zigzag()
    if kind == "constant":
        return rs.read_tag(JS_CONSTANT_TAGS)
    f = getattr(rs, "read_string_" + kind if kind in ("onebyte", "twobyte", "utf8") else "read_" + kind)
    if tagged:
        return f(tag=True)
    return f()


def same(S, kind, a, x):
    if kind == "double":
        if type(a) is not float:
            return False
        if x != x:
            return a != a
        return struct.pack("<d", a) == struct.pack("<d", x)
    if kind == "constant":
        return a is x
    return S.all([type(a) is (str if kind in ("onebyte", "twobyte", "utf8") else int), a == x])


def sequence(S, n, kinds=KINDS, big=34):
    """What was written, in order, is what is read."""
    st = WritableTagStream()
    header = S.flag("header")
    if header:
        st.write_header()
    log = []
    for i in range(n):
        kind = S.choice("kind%d" % i, list(kinds))
        x, legal = value_for(S, kind, "x%d" % i, big)
        tagged = kind in TAGS and S.flag("tagged%d" % i)
        if kind == "constant":
            legal = x in CONSTANTS
        before = bytes(st.data)
        S.check(st.pos == len(before), "position while writing")
        try:
            write(st, kind, x, tagged)
        except (ValueError, OverflowError, struct.error, EncodeV8SerializeError):
            S.reached("refused")
            S.check(S.not_(legal), "a value that can be written is refused: " + kind)
            S.check(bytes(st.data) == before, "a refused value left bytes behind: " + kind)
            continue
        S.check(legal, "a value that cannot be written is accepted: " + kind)
        log.append((kind, x, tagged, st.pos))
    data = bytes(st.data)
    S.observe(data)
    rs = ReadableTagStream(data)
    if header:
        S.check(rs.read_header() == 15 and rs.version == 15, "version")
    for kind, x, tagged, end in log:
        S.reached("read")
        S.check(not rs.eof, "end of the data before the last value")
        if tagged or kind == "constant":
            at = rs.pos
            t = rs.peak_tag()
            S.check(t is (x if kind == "constant" else TAGS[kind]) or kind == "twobyte" and t is T.kPadding, "the next tag: " + kind)
            S.check(rs.pos == at, "looking at the next tag moved past it")
        S.check(same(S, kind, read(rs, kind, tagged), x), "a value reads back differently: " + kind)
        S.check(rs.pos == end, "reading ends elsewhere than writing did: " + kind)
    S.check(rs.eof and rs.pos == len(data), "end of the data")
    S.check(rs.peak_tag() is None, "a tag after the end")
    for f in (rs.read_tag, rs.read_varint, rs.read_double, rs.read_uint32):
        try:
            f()
            S.fail("read past the end")
        except DecodeV8SerializeError as e:
            S.check(e.position == len(data), "position of the error")
    try:
        rs.read_bytes(1)
        S.fail("bytes past the end")
    except DecodeV8SerializeError:
        pass
    S.check(len(rs.read_bytes(0)) == 0, "no bytes at the end")


# ---- what is expected is checked

BODY = b"\x10\x01\x02\x03\x04\x05\x06\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"

SINGLE = {
    "double": T.kDouble, "string_onebyte": T.kOneByteString, "string_twobyte": T.kTwoByteString, "string_utf8": T.kUtf8String, "bigint": T.kBigInt,
    "int32": T.kInt32, "uint32": T.kUint32, "js_date": T.kDate, "object_reference": T.kObjectReference, "v8_shared_object_reference": T.kSharedObject,
    "js_regexp": T.kRegExp, "js_error": T.kError, "jsmap": T.kBeginJSMap, "jsset": T.kBeginJSSet, "js_object": T.kBeginJSObject,
    "js_array_dense": T.kBeginDenseJSArray, "js_array_sparse": T.kBeginSparseJSArray, "js_array_buffer_view": T.kArrayBufferView, "host_object": T.kHostObject,
}
ROUND = {  # what follows the tag
    "js_regexp": b'"\x01a\x00', "js_error": b".", "jsmap": b":\x00", "jsset": b",\x00", "js_object": b"{\x00", "js_array_dense": b"\x00$\x00\x00",
    "js_array_sparse": b"\x00@\x00\x00", "js_array_buffer_view": b"B\x00\x01\x00", "host_object": b"\x07", "object_reference": b"\x00", "string_utf8": b"\x01a",
}
GROUPS = {"strings": JS_STRING_TAGS, "constants": JS_CONSTANT_TAGS, "keys": JS_OBJECT_KEY_TAGS, "primitives": JS_PRIMITIVE_OBJECT_TAGS, "buffers": JS_ARRAY_BUFFER_TAGS}
MEMBERS = {
    "strings": b"\"cS", "constants": b"_0TF-", "keys": b"\"cSNIU", "primitives": b"yxnzs", "buffers": b"Bu~t",
}
ALL_TAGS = sorted(int(t) for t in T)


def run_reader(S, rs, name, obj):
    f = getattr(rs, "read_" + name)
    ctx = DefaultDecodeContext(stream=rs)
    if name in ("jsmap", "jsset", "js_object", "js_array_dense"):
        return list(f(ctx, identity=obj, tag=True))
    if name == "js_array_sparse":
        return list(f(ctx, identity=obj, tag=True).items)
    if name in ("js_regexp", "js_error"):
        return f(ctx, tag=True)
    if name == "js_array_buffer_view":
        return f(JSArrayBuffer(b"xy"), array_buffer_view=create_view_from, tag=True)
    if name == "host_object":
        return f(take_byte, tag=True)
    if name == "js_date":
        return f(tz=datetime.timezone.utc, tag=True)
    return f(tag=True)


def create_view_from(buffer, format, byte_offset, byte_length):
    return create_view(buffer, format, byte_offset=byte_offset, byte_length=byte_length)


def take_byte(*, stream):
    return stream.read_bytes(1)[0]


def expect(S, names=sorted(SINGLE)):
    """A reader which is to check the tag does."""
    name = S.choice("reader", list(names))
    tag = SINGLE[name]
    pad = S.choice("pad", [0, 1, 3])
    b = S.choice("tag", ALL_TAGS + [1, 255]) if name in ("js_regexp", "js_error", "jsmap", "host_object") else S.int("tag", 0, 255)
    S.assume(b != 0)
    data = b"\x00" * pad + bytes([b]) + ROUND.get(name, BODY)
    rs = ReadableTagStream(data)
    rs.version = 15
    obj = ["identity"]
    if name == "object_reference":
        rs.objects.record_reference(obj)
    try:
        r = run_reader(S, rs, name, obj)
    except DecodeV8SerializeError as e:
        S.reached("refused")
        S.check(b != int(tag), "the tag that is expected is refused: " + name)
        S.check(e.position == pad, "position of the error: " + name)
        S.check(rs.pos == pad, "position after the error: " + name)
        after = rs.objects.record_reference(["next"])
        S.check(after == (1 if name == "object_reference" else 0), "a number for an object that was not read: " + name)
        return
    S.reached("accepted")
    S.check(b == int(tag), "another tag is accepted: " + name)
    S.check(rs.eof or name not in ROUND, "the whole of it is read: " + name)


def tags(S):
    """read_tag and peak_tag."""
    pad = S.choice("pad", [0, 1, 3])
    b = S.int("tag", 1, 255)
    data = b"\x00" * pad + bytes([b]) + b"\x07"
    rs = ReadableTagStream(data)
    known = S.any([b == t for t in ALL_TAGS])
    how = S.choice("how", ["any", "one", "group", "made"])
    consume = S.flag("consume")
    if how == "any":
        want, ok = None, known
    elif how == "one":
        want = S.choice("want", [T.kInt32, T.kDouble, T.kVersion, T.kArrayBufferView, T.kSharedObject])
        ok = b == int(want)
    elif how == "group":
        g = S.choice("group", sorted(GROUPS))
        want = GROUPS[g]
        ok = S.any([b == m for m in MEMBERS[g]])
    else:
        want = TagConstraint(name="made", allowed_tags=frozenset({T.kInt32, T.kNull}))
        ok = S.any([b == 0x49, b == 0x30])
    if S.flag("peak first"):
        t = rs.peak_tag()
        if pad:
            S.check(t is T.kPadding, "padding as the next tag")
        elif known:
            S.check(t is not None and int(t) == b, "the next tag")
        else:
            S.check(t is None, "an unknown byte as the next tag")
        S.check(rs.pos == 0, "looking at the next tag moved past it")
    try:
        got = rs.read_tag(want, consume=False) if not consume else rs.read_tag(want)
    except DecodeV8SerializeError as e:
        S.reached("refused")
        S.check(S.not_(ok), "an expected tag is refused")
        S.check(e.position == pad and rs.pos == pad, "position of the error")
        return
    S.reached("accepted")
    S.check(ok, "an unexpected tag is accepted")
    S.check(type(got) is SerializationTag and int(got) == b, "the tag read")
    S.check(rs.pos == pad + (1 if consume else 0), "position after the tag")
    if not consume:
        S.check(rs.read_tag() is got and rs.pos == pad + 1, "the tag read again")
    S.check(rs.read_bytes(1)[0] == 7 and rs.eof, "what follows the tag")


# ---- containers

def drain(g):
    out = []
    while True:
        try:
            out.append(next(g))
        except StopIteration as e:
            return out, e.value


def containers(S, n=2):
    """write_jsmap ... read_js_array_sparse, used directly."""
    kind = S.choice("kind", ["map", "set", "object", "dense", "dense props", "sparse"])
    count = S.choice("count", list(range(n + 1)))
    xs = [S.int("x%d" % i, 0, 127) for i in range(count)]
    tagged = S.flag("tagged")
    own = S.flag("identity") or kind == "dense props"
    mark = ["identity"]
    ctx = DefaultEncodeContext()
    st = ctx.stream
    first = [7]
    ctx.encode_object(first)
    at = st.pos
    identity = mark if own else None
    if kind == "map":
        items = [(x, "v%d" % i) for i, x in enumerate(xs)]
        st.write_jsmap(items, ctx, identity=identity) if own else st.write_jsmap(items, ctx)
    elif kind == "set":
        items = xs
        st.write_jsset(items, ctx, identity=identity) if own else st.write_jsset(items, ctx)
    elif kind == "object":
        items = [(("k%d" % i) if i % 2 else x, x) for i, x in enumerate(xs)]
        st.write_js_object(items, ctx, identity=identity) if own else st.write_js_object(items, ctx)
    elif kind == "dense":
        items = xs
        st.write_js_array_dense(items, ctx, identity=identity) if own else st.write_js_array_dense(items, ctx)
    elif kind == "dense props":
        items = xs
        props = [("p", x) for x in xs[:1]]
        try:
            st.write_js_array_dense(items, ctx, properties=props)
            S.fail("two candidates for the identity")
        except ValueError:
            S.check(st.pos == at, "a refused array left bytes behind")
        st.write_js_array_dense(items, ctx, properties=props, identity=identity)
    else:
        length = S.int("length", 0, 2 ** 33)
        items = [(i, x) for i, x in enumerate(xs)]
        try:
            st.write_js_array_sparse(items, ctx, length=length, identity=identity) if own else st.write_js_array_sparse(items, ctx, length=length)
        except ValueError:
            S.reached("refused")
            S.check(length > 2 ** 32 - 1, "an array length is refused")
            S.check(st.pos == at, "a refused array left bytes behind")
            return
        S.check(length <= 2 ** 32 - 1, "no array length")
    end = st.pos
    st.write_object_reference(obj=mark if own else items)
    st.write_object_reference(serialized_id=SerializedId(1))
    ctx.encode_object(first)
    data = bytes(st.data)
    S.observe(data)
    rs = ReadableTagStream(data)
    dctx = DefaultDecodeContext(stream=rs)
    back = dctx.decode_object()
    S.check(rs.pos == at, "position before")
    new = ["new"]
    if not tagged:
        rs.read_tag()
    if kind == "map":
        got, total = drain(rs.read_jsmap(dctx, identity=new, tag=tagged))
        S.check(got == items and total == 2 * count, "entries of a map")
    elif kind == "set":
        got, total = drain(rs.read_jsset(dctx, identity=new, tag=tagged))
        S.check(got == items and total == count, "values of a set")
    elif kind == "object":
        got, total = drain(rs.read_js_object(dctx, identity=new, tag=tagged))
        S.check(got == items and total == count, "properties of an object")
    elif kind in ("dense", "dense props"):
        got, total = drain(rs.read_js_array_dense(dctx, identity=new, tag=tagged))
        extra = props if kind == "dense props" else []
        S.check(got == [(i, x) for i, x in enumerate(xs)] + extra, "items of a dense array")
        S.check(total == (count, len(extra)), "counts of a dense array")
    else:
        r = rs.read_js_array_sparse(dctx, identity=new, tag=tagged)
        S.check(r.length == length, "length of a sparse array")
        got, total = drain(r.items)
        S.check(got == items and total == count, "items of a sparse array")
    S.check(rs.pos == end, "position after")
    S.reached("read")
    i, o = rs.read_object_reference(tag=True)
    S.check(i == 1 and o is new, "a reference to it")
    rs.read_tag()
    i, o = rs.read_object_reference()
    S.check(i == 1 and o is new, "a reference by number")
    i, o = rs.read_object_reference(tag=True)
    S.check(i == 0 and o is back, "a reference to what was before")
    S.check(rs.eof, "end of the data")
    for bad in (dict(obj=["other"]), dict(serialized_id=SerializedId(2)), dict(serialized_id=SerializedId(-1))):
        try:
            st.write_object_reference(**bad)
            S.fail("a reference to no object")
        except Exception as e:
            S.check(st.pos == len(data), "a refused reference left bytes behind")


# ---- objects

OBJECTS = ["number object", "bigint object", "string object", "bool object", "regexp", "date", "error", "buffer", "resizable", "shared", "transfer", "view",
           "host fn", "host obj", "shared object"]


class Handler:
    def serialize_host_object(self, *, stream, value):
        stream.write_uint32(value[0], tag=None)

    def deserialize_host_object(self, *, stream):
        return [stream.read_uint32()]


def put(*, stream, value):
    stream.write_zigzag(value[0])


def take(*, stream):
    return [stream.read_zigzag()]


def objects(S, kinds=OBJECTS):
    """The methods for objects, used directly."""
    kind = S.choice("kind", list(kinds))
    own = S.flag("identity") if not kind.startswith("host") else False
    tagged = S.flag("tagged")
    x = S.int("x", 0, 300)
    mark = ["identity"]
    kw = dict(identity=mark) if own else {}
    ctx = DefaultEncodeContext(stream=WritableTagStream(features=SerializationFeature(15)))
    st = ctx.stream
    b = None
    if kind == "number object":
        v = JSPrimitiveObject(S.double("d"))
    elif kind == "bigint object":
        v = JSPrimitiveObject(x, tag=T.kBigIntObject)
    elif kind == "string object":
        v = JSPrimitiveObject(S.str("s", 1))
    elif kind == "bool object":
        v = JSPrimitiveObject(S.flag("b"))
    elif kind == "regexp":
        v = JSRegExp(S.str("s", 1, 0x61, 0x17F), JSRegExpFlag(S.choice("flags", [0, 1, 3, 36])))
    elif kind == "date":
        v = datetime.datetime.fromtimestamp(0, datetime.timezone.utc) + datetime.timedelta(milliseconds=S.int("ms", -5, 2000))
    elif kind == "error":
        v = JSErrorData(name=S.choice("name", [JSErrorName.Error, JSErrorName.TypeError]), message=S.str("s", 1), stack=S.choice("stack", [None, "at"]), cause=S.choice("cause", [None, 5]))
    elif kind == "buffer":
        v = JSArrayBuffer(S.bytes("data", 2))
    elif kind == "resizable":
        v = JSArrayBuffer(S.bytes("data", 2), max_byte_length=5)
    elif kind == "shared":
        v = JSSharedArrayBuffer(SharedArrayBufferId(x))
    elif kind == "transfer":
        v = JSArrayBufferTransfer(TransferId(x))
    elif kind == "view":
        b = JSArrayBuffer(S.bytes("data", 4))
        v = create_view(b, ArrayBufferViewTag.kUint16Array, byte_offset=S.choice("offset", [0, 2]))
    elif kind == "shared object":
        v = V8SharedObjectReference(V8SharedValueId(x))
    else:
        v = [x - 100] if kind == "host fn" else [x]
    if kind.endswith(" object") and kind != "shared object":
        st.write_js_primitive_object(v, **kw)
    elif kind == "regexp":
        st.write_js_regexp(v, **kw)
    elif kind == "date":
        st.write_js_date(v, **kw)
    elif kind == "error":
        st.write_js_error(v, ctx, **kw)
    elif kind in ("buffer", "resizable", "shared", "transfer"):
        st.write_js_array_buffer(v, **kw)
    elif kind == "view":
        st.write_js_array_buffer_view(v, **kw)
    elif kind == "shared object":
        st.write_v8_shared_object_reference(v, **kw)
    else:
        st.write_host_object(v, serializer=put if kind == "host fn" else Handler())
    end = st.pos
    st.write_object_reference(obj=mark if own else v)
    data = bytes(st.data)
    S.observe(data)
    rs = ReadableTagStream(data)
    rs.version = 15
    dctx = DefaultDecodeContext(stream=rs)
    tag = None
    if not tagged:
        tag = rs.read_tag()
    rid = 0
    if kind.endswith(" object") and kind != "shared object":
        if not tagged:
            try:
                rs.read_js_primitive_object(T.kInt32)
                S.fail("a tag of no wrapper")
            except ValueError:
                pass
        rid, got = rs.read_js_primitive_object(tag)
        S.check(type(got) is JSPrimitiveObject and got.tag is v.tag and type(got.value) is type(v.value), "kind of wrapper")
        S.check(S.any([got.value == v.value, S.all([v.value != v.value, got.value != got.value])]), "wrapped value")
    elif kind == "regexp":
        rid, got = rs.read_js_regexp(dctx, tag=tagged)
        S.check(type(got) is JSRegExp and got.source == v.source and got.flags == v.flags, "regexp")
    elif kind == "date":
        rid, got = rs.read_js_date(tz=datetime.timezone.utc, tag=tagged)
        S.check(got == v, "date")
    elif kind == "error":
        if S.flag("builder"):
            made = []

            def build(data):
                made.append(data)
                return mark, data
            rid, got = rs.read_js_error(dctx, error=build, tag=tagged)
            S.check(got is mark and len(made) == 1, "the object of the builder")
            fields = made[0]
        else:
            rid, got = rs.read_js_error(dctx, tag=tagged)
            fields = got
        S.check(type(fields) is JSErrorData, "kind of error data")
        S.check(fields.name == v.name and fields.message == v.message and fields.stack == v.stack and fields.cause == v.cause, "fields of an error")
    elif kind in ("buffer", "resizable", "shared", "transfer"):
        if not tagged:
            try:
                rs.read_js_array_buffer(array_buffer=None, shared_array_buffer=None, array_buffer_transfer=None, tag=T.kInt32)
                S.fail("a tag of no buffer")
            except ValueError:
                pass
        got = rs.read_js_array_buffer(array_buffer=JSArrayBuffer, shared_array_buffer=JSSharedArrayBuffer, array_buffer_transfer=JSArrayBufferTransfer, tag=tag)
        S.check(type(got) is type(v), "kind of buffer")
        if kind in ("buffer", "resizable"):
            S.check(bytes(got.data) == bytes(v.data) and got.resizable == v.resizable and got.max_byte_length == v.max_byte_length, "buffer")
        elif kind == "shared":
            S.check(got.buffer_id == x, "buffer ID")
        else:
            S.check(got.transfer_id == x, "transfer ID")
    elif kind == "view":
        got = rs.read_js_array_buffer_view(b, array_buffer_view=create_view_from, tag=tagged)
        S.check(type(got) is type(v) and got.backing_buffer is b and got.byte_offset == v.byte_offset and got.byte_length == v.byte_length, "view")
    elif kind == "shared object":
        rid, got = rs.read_v8_shared_object_reference(tag=tagged)
        S.check(got.shared_value_id == x, "shared value ID")
    else:
        got = rs.read_host_object(take if kind == "host fn" else Handler(), tag=tagged)
        S.check(type(got) is list and got[0] == v[0], "host object")
    S.reached("read")
    S.check(rid == 0, "ID of the object read")
    S.check(rs.pos == end, "position after: " + kind)
    i, o = rs.read_object_reference(tag=True)
    S.check(i == 0 and o is got, "a reference to it: " + kind)
    S.check(rs.eof, "end of the data")


# ---- constrained tags

def constrained(S):
    """Within constrain_tags only the allowed tags can be written."""
    ctx = DefaultEncodeContext()
    st = ctx.stream
    kind = S.choice("kind", ["int", "text", "list", "null", "big", "float", "map"])
    v = {"int": 5, "text": "a", "list": [], "null": None, "big": 2 ** 70, "float": 1.5, "map": {}}[kind]
    which = S.choice("group", ["keys", "strings", "constants"])
    ok = {"keys": kind in ("int", "text", "float", "big"), "strings": kind == "text", "constants": kind == "null"}[which]
    group = {"keys": JS_OBJECT_KEY_TAGS, "strings": JS_STRING_TAGS, "constants": JS_CONSTANT_TAGS}[which]
    before = st.allowed_tags
    try:
        with st.constrain_tags(group):
            S.check(st.allowed_tags is group, "the constraint in force")
            ctx.encode_object(v)
    except EncodeV8SerializeError:
        S.reached("refused")
        S.check(not ok, "an allowed tag is refused")
        S.check(st.pos == 0, "a refused value left bytes behind")
    else:
        S.reached("written")
        S.check(ok, "a tag that is not allowed is written")
    S.check(st.allowed_tags is before, "the constraint is still in force")
    ctx.encode_object([v])
    S.check(st.pos > 0, "written without a constraint")
