from v8serialize import DecodeV8SerializeError, dumps, loads
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSDataView, JSHole, JSMap, JSObject,
                                 JSPrimitiveObject, JSRegExp, JSSet, JSSharedArrayBuffer, JSUint8Array, JSUint16Array,
                                 JSUndefined, JSErrorData)
from v8serialize.constants import JSRegExpFlag, SerializationFeature
from hx import v8


def rejected(d):
    try:
        loads(d)
    except DecodeV8SerializeError:
        return True
    return False


def decode(d):
    """-> position after the value, or None when rejected."""
    rs = ReadableTagStream(d)
    ctx = DefaultDecodeContext(stream=rs, decode_steps=[TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())])
    try:
        rs.read_header()
        ctx.decode_object()
    except DecodeV8SerializeError:
        return None
    return rs.pos


BUFFER_TAGS = (66, 126, 116, 117)


def buffer_before_view(S, d):
    """Position where a top-level buffer ends and its view starts, or None."""
    i = 2
    while i < len(d) and d[i] == 0:
        i = i + 1
    if i >= len(d):
        return None
    if S.any([d[i] == t for t in BUFFER_TAGS]):
        p = v8.Parser(d)
        p.pos = i
        p.value1()
        return p.pos
    return None


def any_cut(S, n, tags):
    """Whatever decodes using all of its bytes cannot be cut."""
    first = S.choice("tag", tags)
    d = b"\xff\x0f" + bytes([first]) + S.bytes("d", n)
    pos = decode(d)
    S.assume(pos is not None)
    S.assume(pos == len(d))
    S.reached("whole")
    skip = buffer_before_view(S, d)
    for k in range(len(d)):
        if k != skip:
            S.check(rejected(d[:k]), "a strict prefix decodes")


def catalogue(S, kind, x, y):
    if kind == "int":
        return x
    if kind == "double":
        return 1.5
    if kind == "str":
        return "ab\u1234"
    if kind == "bool":
        return True
    if kind == "bigint":
        return x + (1 << 70)
    if kind == "list":
        return [x, y]
    if kind == "holes":
        return JSArray([x, JSHole, y])
    if kind == "sparse":
        return JSArray({40: x, "k": y})
    if kind == "named":
        a = JSArray([x])
        a["k"] = y
        return a
    if kind == "object":
        return JSObject([(x, y), ("k", x)])
    if kind == "map":
        return JSMap([(x, y), ("k", 1)])
    if kind == "set":
        return JSSet([x, "s"])
    if kind == "wrapper n":
        return JSPrimitiveObject(2.5)
    if kind == "wrapper s":
        return JSPrimitiveObject("xyz")
    if kind == "wrapper z":
        return JSPrimitiveObject(x + (1 << 70))
    if kind == "regexp":
        return JSRegExp("abc", JSRegExpFlag(3))
    if kind == "error":
        return JSErrorData(name="TypeError", message="m", stack="st", cause=x)
    if kind == "cause":
        return JSErrorData(cause=JSErrorData(message="m"))
    if kind == "buffer":
        return JSArrayBuffer(b"abcd")
    if kind == "resizable":
        return JSArrayBuffer(b"abcd", max_byte_length=8, resizable=True)
    if kind == "shared":
        return JSSharedArrayBuffer(300)
    if kind == "transfer":
        return JSArrayBufferTransfer(300)
    if kind == "view":
        return [JSUint16Array(JSArrayBuffer(b"abcdefgh"), item_offset=1, item_length=2)]
    if kind == "dataview":
        return [JSDataView(JSArrayBuffer(b"abcd"))]
    if kind == "ref":
        o = JSObject(k=x)
        return [o, o]
    if kind == "nested":
        return [[x], {"k": [y]}, JSObject(k=JSMap([(y, [])]))]
    raise AssertionError(kind)


ALL = ["int", "double", "str", "bool", "bigint", "list", "holes", "sparse", "named", "object", "map", "set", "wrapper n",
       "wrapper s", "wrapper z", "regexp", "error", "cause", "buffer", "resizable", "shared", "transfer", "view", "dataview",
       "ref", "nested"]


def written_cut(S, hi):
    """Everything dumps() writes, cut at every position."""
    kind = S.choice("kind", ALL)
    x = S.int("x", 0, hi)
    y = S.int("y", -hi, hi)
    d = dumps(catalogue(S, kind, x, y), features=SerializationFeature.ResizableArrayBuffers)
    S.check(decode(d) == len(d), "own output does not use all of its bytes: " + kind)
    k = S.choice("cut", len(d))
    S.check(rejected(d[:k]), "truncated data accepted: " + kind)


def vi(a, b):
    """A two-byte varint of symbolic bytes."""
    return bytes([a | 0x80, b])


FORMS = ["object", "map", "set", "dense", "dense props", "sparse", "sparse len", "sparse big"]


def counts(S, n):
    """Trailing counts must agree with the contents."""
    form = S.choice("form", FORMS)
    m = S.choice("m", n)
    a = S.int("a", 0, 127)
    b = S.int("b", 0, 127)
    c = a + 128 * b
    cnt = vi(a, b)
    body = b""
    for i in range(m):
        if form == "map":
            body = body + b"I" + bytes([2 * i]) + b"T"
        elif form in ("set", "dense"):
            body = body + b"I" + bytes([2 * i])
        elif form.startswith("sparse"):
            body = body + b"I" + bytes([2 * i]) + b"T"
        else:
            body = body + b"S\x01" + bytes([97 + i]) + b"T"
    if form == "object":
        d, want = b"o" + body + b"{" + cnt, m
    elif form == "map":
        d, want = b";" + body + b":" + cnt, 2 * m
    elif form == "set":
        d, want = b"'" + body + b"," + cnt, m
    elif form == "dense":
        d, want = b"A" + bytes([m]) + body + b"$\x00" + cnt, m
    elif form == "dense props":
        d, want = b"A\x00" + body + b"$" + cnt + b"\x00", m
    elif form == "sparse":
        d, want = b"a" + bytes([n]) + body + b"@" + cnt + bytes([n]), m
    elif form == "sparse len":
        d, want = b"a" + bytes([n]) + body + b"@" + bytes([m]) + cnt, n
    else:
        d, want = b"a" + bytes([0x80 | n, 1]) + body + b"@" + bytes([m]) + cnt, 128 + n
    ok = not rejected(b"\xff\x0f" + d)
    S.reached("accepted" if ok else "rejected")
    S.check((c == want) if ok else S.not_(c == want), "declared count against contents: " + form)


LENS = ["onebyte", "twobyte", "utf8", "bigint", "buffer", "resizable", "dense", "wrapper s", "host", "regexp"]


def lengths(S, n):
    """Declared lengths beyond the data are rejected."""
    form = S.choice("form", LENS)
    m = S.choice("m", n)
    a = S.int("a", 0, 127)
    b = S.int("b", 0, 127)
    c = a + 128 * b
    ln = vi(a, b)
    body = b"x" * m
    if form == "onebyte":
        d, need = b'"' + ln + body, c
    elif form == "twobyte":
        d, need = b"c" + ln + body, c
    elif form == "utf8":
        d, need = b"S" + ln + body, c
    elif form == "bigint":
        d, need = b"Z" + ln + body, c >> 1
    elif form == "buffer":
        d, need = b"B" + ln + body, c
    elif form == "resizable":
        d, need = b"~" + ln + b"\xff\x7f" + body, c
    elif form == "dense":
        d, need = b"A" + ln + b"T" * m, c + 1
    elif form == "wrapper s":
        d, need = b's"' + ln + body, c
    elif form == "regexp":
        d, need = b'R"' + ln + body, c + 1
    else:
        d, need = b"\\\x01" + ln + body, c
    ok = not rejected(b"\xff\x0f" + d)
    if ok:
        S.reached("accepted " + form)
        S.check(need <= m, "length beyond the data accepted: " + form)
    else:
        S.reached("rejected")
