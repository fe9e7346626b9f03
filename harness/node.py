"""Node.js's host objects for buffers (C21)."""
from v8serialize import DecodeV8SerializeError, Decoder, default_encode_steps, dumps, loads
from v8serialize.constants import ArrayBufferViewTag, SerializationFeature
from v8serialize.decode import ReadableTagStream, TagReader
from v8serialize.encode import WritableTagStream
from v8serialize.extensions import (NodeBufferFormat, NodeJsArrayBufferViewHostObjectHandler,
                                    serialize_js_array_buffer_views_as_nodejs_host_object)
from v8serialize.jstypes import JSArray, JSArrayBuffer, JSObject, create_view
from hx import v8
from hx.buffers import VIEWS, TAGS, cls, contents, make_buffer

# lib/v8.js: position -> view type
NODE = ["b", "B", "C", "w", "W", "d", "D", "f", "F", "?", "B", "q", "Q"]
WRITE = {"b": 0, "B": 1, "C": 2, "w": 3, "W": 4, "d": 5, "D": 6, "f": 7, "F": 8, "?": 9, "q": 11, "Q": 12}
STEPS = (default_encode_steps[0], serialize_js_array_buffer_views_as_nodejs_host_object) + tuple(default_encode_steps[1:])


def varint(n):
    out = []
    while True:
        if n < 128:
            return bytes(out + [n])
        out.append(128 | (n & 127))
        n = n >> 7


def decode(S, data, how):
    if how == "default":
        return loads(data)
    if how == "nodejs":
        return loads(data, nodejs=True)
    if how == "handler":
        return loads(data, host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())
    if how == "function":
        return loads(data, nodejs=False, host_object_deserializer=lambda *, stream: NodeJsArrayBufferViewHostObjectHandler().deserialize_host_object(stream=stream))
    return Decoder(decode_steps=[TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())]).decodes(data)


HOWS = ["default", "nodejs", "handler", "function", "steps"]


def read(S, ns, codes=list(range(13)), hows=HOWS):
    """A host object between other values."""
    how = S.choice("how", list(hows))
    t = S.choice("code", codes)
    n = S.choice("n", ns)
    d = S.bytes("c", n)
    x = S.int("x", 0, 127)
    ref = S.choice("ref", [1, 2])
    data = b"\xff\x0fA\x04U" + bytes([x]) + b"\\" + varint(t) + varint(n) + d + b"o{\x00^" + bytes([ref]) + b"$\x00\x04"
    ok = t < 13
    try:
        back = decode(S, data, how)
    except DecodeV8SerializeError as e:
        S.reached("rejected")
        S.check(not ok, "a host object of Node.js is rejected")
        S.check(e.position >= 0 and e.position <= len(data), "position of the error")
        return
    S.reached("read")
    S.check(ok, "a malformed host object is accepted")
    v = back[1]
    S.check(type(v) is cls(NODE[t]), "view type")
    whole = n // VIEWS[NODE[t]][1] * VIEWS[NODE[t]][1]     # as Node.js: a partial last element is not seen
    S.check(v.byte_offset == 0 and v.byte_length == whole and contents(v) == d[:whole], "bytes of the view")
    S.check(bytes(v.backing_buffer.data) == d, "the buffer is exactly the view's bytes")
    S.check(not v.is_length_tracking or not v.is_backing_buffer_resizable, "a host object's buffer is resizable")
    S.check(back[0] == x and type(back[2]) is JSObject and len(back[2]) == 0 and back[3] is (v if ref == 1 else back[2]), "surrounding values")


def lengths(S, n, hi):
    """The declared type and length against the data there is."""
    t = S.int("code", 0, 300)
    ln = S.int("len", 0, hi)
    d = S.bytes("c", n)
    S.assume(ln < 128)
    data = b"\xff\x0f\\" + (bytes([t]) if t < 128 else bytes([128 | (t & 127), t >> 7])) + bytes([ln]) + d
    try:
        v = loads(data)
    except DecodeV8SerializeError:
        S.reached("rejected")
        S.check(t >= 13 or ln > n, "a host object of Node.js is rejected")
        return
    S.reached("read")
    S.check(t < 13 and ln <= n, "a malformed host object is accepted")
    t = small(t)
    S.check(type(v) is cls(NODE[t]), "type of the view")
    whole = ln // VIEWS[NODE[t]][1] * VIEWS[NODE[t]][1]
    S.check(v.byte_length == whole and contents(v) == d[:whole], "bytes of the view")


def small(t):
    for i in range(13):
        if t == i:
            return i
    return 13


def huge(S):
    """Lengths far beyond the data."""
    t = S.choice("code", list(range(13)))
    ln = S.int("len", 8, (1 << 35) - 1)
    data = b"\xff\x0f\\" + bytes([t]) + bytes([128 | (ln & 127), 128 | ((ln >> 7) & 127), 128 | ((ln >> 14) & 127), 128 | ((ln >> 21) & 127), (ln >> 28) & 127]) + b"abcdefg"
    try:
        loads(data)
        S.fail("a length beyond the data is accepted")
    except DecodeV8SerializeError:
        pass


def cut(S, n):
    """Every truncation is rejected."""
    t = S.choice("code", list(range(13)))
    d = S.bytes("c", n)
    data = b"\xff\x0fA\x01\\" + bytes([t, n]) + d + b"$\x00\x01"
    S.check(len(loads(data)) == 1, "a whole message is rejected")
    k = S.choice("k", list(range(2, len(data))))
    try:
        loads(data[:k])
        S.fail("a truncated message is accepted")
    except DecodeV8SerializeError:
        pass


def off(S):
    """Without Node.js's handler, host objects are an unhandled tag."""
    t = S.choice("code", list(range(13)))
    data = b"\xff\x0f\\" + bytes([t, 8]) + S.bytes("c", 8)
    how = S.choice("how", ["nodejs", "steps"])
    try:
        if how == "nodejs":
            loads(data, nodejs=False)
        else:
            loads(data, decode_steps=[TagReader()])
        S.fail("a host object is read without a handler")
    except DecodeV8SerializeError:
        pass
    try:
        loads(data, nodejs=True, host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())
        S.fail("conflicting options are accepted")
    except TypeError:
        pass


def write(S, n, tags=TAGS, kinds=("fixed", "rab", "bytes", "bytearray", "memoryview"), wrap=("top", "list"), hows=("default", "nodejs")):
    """What is written is what Node.js and loads() read."""
    tag = S.choice("tag", tags)
    size = VIEWS[tag][1]
    kind = S.choice("kind", list(kinds))
    b, d = make_buffer(S, kind, n)
    o = S.int("off%d" % size, 0, n // size)
    k = S.int("items%d" % size, 0, n // size)
    S.assume((o + k) * size <= n)
    given = S.flag("given") or n % size != 0 and kind not in ("rab", "bytearray")
    if not given:
        S.assume(k == 0)
    v = create_view(b, ArrayBufferViewTag(ord(tag)), byte_offset=o * size, byte_length=k * size if given else None)
    o = o * size
    length = k * size if given else (n - o) // size * size
    pos = S.choice("pos", list(wrap))
    other = [5]
    g = v if pos == "top" else [other, v, v, other, v]
    data = dumps(g, encode_steps=STEPS, features=SerializationFeature.Float16Array)
    tree = v8.parse(data, v8.node_host)
    back = decode(S, data, S.choice("how", list(hows)))
    if pos == "list":
        S.check(tree.items[1] is tree.items[2] and tree.items[4] is tree.items[1] and back[1] is back[2] and back[4] is back[1], "sharing")
        S.check(tree.items[0] is tree.items[3] and back[0] is back[3] and back[0][0] == 5, "surrounding values")
        tree, back = tree.items[1], back[1]
    if tag == "h":
        S.check(tree.kind == "view" and tree.info[0] == ord("h"), "a view Node.js has no host object for")
        S.reached("other")
        return
    S.reached("written")
    S.check(tree.kind == "host" and tree.info == WRITE[tag], "type written")
    S.check(tree.value == d[o:o + length], "bytes written")
    S.check(type(back) is cls(tag), "type read back")
    S.check(back.byte_offset == 0 and back.byte_length == length and contents(back) == d[o:o + length], "bytes read back")
    S.check(bytes(back.backing_buffer.data) == d[o:o + length], "the buffer is exactly the view's bytes")


def resized(S, n, top):
    """A view of a buffer that was resized is written as it now is."""
    tag = S.choice("tag", ["B", "W", "d", "F", "?"])
    size = VIEWS[tag][1]
    b, d = make_buffer(S, "rab", n)
    given = S.flag("given")
    v = create_view(b, ArrayBufferViewTag(ord(tag)), byte_offset=size, byte_length=size if given else None)
    m = S.choice("m", list(range(top + 1)))
    b.resize(m)
    now = (d + bytes(top))[:m]
    if given:
        want = now[size:2 * size] if m >= 2 * size else b""
    else:
        want = now[size:size + (m - size) // size * size] if m >= size else b""
    data = dumps([v, b], encode_steps=STEPS)
    tree = v8.parse(data, v8.node_host)
    S.check(tree.items[0].kind == "host" and tree.items[0].info == WRITE[tag] and tree.items[0].value == want, "bytes written")
    S.check(tree.items[1].kind in ("buffer", "resizable") and tree.items[1].value == now, "the buffer itself")
    back = loads(data)
    S.check(type(back[0]) is cls(tag) and contents(back[0]) == want, "bytes read back")


def streams(S, n, pre):
    """The handler alone: it reads exactly its own bytes."""
    t = S.choice("code", list(range(13)))
    p = S.choice("pre", pre + 1)
    d = S.bytes("c", n)
    after = S.bytes("after", 2)
    stream = ReadableTagStream(bytes(p) + bytes([t, n]) + d + after)
    stream.pos = p
    h = NodeJsArrayBufferViewHostObjectHandler()
    v = h.deserialize_host_object(stream=stream)
    S.check(stream.pos == p + 2 + n and type(v) is cls(NODE[t]) and contents(v) == d, "read from a stream")
    w = WritableTagStream()
    h.serialize_host_object(stream=w, value=v)
    S.check(bytes(w.data) == bytes([1 if t == 10 else t, n]) + d, "written to a stream")
    S.check(len(w.objects) == 0 if hasattr(w.objects, "__len__") else True, "a handler records objects")


def table(S):
    """Node's numbers."""
    t = S.choice("code", list(range(13)))
    f = NodeBufferFormat(t)
    S.check(f.nodejs_code == t and f.view_format.view_tag == ord(NODE[t]), "format of a number")
    tag = S.choice("tag", TAGS)
    vt = ArrayBufferViewTag(ord(tag))
    S.check(NodeBufferFormat.supports(vt) == (tag in WRITE), "supported view types")
    if tag in WRITE:
        S.check(NodeBufferFormat(vt).nodejs_code == WRITE[tag], "number of a view type")
    S.check(NodeBufferFormat(t) is f, "format of a number, asked again")
    bad = S.int("bad", 13, 1 << 32)
    try:
        NodeBufferFormat(bad)
        S.fail("an unknown number has a format")
    except ValueError:
        pass
