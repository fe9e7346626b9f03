"""Array buffers and views through dumps, V8's reader and loads (C15), and from any input type (C26)."""
import array
from v8serialize import DecodeV8SerializeError, Decoder, TagReader, dumps, loads
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler
from v8serialize.constants import ArrayBufferViewTag, SerializationFeature
from v8serialize import UnhandledValueEncodeV8SerializeError
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSMap, JSObject, JSPrimitiveObject,
                                 JSSharedArrayBuffer, create_view)
from hx import v8
from hx.buffers import TAGS, VIEWS, cls, contents

RAB = SerializationFeature.ResizableArrayBuffers
F16 = SerializationFeature.Float16Array
ALL = SerializationFeature(15)
NONE = SerializationFeature(0)
FEATURES = {"all": ALL, "none": NONE, "rab": RAB, "not rab": ALL & ~RAB}
KINDS = ["fixed", "readonly", "rab", "shared", "transfer", "bytes", "bytearray", "memoryview"]
U32 = 1 << 32


def make(S, kind, n, name="c", top=None):
    """-> (value, contents or None, max or None)"""
    d = S.bytes(name, n)
    if kind == "fixed":
        return JSArrayBuffer(d), d, None
    if kind == "readonly":
        return JSArrayBuffer(d, readonly=True), d, None
    if kind == "rab":
        top = S.int("max%d.%s" % (n, name), n, U32 + 3) if top is None else top
        return JSArrayBuffer(d, max_byte_length=top), d, top
    if kind == "shared":
        i = S.int("id." + name, 0, U32 + 3)
        return JSSharedArrayBuffer(i), None, i
    if kind == "transfer":
        i = S.int("id." + name, 0, U32 + 3)
        return JSArrayBufferTransfer(i), None, i
    if kind == "bytes":
        return d, d, None
    if kind == "bytearray":
        return bytearray(d), d, None
    return memoryview(bytearray(d)), d, None


def check_node(S, node, kind, d, top, f):
    """The buffer as V8 reads it."""
    want = {"rab": "resizable" if RAB in f else "buffer", "shared": "shared", "transfer": "transfer"}.get(kind, "buffer")
    S.check(node.kind == want, "kind of the buffer written")
    if d is not None:
        S.check(node.value == d, "bytes written")
    if want in ("resizable", "shared", "transfer"):
        S.check(node.info == top, "maximum length or ID written")


def check_buffer(S, b, kind, d, top, f):
    """The buffer read back."""
    if kind == "shared":
        S.check(type(b) is JSSharedArrayBuffer and b.buffer_id == top, "shared buffer")
    elif kind == "transfer":
        S.check(type(b) is JSArrayBufferTransfer and b.transfer_id == top, "transferred buffer")
    else:
        S.check(type(b) is JSArrayBuffer, "class of the buffer read back")
        S.check(bytes(b.data) == d, "bytes read back")
        grows = kind == "rab" and RAB in f
        S.check(b.resizable is grows, "resizable")
        S.check(b.max_byte_length == (top if grows else len(d)), "max_byte_length")


def buffer(S, ns, kinds=KINDS, wrap=("top", "list", "map", "object")):
    """One buffer anywhere."""
    kind = S.choice("kind", list(kinds))
    f = FEATURES[S.choice("features", list(FEATURES))]
    n = 0 if kind in ("shared", "transfer") else S.choice("n", ns)
    v, d, top = make(S, kind, n)
    pos = S.choice("pos", list(wrap))
    x = S.int("x", 0, 40)
    g = {"top": v, "list": [x, v, v, x], "map": {"a": v, "b": v}, "object": JSObject(a=v, b=v)}[pos]
    try:
        data = encode(g, f)
    except ValueError:
        S.reached("refused")
        S.check(top is not None and top >= U32 and (kind != "rab" or RAB in f), "a buffer is refused")
        return
    if top is not None and (kind != "rab" or RAB in f):
        S.check(top < U32, "a maximum length or ID beyond 32 bits is written")
    node = v8.parse(data)
    back = loads(data)
    if pos == "top":
        nodes, backs = [node], [back]
    elif pos == "list":
        S.check(node.items[0].v == x and node.items[3].v == x and back[0] == x and back[3] == x, "surrounding values")
        nodes, backs = node.items[1:3], [back[1], back[2]]
    elif pos == "map":
        nodes, backs = [node.items[0][1], node.items[1][1]], [back["a"], back["b"]]
    else:
        nodes, backs = [node.props[0][1], node.props[1][1]], [back["a"], back["b"]]
    S.reached("written")
    S.check(nodes[0] is nodes[-1] and backs[0] is backs[-1], "one buffer became two")
    check_node(S, nodes[0], kind, d, top, f)
    check_buffer(S, backs[0], kind, d, top, f)


def encode(g, f):
    return dumps(g, features=f)


def view(S, n, tags=TAGS, kinds=KINDS, features=None, resize=False, grid=None):
    """One view: geometry, flags and bytes."""
    tag = S.choice("tag", tags)
    kind = S.choice("kind", list(kinds))
    f = FEATURES[S.choice("features", features or list(FEATURES))]
    size = VIEWS[tag][1]
    b, d, top = make(S, kind, n, top=n + 8)
    hidden = kind in ("shared", "transfer")
    if hidden:
        S.assume(top < U32)
    limit = 1 << 33 if hidden else n
    pre = "h" if hidden else "r"
    if grid:
        off, items = S.choice("off", grid), S.choice("items", grid)
    else:
        off = S.int("%soff%d" % (pre, size), 0, limit // size)
        items = S.int("%sitems%d" % (pre, size), 0, limit // size)
    given = S.flag("given") if not hidden else True
    if given:
        if not hidden:
            S.assume((off + items) * size <= n)
    else:
        S.assume(items == 0 and off * size <= n)
        if kind != "rab" and kind != "bytearray":
            S.assume(n % size == 0)
    v = create_view(b, ArrayBufferViewTag(ord(tag)), byte_offset=off * size, byte_length=items * size if given else None)
    if resize and kind == "rab":
        m = S.choice("m", list(range(n + 3)))
        b.resize(m)
        S.assume(v.is_in_range)
        d = (d + bytes(8))[:m]
    off = off * size
    length = items * size if given else (len(d) - off) // size * size
    tracking = not given and kind == "rab" and RAB in f
    again = S.flag("again")
    try:
        data = encode([v, b, v] if again else v, f)
    except UnhandledValueEncodeV8SerializeError as e:
        S.reached("feature")
        S.check(tag == "h" and F16 not in f and e.value is v, "a view is refused")
        return
    except ValueError:
        S.reached("refused")
        S.check(hidden and (off >= U32 or length >= U32), "a view is refused")
        return
    S.check(F16 in f or tag != "h", "Float16Array without its feature")
    S.check(off < U32 and length < U32, "geometry beyond 32 bits is written")
    node, back = v8.parse(data), loads(data)
    if again:
        S.check(node.items[0] is node.items[2] and back[0] is back[2], "one view became two")
        S.check(node.items[0].buffer is node.items[1] and back[0].backing_buffer is back[1], "the view's buffer became two")
        node, back = node.items[0], back[0]
    S.reached("written")
    S.check(node.kind == "view", "not written as a view")
    check_node(S, node.buffer, kind, d, top, f)
    S.check(node.info[0] == ord(tag), "view type written")
    S.check(node.info[1] == off, "offset written")
    if not tracking:
        S.check(node.info[2] == length, "length written")
    S.check(node.info[3] == tracking, "length-tracking flag")
    S.check(node.info[4] == (kind == "rab" and RAB in f), "resizable-buffer flag")
    S.check(type(back) is cls(tag), "view type read back")
    check_buffer(S, back.backing_buffer, kind, d, top, f)
    S.check(back.byte_offset == off and back.byte_length == length, "geometry read back")
    S.check(back.is_length_tracking == tracking, "length tracking read back")
    if d is not None:
        S.check(contents(back) == d[off:off + length], "bytes of the view")


def sharing(S, n, k, kinds=("fixed", "rab", "shared", "bytearray")):
    """Several views over one or two buffers, in any order, with other values between."""
    f = FEATURES[S.choice("features", ["all", "not rab"])]
    bs = []
    for i in range(2):
        bs.append(make(S, S.choice("kind%d" % i, list(kinds)), n, "c%d" % i, n + 2))
    for b, d, top in bs:
        if d is None:
            S.assume(top < 4)
    items, specs = [], []
    for i in range(k):
        what = S.choice("w%d" % i, ["view", "buffer", "same", "other"])
        which = S.choice("b%d" % i, [0, 1])
        if what == "buffer":
            items.append(bs[which][0])
            specs.append((which, None, None))
        elif what == "view":
            off = S.choice("o%d" % i, [0, 2])
            items.append(create_view(bs[which][0], ArrayBufferViewTag.kUint16Array, byte_offset=off, byte_length=2))
            specs.append((which, off, None))
        elif what == "same":
            S.assume(i > 0 and specs[0][0] is not None)
            items.append(items[0])
            specs.append((specs[0][0], specs[0][1], 0))
        else:
            items.append([i])
            specs.append((None, None, None))
    data = encode(items, f)
    node, back = v8.parse(data), loads(data)
    S.check(len(node.items) == k and len(back) == k, "number of values")
    seen = {}
    for i in range(k):
        which, off, same = specs[i]
        nd, bk = node.items[i], back[i]
        if which is None:
            S.check(nd.kind == "array" and type(bk) is JSArray and list(bk.array) == [i], "a value between views")
            continue
        if same is not None:
            S.check(nd is node.items[0] and bk is back[0], "one view became two")
        if off is not None:
            S.check(nd.kind == "view" and nd.info[1] == off and nd.info[2] == 2, "a view")
            S.check(bk.byte_offset == off and bk.byte_length == 2, "a view read back")
            nd, bk = nd.buffer, bk.backing_buffer
        else:
            S.check(nd.kind in ("buffer", "resizable", "shared", "transfer"), "a buffer")
        if which in seen:
            S.check(seen[which][0] is nd and seen[which][1] is bk, "views no longer share their buffer")
        else:
            for o in seen:
                if isinstance(bs[0][0], JSSharedArrayBuffer) and isinstance(bs[1][0], JSSharedArrayBuffer) and bs[0][2] == bs[1][2]:
                    continue        # one shared buffer, named twice
                S.check(seen[o][0] is not nd and seen[o][1] is not bk, "two buffers became one")
            seen[which] = (nd, bk)
        check_buffer(S, bk, kind_of(bs[which][0]), bs[which][1], bs[which][2], f)


def kind_of(b):
    if isinstance(b, JSSharedArrayBuffer):
        return "shared"
    if isinstance(b, JSArrayBuffer):
        return "rab" if b.resizable else "fixed"
    return "bytes"


def payload(S, ns, version=15):
    """Buffers and views as V8 writes them are read as what they are."""
    n = S.choice("n", ns)
    d = S.bytes("c", n)
    kind = S.choice("kind", ["B", "~", "t", "u"])
    head = [0xFF, version]
    top = None
    if kind == "B":
        body = [ord("B"), n] + list(d)
    elif kind == "~":
        top = S.int("max", 0, 127)
        body = [ord("~"), n, top] + list(d)
    else:
        top = S.int("id", 0, 127)
        body = [ord(kind), top]
    data = head + body
    has = S.flag("view")
    if has:
        tag = S.choice("tag", TAGS)
        size = VIEWS[tag][1]
        off, ln, fl = S.int("off%d" % n, 0, n + 9), S.int("len%d" % n, 0, n + 9), S.choice("flags", [0, 1, 2, 3])
        data = data + [ord("V"), ord(tag), off, ln, fl]
    data = bytes(data)
    ok = True
    if kind == "~":
        ok = top >= n
    if has:
        # V8 rejects flags that do not fit the buffer; only agreement on valid data is claimed
        rab = kind == "~"
        S.assume(fl in ((2, 3) if rab else (0,)))
        if fl == 3:
            S.assume(ln == 0)
        ok = S.all([ok, off % size == 0, ln % size == 0])
        if kind in "B~":
            ok = S.all([ok, off <= n, S.any([fl == 3, off + ln <= n])])
    try:
        back = loads(data)
    except DecodeV8SerializeError:
        S.reached("rejected")
        S.check(S.not_(ok), "data V8 accepts is rejected")
        return
    S.check(ok, "data V8 rejects is accepted")
    S.reached("accepted")
    if has:
        S.check(type(back) is cls(tag), "view type")
        S.check(back.byte_offset == off, "offset")
        S.check(back.is_length_tracking == (fl == 3), "length tracking")
        S.check(back.byte_length == (ln if fl != 3 else (n - off) // size * size), "length")
        back = back.backing_buffer
    check_buffer(S, back, {"B": "fixed", "~": "rab", "t": "transfer", "u": "shared"}[kind], d, top, ALL)


# --------------------------------------------------------------------------- C26
def inputs(d, how):
    if how == "bytes":
        return d, None
    if how == "bytearray":
        b = bytearray(d)
        return b, b
    if how == "memoryview":
        b = bytearray(d)
        return memoryview(b), b
    if how == "readonly":
        b = bytearray(d)
        return memoryview(b).toreadonly(), b
    if how == "slice":
        b = bytearray(b"\x07\xff") + bytearray(d) + bytearray(b"\xff")
        return memoryview(b)[2:-1], b
    if how == "signed":
        b = bytearray(d)
        return memoryview(b).cast("b"), b
    if how == "chars":
        b = bytearray(d)
        return memoryview(b).cast("c"), b
    if how == "wide":
        # a view of 16-bit items: an even number of bytes
        b = bytearray(d)
        return memoryview(b).cast("H"), b
    if how == "buffer":
        b = bytearray(d)
        return JSArrayBuffer(b, copy_data=False), b
    if how in ("file", "file of buffers"):
        b = bytearray(d)
        return File(b, how == "file"), b
    class Custom:
        def __init__(self, b):
            self.b = b

        def __buffer__(self, flags):
            return memoryview(self.b)
    b = bytearray(d)
    return Custom(b), b


class File:
    """What is read from where the file is at; nothing but read() is there."""

    def __init__(self, b, plain):
        self.b, self.plain, self.at = b, plain, 0

    def read(self, n=-1):
        end = len(self.b) if n is None or n < 0 else min(self.at + n, len(self.b))
        r = self.b[self.at:end]
        self.at = end
        return bytes(r) if self.plain else r


def read_value(x, nodejs=False):
    if type(x) is File:
        # what loads() uses
        return Decoder([TagReader(host_object_deserializer=NodeJsArrayBufferViewHostObjectHandler())]).decode(x)
    return loads(x, nodejs=True) if nodejs else loads(x)


HOWS = ["bytearray", "memoryview", "readonly", "slice", "signed", "chars", "buffer", "custom", "file", "file of buffers"]


def summary(v):
    """A value as nested tuples of plain values, by content."""
    if isinstance(v, (str, int, float)):
        return v
    if isinstance(v, JSArrayBuffer):
        return ("buffer", bytes(v.data), v.max_byte_length, v.resizable)
    if hasattr(v, "backing_buffer"):
        return ("view", type(v).__name__, v.byte_offset, v.byte_length, v.is_length_tracking, summary(v.backing_buffer))
    if isinstance(v, JSArray):
        return ("array", len(v), [(k, summary(x)) for k, x in v.items()])
    if isinstance(v, JSObject):
        return ("object", [(k, summary(x)) for k, x in v.items()])
    if isinstance(v, JSMap):
        return ("map", [(summary(k), summary(x)) for k, x in v.items()])
    if isinstance(v, JSPrimitiveObject):
        return ("wrapper", v.value)
    if isinstance(v, bytes):
        return ("BYTES", v)
    return v


TEMPLATES = {
    "buffer": ["B", 3, "?", "?", "?"],
    "rab": ["~", 2, 5, "?", "?"],
    "view": ["B", 4, "?", "?", "?", "?", "V", "W", 2, 2, 0],
    "rab view": ["~", 4, 6, "?", "?", "?", "?", "V", "B", 1, 0, 3],
    "onebyte": ['"', 3, "?", "?", "?"],
    "twobyte": [0, "c", 4, "?", 1, "?", 2],
    "utf8": ["S", 2, "?", "?"],
    "bigint": ["Z", 6, "?", "?", "?"],
    "double": ["N", "?", "?", 1, 1, 1, 1, 1, 64],
    "array": ["A", 2, "B", 1, "?", "I", "?", "$", 0, 2],
    "object": ["o", '"', 1, "?", "B", 2, "?", "?", "{", 1],
    "map": [";", '"', 1, "?", '"', 1, "?", ":", 2],
    "wrapper": ["s", '"', 2, "?", "?"],
    "host": ["\\", 1, 3, "?", "?", "?"],
    "any": ["?", "?", "?"],
}


def template(S, name):
    out = [0xFF, 15]
    for i, c in enumerate(TEMPLATES[name]):
        if c == "?":
            out.append(S.int("d%d" % i, 0, 255))
        else:
            out.append(ord(c) if isinstance(c, str) else c)
    return bytes(out)


def attempt(x, **kw):
    try:
        return "value", summary(read_value(x, **kw))
    except DecodeV8SerializeError as e:
        return "error", e.position


def input_types(S, names=list(TEMPLATES), hows=HOWS):
    """Same bytes, same result; the input is unchanged; later changes to it are not seen."""
    name = S.choice("payload", names)
    d = template(S, name)
    how = S.choice("input", hows)
    kw = dict(nodejs=True) if name == "host" else {}
    want = attempt(d, **kw)
    if how == "wide":
        S.assume(len(d) % 2 == 0)
    x, own = inputs(d, how)
    before = bytes(own)
    try:
        v = read_value(x, **kw)
    except DecodeV8SerializeError as e:
        S.reached("rejected")
        S.check(want == ("error", e.position), "an input type decides whether data is accepted")
        S.check(bytes(own) == before, "the input changed")
        return
    S.reached("decoded")
    got = summary(v)
    S.check(want[0] == "value", "an input type decides whether data is accepted")
    S.check(got == want[1], "the result depends on the input type")
    S.check(bytes(own) == before, "the input changed")
    for i in range(len(own)):
        own[i] = own[i] ^ 0x55
    S.check(summary(v) == got, "a change of the input changed a decoded value")
    # and the other way around
    b = v
    if isinstance(v, JSArray) and len(v) > 0:
        b = v[0]
    if hasattr(b, "backing_buffer"):
        b = b.backing_buffer
    if isinstance(b, JSArrayBuffer) and how != "readonly":
        S.reached("buffer")
        snap = bytes(own)
        with b.data as m:
            if len(m) > 0 and not m.readonly:
                m[0] = m[0] ^ 0xFF
        S.check(bytes(own) == snap, "writing to a decoded buffer changed the input")


def reuse(S):
    """A decoder keeps nothing of one input for the next."""
    a, b = template(S, "object"), template(S, "array")
    d = Decoder()
    r1 = [outcome(d, x) for x in (a, b, a)]
    r2 = [outcome(Decoder(), x) for x in (a, b, a)]
    S.check(r1 == r2, "a decoder remembers an earlier input")


def outcome(d, x):
    try:
        return summary(d.decodes(x))
    except DecodeV8SerializeError as e:
        return ("error", e.position)


def immutable(S, n, kinds=("bytes", "readonly", "memoryview", "fixed"), wraps=("list", "tuple")):
    """Read-only values that compare equal may be written once, but only if nothing distinguishes them."""
    specs, items = [], []
    for i in range(2):
        kind = S.choice("kind%d" % i, list(kinds))
        b, d, _ = make(S, kind, n, "c%d" % i)
        what = S.choice("what%d" % i, ["B", "b", "W", "?", "buffer"])
        if what == "buffer":
            items.append(b)
            specs.append(("buffer", d, None, None))
        else:
            off = S.choice("off%d" % i, [0, 2])
            ln = S.choice("len%d" % i, [0, 2])
            items.append(create_view(b, ArrayBufferViewTag(ord(what)), byte_offset=off, byte_length=ln))
            specs.append((what, d, off, ln))
    if S.choice("wrap", list(wraps)) == "tuple":
        g = [(items[0],), (items[1],)]
    else:
        g = items
    data = encode(g, ALL)
    node, back = v8.parse(data), loads(data)
    for i in range(2):
        nd, bk = node.items[i], back[i]
        if g is not items:
            nd, bk = nd.items[0], bk[0]
        what, d, off, ln = specs[i]
        if what == "buffer":
            S.check(nd.kind == "buffer" and nd.value == d, "a buffer is written as another")
            S.check(type(bk) is JSArrayBuffer and bytes(bk.data) == d, "a buffer reads back as another")
        else:
            S.check(nd.kind == "view" and nd.info[:3] == (ord(what), off, ln), "a view is written as another")
            S.check(nd.buffer.value == d, "a view is written over other bytes")
            S.check(type(bk) is cls(what) and bk.byte_offset == off and bk.byte_length == ln, "a view reads back as another")
            S.check(bytes(bk.backing_buffer.data) == d, "a view reads back over other bytes")


def other(S):
    """Views over buffers of other types than the library's own, which may be something else when not in a view."""
    tag = S.choice("tag", TAGS)
    size = VIEWS[tag][1]
    base = memoryview(array.array(S.choice("type", ["B", "h", "I", "q", "d"]), [1, 2])) if S.flag("memoryview") else \
        array.array(S.choice("type", ["B", "h", "I", "q", "d"]), [1, 2])
    d = base.tobytes()
    n = len(d)
    off, items = S.int("off", 0, n // size), S.int("items", 0, n // size)
    S.assume((off + items) * size <= n)
    v = cls(tag)(base, item_offset=off, item_length=items)
    how = S.choice("how", ["top", "twice", "with another", "after it", "before it"])
    w = cls(tag)(base, item_offset=off, item_length=items)
    data = dumps(v if how == "top" else [v, v] if how == "twice" else [v, w] if how == "with another" else [base, v] if how == "after it" else [v, base], features=ALL)
    node, back = v8.parse(data), loads(data)
    nodes, backs = ([node], [back]) if how == "top" else (node.items, [back[0], back[1]])
    for i, (m, b) in enumerate(zip(nodes, backs)):
        if (how, i) in (("after it", 0), ("before it", 1)):
            continue
        S.check(m.kind == "view", "not written as a view")
        S.check(m.info[1] == off * size and m.info[2] == items * size and not m.info[3] and not m.info[4], "range written")
        S.check(m.buffer.value == d, "bytes of the buffer written")
        S.check(type(b) is cls(tag) and contents(b) == d[off * size:(off + items) * size], "bytes of the view")
    if how == "twice":
        S.check(nodes[0] is nodes[1] and backs[0] is backs[1], "one view became two")
    if type(base) is array.array:
        base.append(1)
