"""Views (C13) and array buffers (C14) against the rules of ECMAScript."""
import struct
from v8serialize.constants import ArrayBufferViewTag
from v8serialize.jstypes import (JSArrayBuffer, JSArrayBufferTransfer, JSDataView, JSSharedArrayBuffer, JSTypedArray,
                                 create_view)
from v8serialize.jstypes import jsbuffers
from v8serialize.jstypes.jsbuffers import BoundsJSArrayBufferError, JSArrayBufferError

# tag -> (class name, element size, struct code)
VIEWS = {
    "b": ("JSInt8Array", 1, "b"), "B": ("JSUint8Array", 1, "B"), "C": ("JSUint8ClampedArray", 1, "B"),
    "w": ("JSInt16Array", 2, "h"), "W": ("JSUint16Array", 2, "H"), "d": ("JSInt32Array", 4, "i"),
    "D": ("JSUint32Array", 4, "I"), "h": ("JSFloat16Array", 2, "e"), "f": ("JSFloat32Array", 4, "f"),
    "F": ("JSFloat64Array", 8, "d"), "q": ("JSBigInt64Array", 8, "q"), "Q": ("JSBigUint64Array", 8, "Q"),
    "?": ("JSDataView", 1, None),
}
TAGS = list(VIEWS)
VIEWS["backport"] = ("BackportJSFloat16Array", 2, "e")
BUFFERS = ["fixed", "rab", "bytes", "bytearray", "memoryview", "readonly"]
RESIZABLE = ("rab", "bytearray")


def make_buffer(S, kind, n, name="c", maximum=None):
    d = S.bytes(name, n)
    if kind == "fixed":
        return JSArrayBuffer(d), d
    if kind == "readonly":
        return JSArrayBuffer(d, readonly=True), d
    if kind == "rab":
        return JSArrayBuffer(d, max_byte_length=n + 8 if maximum is None else maximum, resizable=True), d
    if kind == "bytes":
        return d, d
    if kind == "bytearray":
        return bytearray(d), d
    return memoryview(bytearray(d)), d


def cls(tag):
    return getattr(jsbuffers, VIEWS[tag][0])


def contents(view):
    return bytes(view.get_buffer_as_memoryview())


def state(S, view, size, off, length, tracking, buf, what=""):
    """buf: the current bytes of the buffer; off/length in bytes as given at creation."""
    n = len(buf)
    if length is None:
        oob = off > n
    else:
        oob = off + length > n
    S.check(view.is_length_tracking == tracking, "is_length_tracking" + what)
    S.check(view.is_in_range == S.not_(oob), "is_in_range" + what)
    if oob:
        S.reached("out of bounds")
        S.check(view.byte_offset == 0, "byte_offset of an out-of-bounds view" + what)
        S.check(view.byte_length == 0, "byte_length of an out-of-bounds view" + what)
        S.check(contents(view) == b"", "an out-of-bounds view has contents" + what)
        return
    S.reached("in bounds")
    if length is None:
        length = (n - off) // size * size
    S.check(view.byte_offset == off, "byte_offset" + what)
    S.check(view.byte_length == length, "byte_length" + what)
    S.check(contents(view) == buf[off:off + length], "contents" + what)


def allowed(S, size, off, length, n, resizable):
    if off < 0 or off % size != 0:
        return False
    if length is None:
        if resizable:
            return off <= n
        return n % size == 0 and off <= n
    return length >= 0 and length % size == 0 and off + length <= n


def create(S, ns, tags=TAGS, kinds=BUFFERS):
    """create_view accepts exactly what JavaScript accepts."""
    tag = S.choice("tag", tags)
    kind = S.choice("kind", kinds)
    n = S.choice("n", ns)
    size = VIEWS[tag][1]
    b, d = make_buffer(S, kind, n)
    off = S.int("off", -2, max(ns) + 9)
    length = S.int("length", -2, max(ns) + 9) if S.flag("given") else None
    fmt = ArrayBufferViewTag(ord(tag))
    if S.flag("by format"):
        fmt = jsbuffers.ArrayBufferViewStructFormat(fmt)
    ok = allowed(S, size, off, length, n, kind in RESIZABLE)
    try:
        v = create_view(b, fmt, byte_offset=off, byte_length=length)
    except ValueError:
        S.reached("rejected")
        S.check(S.not_(ok), "a view JavaScript creates is rejected")
        return
    S.check(ok, "a view JavaScript rejects is created")
    S.reached("created")
    S.check(type(v) is cls(tag), "class of the view")
    S.check(v.view_tag is ArrayBufferViewTag(ord(tag)), "view_tag")
    S.check(v.backing_buffer is b, "backing_buffer")
    state(S, v, size, off, length, length is None and kind in RESIZABLE, d)


def direct(S, ns, tags=TAGS, kinds=BUFFERS):
    """The view classes themselves take any range and are then in or out of bounds."""
    tag = S.choice("tag", tags)
    kind = S.choice("kind", kinds)
    n = S.choice("n", ns)
    size = VIEWS[tag][1]
    b, d = make_buffer(S, kind, n)
    off = S.int("off", -2, max(ns) + 2)
    length = S.int("length", -2, max(ns) + 2) if S.flag("given") else None
    bad = off < 0 or (length is not None and length < 0)
    try:
        v = cls(tag)(b, item_offset=off, item_length=length)
    except ValueError:
        S.reached("rejected")
        S.check(bad, "an item offset and length of at least 0 is rejected")
        return
    S.check(S.not_(bad), "a negative item offset or length is accepted")
    state(S, v, size, off * size, None if length is None else length * size, length is None and kind in RESIZABLE, d)


def unreachable(S, ns, tags=TAGS):
    """Views over shared and transferred buffers: geometry is kept as given."""
    tag = S.choice("tag", tags)
    size = VIEWS[tag][1]
    b = S.choice("kind", [JSSharedArrayBuffer(1), JSArrayBufferTransfer(1)])
    off = S.int("off", -2, max(ns))
    length = S.int("length", -2, max(ns))
    ok = off >= 0 and length >= 0 and off % size == 0 and length % size == 0
    try:
        v = create_view(b, ArrayBufferViewTag(ord(tag)), byte_offset=off, byte_length=length)
    except ValueError:
        S.reached("rejected")
        S.check(S.not_(ok), "a view is rejected")
        return
    S.reached("created")
    S.check(ok, "a misaligned view is created")
    S.check(v.byte_offset == off and v.byte_length == length, "geometry of a view over an inaccessible buffer")
    S.check(S.not_(v.is_length_tracking), "tracking")


def resized(S, n, top, steps, tags=TAGS, kinds=RESIZABLE, pair=True):
    """One or two views followed through resizes of their buffer."""
    tag = S.choice("tag", tags)
    kind = S.choice("kind", kinds)
    size = VIEWS[tag][1]
    b, d = make_buffer(S, kind, n, maximum=top)
    views = []
    specs = [("t", S.choice("toff", [0, size]), None)]
    if pair:
        specs.append(("f", S.choice("foff", [0, size]), S.choice("flen", [0, size, 2 * size])))
    for name, off, length in specs:
        if off + (length or 0) > n:
            continue
        v = create_view(b, ArrayBufferViewTag(ord(tag)), byte_offset=off, byte_length=length)
        views.append((v, off, length))
    S.assume(len(views) > 0)
    ref = list(d)
    for k in range(steps):
        m = S.int("to%d" % k, 0, top)
        if kind == "rab":
            b.resize(m)
        else:
            m = S.concrete(m)
            if m > len(b):
                b.extend(bytes(m - len(b)))
            else:
                del b[m:]
        m = S.concrete(m)
        ref = ref[:m] + [0] * (m - len(ref))
        if m > 0 and S.flag("write%d" % k):
            x = S.int("x%d" % k, 0, 255)
            at = S.choice("at%d" % k, [0, m - 1])
            if kind == "rab":
                with b.data as mv:
                    mv[at] = x
            else:
                b[at] = x
            ref[at] = x
        for v, off, length in views:
            state(S, v, size, off, length, length is None, bytes(ref), " after a resize")


FLOATS = {
    "e": [0.0, -0.0, 1.5, -2.0, 65504.0, 5.960464477539063e-08, float("inf"), -float("inf")],
    "f": [0.0, -0.0, 1.5, -2.0, 3.4028234663852886e+38, 1.401298464324817e-45, float("inf"), -float("inf")],
}


def any_element(S, tag, code, size, name):
    """A value the element type can hold -> (value, its little-endian bytes)."""
    if code in FLOATS:
        v = S.choice(name, FLOATS[code])
        return v, struct.pack("<" + code, v)
    if code == "d":
        v = S.double(name)
        S.assume(v == v)
        return v, struct.pack("<d", v)
    signed = code.islower()
    lo, hi = (-(1 << size * 8 - 1), (1 << size * 8 - 1) - 1) if signed else (0, (1 << size * 8) - 1)
    v = S.int(name, lo, hi)
    return v, v.to_bytes(size, "little", signed=signed)


def elements(S, items, tags=None, kinds=("fixed", "rab", "bytearray", "memoryview")):
    """Writing element i changes exactly its bytes; reading gives them back."""
    tag = S.choice("tag", tags or [t for t in VIEWS if t != "?"])
    kind = S.choice("kind", list(kinds))
    size, code = VIEWS[tag][1], VIEWS[tag][2]
    lead = S.choice("lead", [0, 1])
    n = (lead + items + 1) * size
    b, d = make_buffer(S, kind, n)
    v = cls(tag)(b, item_offset=lead, item_length=items)
    i = S.int("i", -items - 1, items)
    x, enc = any_element(S, tag, code, size, "v." + tag)
    if code in "efd":
        # not-a-number payloads may be changed by conversion: keep the rest of the buffer at zero
        for c in d:
            S.assume(c == 0)
    try:
        with v.get_buffer() as mv:
            S.check(len(mv) == items, "number of elements")
            mv[i] = x
            S.check(mv[i] == x, "an element reads back differently")
            for j in range(items):
                mv[j]
    except IndexError:
        S.check(i >= items or i < -items, "an element in range is refused")
        S.reached("refused")
        return
    S.check(S.not_(i >= items or i < -items), "an element outside the view is written")
    S.reached("written")
    i = S.concrete(i)
    at = (lead + i % items) * size
    want = d[:at] + enc + d[at + size:]
    S.check(bytes(b if kind != "fixed" and kind != "rab" else b.data) == want, "bytes of the buffer after writing an element")
    with v.get_buffer(readonly=True) as mv:
        S.check(mv[i] == x, "an element reads back differently later")


def read_elements(S, items, tags=None, kinds=("fixed", "bytes", "bytearray", "readonly")):
    """Reading element i gives the value of exactly its bytes."""
    tag = S.choice("tag", tags or [t for t in TAGS if t not in "?hf"])
    kind = S.choice("kind", list(kinds))
    size, code = VIEWS[tag][1], VIEWS[tag][2]
    lead = S.choice("lead", [0, 1])
    b, d = make_buffer(S, kind, (lead + items + 1) * size)
    v = cls(tag)(b, item_offset=lead, item_length=items)
    with v.get_buffer(readonly=True) as mv:
        S.check(mv.readonly, "a readonly buffer can be written")
        S.check(len(mv) == items, "number of elements")
        for i in range(items):
            bs = d[(lead + i) * size:(lead + i + 1) * size]
            if code == "d":
                S.check(same_double(S, mv[i], struct.unpack("<d", bs)[0]), "double element")
            else:
                S.check(mv[i] == int.from_bytes(bs, "little", signed=code.islower()), "integer element")


def same_double(S, a, b):
    if a != a:
        return b != b
    return a == b and struct.pack("<d", a) == struct.pack("<d", b)


ACCESS = {
    "int8": ("b", 1), "uint8": ("B", 1), "int16": ("h", 2), "uint16": ("H", 2), "int32": ("i", 4), "uint32": ("I", 4),
    "bigint64": ("q", 8), "biguint64": ("Q", 8), "float16": ("e", 2), "float32": ("f", 4), "float64": ("d", 8),
}


def dataview(S, n, kinds=("fixed", "rab", "bytearray"), methods=list(ACCESS), tracking=True):
    """DataView accessors: position, width, byte order, bounds."""
    m = S.choice("method", methods)
    code, size = ACCESS[m]
    kind = S.choice("kind", list(kinds))
    lead = S.choice("lead", [0, 1, 3])
    b, d = make_buffer(S, kind, lead + n + 2)
    v = JSDataView(b, item_offset=lead, item_length=n)
    off = S.int("off", -size - 1, n + 2)
    order = S.choice("order", ["default", "little", "big"]) if size > 1 else "default"
    args = {"default": [], "little": [True], "big": [False]}[order]
    bo = "little" if order == "little" else "big"
    inside = S.all([off >= 0, off + size <= n])
    whole = lambda: bytes(b if kind == "bytearray" else b.data)
    if S.flag("set"):
        x, enc = any_element(S, None, code, size, "v." + m)
        if bo == "big":
            enc = enc[::-1]
        try:
            with v.get_buffer() as dv:
                getattr(dv, "set_" + m)(off, x, *args)
        except BoundsJSArrayBufferError:
            S.reached("refused")
            S.check(S.not_(inside), "a write in bounds is refused")
            S.check(whole() == d, "a refused write changed the buffer")
            return
        S.reached("written")
        S.check(inside, "a write outside the view is allowed")
        at = S.concrete(off) + lead
        S.check(whole() == d[:at] + enc + d[at + size:], "bytes after a write")
        with v.get_buffer() as dv:
            S.check(same(S, code, getattr(dv, "get_" + m)(off, *args), x), "a written value reads back differently")
        return
    try:
        with v.get_buffer() as dv:
            if code in "ef":
                S.assume(S.all([c == 0 for c in d]))
            got = getattr(dv, "get_" + m)(off, *args)
    except BoundsJSArrayBufferError:
        S.reached("refused")
        S.check(S.not_(inside), "a read in bounds is refused")
        return
    S.reached("read")
    S.check(inside, "a read outside the view is allowed")
    at = S.concrete(off) + lead
    bs = d[at:at + size]
    if code in "efd":
        S.check(same(S, code, got, struct.unpack(("<" if bo == "little" else ">") + code, bs)[0]), "value read")
    else:
        S.check(got == int.from_bytes(bs, bo, signed=code.islower()), "value read")


def same(S, code, a, b):
    return same_double(S, a, b) if code in "efd" else a == b


def compare(S, n):
    """Views are equal exactly when their elements are."""
    ta = S.choice("ta", ["b", "B", "W", "?"])
    tb = S.choice("tb", ["b", "B", "W", "?"])
    a, da = make_buffer(S, S.choice("ka", ["fixed", "bytes"]), n, "a")
    b, db = make_buffer(S, "rab", n, "b")
    la = S.choice("la", [0, 1])
    va = cls(ta)(a, item_offset=0, item_length=la)
    vb = cls(tb)(b, item_offset=S.choice("ob", [0, 1]), item_length=1)
    r = va == vb
    S.check(r == (vb == va), "== is not symmetric")
    S.check(va == va, "== is not reflexive")
    if ta == tb and ta != "?":
        S.check(r == (contents(va) == contents(vb)), "equality of two views of a type")
        if r and ta == "B":
            S.reached("equal")


# --------------------------------------------------------------------------- C14
SOURCES = ["int", "bytes", "bytearray", "view", "view16", "view32", "none", "buffer"]


def agree(S, b, want, top, resizable, what=""):
    with b.data as m:
        S.check(m.format == "B" and m.itemsize == 1 and m.ndim == 1, "data is not a plain byte view" + what)
        S.check(len(m) == len(want), "length of data" + what)
        S.check(m.nbytes <= b.max_byte_length, "more data than max_byte_length" + what)
        S.check(bytes(m) == want, "contents" + what)
    S.check(b.max_byte_length == top, "max_byte_length" + what)
    S.check(b.resizable is resizable, "resizable" + what)


def constructed(S, ns, sources=SOURCES):
    src = S.choice("src", sources)
    n = S.choice("n", ns)
    d = S.bytes("c", n)
    if src == "int":
        arg, want = n, bytes(n)
    elif src == "none":
        arg, want = None, b""
    elif src == "bytes":
        arg, want = d, d
    elif src == "bytearray":
        arg, want = bytearray(d), d
    elif src == "view":
        lead = S.choice("lead", [0, 1])
        arg, want = memoryview(b"x" * lead + d + b"yz")[lead:lead + n], d
    elif src == "buffer":
        arg, want = JSArrayBuffer(d), d
    else:
        size = 2 if src == "view16" else 4
        S.assume(n % size == 0)
        arg, want = memoryview(bytearray(d)).cast("H" if size == 2 else "I"), d
    copy = S.choice("copy", [None, True, False])
    readonly = S.choice("readonly", [None, True, False])
    resizable = S.choice("resizable", [None, True, False])
    k = max(ns) + 3
    top = S.int("max", 0, k) if S.flag("has max") else None
    blen = None
    if src != "int" and S.flag("has length"):
        blen = S.choice("blen", [0, 2])
        want = bytes(blen)
    grows = resizable is True or top is not None
    refused = grows and readonly is True
    limit = len(want) if top is None else top
    try:
        b = JSArrayBuffer(arg, blen, max_byte_length=top, resizable=resizable, copy_data=copy, readonly=readonly)
    except ValueError:
        S.reached("refused")
        takes_copy = copy is not False or blen is not None or src in ("int", "none", "bytearray")
        S.check(refused or limit < len(want) or (grows and not takes_copy), "a buffer is refused")
        return
    S.reached("created")
    S.check(not refused, "a resizable read-only buffer is created")
    S.check(limit >= len(want), "max_byte_length below the length is accepted")
    agree(S, b, want, limit, grows)
    with b.data as m:
        S.check(m.readonly == (readonly is True) or (copy is False and src in ("bytes", "view") and blen is None), "readonly")
    if src in ("bytearray", "buffer", "view16", "view32") and n > 0 and blen is None:
        x = S.int("x", 0, 255)
        if src == "buffer":
            with arg.data as m:
                m[0] = x
        elif src == "bytearray":
            arg[0] = x
        else:
            with arg.cast("B") as m:
                m[0] = x
        aliased = bytes([x]) + d[1:]
        agree(S, b, aliased if copy is False else d, limit, grows, " after the source changed")
    if grows:
        to = S.int("to", -1, k + 1)
        resize_once(S, b, want if copy is not False else None, limit, to)


def resize_once(S, b, ref, top, to):
    before = bytes(b.data)
    try:
        b.resize(to)
    except ValueError:
        S.check(S.any([to < 0, to > top]), "a resize within the limit is refused")
        S.check(bytes(b.data) == before, "a refused resize changed the contents")
        S.reached("resize refused")
        return before
    S.check(S.all([to >= 0, to <= top]), "a resize beyond the limit is accepted")
    to = S.concrete(to)
    want = before[:to] + bytes(max(0, to - len(before)))
    S.reached("resized")
    with b.data as m:
        S.check(bytes(m) == want, "contents after a resize")
    return want


def resizes(S, ns, top, steps):
    """Any sequence of resizes and writes; refused ones change nothing."""
    n = S.choice("n", ns)
    S.assume(n <= top)
    d = S.bytes("c", n)
    kind = S.choice("kind", ["copy", "own", "length"])
    if kind == "copy":
        b = JSArrayBuffer(d, max_byte_length=top)
    elif kind == "own":
        b = JSArrayBuffer(bytearray(d), max_byte_length=top, copy_data=False, resizable=True)
    else:
        b = JSArrayBuffer(n, max_byte_length=top)
        d = bytes(n)
    ref = d
    for k in range(steps):
        op = S.choice("op%d" % k, ["resize", "write", "held"])
        if op == "resize":
            ref = resize_once(S, b, ref, top, S.int("to%d" % k, -2, top + 2))
        elif op == "write":
            if len(ref) == 0:
                continue
            x = S.int("x%d" % k, 0, 255)
            at = S.choice("at%d" % k, [0, len(ref) - 1])
            with b.data as m:
                m[at] = x
            ref = ref[:at] + bytes([x]) + ref[at + 1:]
        else:
            # a resize while the data is in use is refused by the interpreter, or takes effect
            to = S.choice("hto%d" % k, [0, len(ref), top])
            with b.data:
                try:
                    b.resize(to)
                    ok = True
                except BufferError:
                    ok = False
                    S.reached("in use")
            if ok:
                ref = ref[:to] + bytes(max(0, to - len(ref)))
        agree(S, b, ref, top, True, " after a step")


def fixed(S, ns):
    """A buffer that is not resizable refuses any resize."""
    n = S.choice("n", ns)
    b, d = make_buffer(S, S.choice("kind", ["fixed", "readonly"]), n)
    to = S.int("to", -2, n + 3)
    try:
        b.resize(to)
    except ValueError:
        agree(S, b, d, n, False)
        S.reached("refused")
        return
    S.fail("a fixed-length buffer was resized")


def grown_outside(S, n, top):
    """A bytearray shared with the buffer and grown by its owner: the buffer still shows at most max_byte_length."""
    d = S.bytes("c", n)
    own = bytearray(d)
    b = JSArrayBuffer(own, max_byte_length=top, resizable=True, copy_data=False)
    m = S.choice("m", list(range(0, top + 4)))
    if m > n:
        own.extend(bytes(m - n))
    else:
        del own[m:]
    want = (d[:m] + bytes(max(0, m - n)))[:top]
    agree(S, b, want, top, True, " after the owner resized its data")
    to = S.int("to", -1, top + 1)
    resize_once(S, b, want, top, to)
    with b.data as v:
        S.check(len(v) <= top, "more data than max_byte_length")
