from v8serialize import DecodeV8SerializeError, default_encode_steps, dumps, loads
from v8serialize.decode import ReadableTagStream
from v8serialize.encode import EncodeV8SerializeError, TagWriter, WritableTagStream, serialize_object_references
from v8serialize.jstypes import JSObject
from hx import v8

KINDS = ("onebyte", "twobyte", "utf8")


def in_range(S, s, hi):
    return S.all([ord(c) <= hi for c in s])


def no_surrogate(S, s):
    return S.all([S.any([ord(c) < 0xD800, ord(c) > 0xDFFF]) for c in s])


def write(st, kind, s, tagged=True):
    if kind == "onebyte":
        f = st.write_string_onebyte
    elif kind == "twobyte":
        f = st.write_string_twobyte
    else:
        f = st.write_string_utf8
    if tagged:
        f(s)
    else:
        f(s, tag=None)


def read(rs, kind, tagged=True):
    if kind == "onebyte":
        return rs.read_string_onebyte(tag=tagged)
    if kind == "twobyte":
        return rs.read_string_twobyte(tag=tagged)
    return rs.read_string_utf8(tag=tagged)


def stream(S, lens, kinds, offsets):
    """One string, any representation, at any stream offset, tag present or not."""
    kind = S.choice("kind", kinds)
    n = S.choice("n", lens)
    off = S.choice("off", offsets)
    tagged = S.flag("tagged")
    s = S.str("s", n, surrogates=True)
    st = WritableTagStream()
    i = 0
    while i < off:
        st.data.append(1)
        i = i + 1
    legal = in_range(S, s, 0xFF) if kind == "onebyte" else no_surrogate(S, s)
    try:
        write(st, kind, s, tagged)
    except ValueError:
        S.reached("rejected")
        S.check(S.not_(legal), "representable text rejected: " + kind)
        S.check(len(st.data) == off, "rejected text left bytes behind: " + kind)
        return
    S.check(legal, "unrepresentable text written: " + kind)
    S.reached("written " + kind)
    data = bytes(st.data)
    S.observe(data)
    # the independent reader
    p = v8.Parser(data)
    p.pos = off
    if tagged:
        r = p.value()
    elif kind == "onebyte":
        r = p.onebyte()
    elif kind == "twobyte":
        if (len(data) - len(s.encode("utf-16-le"))) % 2:
            return       # an untagged two-byte body is the caller's to align
        r = p.twobyte()
    else:
        r = p.utf8()
    S.check(r == s, "another reader sees different text: " + kind)
    S.check(p.pos == len(data), "another reader ends elsewhere: " + kind)
    # and the library's own
    rs = ReadableTagStream(data + b"I\x02")
    rs.pos = off
    S.check(read(rs, kind, tagged) == s, "text differs: " + kind)
    S.check(rs.pos == len(data), "position after the string: " + kind)


def top(S, lens):
    n = S.choice("n", lens)
    s = S.str("s", n)
    data = dumps(s)
    S.observe(data)
    S.check(v8.parse(data) == s, "string on the wire")
    r = loads(data)
    S.check(isinstance(r, str), "type")
    S.check(r == s, "string read back")


def long(S, lens):
    """Lengths around the varint boundaries."""
    kind = S.choice("kind", KINDS)
    n = S.choice("n", lens)
    off = S.choice("off", 2)
    c = S.str("c", 1, 1, 0xFF if kind == "onebyte" else 0x10FFFF)
    s = "x" * (n // 2) + c + "y" * (n - n // 2 - 1)
    st = WritableTagStream()
    if off:
        st.data.append(1)
    write(st, kind, s)
    data = bytes(st.data)
    p = v8.Parser(data)
    p.pos = off
    S.check(p.value() == s, "another reader sees different text: " + kind)
    S.check(p.pos == len(data), "another reader ends elsewhere: " + kind)
    rs = ReadableTagStream(data)
    rs.pos = off
    S.check(read(rs, kind) == s, "text differs: " + kind)
    S.check(rs.pos == len(data), "position after the string: " + kind)


class Choose:
    """An encode step writing each string in the representation chosen for it."""

    def __init__(self, kinds):
        self.kinds = kinds
        self.i = 0

    def encode(self, value, /, ctx, next):
        if isinstance(value, str):
            k = self.kinds[self.i]
            self.i = self.i + 1
            write(ctx.stream, k, value)
            return
        next(value)


def nested(S, lens):
    """Strings in every representation next to each other, as elements, keys and values."""
    ks = [S.choice("k%d" % i, KINDS) for i in range(3)]
    shape = S.choice("shape", ["list", "object", "map"])
    ss = []
    for i in range(3):
        ss.append(S.str("s%d" % i, S.choice("n%d" % i, lens) if i < 2 else 1, 0x61 if i == 0 and shape != "list" else 0, 0xFF))
    a, b, c = ss
    if shape == "list":
        v = [a, b, c]
    elif shape == "object":
        v = JSObject({a: b, "k": c})
        ks = [ks[0], ks[1], "utf8", ks[2]]
    else:
        v = {a: b, "k": c}
        ks = [ks[0], ks[1], "utf8", ks[2]]
    if shape != "list":
        S.assume(S.not_(a == "k"))
    data = dumps(v, encode_steps=[serialize_object_references, Choose(ks), TagWriter()])
    w = v8.parse(data)
    r = loads(data)
    if shape == "list":
        S.check(S.all([w.items[0] == a, w.items[1] == b, w.items[2] == c]), "strings on the wire")
        S.check(S.all([r[0] == a, r[1] == b, r[2] == c]), "strings read back")
    else:
        S.check(r[a] == b, "value under the string key")
        S.check(r["k"] == c, "second value")
        S.check(len(r) == 2, "number of keys")


def wstr(kind, s):
    """A tagged string, written independently of the library (short strings)."""
    if kind == "onebyte":
        b = s.encode("latin-1")
        return b'"' + bytes([len(b)]) + b
    if kind == "twobyte":
        b = s.encode("utf-16-le")
        return b"c" + bytes([len(b)]) + b
    b = s.encode("utf-8")
    return b"S" + bytes([len(b)]) + b


def in_objects(S, n):
    """Every place of the format that holds a string accepts all three representations."""
    place = S.choice("place", ["wrapper", "regexp", "message", "stack", "cause", "key"])
    kind = S.choice("kind", KINDS)
    s = S.str("s", n, 0, 0xFF)
    w = wstr(kind, s)
    if place == "wrapper":
        r = loads(b"\xff\x0fs" + w)
    elif place == "regexp":
        r = loads(b"\xff\x0fR" + w + b"\x00").source
    elif place == "message":
        r = loads(b"\xff\x0frm" + w + b".").message
    elif place == "stack":
        r = loads(b"\xff\x0frs" + w + b".").stack
    elif place == "cause":
        r = loads(b"\xff\x0frc" + w + b".").cause
    else:
        o = loads(b"\xff\x0fo" + b"S\x01k" + w + b"{\x01")
        r = o["k"]
    S.check(r == s, "string inside " + place)


def utf8_text(b):
    """The text of strictly valid UTF-8 (Unicode table 3-7), or None."""
    out = []
    i, n = 0, len(b)
    while i < n:
        a = b[i]
        if a < 0x80:
            out.append(chr(a))
            i += 1
            continue
        lo, hi = 0x80, 0xBF
        if a < 0xC2 or a > 0xF4:
            return None
        if a < 0xE0:
            k, v = 1, a - 0xC0
        elif a < 0xF0:
            k, v = 2, a - 0xE0
            if a == 0xE0:
                lo = 0xA0
            elif a == 0xED:
                hi = 0x9F
        else:
            k, v = 3, a - 0xF0
            if a == 0xF0:
                lo = 0x90
            elif a == 0xF4:
                hi = 0x8F
        for j in range(1, k + 1):
            if i + j >= n:
                return None
            c = b[i + j]
            if c < lo or c > hi:
                return None
            v = v * 64 + (c - 0x80)
            lo, hi = 0x80, 0xBF
        out.append(chr(v))
        i += k + 1
    return "".join(out)


def utf16_text(b):
    """The text of well-formed UTF-16LE, or None."""
    out = []
    i, n = 0, len(b)
    if n % 2:
        return None
    while i < n:
        u = b[i] + 256 * b[i + 1]
        i += 2
        if u >= 0xDC00 and u <= 0xDFFF:
            return None
        if u >= 0xD800 and u <= 0xDBFF:
            if i >= n:
                return None
            v = b[i] + 256 * b[i + 1]
            i += 2
            if v < 0xDC00 or v > 0xDFFF:
                return None
            u = 0x10000 + (u - 0xD800) * 1024 + (v - 0xDC00)
        out.append(chr(u))
    return "".join(out)


def bytes_read(S, kind, n, where="value"):
    """Any payload is read as exactly its text, or refused when it has none."""
    b = S.bytes("b", n)
    tag = {"onebyte": b'"', "twobyte": b"c", "utf8": b"S"}[kind]
    one = tag + bytes([n]) + b
    if kind == "onebyte":
        text = "".join([chr(x) for x in b])
    elif kind == "twobyte":
        text = utf16_text(b)
    else:
        text = utf8_text(b)
    if where == "value":
        d = b"\xff\x0f" + one
    elif where == "key":
        d = b"\xff\x0fo" + (b"\x00" if kind == "twobyte" else b"") + one + b"T{\x01"
    elif where == "wrapper":
        d = b"\xff\x0fs" + (b"\x00" if kind == "twobyte" else b"") + one
    else:
        d = b"\xff\x0fR" + (b"\x00" if kind == "twobyte" else b"") + one + b"\x00"
    try:
        r = loads(d)
    except DecodeV8SerializeError:
        S.reached("refused")
        S.check(text is None, "well-formed text refused: " + kind)
        return
    S.reached("read")
    if kind == "twobyte" and n % 2 == 0 and text is None:
        return      # lone surrogates are outside the property
    S.check(text is not None, "ill-formed text read: " + kind)
    if where == "key":
        S.check(len(r) == 1 and r[text] is True, "key read: " + kind)
    elif where == "wrapper":
        S.check(r == text, "text read: " + kind)
    elif where == "regexp":
        S.check(r.source == text, "source read: " + kind)
    else:
        S.check(type(r) is str and r == text, "text read: " + kind)
