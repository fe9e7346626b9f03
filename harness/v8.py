"""Independent reader of V8's serialization format (value-serializer.cc, version
15), written against V8, not against the code under test.  Used as an oracle."""


class Bad(Exception):
    """V8 would reject the data."""


class N:
    """A JavaScript object."""

    def __init__(self, kind, id):
        self.kind = kind
        self.id = id
        self.props = []       # [(key, value)] in order (object, arrays' named/sparse properties, error fields)
        self.items = []       # array elements / map entries / set members
        self.value = None     # wrapped primitive / date number / (source, flags) / buffer bytes
        self.buffer = None
        self.info = None


class Undefined:
    def __repr__(self):
        return "undefined"


class Null:
    def __repr__(self):
        return "null"


class Hole:
    def __repr__(self):
        return "hole"


UNDEFINED, NULL, HOLE = Undefined(), Null(), Hole()


class Num:
    """A Number; form tells the wire tag."""

    def __init__(self, form, v):
        self.form, self.v = form, v


class Big:
    def __init__(self, v):
        self.v = v


VIEW_SIZE = {98: 1, 66: 1, 67: 1, 119: 2, 87: 2, 104: 2, 100: 4, 68: 4, 102: 4, 70: 8, 113: 8, 81: 8, 63: 1}
ERROR_PROTOS = (69, 82, 70, 83, 84, 85)
MAX_ARRAY = 2 ** 32 - 1


class Parser:
    def __init__(self, data, host=None):
        self.data = data
        self.pos = 0
        self.objs = []
        self.host = host
        self.tags = []          # every tag read, in order
        self.version = 0

    def end(self):
        return self.pos >= len(self.data)

    def byte(self):
        if self.pos >= len(self.data):
            raise Bad("end of data")
        b = self.data[self.pos]
        self.pos = self.pos + 1
        return b

    def raw(self, n):
        if n > len(self.data) - self.pos:
            raise Bad("end of data")
        r = self.data[self.pos:self.pos + n]
        self.pos = self.pos + n
        return r

    def varint(self, bits=32):
        v = 0
        shift = 0
        while True:
            b = self.byte()
            if shift < bits:
                v = v | ((b & 0x7F) << shift)
            elif (b & 0x7F) != 0:
                raise Bad("varint too large")
            shift = shift + 7
            if b < 128:
                if v >= (1 << bits):
                    raise Bad("varint too large")
                return v

    def zigzag(self):
        u = self.varint()
        v = u >> 1
        if (u & 1) != 0:
            return -v - 1
        return v

    def double(self):
        import struct
        return struct.unpack("<d", self.raw(8))[0]

    def bigint(self):
        bf = self.varint()
        n = bf >> 1
        if n > (1 << 30) // 8:
            raise Bad("bigint too large")
        d = self.raw(n)
        v = 0
        i = 0
        for b in d:
            v = v | (b << (8 * i))
            i = i + 1
        if (bf & 1) != 0:
            return -v
        return v

    def onebyte(self):
        return self.raw(self.varint()).decode("latin-1")

    def twobyte(self):
        n = self.varint()
        if n % 2 != 0:
            raise Bad("odd two-byte string")
        if self.pos % 2 != 0:
            raise Bad("unaligned two-byte string")      # V8 DCHECKs; writers always pad
        return self.raw(n).decode("utf-16-le", "surrogatepass")

    def utf8(self):
        return self.raw(self.varint()).decode("utf-8")

    def peek(self):
        """Next tag, padding skipped, not consumed."""
        p = self.pos
        while True:
            if p >= len(self.data):
                return None
            if self.data[p] != 0:
                return self.data[p]
            p = p + 1

    def tag(self):
        while True:
            b = self.byte()
            if b != 0:
                self.tags.append(b)
                return b

    def new(self, kind):
        n = N(kind, len(self.objs))
        self.objs.append(n)
        return n

    def message(self):
        if self.byte() != 0xFF:
            raise Bad("no version")
        self.version = self.varint()
        if self.version != 15:
            raise Bad("version")
        v = self.value()
        return v

    def whole(self):
        v = self.message()
        if self.pos != len(self.data):
            raise Bad("trailing data")
        return v

    def value(self):
        v = self.value1()
        if isinstance(v, N) and v.kind in ("buffer", "resizable", "shared", "transfer"):
            if self.peek() == 86:
                self.tag()
                return self.view(v)
        return v

    def value1(self):
        t = self.tag()
        if t == 95:
            return UNDEFINED
        if t == 48:
            return NULL
        if t == 84:
            return True
        if t == 70:
            return False
        if t == 73:
            return Num("I", self.zigzag())
        if t == 85:
            return Num("U", self.varint())
        if t == 78:
            return Num("N", self.double())
        if t == 90:
            return Big(self.bigint())
        if t == 34:
            return self.onebyte()
        if t == 99:
            return self.twobyte()
        if t == 83:
            return self.utf8()
        if t == 94:
            i = self.varint()
            if i >= len(self.objs):
                raise Bad("reference to a later object")
            return self.objs[i]
        if t == 111:
            n = self.new("object")
            cnt = self.properties(n, 123)
            if self.varint() != cnt:
                raise Bad("property count")
            return n
        if t == 97:
            n = self.new("array")
            length = self.varint()
            n.info = "sparse"
            n.items = length
            cnt = self.properties(n, 64)
            if self.varint() != cnt or self.varint() != length:
                raise Bad("sparse array counts")
            return n
        if t == 65:
            n = self.new("array")
            n.info = "dense"
            length = self.varint()
            if length > len(self.data) - self.pos:
                raise Bad("dense array longer than the data")
            els = []
            n.items = els
            i = 0
            while i < length:
                if self.peek() == 45:
                    self.tag()
                    els.append(HOLE)
                else:
                    els.append(self.value())
                i = i + 1
            cnt = self.properties(n, 36)
            if self.varint() != cnt or self.varint() != length:
                raise Bad("dense array counts")
            return n
        if t == 59:
            n = self.new("map")
            while self.peek() != 58:
                k = self.value()
                v = self.value()
                n.items.append((k, v))
            self.tag()
            if self.varint() != 2 * len(n.items):
                raise Bad("map count")
            return n
        if t == 39:
            n = self.new("set")
            while self.peek() != 44:
                n.items.append(self.value())
            self.tag()
            if self.varint() != len(n.items):
                raise Bad("set count")
            return n
        if t == 68:
            n = self.new("date")
            n.value = self.double()
            return n
        if t == 121 or t == 120:
            n = self.new("wrapper")
            n.value = t == 121
            return n
        if t == 110:
            n = self.new("wrapper")
            n.value = Num("N", self.double())
            return n
        if t == 122:
            n = self.new("wrapper")
            n.value = Big(self.bigint())
            return n
        if t == 115:
            n = self.new("wrapper")
            n.value = self.string()
            return n
        if t == 82:
            n = self.new("regexp")
            src = self.string()
            fl = self.varint()
            if fl >= 512:
                raise Bad("regexp flags")
            if (fl & 16) != 0 and (fl & 256) != 0:
                raise Bad("regexp flags u and v")
            n.value = (src, fl)
            return n
        if t == 114:
            n = self.new("error")
            self.error(n)
            return n
        if t == 66:
            n = self.new("buffer")
            n.value = self.raw(self.varint())
            return n
        if t == 126:
            n = self.new("resizable")
            ln = self.varint()
            mx = self.varint()
            if mx < ln:
                raise Bad("max length")
            n.value = self.raw(ln)
            n.info = mx
            return n
        if t == 116:
            n = self.new("transfer")
            n.info = self.varint()
            return n
        if t == 117:
            n = self.new("shared")
            n.info = self.varint()
            return n
        if t == 92:
            n = self.new("host")
            if self.host is None:
                raise Bad("no host object reader")
            self.host(self, n)
            return n
        if t == 112:
            n = self.new("shared-object")
            n.info = self.varint()
            return n
        if t == 119:
            n = self.new("wasm-module")
            n.info = self.varint()
            return n
        if t == 109:
            n = self.new("wasm-memory")
            n.info = self.zigzag()
            b = self.value()
            if not (isinstance(b, N) and b.kind == "shared"):
                raise Bad("wasm memory needs a shared buffer")
            n.buffer = b
            return n
        raise Bad("unknown tag")

    def string(self):
        v = self.value()
        if not isinstance(v, str):
            raise Bad("string expected")
        return v

    def properties(self, n, endtag):
        cnt = 0
        while True:
            p = self.peek()
            if p is None:
                raise Bad("end of data")
            if p == endtag:
                self.tag()
                return cnt
            k = self.value()
            if not (isinstance(k, str) or isinstance(k, Num)):
                raise Bad("object key")
            v = self.value()
            n.props.append((k, v))
            cnt = cnt + 1

    def error(self, n):
        d = {"proto": 69, "message": None, "stack": None}
        order = []
        n.info = d
        n.value = order
        seen_end = False
        while not seen_end:
            t = self.byte()
            self.tags.append(t)
            if t in ERROR_PROTOS:
                d["proto"] = t
                order.append("proto")
            elif t == 109:
                d["message"] = self.string()
                order.append("message")
            elif t == 115:
                d["stack"] = self.string()
                order.append("stack")
            elif t == 99:
                d["cause"] = self.value()
                order.append("cause")
            elif t == 46:
                seen_end = True
            else:
                raise Bad("error tag")

    def view(self, buf):
        n = self.new("view")
        n.buffer = buf
        t = self.byte()
        off = self.varint()
        ln = self.varint()
        flags = self.varint()
        size = None
        for k in VIEW_SIZE:
            if t == k:
                size = VIEW_SIZE[k]
        if size is None:
            raise Bad("view type")
        if buf.kind in ("buffer", "resizable"):
            total = len(buf.value)
            if off > total or ln > total - off:
                raise Bad("view out of bounds")
        if off % size != 0 or ln % size != 0:
            raise Bad("view alignment")
        tracking = (flags & 1) != 0
        rab = (flags & 2) != 0
        if tracking or rab:
            if buf.kind in ("buffer", "transfer"):
                raise Bad("view flags on a fixed-length buffer")
        if buf.kind == "resizable" and not rab:
            raise Bad("view of a resizable buffer not flagged so")
        if rab and buf.kind == "shared":
            raise Bad("view of a shared buffer flagged resizable")
        n.info = (t, off, ln, tracking, rab)
        return n


def node_host(p, n):
    """Node.js's host object reader (lib/v8.js)."""
    t = p.varint()
    ln = p.varint()
    sizes = (1, 1, 1, 2, 2, 4, 4, 4, 8, 1, 1, 8, 8)
    if t >= 13:
        raise Bad("node view type")
    t = _pick(t, 13)
    if ln % sizes[t] != 0:
        raise Bad("node view length")
    n.value = p.raw(ln)
    n.info = t


def _pick(x, n):
    for i in range(n):
        if x == i:
            return i
    raise Bad("index")


def parse(data, host=None):
    p = Parser(data, host)
    v = p.whole()
    return v
