"""C30: whatever loads() returns can be written and reads back the same."""
import struct
from datetime import datetime
from v8serialize import DecodeV8SerializeError, dumps, loads
from v8serialize.constants import SerializationFeature
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSError, JSHole, JSMap, JSObject, JSPrimitiveObject,
                                 JSRegExp, JSSet, JSSharedArrayBuffer, JSUndefined)
from v8serialize.jstypes._v8 import V8SharedObjectReference
from hx import arraywire, ids, bufrt

ALL = SerializationFeature(15)
MUTABLE = (JSObject, JSMap, JSSet, JSArrayBuffer, JSError)


class Pairs:
    """Walks two graphs side by side."""

    def __init__(self, S):
        self.S = S
        self.a = {}
        self.b = {}

    def check(self, c, what):
        self.S.check(c, what)

    def same(self, x, y):
        if type(x) in (int, float) and type(y) in (int, float) and type(x) is not type(y):
            # JavaScript has one type of number; large ints are written as doubles
            self.check(x == y and x != 0, "number")
            return
        self.check(type(x) is type(y), "type: " + type(x).__name__ + " " + type(y).__name__)
        if isinstance(x, float):
            self.check(struct.pack("<d", x) == struct.pack("<d", y) or (x != x and y != y), "double")
            return
        if isinstance(x, (str, int, bool)) or x is None:
            self.check(x == y, "primitive")
            return
        if x is JSUndefined or x is JSHole:
            self.check(x is y, "constant")
            return
        if isinstance(x, JSRegExp):
            # bits without a meaning are not written
            self.check(x.source == y.source and x.flags.canonical == y.flags.canonical, "regexp")
            return
        if isinstance(x, (datetime, JSSharedArrayBuffer, JSArrayBufferTransfer, V8SharedObjectReference)):
            self.check(x == y, "value of a " + type(x).__name__)
            return
        if isinstance(x, JSPrimitiveObject):
            self.same(x.value, y.value)
            return
        if isinstance(x, MUTABLE):
            i, j = self.a.get(id(x)), self.b.get(id(y))
            self.check(i == j, "sharing of a " + type(x).__name__)
            if i is not None:
                return
            self.a[id(x)] = self.b[id(y)] = len(self.a)
        if isinstance(x, JSArrayBuffer):
            self.check(bytes(x.data) == bytes(y.data), "bytes of a buffer")
            self.check(x.max_byte_length == y.max_byte_length and x.resizable == y.resizable, "limit of a buffer")
        elif hasattr(x, "backing_buffer"):
            self.check(x.is_length_tracking == y.is_length_tracking and x.byte_offset == y.byte_offset
                       and (x.is_length_tracking or x.byte_length == y.byte_length), "range of a view")
            self.same(x.backing_buffer, y.backing_buffer)
        elif isinstance(x, JSError):
            self.check(x.name == y.name, "name of an error")
            self.check(x.message == y.message, "message of an error")
            self.check(x.stack == y.stack, "stack of an error")
            self.same(x.cause, y.cause)
        elif isinstance(x, JSObject):
            if isinstance(x, JSArray):
                self.check(len(x.array) == len(y.array), "length")
            self.check(len(x) == len(y), "number of properties")
            for (k, v), (l, w) in zip(list(x.items()), list(y.items())):
                self.check(k == l and type(k) is type(l), "property")
                self.same(v, w)
        elif isinstance(x, JSMap):
            self.check(len(x) == len(y), "size of a map")
            for (k, v), (l, w) in zip(list(x.items()), list(y.items())):
                self.same(k, l)
                self.same(v, w)
        elif isinstance(x, JSSet):
            self.check(len(x) == len(y), "size of a set")
            for v, w in zip(list(x), list(y)):
                self.same(v, w)
        else:
            self.S.fail("unexpected " + type(x).__name__)


def again(S, d, **kw):
    try:
        v = loads(d, **kw)
    except DecodeV8SerializeError:
        S.reached("refused")
        return
    S.reached("read")
    e = dumps(v, features=ALL)
    w = loads(e)
    Pairs(S).same(v, w)
    S.check(dumps(w, features=ALL) == e, "written differently the second time")


def any_payload(S, n, tags=None, pres=("",), version=15):
    """Any n bytes behind a valid header and one of the given starts."""
    pre = S.choice("pre", pres).encode("latin-1")
    first = b"" if tags is None else bytes([S.choice("tag", tags)])
    again(S, b"\xff" + bytes([version]) + pre + first + S.bytes("d", n))


def pieces(S, n, kinds=None):
    """Values of every kind next to each other, and a reference to anything among them."""
    ks = [S.choice("k%d" % i, sorted(ids.PIECES)) for i in range(n)]
    i = S.int("id", 0, 127)
    again(S, b"\xff\x0fA" + bytes([n + 1]) + b"".join([ids.PIECES[k] for k in ks]) + b"^" + bytes([i]) + b"$\x00" + bytes([n + 1]))


def inner(S, depth, kinds=None):
    """References out of objects inside each other."""
    ks = [S.choice("k%d" % i, sorted(ids.WRAP)) for i in range(depth)]
    i, j = S.int("id", 0, 127), S.int("after", 0, 127)
    body = b"A\x02" + b"".join([ids.WRAP[k][0] for k in ks]) + b"^" + bytes([i])
    again(S, b"\xff\x0f" + body + b"".join([ids.WRAP[k][1] for k in reversed(ks)]) + b"^" + bytes([j]) + b"$\x00\x02")


def contents(S):
    """Each kind with any contents."""
    again(S, bufrt.template(S, S.choice("payload", sorted(bufrt.TEMPLATES))))


def doubles(S):
    """Any double, as a value, a wrapper object and a key."""
    f = S.double("f")
    b = struct.pack("<d", f)
    again(S, b"\xff\x0fA\x03N" + b + b"n" + b + b";N" + b + b"N" + b + b":\x02$\x00\x03")


def dates(S, lo, hi):
    ms = S.int("ms", lo, hi)
    again(S, b"\xff\x0fA\x02D" + struct.pack("<d", ms) + b"^\x01$\x00\x02")


def keys(S, n):
    """Objects and arrays with any string keys, numeric or not, twice."""
    a = S.bytes("a", n)
    b = S.bytes("b", n)
    form = S.choice("form", ["object", "array", "sparse"])
    body = b'"' + bytes([n]) + a + b'T"' + bytes([n]) + b + b"F"
    if form == "object":
        d = b"o" + body + b"{\x02"
    elif form == "array":
        d = b"A\x02-I\x02" + body + b"$\x02\x02"
    else:
        d = b"a\x0c" + body + b"@\x02\x0c"
    again(S, b"\xff\x0f" + d)


def lengths(S):
    """Arrays of any length, with a property at any place."""
    n = S.int("length", 0, 2 ** 32 - 1)
    v = arraywire.varint(n, 5)
    if S.flag("property"):
        k = S.int("key", 0, 2 ** 32 - 1)
        body, c = b"U" + arraywire.varint(k, 5) + b"T", b"\x01"
    else:
        body, c = b"", b"\x00"
    again(S, b"\xff\x0fa" + v + body + b"@" + c + v)
