"""C27: every kind of Python value is written as its documented JavaScript kind."""
import array
import collections
import datetime
import decimal
import enum
import fractions
import types
import uuid
from collections import abc
from v8serialize import dumps, loads
from v8serialize.encode import UnhandledValueEncodeV8SerializeError
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSDataView, JSError, JSErrorData, JSHole, JSMap, JSObject, JSPrimitiveObject, JSRegExp,
                                 JSSet, JSUint8Array, JSUndefined)
from hx import v8


class AbcMap(abc.Mapping):
    def __init__(self, pairs):
        self.pairs = pairs

    def __getitem__(self, k):
        for p, v in self.pairs:
            if p is k or p == k:
                return v
        raise KeyError(k)

    def __iter__(self):
        return iter([p for p, _ in self.pairs])

    def __len__(self):
        return len(self.pairs)


class MutMap(AbcMap, abc.MutableMapping):
    def __setitem__(self, k, v): raise TypeError
    def __delitem__(self, k): raise TypeError


class VirtualMap:
    """Only registered as a Mapping."""
    def __init__(self, pairs): self.pairs = pairs
    def __len__(self): return len(self.pairs)
    def __iter__(self): return iter([p for p, _ in self.pairs])
    def __contains__(self, k): return True
    def items(self): return list(self.pairs)


abc.Mapping.register(VirtualMap)


class AbcSet(abc.Set):
    def __init__(self, values): self.values = list(values)
    def __contains__(self, v): return v in self.values
    def __iter__(self): return iter(self.values)
    def __len__(self): return len(self.values)


class MutSet(AbcSet, abc.MutableSet):
    def add(self, v): raise TypeError
    def discard(self, v): raise TypeError


class Bag:
    """A Collection by its methods only."""
    def __init__(self, values): self.values = list(values)
    def __contains__(self, v): return v in self.values
    def __iter__(self): return iter(self.values)
    def __len__(self): return len(self.values)


class AbcSeq(abc.Sequence):
    def __init__(self, values): self.values = list(values)
    def __getitem__(self, i): return self.values[i]
    def __len__(self): return len(self.values)


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


class MyFrozen(frozenset):
    pass


class MyStr(str):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyBytes(bytes):
    pass


class MyBytearray(bytearray):
    pass


class MyObject(JSObject):
    pass


class MyArray(JSArray):
    pass


class MyMap(JSMap):
    pass


class MySetJS(JSSet):
    pass


class MyError(JSError):
    pass


class MyErrorData(JSErrorData):
    pass


class MyDate(datetime.datetime):
    pass


class Color(enum.IntEnum):
    RED = 7
    BIG = 1 << 70
    NEGATIVE = -3


class Text(str, enum.Enum):
    A = "text"


class Plain(enum.Enum):
    A = 1


class Bits(enum.IntFlag):
    A = 4
    B = 1


Point = collections.namedtuple("Point", ["a", "b", "c"])

MAPS = {"dict": dict, "OrderedDict": collections.OrderedDict, "defaultdict": lambda p: collections.defaultdict(list, p), "MappingProxyType": lambda p: types.MappingProxyType(dict(p)),
        "ChainMap": lambda p: collections.ChainMap(dict(p)), "UserDict": lambda p: collections.UserDict(p), "Mapping": AbcMap, "MutableMapping": MutMap, "registered": VirtualMap,
        "subclass": MyDict, "JSMap": JSMap, "JSMap subclass": MyMap}
SETS = {"set": set, "frozenset": frozenset, "keys": lambda vs: dict.fromkeys(vs).keys(), "Set": AbcSet, "MutableSet": MutSet, "subclass": MySet, "frozen subclass": MyFrozen,
        "JSSet": JSSet, "JSSet subclass": MySetJS}
LISTS = {"list": list, "tuple": tuple, "deque": collections.deque, "UserList": collections.UserList, "values": lambda vs: dict(enumerate(vs)).values(), "Collection": Bag, "Sequence": AbcSeq,
         "subclass": MyList, "tuple subclass": MyTuple, "namedtuple": lambda vs: Point(*vs), "JSArray": JSArray, "JSArray subclass": MyArray, "storage": lambda vs: JSArray(vs).array}


def leaf(S, n, v, what):
    S.check(isinstance(n, v8.Num), what)
    S.check(n.v == v, what)


def place(S, o, pos):
    return {"top": o, "list": [o, 1, o], "tuple": (1, o), "map value": {"k": o}, "object": JSObject(a=o), "set": JSSet([o]), "map key": JSMap([(o, 1)]), "error": JSErrorData(cause=o)}[pos]


def find(S, data, pos):
    t = v8.parse(data)
    if pos == "list":
        S.check(t.kind == "array" and len(t.items) == 3 and t.items[1].v == 1, "neighbours")
        if isinstance(t.items[0], v8.N):
            S.check(t.items[2] is t.items[0], "one object became two")
        return t.items[0]
    if pos == "tuple":
        S.check(t.kind == "array" and len(t.items) == 2 and t.items[0].v == 1, "neighbours")
        return t.items[1]
    if pos == "map value":
        return t.items[0][1]
    if pos == "object":
        return t.props[0][1]
    if pos == "set":
        return t.items[0]
    if pos == "map key":
        return t.items[0][0]
    if pos == "error":
        return t.info["cause"]
    return t


POS = ["top", "list", "tuple", "map value", "object", "set", "map key", "error"]


def maps(S, kinds=sorted(MAPS), pos=POS):
    """Mappings are Maps, in iteration order."""
    kind = S.choice("kind%d" % len(kinds), list(kinds))
    p = S.choice("pos", pos)
    x = S.int("x", 0, 300)
    n = S.choice("n", [0, 1, 3])
    pairs = [("b", x), (3, x + 1), ("a", [x])][:n]
    o = MAPS[kind](pairs)
    t = find(S, dumps(place(S, o, p)), p)
    S.check(t.kind == "map", "a mapping is not written as a Map")
    S.check(len(t.items) == n, "size of a map")
    if n > 0:
        S.check(t.items[0][0] == "b", "first key")
        leaf(S, t.items[0][1], x, "first value")
    if n > 1:
        leaf(S, t.items[1][0], 3, "second key")
        leaf(S, t.items[1][1], x + 1, "second value")
        S.check(t.items[2][0] == "a" and t.items[2][1].kind == "array", "third entry")
        leaf(S, t.items[2][1].items[0], x, "third value")
    if p == "top":
        back = loads(dumps(o))
        S.check(type(back) is JSMap and len(back) == n and (n == 0 or list(back)[0] == "b" and back["b"] == x), "read back")


def counters(S):
    """A Counter is a mapping as well."""
    t = v8.parse(dumps(collections.Counter("abca")))
    S.check(t.kind == "map" and [(k, v.v) for k, v in t.items] == [("a", 2), ("b", 1), ("c", 1)], "Counter")
    t = v8.parse(dumps({1: "a", 2: "b"}.items()))
    S.check(t.kind == "set" and len(t.items) == 2 and t.items[0].kind == "array" and t.items[0].items[0].v == 1 and t.items[0].items[1] == "a", "items() of a dict")
    for src, want in [(range(3, 9, 2), [3, 5, 7]), (range(0), []), (array.array("i", [5, -6]), [5, -6]), (array.array("d", [1.5]), [1.5])]:
        t = v8.parse(dumps(src))
        S.check(t.kind == "array" and [q.v for q in t.items] == want, "numbers in a collection")


def sets(S, kinds=sorted(SETS), pos=POS):
    """Sets are Sets, in iteration order."""
    kind = S.choice("kind%d" % len(kinds), list(kinds))
    p = S.choice("pos", pos)
    n = S.choice("n", [0, 1, 3])
    if kind == "JSSet" or kind == "JSSet subclass" or kind == "Set" or kind == "MutableSet":
        x = S.int("x", 4, 300)
    else:
        x = 4
    values = ["b", x, (7, "a")][:n]
    o = SETS[kind](values)
    order = list(o)
    t = find(S, dumps(place(S, o, p)), p)
    S.check(t.kind == "set", "a set is not written as a Set")
    S.check(len(t.items) == n and len(order) == n, "size of a set")
    for a, b in zip(t.items, order):
        if isinstance(b, str):
            S.check(isinstance(a, str) and a == b, "order of a set")
        elif isinstance(b, tuple):
            S.check(isinstance(a, v8.N) and a.kind == "array" and a.items[0].v == 7 and a.items[1] == "a", "order of a set")
        else:
            leaf(S, a, b, "order of a set")
    if p == "top":
        back = loads(dumps(o))
        S.check(type(back) is JSSet and len(back) == n, "read back")


def lists(S, kinds=sorted(LISTS), pos=POS):
    """Every other collection is an Array, in iteration order."""
    kind = S.choice("kind%d" % len(kinds), list(kinds))
    p = S.choice("pos", pos)
    x = S.int("x", 0, 300)
    n = 3 if kind == "namedtuple" else S.choice("n", [0, 1, 3])
    o = LISTS[kind]([x, "b", None][:n])
    t = find(S, dumps(place(S, o, p)), p)
    S.check(t.kind == "array" and t.info == "dense", "a collection is not written as an Array")
    S.check(len(t.items) == n and len(t.props) == 0, "length of an array")
    if n > 0:
        leaf(S, t.items[0], x, "first element")
    if n > 1:
        S.check(t.items[1] == "b" and t.items[2] is v8.NULL, "elements")
    if p == "top":
        back = loads(dumps(o))
        S.check(type(back) is JSArray and len(back.array) == n, "read back")


def scalars(S, pos=POS):
    """Numbers, texts, buffers and the like, with their subclasses."""
    kind = S.choice("kind", ["bool", "int", "MyInt", "IntEnum", "IntEnum big", "IntEnum negative", "MyInt large", "IntFlag", "float", "MyFloat", "str", "MyStr", "str Enum", "bytes", "MyBytes", "bytearray", "MyBytearray",
                             "memoryview", "None", "undefined", "JSArrayBuffer", "view", "dataview", "regexp", "pattern", "bytes pattern", "datetime", "MyDate", "wrapper", "object", "MyObject",
                             "JSErrorData", "MyErrorData", "JSError", "MyError"])
    p = S.choice("pos", pos)
    x = S.int("x", 0, 300)
    b = S.bytes("b", 2)
    if kind == "None" and p == "error":
        return    # an error without a cause
    o = make(kind, x, b)
    t = find(S, dumps(place(S, o, p)), p)
    if kind == "bool":
        S.check(t is True, "a bool")
    elif kind == "int":
        leaf(S, t, x, "an int")
    elif kind == "MyInt":
        leaf(S, t, 9, "a subclass of int")
    elif kind == "IntEnum":
        leaf(S, t, 7, "an IntEnum")
    elif kind == "IntEnum big":
        S.check(isinstance(t, v8.Big) and t.v == 1 << 70, "an IntEnum")
    elif kind == "IntEnum negative":
        leaf(S, t, -3, "an IntEnum")
    elif kind == "MyInt large":
        leaf(S, t, -(1 << 45), "a subclass of int")
    elif kind == "IntFlag":
        leaf(S, t, 5, "an IntFlag")
    elif kind == "float" or kind == "MyFloat":
        S.check(isinstance(t, v8.Num) and t.form == "N" and t.v == 1.5, "a float")
    elif kind in ("str", "MyStr", "str Enum"):
        S.check(isinstance(t, str) and t == "text", "a text")
    elif kind == "None":
        S.check(t is v8.NULL, "None")
    elif kind == "undefined":
        S.check(t is v8.UNDEFINED, "undefined")
    elif kind in ("bytes", "bytearray", "memoryview", "JSArrayBuffer"):
        S.check(t.kind == "buffer" and t.value == b, "a buffer")
    elif kind in ("MyBytes", "MyBytearray"):
        S.check(t.kind == "buffer" and t.value == b"ab", "a buffer")
    elif kind == "view" or kind == "dataview":
        S.check(t.kind == "view" and t.buffer.value == b, "a view")
    elif kind == "regexp":
        S.check(t.kind == "regexp" and t.value[0] == "ab+", "a regular expression")
    elif kind == "pattern":
        S.check(t.kind == "regexp" and t.value[0] == "a.c" and t.value[1] & 2, "a pattern")
    elif kind == "bytes pattern":
        S.check(t.kind == "regexp" and t.value[0] == "a.c", "a pattern")
    elif kind == "datetime" or kind == "MyDate":
        S.check(t.kind == "date" and t.value == 86400000.0, "a date")
    elif kind == "wrapper":
        S.check(t.kind == "wrapper" and t.value == "text", "a wrapper")
    elif kind == "object" or kind == "MyObject":
        S.check(t.kind == "object" and len(t.props) == 2 and t.props[0][0].v == 2 and t.props[1][0] == "a", "an object")
        leaf(S, t.props[1][1], x, "an object")
    else:
        S.check(t.kind == "error" and t.info["message"] == "text", "an error")


def make(kind, x, b):
    if kind == "bool": return True
    if kind == "int": return x
    if kind == "MyInt": return MyInt(9)
    if kind == "IntEnum": return Color.RED
    if kind == "IntEnum big": return Color.BIG
    if kind == "IntEnum negative": return Color.NEGATIVE
    if kind == "MyInt large": return MyInt(-(1 << 45))
    if kind == "IntFlag": return Bits.A | Bits.B
    if kind == "float": return 1.5
    if kind == "MyFloat": return MyFloat(1.5)
    if kind == "str": return "text"
    if kind == "MyStr": return MyStr("text")
    if kind == "str Enum": return Text.A
    if kind == "bytes": return b
    if kind == "MyBytes": return MyBytes(b"ab")
    if kind == "bytearray": return bytearray(b)
    if kind == "MyBytearray": return MyBytearray(b"ab")
    if kind == "memoryview": return memoryview(b)
    if kind == "None": return None
    if kind == "undefined": return JSUndefined
    if kind == "JSArrayBuffer": return JSArrayBuffer(b)
    if kind == "view": return JSUint8Array(JSArrayBuffer(b))
    if kind == "dataview": return JSDataView(JSArrayBuffer(b))
    if kind == "regexp": return JSRegExp("ab+")
    if kind == "pattern": return re_compile("a.c", 2)
    if kind == "bytes pattern": return re_compile(b"a.c", 0)
    if kind == "datetime": return datetime.datetime(1970, 1, 2, tzinfo=datetime.timezone.utc)
    if kind == "MyDate": return MyDate(1970, 1, 2, tzinfo=datetime.timezone.utc)
    if kind == "wrapper": return JSPrimitiveObject("text")
    if kind == "object": return JSObject({"a": x, 2: 1})
    if kind == "MyObject": return MyObject({"a": x, 2: 1})
    if kind == "JSErrorData": return JSErrorData(message="text")
    if kind == "MyErrorData": return MyErrorData(message="text")
    if kind == "JSError": return JSError("text")
    return MyError("text")


def re_compile(p, f):
    import re
    return re.compile(p, f)


def unsupported(S, pos=POS):
    """Kinds without a JavaScript counterpart are refused."""
    kind = S.choice("kind", ["date", "time", "timedelta", "Decimal", "Fraction", "complex", "UUID", "Enum", "generator", "iterator", "object", "type", "slice", "Ellipsis", "NotImplemented"])
    o = {"date": datetime.date(2020, 1, 2), "time": datetime.time(1), "timedelta": datetime.timedelta(1), "Decimal": decimal.Decimal(1), "Fraction": fractions.Fraction(1, 2), "complex": 1j,
         "UUID": uuid.UUID(int=5), "Enum": Plain.A, "generator": (q for q in [1]), "iterator": iter([1]), "object": object(), "type": int, "slice": slice(1), "Ellipsis": ..., "NotImplemented": NotImplemented}[kind]
    p = S.choice("pos", pos)
    try:
        dumps(place(S, o, p))
        S.fail("a value of an unsupported kind is written")
    except UnhandledValueEncodeV8SerializeError as e:
        S.check(e.value is o, "the unhandled value")


def nested(S, depth, kinds=("map", "set", "list", "object", "array")):
    """Kinds within kinds."""
    x = S.int("x", 0, 300)
    path = []
    o = x
    for i in range(depth):
        k = S.choice("kind%d.%d" % (len(kinds), i), list(kinds))
        n = {"map": MAPS, "set": SETS, "list": LISTS}.get(k)
        if n is not None:
            f = S.choice("type%d.%s" % (i, k), {"map": ["dict", "Mapping", "JSMap", "registered"], "set": ["Set", "JSSet", "MutableSet"], "list": ["list", "tuple", "deque", "Collection", "Sequence"]}[k])
            o = n[f]([("k", o)] if k == "map" else [o, i + 1000])
        else:
            o = JSObject(k=o) if k == "object" else JSArray({30: o})
        path.append(k)
    t = v8.parse(dumps(o))
    for i in reversed(range(depth)):
        k = path[i]
        if k == "map":
            S.check(t.kind == "map" and len(t.items) == 1 and t.items[0][0] == "k", "a map within")
            t = t.items[0][1]
        elif k == "set":
            S.check(t.kind == "set" and len(t.items) == 2 and t.items[1].v == i + 1000, "a set within")
            t = t.items[0]
        elif k == "list":
            S.check(t.kind == "array" and len(t.items) == 2 and t.items[1].v == i + 1000, "an array within")
            t = t.items[0]
        elif k == "object":
            S.check(t.kind == "object" and len(t.props) == 1 and t.props[0][0] == "k", "an object within")
            t = t.props[0][1]
        else:
            S.check(t.kind == "array" and t.info == "sparse" and t.items == 31 and len(t.props) == 1, "a sparse array within")
            t = t.props[0][1]
    leaf(S, t, x, "the innermost value")


BOUNDS = [0, 1, -1, 127, 128, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, -(2 ** 31), -(2 ** 31) - 1, 2 ** 53 - 1, 2 ** 53, -(2 ** 53) + 1, -(2 ** 53), 2 ** 70, -(2 ** 70)]


def integers(S):
    """An instance of a subclass of int is written as the int it is, wherever it is."""
    v = S.choice("v", BOUNDS)
    p = S.choice("pos", ["top", "list", "key", "array key", "map key", "wrapper", "error"])
    o = MyInt(v)
    if p == "key" or p == "array key":
        want = JSObject({v: 1}) if p == "key" else JSArray({v: 1, 0: 2}) if v != 0 else JSArray({0: 1})
        got = JSObject({o: 1}) if p == "key" else JSArray({o: 1, 0: 2}) if v != 0 else JSArray({o: 1})
        if v > 2 ** 32:
            return      # names of that size are checked by C08
    elif p == "map key":
        want, got = {v: 1}, {o: 1}
    elif p == "wrapper":
        want, got = JSPrimitiveObject(v), JSPrimitiveObject(o)
    elif p == "error":
        want, got = JSErrorData(cause=v), JSErrorData(cause=o)
    elif p == "list":
        want, got = [v, v], [o, o]
    else:
        want, got = v, o
    S.check(dumps(got) == dumps(want), "an instance of a subclass of int is not written as that int")
