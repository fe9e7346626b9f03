import struct
import math
from v8serialize import dumps, loads
from v8serialize.jstypes import JSArray, JSMap, JSObject, JSPrimitiveObject, JSSet
from hx import v8

SAFE = 2 ** 53 - 1


def wire_int(S, v, n):
    """dumps() wrote n the way JavaScript reads it as the same number."""
    if isinstance(v, v8.Big):
        S.reached("bigint")
        S.check(v.v == n, "bigint value on the wire")
        S.check(S.any([n > SAFE, n < -SAFE]), "safe integer written as BigInt")
    else:
        S.check(isinstance(v, v8.Num), "number on the wire")
        S.reached("num" + v.form)
        S.check(v.v == n, "number value on the wire")
        S.check(S.all([n <= SAFE, n >= -SAFE]), "unsafe integer written as Number")


def same_int(S, r, n):
    S.check(type(r) is int or S.all([isinstance(r, float), n <= SAFE, n >= -SAFE]), "type of the integer read back")
    S.check(r == n, "integer read back differs")


def top_int(S, bits):
    n = S.int("n", -(2 ** bits), 2 ** bits)
    data = dumps(n)
    S.observe(data)
    wire_int(S, v8.parse(data), n)
    same_int(S, loads(data), n)


def boolean(S):
    b = S.bool("b")
    data = dumps(b)
    r = loads(data)
    S.check(type(r) is bool, "bool read back as another type")
    S.check(r is b, "bool value")
    v = v8.parse(data)
    S.check(v is b, "bool on the wire")
    r2 = loads(dumps([b, 1, b, 0]))
    S.check(S.all([type(r2[0]) is bool, r2[0] is b, type(r2[1]) is int, r2[1] == 1, type(r2[2]) is bool, r2[2] is b, r2[3] == 0]),
            "bool next to ints")


def nested_int(S, bits):
    """The same through every kind of container."""
    n = S.int("n", -(2 ** bits), 2 ** bits)
    k = S.choice("kind", ["list", "tuple", "dict", "mapkey", "set", "object", "array", "sparse", "cause"])
    if k == "list":
        data = dumps([n, 7])
        w = v8.parse(data).items[0]
        r = loads(data)[0]
    elif k == "tuple":
        data = dumps((7, n))
        w = v8.parse(data).items[1]
        r = loads(data)[1]
    elif k == "dict":
        data = dumps({"a": n})
        w = v8.parse(data).items[0][1]
        r = loads(data)["a"]
    elif k == "mapkey":
        data = dumps({n: "a"})
        w = v8.parse(data).items[0][0]
        r = list(loads(data))[0]
    elif k == "set":
        data = dumps({n})
        w = v8.parse(data).items[0]
        r = list(loads(data))[0]
    elif k == "object":
        data = dumps(JSObject(a=n))
        w = v8.parse(data).props[0][1]
        r = loads(data)["a"]
    elif k == "array":
        data = dumps(JSArray([n]))
        w = v8.parse(data).items[0]
        r = loads(data)[0]
    elif k == "sparse":
        data = dumps(JSArray({40: n}))
        w = v8.parse(data).props[0][1]
        r = loads(data)[40]
    else:
        data = dumps(ValueError("x"))
        w = None
        data = dumps([[n]])
        w = v8.parse(data).items[0].items[0]
        r = loads(data)[0][0]
    wire_int(S, w, n)
    same_int(S, r, n)


def key_int(S, lo, hi):
    """Integers as property keys."""
    n = S.int("n", lo, hi)
    array = S.flag("array")
    o = JSArray() if array else JSObject()
    if array:
        S.assume(S.any([n < 0, n >= 2 ** 32 - 1]))     # huge sparse arrays: harness arrays.*
    o[n] = "v"
    data = dumps(o)
    r = loads(data)
    ks = list(r)
    S.check(len(ks) == 1, "number of properties")
    index = S.all([n >= 0, n < 2 ** 32 - 1])
    if index:
        S.reached("index")
        S.check(type(ks[0]) is int, "index key kept as int")
        S.check(ks[0] == n, "index key")
    else:
        S.reached("name")
        S.check(type(ks[0]) is str, "name key is a string")
        S.check(ks[0] == str(n), "name key")
    S.check(r[n] == "v", "lookup by the same integer")
    w = v8.parse(data).props[0][0]
    if isinstance(w, v8.Num):
        S.check(w.v == n, "numeric key on the wire")
        S.check(index, "numeric key that is not an index")
    else:
        S.check(w == str(n), "string key on the wire")


# ---------------------------------------------------------------- doubles

def bits(S, x):
    return struct.pack("<d", x)


def same_double(S, r, x, what):
    S.check(isinstance(r, float), "float read back as another type: " + what)
    if math.isnan(x):
        S.reached("nan")
        S.check(math.isnan(r), "NaN lost: " + what)
    else:
        S.check(bits(S, r) == bits(S, x), "double differs: " + what)


def top_double(S):
    x = S.double("x")
    data = dumps(x)
    w = v8.parse(data)
    S.check(isinstance(w, v8.Num), "a double is a Number")
    S.check(w.form == "N", "a double is written as a double")
    S.check(data[3:11] == bits(S, x), "bits on the wire")
    S.check(len(data) == 11, "length of a double")
    r = loads(data)
    S.check(isinstance(r, float), "float read back")
    S.check(bits(S, r) == bits(S, x), "bits read back")


def wrap(k, x):
    if k == "plain":
        return x
    if k == "tuple":
        return (x,)
    if k == "wrapper":
        return JSPrimitiveObject(x)
    if k == "list":
        return [x]
    if k == "nested":
        return ((x, 1),)
    if k == "frozenset":
        return frozenset([x])
    if k == "value":
        return {"k": x}
    if k == "prop":
        return JSObject(k=x)
    if k == "map":
        return JSMap([("k", x)])
    raise AssertionError(k)


def unwrap(k, r):
    if k == "plain" or k == "wrapper":
        return r
    if k == "tuple" or k == "list":
        return r[0]
    if k == "nested":
        return r[0][0]
    if k == "frozenset":
        return list(r)[0]
    return r["k"]


def pair_double(S, kinds):
    """Two doubles next to each other never take each other's value."""
    k = S.choice("kind", kinds)
    x = S.double("x")
    y = S.double("y")
    r = loads(dumps([wrap(k, x), wrap(k, y)]))
    same_double(S, unwrap(k, r[0]), x, k + " first")
    same_double(S, unwrap(k, r[1]), y, k + " second")


def mixed(S, kinds):
    """A double next to an int and a bool that may compare equal to it."""
    k = S.choice("kind", kinds)
    k2 = S.choice("order", 3)
    x = S.double("x")
    n = S.int("n", -3, 3)
    b = S.bool("b")
    vs = [wrap(k, x), wrap(k, n), wrap(k, b)]
    vs = vs[k2:] + vs[:k2]
    r = loads(dumps(vs))
    rs = [unwrap(k, r[0]), unwrap(k, r[1]), unwrap(k, r[2])]
    rs = rs[3 - k2:] + rs[:3 - k2]
    same_double(S, rs[0], x, k)
    S.check(type(rs[1]) is not bool, "int became bool")
    S.check(rs[1] == n, "int value")
    S.check(type(rs[2]) is bool, "bool changed type")
    S.check(rs[2] == b, "bool value")


def large_int(S, bytes_, free):
    """Integers of many bytes: a few free bits at the top and at the bottom, the rest all zeros or all ones."""
    n = S.choice("bytes", bytes_)
    hi = S.int("hi", 1, 2 ** free - 1)
    lo = S.int("lo", -2 ** free, 2 ** free)
    if S.flag("negative"):
        v = -(hi * 2 ** (8 * n - 4) + lo)
    else:
        v = hi * 2 ** (8 * n - 4) + lo
    nested = S.flag("nested")
    data = dumps([v]) if nested else dumps(v)
    w = v8.parse(data)
    if nested:
        w = w.items[0]
    S.check(isinstance(w, v8.Big), "written as BigInt")
    S.check(w.v == v, "bigint value on the wire")
    r = loads(data)
    if nested:
        r = r[0]
    S.check(type(r) is int, "type of the integer read back")
    S.check(r == v, "integer read back differs")
