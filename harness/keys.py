from v8serialize.jstypes import JSObject, JSArray
from v8serialize.jstypes._normalise_property_key import canonical_numeric_index_string, normalise_property_key

MAX_INDEX = 2 ** 32 - 2


def index_of(S, s):
    """(is array index, its value) by the definition of ToString(ToUint32(s)) == s."""
    n = len(s)
    if n == 0 or n > 10:
        return False, 0
    if not S.all([S.all([ord(c) >= 48, ord(c) <= 57]) for c in s]):
        return False, 0
    v = int(s)
    if n > 1 and s[0] == "0":
        return False, v
    return v <= MAX_INDEX, v


def string(S, n, lo=0, hi=0x10FFFF):
    """A string key is an index exactly when it is canonical."""
    s = S.str("s", n, lo, hi, surrogates=True)
    k = normalise_property_key(s)
    isidx, v = index_of(S, s)
    if type(k) is int:
        S.reached("index")
        S.check(isidx, "not an array index")
        S.check(k == v, "index value")
    else:
        S.reached("name")
        S.check(type(k) is str, "type of the key")
        S.check(k == s, "name differs")
        S.check(S.not_(isidx), "an array index treated as a name")
    S.check(normalise_property_key(k) == k and type(normalise_property_key(k)) is type(k), "not idempotent")
    c = canonical_numeric_index_string(s)
    if type(k) is int:
        S.check(c is not None and c == k, "canonical_numeric_index_string")


def long_digits(S, n):
    """Digit strings of any length around and beyond the largest index."""
    s = "1" * max(0, n - 12) + S.str("s", min(n, 12), 48, 57)
    k = normalise_property_key(s)
    isidx, v = index_of(S, s)
    if type(k) is int:
        S.check(isidx, "not an array index")
        S.check(k == v, "index value")
    else:
        S.check(S.not_(isidx), "an array index treated as a name")
        S.check(k == s, "name differs")


def js_name(i):
    return str(i)


def integer(S, lo, hi):
    i = S.int("i", lo, hi)
    k = normalise_property_key(i)
    if type(k) is int:
        S.reached("index")
        S.check(S.all([i >= 0, i <= MAX_INDEX]), "not an array index")
        S.check(k == i, "index value")
    else:
        S.reached("name")
        S.check(type(k) is str, "type of the key")
        S.check(S.any([i < 0, i > MAX_INDEX]), "an array index treated as a name")
        S.check(k == js_name(i), "name")
        S.check(normalise_property_key(k) == k, "not idempotent")


def any_float(S):
    """Integral doubles, given by their bits."""
    x = S.double("x")
    S.assume(x.is_integer())
    S.assume(S.all([x > -1e21, x < 1e21]))
    k = normalise_property_key(x)
    inside = S.all([x >= 0, x <= float(MAX_INDEX)])
    if type(k) is int:
        S.reached("index")
        S.check(inside, "not an array index")
        S.check(k == x, "index value")
    else:
        S.reached("name")
        S.check(S.not_(inside), "an array index treated as a name")
        S.check(k == js_name(int(x)), "name")


def not_integral(S):
    """Every other double (fractions, infinities, NaN) is a name."""
    x = S.double("x")
    S.assume(S.not_(x.is_integer()))
    k = normalise_property_key(x)
    S.check(type(k) is str, "not an array index")


def jskey(S, name, kind, n):
    """-> (python key, its JavaScript property name as a string)"""
    if kind == "str":
        s = S.str(name, S.choice(name + "n", range(n + 1)), 0x2b, 0x3b)
        return s, s
    if kind == "int":
        i = S.int(name, -12, 105)
        return i, str(i)
    i = S.int(name, -12, 105)
    return float(i), str(i)


def pair(S, n, cls):
    """Two keys address the same property exactly when their JavaScript names agree."""
    a, an = jskey(S, "a", S.choice("ka", ["str", "int", "float"]), n)
    b, bn = jskey(S, "b", S.choice("kb", ["str", "int", "float"]), n)
    o = JSObject() if cls == "JSObject" else JSArray()
    o[a] = "A"
    same = an == bn
    S.check((b in o) == same, "membership")
    got = o.get(b)
    if same:
        S.reached("same")
        S.check(got == "A", "value under an equal key")
    else:
        S.reached("different")
        S.check(got is None, "value under a different key")
    o[b] = "B"
    S.check(len(o) == (1 if same else 2), "number of properties")
    S.check(o[a] == ("B" if same else "A"), "value under the first key")
    S.check(o[b] == "B", "value under the second key")
    del o[a]
    S.check((b in o) == S.not_(same), "delete")


def boundary(S):
    """Keys around the largest index, through the mapping API."""
    i = S.int("i", MAX_INDEX - 3, MAX_INDEX + 4)
    form = S.choice("form", ["int", "str", "float"])
    k = i if form == "int" else str(i) if form == "str" else float(i)
    o = JSObject({"x": 0})
    o[k] = 1
    S.check(o[i] == 1 and o[str(i)] == 1 and o[float(i)] == 1, "the same property in every form")
    S.check(len(o) == 2, "number of properties")
    first = next(iter(o))
    if i <= MAX_INDEX:
        S.reached("index")
        S.check(first == i, "indexes come first")
        S.check(len(o.array) == i + 1, "array length")
    else:
        S.reached("name")
        S.check(first == "x", "names keep insertion order")
        S.check(len(o.array) == 0, "array length")


def wire(S, kind):
    """Keys as they appear in serialized data, in every form a writer may use."""
    import struct
    from v8serialize import loads
    i = S.int("i", 0, 63) if kind != "I" else S.int("i", -64, 63)
    if kind == "I":
        k = b"I" + bytes([2 * i if i >= 0 else -2 * i - 1])
    elif kind == "U":
        k = b"U" + bytes([i])
    elif kind == "N":
        k = b"N" + struct.pack("<d", float(i))
    else:
        n = S.choice("digits", [1, 2])
        s = S.str("s", n, 48, 57)
        k = kind.encode() + bytes([n * (2 if kind == "c" else 1)]) + s.encode("utf-16-le" if kind == "c" else "latin-1")
        if kind == "c":
            k = b"\x00" * 0 + k
    form = S.choice("form", ["object", "array", "sparse"])
    if form == "object":
        d = b"o" + k + b"TS\x01xF{\x02"
    elif form == "array":
        d = b"A\x00$"[:2] + k + b"TS\x01xF$\x02\x00"
    else:
        d = b"a\x40" + k + b"TS\x01xF@\x02\x40"
    d = b"\xff\x0f" + d
    o = loads(d)
    S.check(len(o) == 2, "number of properties")
    if kind in "IUN":
        S.check(o[i] is True and o[js_name(i)] is True, "property under its number")
        S.check((list(o)[0] == i) == (i >= 0), "index or name")
    else:
        S.check(o[s] is True, "property under its name")
        idx, v = index_of(S, s)
        if idx:
            S.check(o[v] is True and list(o)[0] == v, "property under its number")
            S.reached("index")
        else:
            S.reached("name")
            S.check(list(o)[0] == s, "name order")
