"""C11: JSMap and JSSet against same-value-zero."""
import math
from datetime import datetime, timezone
from decimal import Decimal
from fractions import Fraction
from v8serialize.constants import JSRegExpFlag
from v8serialize.jstypes import JSArrayBuffer, JSErrorData, JSHole, JSMap, JSObject, JSPrimitiveObject, JSRegExp, JSSet, JSUndefined, same_value_zero


class Obj:
    """Equal to every other one; only identity tells them apart."""

    def __eq__(self, other):
        return isinstance(other, Obj)

    def __hash__(self):
        return 7


def pick(S, name, kinds, objs, bits, nstr=1):
    k = S.choice(name + ".kind", kinds)
    if k == "int":
        return k, S.int(name, -(1 << bits), 1 << bits)
    if k == "small":
        return "int", S.int(name, -1, 2)
    if k == "double":
        return k, S.double(name)
    if k == "float":
        return "double", [0.0, -0.0, 1.0, 0.5, math.nan, math.inf, 2.0 ** 70][S.choice(name, 7)]
    if k == "bool":
        return k, S.flag(name)
    if k == "str":
        return k, S.str(name, nstr, 0x30, 0x39)
    if k == "none":
        return k, None
    if k == "undefined":
        return k, JSUndefined
    if k == "bytes":
        return k, S.bytes(name, 1)
    return "obj", objs[S.choice(name, len(objs))]


def same(S, a, b):
    """JavaScript's SameValueZero."""
    (ka, x), (kb, y) = a, b
    if ka in ("int", "double") and kb in ("int", "double"):
        if ka == "double" and kb == "double":
            if x != x:
                return y != y
            return x == y
        return x == y
    if ka != kb:
        return False
    if ka in ("none", "undefined"):
        return True
    if ka == "obj":
        return x is y
    return x == y


ALL = ["int", "double", "bool", "str", "none", "undefined", "obj"]


def objects():
    o = JSObject()
    return [Obj(), Obj(), o, JSObject(), [], []]


def values():
    """Pairs of values that compare equal in Python and are different objects."""
    out = []
    for i in range(2):
        out += [tuple([1, "x"]), tuple([[]]), frozenset([1]), datetime(2024, 1, 2, tzinfo=timezone.utc), JSRegExp("a", JSRegExpFlag(3)),
                JSPrimitiveObject(1), JSPrimitiveObject("1"), JSPrimitiveObject(True), Decimal(1), Fraction(1, 2), range(3),
                JSErrorData(message="m"), bytearray(b"1"), JSArrayBuffer(b"1"), JSHole, complex(1, 0)]
    return out


def pair(S, kinds, bits, nobj, vals=False):
    objs = values() if vals else objects()[:nobj]
    a = pick(S, "a", kinds, objs, bits)
    b = pick(S, "b", kinds, objs, bits)
    x, y = a[1], b[1]
    eq = same(S, a, b)
    S.reached("same" if eq else "different")
    S.check((same_value_zero(x) == same_value_zero(y)) == eq, "same_value_zero")
    m = JSMap([(x, 1)])
    S.check((y in m) == eq, "JSMap membership")
    S.check(m.get(y, 2) == (1 if eq else 2), "JSMap.get")
    try:
        got = m[y]
        S.check(eq, "JSMap item found under another key")
        S.check(got == 1, "JSMap item")
    except KeyError:
        S.check(not eq, "JSMap item not found under the same key")
    m[y] = 3
    S.check(len(m) == (1 if eq else 2), "JSMap size")
    S.check(m[x] == (3 if eq else 1), "JSMap item overwritten or not")
    s = JSSet([x])
    S.check((y in s) == eq, "JSSet membership")
    s.add(y)
    S.check(len(s) == (1 if eq else 2), "JSSet size")
    s.discard(y)
    S.check(len(s) == (0 if eq else 1) and (x in s) != eq, "JSSet.discard")


def find(S, l, k):
    for i in range(len(l)):
        if same(S, l[i][0], k):
            return i
    return -1


def check_map(S, m, l, what):
    S.check(len(m) == len(l), "size after " + what)
    ks = list(m)
    S.check(len(ks) == len(l), "keys after " + what)
    for k, (want, v), (k2, v2), v3 in zip(ks, l, m.items(), m.values()):
        S.check(same(S, (want[0], k), want) and type(k) in kindtypes(want), "order of keys after " + what)
        S.check(k2 is k or k2 == k or k != k, "items after " + what)
        S.check(v2 == v and v3 == v, "values after " + what)
    S.check(bool(m) == (len(l) > 0), "truth value after " + what)


def kindtypes(k):
    return (int, float) if k[0] in ("int", "double") else (type(k[1]),)


POOL = ["small", "float", "bool", "str", "none", "obj"]
MAP_OPS = ["set", "del", "pop", "popd", "get", "update", "updatemap", "setdefault", "popitem", "clear"]


def map_history(S, n, kinds=POOL, ops=MAP_OPS, start=2):
    objs = objects()[:2]
    l = []
    m = JSMap()
    for i in range(start):
        k = pick(S, "s%d" % i, ["small", "bool", "obj"], objs, 2)
        v = [None, 0, False][i % 3]
        if find(S, l, k) < 0:
            l.append((k, v))
        else:
            j = find(S, l, k)
            l[j] = (k, v)
        m[k[1]] = v
    check_map(S, m, l, "creation")
    for t in range(n):
        op = S.choice("op%d" % t, ops)
        k = None
        if op not in ("popitem", "clear"):
            k = pick(S, "k%d" % t, kinds, objs, 2)
            j = find(S, l, k)
        v = 100 + t
        if op == "set":
            m[k[1]] = v
            put(l, j, k, v)
        elif op == "update":
            m.update([(k[1], v), ("u", v)])
            put(l, j, k, v)
            u = ("str", "u")
            put(l, find(S, l, u), u, v)
        elif op == "updatemap":
            m.update(JSMap([(k[1], v)]), kw=v)
            put(l, j, k, v)
            u = ("str", "kw")
            put(l, find(S, l, u), u, v)
        elif op == "del" or op == "pop":
            try:
                if op == "del":
                    del m[k[1]]
                else:
                    S.check(m.pop(k[1]) == l[j][1], op)
                S.check(j >= 0, op + " of an absent key succeeded")
                del l[j]
            except KeyError:
                S.check(j < 0, op + " of a present key failed")
        elif op == "popd":
            got = m.pop(k[1], -5)
            S.check(got == (l[j][1] if j >= 0 else -5), op)
            if j >= 0:
                del l[j]
        elif op == "get":
            S.check((k[1] in m) == (j >= 0), "membership")
            S.check(m.get(k[1]) == (l[j][1] if j >= 0 else None), "get")
            S.check(m.get(k[1], -6) == (l[j][1] if j >= 0 else -6), "get with a default")
        elif op == "setdefault":
            got = m.setdefault(k[1], v)
            S.check(got == (l[j][1] if j >= 0 else v), op)
            if j < 0:
                l.append((k, v))
        elif op == "popitem":
            try:
                kk, vv = m.popitem()
                S.check(len(l) > 0, "popitem of an empty map")
                hit = [i for i in range(len(l)) if l[i][1] == vv and same(S, (l[i][0][0], kk), l[i][0])]
                S.check(len(hit) >= 1, "popitem")
                del l[hit[0]]
            except KeyError:
                S.check(len(l) == 0, "popitem failed")
        else:
            m.clear()
            l = []
        check_map(S, m, l, op)


def put(l, j, k, v):
    if j < 0:
        l.append((k, v))
    else:
        l[j] = (l[j][0], v)


def check_set(S, s, l, what):
    S.check(len(s) == len(l), "size after " + what)
    ks = list(s)
    S.check(len(ks) == len(l), "members after " + what)
    for k, want in zip(ks, l):
        S.check(same(S, (want[0], k), want) and type(k) in kindtypes(want), "order of members after " + what)


SET_OPS = ["add", "discard", "remove", "in", "ior", "iand", "isub", "ixor", "or", "and", "sub", "clear", "pop"]


def set_history(S, n, kinds=POOL, ops=SET_OPS, start=2):
    objs = objects()[:2]
    l = []
    s = JSSet()
    for i in range(start):
        k = pick(S, "s%d" % i, ["small", "bool", "obj"], objs, 2)
        if index(S, l, k) < 0:
            l.append(k)
        s.add(k[1])
    check_set(S, s, l, "creation")
    for t in range(n):
        op = S.choice("op%d" % t, ops)
        k, j = None, -1
        if op not in ("clear", "pop"):
            k = pick(S, "k%d" % t, kinds, objs, 2)
            j = index(S, l, k)
        other = [("str", "u"), k]
        raw = None if k is None else [x for _, x in other]
        if op == "add":
            s.add(k[1])
            if j < 0:
                l.append(k)
        elif op == "discard":
            s.discard(k[1])
            if j >= 0:
                del l[j]
        elif op == "remove":
            try:
                s.remove(k[1])
                S.check(j >= 0, "remove of an absent member succeeded")
                del l[j]
            except KeyError:
                S.check(j < 0, "remove of a present member failed")
        elif op == "in":
            S.check((k[1] in s) == (j >= 0), "membership")
            S.check(s.isdisjoint([k[1]]) == (j < 0), "isdisjoint")
        elif op == "ior" or op == "or":
            if op == "ior":
                s |= raw
            else:
                s = s | JSSet(raw)
            for x in other:
                if index(S, l, x) < 0:
                    l.append(x)
        elif op == "iand" or op == "and":
            if op == "iand":
                s &= JSSet(raw)
            else:
                s = s & JSSet(raw)
            l = [x for x in l if index(S, other, x) >= 0]
            if op == "and":
                S.check(len(s) == len(l), "size after and")
                l = [x for x in other if index(S, l, x) >= 0]
        elif op == "isub" or op == "sub":
            if op == "isub":
                s -= JSSet(raw)
            else:
                s = s - JSSet(raw)
            l = [x for x in l if index(S, other, x) < 0]
        elif op == "ixor":
            s ^= JSSet(raw)
            new = [x for x in l if index(S, other, x) < 0]
            for x in other:
                if index(S, l, x) < 0:
                    new.append(x)
            l = new
        elif op == "pop":
            try:
                x = s.pop()
                S.check(len(l) > 0, "pop of an empty set")
                hit = [i for i in range(len(l)) if type(x) in kindtypes(l[i]) and same(S, (l[i][0], x), l[i])]
                S.check(len(hit) == 1, "pop")
                del l[hit[0]]
            except KeyError:
                S.check(len(l) == 0, "pop failed")
        else:
            s.clear()
            l = []
        check_set(S, s, l, op)


def index(S, l, k):
    for i in range(len(l)):
        if same(S, l[i], k):
            return i
    return -1


def triple(S, n):
    """Any n doubles and integers in one map: one entry per distinct number, in order."""
    ks = [pick(S, "k%d" % i, ["int", "double"], [], 60) for i in range(n)]
    m = JSMap()
    s = JSSet()
    l = []
    for i, k in enumerate(ks):
        m[k[1]] = i
        s.add(k[1])
        put(l, find(S, l, k), k, i)
    S.check(len(m) == len(l) and len(s) == len(l), "number of entries")
    for v, (k, w) in zip(m.values(), l):
        S.check(v == w, "entry")
    for i, k in enumerate(ks):
        S.check(m[k[1]] == l[find(S, l, k)][1] and k[1] in s, "entry of each key")


def sources(S):
    """Every way of creating a map or set."""
    objs = objects()[:2]
    a = pick(S, "a", ["small", "bool", "str", "obj"], objs, 2)
    b = pick(S, "b", ["small", "bool", "str", "obj"], objs, 2)
    eq = same(S, a, b)
    form = S.choice("form", ["pairs", "generator", "map", "keys"])
    ps = [(a[1], 1), (b[1], 2)]
    if form == "pairs":
        m = JSMap(ps)
    elif form == "generator":
        m = JSMap(p for p in ps)
    elif form == "map":
        m = JSMap(JSMap(ps))
    else:
        class K:
            def keys(self):
                return [a[1], b[1]]

            def __getitem__(self, k):
                return 2 if (k is b[1] or same(S, (b[0] if type(k) is type(b[1]) else "x", k), b)) else 1
        m = JSMap(K())
    check_map(S, m, [(a, 2)] if eq else [(a, 1), (b, 2)], "creation from " + form)
    s = JSSet([a[1], b[1]] if form == "pairs" else (x for x in [a[1], b[1]]) if form != "map" else JSSet([a[1], b[1]]))
    check_set(S, s, [a] if eq else [a, b], "creation from " + form)
