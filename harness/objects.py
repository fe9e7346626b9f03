"""C09: JSObject and JSArray against a plain mapping."""
from v8serialize.jstypes import JSArray, JSHole, JSObject

MAX_INDEX = 2 ** 32 - 2


class Model:
    """A plain mapping: string-keyed properties in insertion order, integer-keyed ones by value."""

    def __init__(self):
        self.ints = []          # [(index, value)], unordered
        self.names = []         # [(name, value)]

    def canon(self, k):
        if isinstance(k, str):
            if k.isdigit() and k.isascii() and (k == "0" or k[0] != "0") and int(k) <= MAX_INDEX:
                return int(k)
            return k
        if k < 0 or k > MAX_INDEX:
            return str(int(k))
        return int(k)

    def side(self, k):
        return self.names if isinstance(k, str) else self.ints

    def get(self, k):
        k = self.canon(k)
        for p, v in self.side(k):
            if p == k:
                return v
        return JSHole

    def set(self, k, v):
        k = self.canon(k)
        s = self.side(k)
        for j in range(len(s)):
            if s[j][0] == k:
                s[j] = (s[j][0], v)
                return
        s.append((k, v))

    def delete(self, k):
        k = self.canon(k)
        s = self.side(k)
        for j in range(len(s)):
            if s[j][0] == k:
                v = s[j][1]
                del s[j]
                return v
        return JSHole

    def ordered(self):
        out = []
        for p, v in self.ints:
            j = 0
            while j < len(out) and out[j][0] < p:
                j = j + 1
            out.insert(j, (p, v))
        return out + self.names


def same(S, o, m, what):
    want = m.ordered()
    S.check(len(o) == len(want), "number of properties after " + what)
    got = list(o)
    S.check(len(got) == len(want), "iteration after " + what)
    for k, (p, v) in zip(got, want):
        S.check(isinstance(k, str) == isinstance(p, str), "kind of key after " + what)
        S.check(k == p, "order of keys after " + what)
    for (k, v), (p, w) in zip(o.items(), want):
        S.check(k == p and v is not JSHole and v == w, "items after " + what)
    for v, (p, w) in zip(o.values(), want):
        S.check(v is not JSHole and v == w, "values after " + what)
    S.check(bool(o) == (len(want) > 0), "truth value after " + what)


def key(S, name, top, names, form="any"):
    c = S.choice(name + "kind", ["int", "numeric", "float"] + names)
    if c == "int":
        return S.int(name, -1, top)
    if c == "float":
        return float(S.concrete(S.int(name, 0, 2)))
    if c == "numeric":
        return str(S.concrete(S.int(name, 0, 2)))
    return c


STARTS = {
    "empty": [], "dense": [(0, None), (1, 2)], "holes": [(0, False), (2, 2), ("a", None)],
    "sparse": [(20, None), ("b", 0)], "sparse2": [(3, 1), (40, ""), ("a", False), ("b", 4)],
    "full15": [(i, i) for i in range(0, 15, 4)], "dense17": [(i, i) for i in range(17)], "names": [("b", None), ("a", 2)],
}

OPS = ["set", "del", "pop", "popd", "hole", "update", "setdefault", "popitem", "clear", "get"]


def history(S, n, starts, top, ops=OPS, names=["a", "b"], classes=("JSObject", "JSArray")):
    cls = S.choice("class", classes)
    st = S.choice("start", starts)
    m = Model()
    for k, v in STARTS[st]:
        m.set(k, v)
    o = JSObject(STARTS[st]) if cls == "JSObject" else JSArray(dict(STARTS[st]))
    for t in range(n):
        op = S.choice("op%d" % t, ops)
        k = None
        if op not in ("popitem", "clear"):
            k = key(S, "k%d" % t, top, names)
        v = S.int("v%d" % t, 100, 200)
        what = cls + " " + op
        if op == "set":
            o[k] = v
            m.set(k, v)
        elif op == "hole":
            o[k] = JSHole
            m.delete(k)
        elif op == "del":
            want = m.delete(k)
            try:
                del o[k]
                S.check(want is not JSHole, what + " of an absent key succeeded")
            except KeyError:
                S.check(want is JSHole, what + " of a present key failed")
        elif op == "pop":
            want = m.delete(k)
            try:
                got = o.pop(k)
                S.check(want is not JSHole, what + " of an absent key succeeded")
                S.check(got is not JSHole and got == want, what + " value")
            except KeyError:
                S.check(want is JSHole, what + " of a present key failed")
        elif op == "popd":
            want = m.delete(k)
            got = o.pop(k, -7)
            if want is JSHole:
                S.check(got == -7, what + " default")
            else:
                S.check(got is not JSHole and got == want, what + " value")
        elif op == "update":
            o.update([(k, v), ("z", JSHole), (7, v)])
            m.set(k, v)
            m.set(7, v)
        elif op == "setdefault":
            want = m.get(k)
            got = o.setdefault(k, v)
            if want is JSHole:
                m.set(k, v)
                S.check(got == v, what + " value")
            else:
                S.check(got is not JSHole and got == want, what + " value")
        elif op == "popitem":
            try:
                p, got = o.popitem()
                want = m.delete(p)
                S.check(want is not JSHole and got is not JSHole and got == want, what)
            except KeyError:
                S.check(len(m.ordered()) == 0, what + " failed")
        elif op == "clear":
            o.clear()
            m.ints = []
            m.names = []
        else:
            want = m.get(k)
            S.check((k in o) == (want is not JSHole), what + " membership")
            try:
                got = o[k]
                S.check(want is not JSHole, what + " of an absent key succeeded")
                S.check(got is not JSHole and got == want, what + " value")
            except KeyError:
                S.check(want is JSHole, what + " of a present key failed")
        same(S, o, m, what)
    S.check(len(o.array) >= 0 and o.array.elements_used == len(m.ints), "array part")


def far(S, n):
    """Any index up to the largest, in any order: the switch to sparse storage."""
    cls = S.choice("class", ["JSObject", "JSArray"])
    o = JSObject() if cls == "JSObject" else JSArray()
    m = Model()
    hi = -1
    for t in range(n):
        # close together (dense) or anywhere (sparse); in between is covered by history
        k = S.int("n%d" % t, 0, 3) if S.flag("near%d" % t) else S.int("k%d" % t, 200, MAX_INDEX)
        if S.flag("delete%d" % t) and t > 0:
            want = m.delete(k)
            try:
                del o[k]
                S.check(want is not JSHole, "delete of an absent key succeeded")
            except KeyError:
                S.check(want is JSHole, "delete of a present key failed")
        else:
            o[k] = t
            m.set(k, t)
            if k > hi:
                hi = k
        same(S, o, m, cls)
        S.check(o.array.__len__() == hi + 1, "array length")


def create(S, n):
    """Every way of creating an object or array from entries."""
    cls = S.choice("class", ["JSObject", "JSArray"])
    ks = [key(S, "k%d" % i, 3, ["a"]) for i in range(n)]
    vs = [S.int("v%d" % i, 0, 9) for i in range(n)]
    m = Model()
    form = S.choice("form", ["pairs", "dict", "object", "kwargs"])
    if form == "dict":
        src = {}
        for k, v in zip(ks, vs):
            src[k] = v
        for k, v in src.items():
            m.set(k, v)
        o = JSObject(src) if cls == "JSObject" else JSArray(src)
    elif form == "pairs":
        for k, v in zip(ks, vs):
            m.set(k, v)
        if cls == "JSArray":
            o = JSArray()
            o.update(list(zip(ks, vs)))
        else:
            o = JSObject(list(zip(ks, vs)))
    elif form == "object":
        for k, v in zip(ks, vs):
            m.set(k, v)
        src = JSObject(list(zip(ks, vs)))
        src["h"] = JSHole
        o = JSObject(src) if cls == "JSObject" else JSArray(src)
        m2 = Model()
        for k, v in m.ordered():
            m2.set(k, v)
        m = m2
    else:
        for k, v in zip(ks, vs):
            m.set(k, v)
        m.set("kw", 5)
        o = JSObject(list(zip(ks, vs)), kw=5) if cls == "JSObject" else JSArray(dict(zip(ks, vs)), kw=5)
        if cls == "JSArray":
            m = Model()
            for k, v in dict(zip(ks, vs)).items():
                m.set(k, v)
            m.set("kw", 5)
    same(S, o, m, cls + " from " + form)


def from_list(S, n):
    """JSArray of a list: elements at their positions, holes absent."""
    k = S.choice("n", range(0, n + 1))
    vs = [JSHole if S.flag("h%d" % i) else S.int("v%d" % i, 0, 9) for i in range(k)]
    form = S.choice("form", ["list", "generator", "tuple", "kwargs"])
    src = vs if form in ("list", "kwargs") else tuple(vs) if form == "tuple" else (v for v in vs)
    o = JSArray(src, kw=1) if form == "kwargs" else JSArray(src)
    m = Model()
    for i, v in enumerate(vs):
        if v is not JSHole:
            m.set(i, v)
    if form == "kwargs":
        m.set("kw", 1)
    same(S, o, m, "JSArray of " + form)
    S.check(len(o.array) == k, "array length")
    for i in range(-1, k + 1):
        present = 0 <= i < k and vs[i] is not JSHole
        S.check((i in o) == present, "membership")
        if not present:
            S.check(o.get(i, "none") == "none", "hole exposed as a value")
