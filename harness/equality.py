"""C12: equality of cyclic graphs."""
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSMap, JSObject, JSSet
from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties

KINDS = ["JSObject", "JSArray", "sparse", "JSMap", "JSSet", "error", "data"]
CLASS = {"sparse": "JSArray", "data": "error"}


class Leaf:
    """A leaf whose comparison may raise."""

    def __init__(self, box, v):
        self.box, self.v = box, v

    def __eq__(self, other):
        if self.box[0]:
            raise RuntimeError("leaf")
        return isinstance(other, Leaf) and self.v == other.v

    __hash__ = None


def make(kind):
    if kind == "JSObject":
        return JSObject()
    if kind == "JSArray":
        return JSArray()
    if kind == "sparse":
        a = JSArray()
        a.array = SparseArrayProperties()
        return a
    if kind == "JSMap":
        return JSMap()
    if kind == "JSSet":
        return JSSet()
    return JSError() if kind == "error" else JSErrorData(message="")


def fill(o, kind, leaf, es):
    """es: the objects this one refers to.  Returns what it refers to in order."""
    if kind == "JSObject":
        o["l"] = leaf
        for i, e in enumerate(es):
            o[i if i == 1 else "e%d" % i] = e
        return es
    if kind in ("JSArray", "sparse"):
        o.array.append(leaf)
        for e in es:
            o.array.append(e)
        return es
    if kind == "JSMap":
        o["l"] = leaf
        if es:
            o["e"] = es[0]
        for e in es[1:]:
            o[e] = 1
        return es
    if kind == "JSSet":
        o.add(leaf)
        u = []
        for e in es:
            if not any(e is x for x in u):
                u.append(e)
            o.add(e)
        return u
    o.cause = [leaf] + es if len(es) != 1 else (leaf, es[0])
    return es


class Graph:
    def __init__(self, S, n, arity, kinds, mixed, box=None, onlyleaf=None):
        self.S, self.n = S, n
        if mixed:
            self.kinds = [S.choice("kind%d" % i, kinds) for i in range(n)]
        else:
            k = S.choice("kind", kinds)
            self.kinds = [k] * n
        self.objs = [make(k) for k in self.kinds]
        self.leaf = []
        self.edges = []
        for i in range(n):
            v = S.int("l%d" % i, 0, 1000)
            self.leaf.append(v)
            es = [S.choice("e%d.%d" % (i, j), n) for j in range(arity)]
            leaf = v if box is None else Leaf(box, v)
            got = fill(self.objs[i], self.kinds[i], leaf, [self.objs[e] for e in es])
            self.edges.append([self.index(o) for o in got])

    def index(self, o):
        for i in range(self.n):
            if self.objs[i] is o:
                return i

    def cls(self, i):
        return CLASS.get(self.kinds[i], self.kinds[i])

    def reach(self, i):
        seen, st = [i], [i]
        while st:
            for e in self.edges[st.pop()]:
                if e not in seen:
                    seen.append(e)
                    st.append(e)
        return seen

    def bisimilar(self, a, b):
        """No path leads to different leaves, classes or sizes."""
        seen, st = [(a, b)], [(a, b)]
        while st:
            x, y = st.pop()
            if x == y:
                continue
            if self.cls(x) != self.cls(y) or len(self.edges[x]) != len(self.edges[y]):
                return False
            if self.leaf[x] != self.leaf[y]:
                return False
            for p in zip(self.edges[x], self.edges[y]):
                if p not in seen:
                    seen.append(p)
                    st.append(p)
        return True

    def isomorphic(self, a, b):
        """Bisimilar by a one-to-one correspondence."""
        to, st = {a: b}, [(a, b)]
        while st:
            x, y = st.pop()
            for p, q in zip(self.edges[x], self.edges[y]):
                if p not in to:
                    to[p] = q
                    st.append((p, q))
                elif to[p] != q:
                    return False
        return len(set(to.values())) == len(to)


def verify(S, g, a, b, r, what):
    bis = g.bisimilar(a, b)
    if r:
        S.reached("equal")
        S.check(bis, "values that can be told apart are equal" + what)
        return
    S.reached("unequal")
    if bis and not set(g.reach(a)) & set(g.reach(b)):
        S.check(not g.isomorphic(a, b), "isomorphic values are unequal" + what)


def pairs(S, n, arity, kinds=KINDS, mixed=False):
    g = Graph(S, n, arity, kinds, mixed)
    a = 0
    b = S.choice("b", list(range(1, n)))
    x, y = g.objs[a], g.objs[b]
    r = x == y
    S.check(r is True or r is False, "the result of == is not a bool")
    verify(S, g, a, b, r, "")
    S.check((y == x) == r, "== is not symmetric")
    S.check((x == y) == r, "a comparison changed a later one")
    S.check((x != y) == (not r), "!= disagrees with ==")
    S.check(x == x and y == y, "== is not reflexive")


def wide(S, n, arity, kinds=KINDS):
    """Every pair of nodes of one graph, one comparison after another."""
    g = Graph(S, n, arity, kinds, False)
    res = {}
    for a in range(n):
        for b in range(n):
            r = g.objs[a] == g.objs[b]
            res[a, b] = r
            if a != b:
                verify(S, g, a, b, r, " after others")
            else:
                S.check(r, "== is not reflexive")
    for a in range(n):
        for b in range(a):
            S.check(res[a, b] == res[b, a], "== is not symmetric")


def raising(S, n, arity, kinds, mixed=False):
    """A comparison that raised has no effect on later ones."""
    box = [False]
    g = Graph(S, n, arity, kinds, mixed, box=box)
    b = S.choice("b", list(range(1, n)))
    x, y = g.objs[0], g.objs[b]
    box[0] = True
    try:
        x == y
        S.reached("no leaf compared")
    except RuntimeError:
        S.reached("raised")
    box[0] = False
    r = x == y
    verify(S, g, 0, b, r, " after a comparison that raised")
    S.check((y == x) == r, "== is not symmetric after a comparison that raised")


def chain(S, n, kinds):
    """Two rings of any two lengths up to n, with a leaf in each node."""
    k = S.choice("kind", kinds)
    la = S.choice("la", list(range(1, n + 1)))
    lb = S.choice("lb", list(range(1, n + 1)))
    tail = S.choice("back", [0, 1])
    x = S.int("x", 0, 3)
    y = S.int("y", 0, 3)
    at = S.choice("at", n)

    def ring(m, v):
        os = [make(k) for _ in range(m)]
        for i in range(m):
            fill(os[i], k, v if i == at else 7, [os[i + 1] if i + 1 < m else os[min(tail, m - 1)]])
        return os
    p, q = ring(la, x), ring(lb, y)
    r = p[0] == q[0]
    S.check((q[0] == p[0]) == r, "== is not symmetric")
    if la == lb:
        if at < la:
            S.check(r == (x == y), "rings of the same shape")
        else:
            S.check(r, "isomorphic rings are unequal")
    elif r:
        # unfold both: every position must agree

        def val(m, v, i):
            if i >= m:
                s = min(tail, m - 1)
                i = s + (i - s) % (m - s)
            return v if i == at else 7
        for i in range(2 * la * lb + 2):
            S.check(val(la, x, i) == val(lb, y, i), "rings that can be told apart are equal")


def entries(S, name, keys, top):
    """Up to three (key, value) with distinct keys, in any order."""
    out = []
    for i in range(S.choice(name + " size", 3)):
        k = S.choice(name + " key%d" % i, keys)
        S.assume(all([k is not p for p, _ in out]))
        out.append((k, S.int(name + " value%d" % i, 0, top)))
    return out


FIELDS = ["name", "message", "stack", "cause"]
KEYS = [0, 1, 40, "a", "b"]


def contents(S, kinds=("JSObject", "JSArray", "sparse", "JSMap", "JSSet", "error", "data"), top=3):
    """Two values of any kinds and contents, without cycles: equal exactly when there is nothing to tell them apart by."""
    built = []
    for name in ("x", "y"):
        k = S.choice(name + " kind", kinds)
        o = make(k)
        if k in ("error", "data"):
            part = []
            f = S.choice(name + " field", FIELDS)
            v = S.str(name + " text", 1, 0x61, 0x63)
            o.name, o.message, o.stack, o.cause = "Error", "m", None, None
            if f == "name":
                o.name = v
            elif f == "message":
                o.message = v
            elif f == "stack":
                o.stack = v
            else:
                o.cause = v
            part = [("name", o.name), ("message", o.message), ("stack", o.stack), ("cause", o.cause)]
            size = 4
        elif k == "JSSet":
            part = [(p, p) for p, _ in entries(S, name, KEYS, top)]
            for p, _ in part:
                o.add(p)
            size = len(part)
        else:
            part = entries(S, name, KEYS if k != "JSMap" else KEYS + [1.5], top)
            for p, v in part:
                o[p] = v
            size = len(part)
            if k in ("JSArray", "sparse"):
                extra = S.choice(name + " holes at the end", 2)
                if extra:
                    o.array.resize(len(o.array) + 1)
                size = (size, len(o.array))
        built.append((CLASS.get(k, k), o, part, size))
    (ka, a, pa, sa), (kb, b, pb, sb) = built
    r = a == b
    S.check((b == a) == r, "== is not symmetric")
    S.check((a != b) == (not r), "!= disagrees with ==")
    same = ka == kb and sa == sb
    ordered = same
    if same:
        for p, v in pa:
            hit = [w for q, w in pb if q == p and isinstance(q, str) == isinstance(p, str)]
            same = len(hit) == 1 and hit[0] == v and same
        ordered = same and [p for p, _ in pa] == [p for p, _ in pb]
    if r:
        S.reached("equal")
        S.check(same, "values with different contents are equal")
    else:
        S.reached("unequal")
        S.check(not ordered, "values with the same contents are unequal")
    S.check(S.all([[a] == [b]]) == r if ka == kb else True, "inside a list")
    S.check((JSArray([a, 5]) == JSArray([b, 5])) == r, "inside an array")
    S.check((JSMap([(1, a)]) == JSMap([(1, b)])) == r, "inside a map")
    S.check((JSObject(p=a) == JSObject(p=b)) == r, "inside an object")
    S.check((JSError("m", cause=a) == JSError("m", cause=b)) == r, "as a cause")
