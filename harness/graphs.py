from v8serialize import dumps, loads
from v8serialize.constants import SerializationFeature
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSMap, JSObject, JSSet
from hx import ids, v8

KINDS = ["list", "dict", "JSObject", "JSArray", "sparse", "JSMap", "JSSet", "error"]


class G:
    """Builds a graph; nodes are numbered in the order they are first reached."""

    def __init__(self, S, n, kinds, arity, via):
        self.S, self.n, self.kinds, self.arity, self.via = S, n, kinds, arity, via
        self.nodes = []
        self.x = S.int("x", 0, 999)
        self.slots = 0

    def node(self):
        S = self.S
        i = len(self.nodes)
        kind = S.choice("kind%d" % i, self.kinds)
        if kind == "list":
            o = []
        elif kind == "dict":
            o = {}
        elif kind == "JSObject":
            o = JSObject()
        elif kind == "JSArray" or kind == "sparse":
            o = JSArray()
        elif kind == "JSMap":
            o = JSMap()
        elif kind == "JSSet":
            o = JSSet()
        else:
            o = JSErrorData(message="m%d" % i)
        self.nodes.append(o)
        top = 1 if kind == "error" else self.arity
        k = top if self.n > 2 else S.choice("len%d" % i, top + 1)
        for j in range(k):
            t = self.target(i, j)
            if kind == "list":
                o.append(t)
            elif kind == "dict":
                o[10 * j] = t
            elif kind == "JSObject":
                # integer keys are kept in ascending order, so write them descending
                o[5 - j if i == 0 else "k%d" % j] = t
            elif kind == "JSArray":
                if j == 0:
                    o.array.append(t)
                else:
                    o["k"] = t
            elif kind == "sparse":
                o[40 * (j + 1)] = t
            elif kind == "JSMap":
                # the first edge is a key, the second a value
                if j == 0:
                    o[t] = i
                else:
                    o["v%d" % i] = t
            elif kind == "JSSet":
                o.add(t)
            else:
                o.cause = t
        return o

    def target(self, i, j):
        S = self.S
        self.slots = self.slots + 1
        opts = len(self.nodes) + 1 + (1 if len(self.nodes) < self.n else 0)
        c = S.choice("e%d.%d" % (i, j), opts)
        if c == 0:
            return self.slots * 1000 + self.x
        if c <= len(self.nodes):
            t = self.nodes[c - 1]
        else:
            t = self.node()
        if self.via and S.flag("via%d.%d" % (i, j)):
            return (t, 7)
        return t


def same_graph(S, a, b, ab, ba):
    """The value read back has the same shape."""
    if isinstance(a, int):
        S.check(type(b) is int, "a leaf changed its type")
        S.check(a == b, "a leaf changed")
        return
    if isinstance(a, str):
        S.check(a == b, "a leaf changed")
        return
    if isinstance(a, tuple):
        S.check(type(b) is JSArray and len(b) == len(a) and len(b.array) == len(a), "tuple")
        for p, q in zip(a, b.array):
            same_graph(S, p, q, ab, ba)
        return
    if id(a) in ab or id(b) in ba:
        S.check(id(a) in ab and ab[id(a)] is b, "one object became two")
        S.check(id(b) in ba and ba[id(b)] is a, "two objects became one")
        return
    ab[id(a)] = b
    ba[id(b)] = a
    if isinstance(a, list):
        S.check(type(b) is JSArray and len(b) == len(a) and len(b.array) == len(a), "list length")
        for p, q in zip(a, b.array):
            same_graph(S, p, q, ab, ba)
    elif isinstance(a, (dict, JSMap)):
        S.check(type(b) is JSMap and len(b) == len(a), "map size")
        for (k, v), (k2, v2) in zip(a.items(), b.items()):
            same_graph(S, k, k2, ab, ba)
            same_graph(S, v, v2, ab, ba)
    elif isinstance(a, JSArray):
        S.check(type(b) is JSArray and len(b) == len(a) and len(b.array) == len(a.array), "array length")
        for (k, v), (k2, v2) in zip(a.items(), b.items()):
            S.check(k == k2, "array keys")
            same_graph(S, v, v2, ab, ba)
    elif isinstance(a, JSObject):
        S.check(type(b) is JSObject and len(b) == len(a), "object size")
        for (k, v), (k2, v2) in zip(a.items(), b.items()):
            S.check(k == k2, "object keys")
            same_graph(S, v, v2, ab, ba)
    elif isinstance(a, JSSet):
        S.check(type(b) is JSSet and len(b) == len(a), "set size")
        for p, q in zip(a, b):
            same_graph(S, p, q, ab, ba)
    else:
        S.check(type(b) is JSError, "error kind")
        S.check(a.message == b.message, "error message")
        if a.cause is None:
            S.check(b.cause is None, "error cause")
        else:
            same_graph(S, a.cause, b.cause, ab, ba)


def wire_graph(S, a, w, ids):
    """An independent reader sees the same graph (identity by V8's numbering)."""
    if isinstance(a, int):
        S.check(isinstance(w, v8.Num) and w.v == a, "leaf on the wire")
        return
    if isinstance(a, str):
        S.check(w == a, "leaf on the wire")
        return
    S.check(isinstance(w, v8.N), "not an object on the wire")
    if id(a) in ids:
        S.check(ids[id(a)] == w.id, "a reference leads to another object on the wire")
        return
    ids[id(a)] = w.id
    if isinstance(a, (list, tuple)):
        S.check(w.kind == "array" and len(w.items) == len(a), "list on the wire")
        for p, q in zip(a, w.items):
            wire_graph(S, p, q, ids)
    elif isinstance(a, (dict, JSMap)):
        S.check(w.kind == "map" and len(w.items) == len(a), "map on the wire")
        for (k, v), (k2, v2) in zip(a.items(), w.items):
            wire_graph(S, k, k2, ids)
            wire_graph(S, v, v2, ids)
    elif isinstance(a, JSArray):
        S.check(w.kind == "array", "array on the wire")
        got = list(w.props)
        if w.info == "dense":
            got = [(v8.Num("U", i), x) for i, x in enumerate(w.items) if x is not v8.HOLE] + got
        S.check(len(got) == len(a), "array contents on the wire")
        for (k, v), (k2, v2) in zip(a.items(), got):
            S.check((k2.v if isinstance(k2, v8.Num) else k2) == k, "array keys on the wire")
            wire_graph(S, v, v2, ids)
    elif isinstance(a, JSObject):
        S.check(w.kind == "object" and len(w.props) == len(a), "object on the wire")
        for (k, v), (k2, v2) in zip(a.items(), w.props):
            S.check((k2.v if isinstance(k2, v8.Num) else k2) == k, "object keys on the wire")
            wire_graph(S, v, v2, ids)
    elif isinstance(a, JSSet):
        S.check(w.kind == "set" and len(w.items) == len(a), "set on the wire")
        for p, q in zip(a, w.items):
            wire_graph(S, p, q, ids)
    else:
        S.check(w.kind == "error", "error on the wire")
        S.check(("cause" in w.info) == (a.cause is not None), "error cause on the wire")
        if a.cause is not None:
            wire_graph(S, a.cause, w.info["cause"], ids)


def graph(S, n, kinds=KINDS, arity=2, via=False):
    b = G(S, n, kinds, arity, via)
    g = b.node()
    d = dumps(g, features=SerializationFeature.CircularErrorCause)
    wire_graph(S, g, v8.parse(d), {})
    same_graph(S, g, loads(d), {}, {})


HOMES = ["list", "tuple", "JSObject", "JSArray name", "sparse", "JSMap key", "JSMap value", "JSSet", "cause"]


def home(p, o, i):
    if p == "list":
        return [i, o]
    if p == "tuple":
        return (i, o)
    if p == "JSObject":
        return JSObject(k=o)
    if p == "JSArray name":
        a = JSArray([i])
        a["k"] = o
        return a
    if p == "sparse":
        return JSArray({40: o})
    if p == "JSMap key":
        return JSMap([(o, i)])
    if p == "JSMap value":
        return JSMap([(i, o)])
    if p == "JSSet":
        return JSSet([o])
    return JSErrorData(message="m%d" % i, cause=o)


def on_wire(p, w):
    if p == "list" or p == "tuple":
        return w.items[1]
    if p == "JSObject" or p == "JSArray name" or p == "sparse":
        return w.props[0][1]
    if p == "JSMap key":
        return w.items[0][0]
    if p == "JSMap value":
        return w.items[0][1]
    if p == "JSSet":
        return w.items[0]
    return w.info["cause"]


def read_back(p, r):
    if p == "list" or p == "tuple":
        return r[1]
    if p == "JSObject" or p == "JSArray name":
        return r["k"]
    if p == "sparse":
        return r[40]
    if p == "JSMap key":
        return list(r)[0]
    if p == "JSMap value":
        return list(r.values())[0]
    if p == "JSSet":
        return list(r)[0]
    return r.cause


def leaves(S, homes=HOMES, kinds=None):
    """Objects of every kind, used three times from different containers; equal objects stay apart unless nothing can tell them apart."""
    x = S.int("x", 0, 200)
    kind = S.choice("kind", [k for k in ids.WITH_ID] if kinds is None else kinds)
    p = S.choice("home1", homes)
    q = S.choice("home2", homes)
    same = S.flag("same")
    a = ids.make(kind, 0, x)
    b = a if same else ids.make(kind, 0, x)
    if S.flag("list first"):
        g = [[a], home(p, b, 1), home(q, a, 2), 77, b]
    else:
        g = [home(p, b, 1), home(q, a, 2), [a], 77, b]
    ia, ip, iq = (0, 1, 2) if g[0].__class__ is list and len(g[0]) == 1 else (2, 0, 1)
    d = dumps(g, features=SerializationFeature.CircularErrorCause | SerializationFeature.ResizableArrayBuffers)
    w = v8.parse(d)
    wa, wb, wq, wlast = w.items[ia].items[0], on_wire(p, w.items[ip]), on_wire(q, w.items[iq]), w.items[4]
    S.check(isinstance(wa, v8.N) and wa.kind == ids.WITH_ID[kind], "kind on the wire")
    S.check(wq is wa, "a shared object became two on the wire")
    S.check(wlast is wb, "a shared object became two on the wire")
    try:
        hash(a)
        frozen = kind != "exception"
    except TypeError:
        frozen = False
    if same or not frozen:
        S.check((wa is wb) == same, "objects merged or split on the wire")
    S.check(isinstance(w.items[3], v8.Num) and w.items[3].v == 77, "the rest on the wire")
    r = loads(d)
    S.check(type(r) is JSArray and len(r) == 5 and r[3] == 77, "the rest read back")
    ra, rb, rq, rlast = r[ia][0], read_back(p, r[ip]), read_back(q, r[iq]), r[4]
    S.check(rq is ra or wa.kind == "wrapper" and type(rq) is type(ra) and rq == ra, "a shared object became two")
    S.check(rlast is rb or wa.kind == "wrapper" and type(rlast) is type(rb) and rlast == rb, "a shared object became two")
    if wa.kind != "wrapper":
        S.check((ra is rb) == (wa is wb), "objects merged or split")
        S.reached("apart" if wa is not wb else "one" if same else "merged")
