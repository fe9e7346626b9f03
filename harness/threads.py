"""C32: calls in several threads do not disturb each other."""
import threading
from v8serialize import Decoder, Encoder, EncodeV8SerializeError, dumps, loads
from v8serialize.constants import SerializationFeature
from v8serialize.decode import DecodeStep, TagReader
from v8serialize.encode import TagWriter, default_encode_steps, serialize_object_references
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSMap, JSObject, JSSet
from hx import again, pure

ALL = SerializationFeature(15)


class Stopped(BaseException):
    """Ends a thread whose run is over."""


class Schedule:
    """Runs functions in threads of their own, one at a time; which one goes on at each switch point is a choice."""

    def __init__(self, S, switches):
        self.S = S
        self.left = switches
        self.count = 0
        self.results = []
        self.failure = None
        self.running = False
        self.current = None

    def run(self, fns):
        self.go = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * len(fns)
        self.results = [None] * len(fns)
        self.main = threading.Semaphore(0)
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        self.running = True
        self.current = 0
        for t in ts:
            t.start()
        self.go[0].release()
        self.main.acquire()
        self.running = False
        for g in self.go:
            g.release()
        for t in ts:
            t.join()
        if self.failure is not None:
            raise self.failure
        return self.results

    def body(self, i, f):
        self.go[i].acquire()
        if not self.running:
            return
        try:
            self.results[i] = f()
        except Stopped:
            return
        except BaseException as e:
            self.failure = e
            self.running = False
            self.main.release()
            return
        self.done[i] = True
        for j, d in enumerate(self.done):
            if not d:
                self.current = j
                self.go[j].release()
                return
        self.main.release()

    def point(self):
        """The running thread can be interrupted here."""
        if not self.running or self.left == 0:
            return
        others = [j for j, d in enumerate(self.done) if not d and j != self.current]
        if not others:
            return
        self.count += 1
        if not self.S.flag("switch%d" % self.count):
            return
        self.left -= 1
        me = self.current
        to = others[0] if len(others) == 1 else self.S.choice("to%d" % self.count, others)
        self.current = to
        self.go[to].release()
        self.go[me].acquire()
        if not self.running:
            raise Stopped


class Leaf:
    """Comparing or showing it can be interrupted."""

    def __init__(self, plan, v):
        self.plan, self.v = plan, v

    def __eq__(self, other):
        self.plan.point()
        if not isinstance(other, Leaf):
            return NotImplemented
        if self.v is None or other.v is None:
            raise KeyError("gone")
        return self.v == other.v

    __hash__ = None

    def __repr__(self):
        self.plan.point()
        if self.v is None:
            raise KeyError("gone")
        return "<%d>" % self.v


def outcome(f):
    try:
        return f()
    except (KeyError, EncodeV8SerializeError) as e:
        return type(e)


SHAPES = ["object", "array", "map", "set", "error", "error data", "nested", "self", "pair"]


def build(shape, leaf, n=1):
    if shape == "object":
        return JSObject([("k%d" % i, leaf) for i in range(n)])
    if shape == "array":
        return JSArray([leaf] * n)
    if shape == "map":
        return JSMap([(i, leaf) for i in range(n)])
    if shape == "set":
        return JSSet([leaf])
    if shape == "error":
        return JSError("m", cause=leaf)
    if shape == "error data":
        return JSErrorData(message="m", cause=leaf)
    if shape == "nested":
        return JSObject(a=JSMap([(1, leaf)]), b=leaf)
    if shape == "self":
        o = JSObject(a=leaf)
        o["self"] = o
        return o
    o, p = JSArray([leaf]), JSMap([(1, leaf)])
    o["p"] = p
    p[2] = o
    return o


def compare(S, switches, shapes=SHAPES, n=2, hi=1, third=False):
    """== in two threads, on the same values or on others that share some."""
    plan = Schedule(S, switches)
    shape = S.choice("shape", shapes)
    x, y, z = S.int("x", 0, hi), S.int("y", 0, hi), S.int("z", 0, hi)
    a, b, c, d = [build(shape, Leaf(plan, v), n) for v in (x, y, z, None)]
    pairs = {"ab": (a, b), "ba": (b, a), "ac": (a, c), "cb": (c, b), "bc": (b, c), "fails": (a, d)}
    other = S.choice("other", sorted(pairs))
    p, q = pairs[other]
    eq = lambda v, w: outcome(lambda: v == w)
    want = [a == b, eq(p, q)]
    got = plan.run([lambda: eq(a, b), lambda: eq(p, q)] + [lambda: eq(b, a)] * third)
    S.check(not third or got[2] == want[0], "a comparison in another thread changed the result")
    S.check(got[0] == want[0] and got[1] == want[1], "a comparison in another thread changed the result: " + shape + " " + other)
    S.check((a == b) == want[0] and eq(p, q) == want[1], "a comparison in another thread changed a later result")
    S.check(want[0] == (x == y), "result")
    S.reached("equal" if want[0] else "different")


def show(S, switches, shapes=SHAPES, third=False):
    """repr() in two threads."""
    plan = Schedule(S, switches)
    shape = S.choice("shape", shapes)
    a, b = build(shape, Leaf(plan, 1), 2), build(shape, Leaf(plan, 2), 2)
    o = S.choice("other", ["same", "another", "around", "fails"])
    v = a if o == "same" else b if o == "another" else JSObject(v=a) if o == "around" else [a, build(shape, Leaf(plan, None))]
    text = lambda w: outcome(lambda: repr(w))
    want = [repr(a), text(v)]
    got = plan.run([lambda: text(a), lambda: text(v)] + [lambda: text(b)] * third)
    S.check(got[:2] == want, "repr() in another thread changed the text: " + shape)
    S.check([repr(a), text(v)] == want, "repr() in another thread changed a later text")


def values(S, x):
    """Values that share parts."""
    part = S.choice("part", ["list", "JSObject", "JSMap", "set", "error", "date-like"])
    p = [x] if part == "list" else JSObject(k=x) if part == "JSObject" else JSMap([(x, "v")]) if part == "JSMap" else \
        {"s"} if part == "set" else JSErrorData(message="m", cause=[x]) if part == "error" else (x, "t")
    return [p, p, "s"], {"a": p, "b": (1, 2)}


def write(S, switches, hi):
    """dumps() in two threads with the same steps."""
    plan = Schedule(S, switches)
    u, v = values(S, S.int("x", 0, hi))

    def interrupt(value, /, ctx, next):
        plan.point()
        next(value)
        plan.point()
    steps = [interrupt, *default_encode_steps] if S.flag("shared default") else [interrupt, serialize_object_references, TagWriter()]
    enc = Encoder(encode_steps=steps, features=ALL)
    calls = {"dumps": lambda x: dumps(x, encode_steps=steps, features=ALL), "encoder": lambda x: bytes(enc.encode(x))}
    f = calls[S.choice("how", sorted(calls))]
    other = S.choice("other", ["same", "shares", "fails"])
    w = u if other == "same" else v if other == "shares" else [v["a"], pure.Bad(), u]
    g = lambda x: outcome(lambda: f(x))
    want = [f(u), g(w)]
    before = pure.seen([u, v], {})
    got = plan.run([lambda: g(u), lambda: g(w)])
    S.check(got[0] == want[0] and got[1] == want[1], "dumps() in another thread changed what is written")
    S.check(pure.seen([u, v], {}) == before, "values changed")
    S.check(f(u) == want[0] and g(w) == want[1], "dumps() in another thread changed a later one")


DATA = [b"\xff\x0fA\x03o\"\x01a^\x00{\x01^\x01\x22\x01s$\x00\x03", b"\xff\x0f;\"\x01kA\x01I\x02$\x00\x01\"\x01l^\x01:\x04",
        b"\xff\x0f'A\x01rm\"\x01e.$\x00\x01^\x01,\x02", b"\xff\x0fA\x02B\x02abVB\x00\x02\x00^\x02$\x00\x02"]


def read(S, switches):
    """loads() in two threads with the same steps."""
    plan = Schedule(S, switches)

    def interrupt(tag, /, ctx, next):
        plan.point()
        r = next(tag)
        plan.point()
        return r
    steps = [interrupt, TagReader()]
    dec = Decoder(decode_steps=steps)
    how = S.choice("how", ["loads", "decoder"])
    f = (lambda d: loads(d, decode_steps=steps)) if how == "loads" else dec.decodes
    d, e = S.choice("first", DATA), S.choice("second", DATA)
    want = [f(d), f(e)]
    got = plan.run([lambda: f(d), lambda: f(e)])
    for w, g in zip(want, got):
        again.Pairs(S).same(w, g)
        pure.apart(S, w, g)
    pure.apart(S, got[0], got[1])
