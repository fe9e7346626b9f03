"""C28: settings for repr() and reprs of cyclic values."""
import warnings
from v8serialize.jstypes import (JSArray, JSArrayBuffer, JSArrayBufferTransfer, JSDataView, JSFloat64Array, JSInt16Array, JSSharedArrayBuffer, JSError, JSErrorData, JSHole, JSMap, JSObject, JSPrimitiveObject, JSRepr, JSReprSettingsNotRestored, JSSet,
                                 JSUint8Array, JSUndefined, default_js_repr, js_repr_settings)
from v8serialize.jstypes import _repr

FIELDS = ["maxjsobject", "maxjsarray", "maxlevel", "maxtuple", "maxlist", "maxarray", "maxdict", "maxset", "maxfrozenset", "maxdeque", "maxstring", "maxlong", "maxother", "fillvalue", "indent"]


class Left(Exception):
    pass


def state():
    return {f: getattr(_repr.active_js_repr, f) for f in FIELDS}


def same(S, a, b, what):
    for f in FIELDS:
        S.check(a[f] is b[f] or a[f] == b[f], what)


def enter(S, i, made, field):
    """One way of opening a scope -> (context manager, its settings, forced)"""
    how = S.choice("how%d" % i, ["field", "field forced", "own", "own again", "nothing"] if made else ["field", "field forced", "own", "nothing"])
    x = S.int("x%d" % i, -2, 200)
    want = state()
    if how == "nothing":
        return js_repr_settings(), want, False
    if how == "own" or how == "own again":
        r = JSRepr(**{FIELDS[field]: x}) if how == "own" else made[0]
        made.append(r)
        want = {f: getattr(r, f) for f in FIELDS}
        S.check(how != "own" or want[FIELDS[field]] == x, "fields of a JSRepr")
        return js_repr_settings(r), want, False
    want[FIELDS[field]] = x
    second = FIELDS[(field + 5) % len(FIELDS)]
    return js_repr_settings(**{FIELDS[field]: x, second: None, "force_restore": how == "field forced"}), dict(want, indent=None) if second == "indent" else want, how == "field forced"


def history(S, n, fields=(0, 2, 13, 14), lifo=True):
    """Scopes opened and left, normally or by an exception."""
    start = _repr.active_js_repr
    try:
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            run(S, n, fields, lifo, seen)
    finally:
        _repr.active_js_repr = start


def run(S, n, fields, lifo, seen):
    start = state()
    first = _repr.active_js_repr
    open_ = []
    made = []
    opened = 0
    field = S.choice("field", list(fields))
    for step in range(2 * n):
        may_open = opened < n
        if open_ and (not may_open or S.flag("leave%d" % step)):
            j = len(open_) - 1 if lifo else S.choice("which%d.%d" % (step, len(open_)), len(open_))
            cm, before, mine, forced, inside = open_[j]
            del open_[j]
            active = _repr.active_js_repr
            err = S.flag("error%d" % step)
            count = len(seen)
            if err:
                try:
                    swallowed = cm.__exit__(Left, Left("left"), None)
                except Left:
                    swallowed = False
                S.check(not swallowed, "an exception is swallowed")
            else:
                cm.__exit__(None, None, None)
            if active is mine or forced:
                S.check(_repr.active_js_repr is before[0], "the settings in force before are not restored")
                same(S, state(), before[1], "the settings in force before are not restored")
                S.check(len(seen) == count, "a warning without a reason")
            else:
                S.reached("out of order")
                S.check(_repr.active_js_repr is active, "the settings of another scope are changed")
                S.check(len(seen) == count + 1 and seen[count].category is JSReprSettingsNotRestored, "no warning")
        elif may_open:
            before = (_repr.active_js_repr, state())
            cm, want, forced = enter(S, opened, made, field)
            r = cm.__enter__()
            opened += 1
            S.check(_repr.active_js_repr is r, "the settings in force are not those of the scope")
            same(S, state(), want, "the settings of a scope")
            open_.append((cm, before, r, forced, want))
        else:
            break
    if lifo and not open_:
        S.reached("all left")
        S.check(_repr.active_js_repr is first, "the first settings are not restored")
        same(S, state(), start, "the first settings are not restored")
        S.check(len(seen) == 0, "a warning without a reason")


def names(S):
    """Unknown settings are refused and change nothing."""
    before = _repr.active_js_repr
    for f in (lambda: js_repr_settings(maxfoo=1), lambda: js_repr_settings(maxlevel=1, maxfoo=None)):
        try:
            with f():
                S.fail("an unknown setting is accepted")
        except TypeError:
            pass
        S.check(_repr.active_js_repr is before, "settings are changed by a refused call")
    try:
        JSRepr(maxfoo=1)
        S.fail("an unknown setting is accepted")
    except TypeError:
        pass


class MyObject(JSObject):
    pass


class MyError(JSError):
    pass


class MySet(JSSet):
    pass


KINDS = ["JSObject", "JSArray", "sparse", "JSMap", "JSSet", "JSError", "JSErrorData", "list", "dict", "MyObject"]


class Bomb:
    def __repr__(self):
        raise KeyboardInterrupt


class Bad:
    def __repr__(self):
        raise ValueError


def build(S, n, kinds, leaf, arity):
    """A graph of n values, each referring to any of them."""
    ks = [S.choice("kind%d" % i, list(kinds)) for i in range(n)]
    os = [{"JSObject": JSObject, "JSArray": JSArray, "sparse": JSArray, "JSMap": JSMap, "JSSet": JSSet, "JSError": lambda: JSError("m"), "JSErrorData": lambda: JSErrorData(message="m"),
           "list": list, "dict": dict, "MyObject": MyObject}[k]() for k in ks]
    edges = []
    for i in range(n):
        ts = []
        for j in range(1 if ks[i] in ("JSError", "JSErrorData") else arity):
            t = S.choice("e%d.%d" % (i, j), n + 1)
            v = leaf if t == n else os[t]
            ts.append(t)
            k, o = ks[i], os[i]
            if k in ("JSObject", "MyObject", "dict", "JSMap"):
                o["k%d" % j] = v
            elif k == "JSArray" or k == "list":
                o.array.append(v) if k == "JSArray" else o.append(v)
            elif k == "sparse":
                o[30 * (j + 1)] = v
            elif k == "JSSet":
                o.add(v)
            else:
                o.cause = v
        edges.append(ts)
    return ks, os, edges


def cyclic(edges, i, path):
    if i == len(edges):
        return False
    if i in path:
        return True
    return any([cyclic(edges, t, path + [i]) for t in edges[i]])


def reaches(edges, i, leaf, seen):
    if i == leaf:
        return True
    if i in seen or i == len(edges):
        return False
    seen.append(i)
    return any([reaches(edges, t, leaf, seen) for t in edges[i]])


def graphs(S, n, kinds=KINDS, arity=1, indent=False):
    """Reprs of values with cycles end, mark every cycle, and leave nothing behind."""
    ks, os, edges = build(S, n, kinds, 7, arity)
    with js_repr_settings(indent=2 if indent and S.flag("indent") else None, maxother=10**6):
        a = repr(os[0])
        S.check(isinstance(a, str) and len(a) > 0, "a repr")
        b = repr(os[0])
        S.check(a == b, "repr() depends on an earlier repr()")
        c = repr(JSObject(a=os[0], b=os[0]))
        S.check(ks[0] in ("list", "dict", "JSErrorData") or c.count("\n") > 0 or c == "JSObject(a=%s, b=%s)" % (a, a), "a value within another")
    cyc = cyclic(edges, 0, [])
    if not cyc:
        S.reached("tree")
    else:
        S.reached("cycle")
    S.check(("..." in a) == cyc, "the mark of a cycle")
    S.check(("7" in a) == reaches(edges, 0, n, []), "leaves")
    S.check(("MyObject(" in a) == any([ks[i] == "MyObject" and reaches(edges, 0, i, []) for i in range(n)]), "names of subclasses")


def interrupted(S, n, kinds=KINDS, arity=1):
    """A repr() that raises leaves nothing behind."""
    bomb = S.flag("bomb")
    ks, os, edges = build(S, n, kinds, Bomb() if bomb else Bad(), arity)
    hit = reaches(edges, 0, n, [])
    try:
        a = repr(os[0])
        S.check(not (hit and bomb), "an exception is swallowed")
    except KeyboardInterrupt:
        S.reached("raised")
        S.check(hit and bomb, "an exception from nowhere")
    except ValueError:
        S.check(hit and not bomb and ks[0] in ("list", "dict", "JSErrorData"), "an error of a repr()")
    running = getattr(JSRepr, "_RecursiveReprMixin__repr_running")
    S.check(len(running) == 0, "values stay marked as being in progress")
    for i in range(n):
        if not reaches(edges, i, n, []) and not cyclic(edges, i, []):
            S.check("..." not in repr(os[i]), "a repr() after an error")


def limits(S, n, top=4):
    """Limits cut what is beyond them and nothing else."""
    k = S.choice("k", range(n + 1))
    lim = S.int("limit", 0, top)
    kind = S.choice("kind", ["JSObject elements", "JSObject names", "JSArray", "JSMap", "JSSet", "mixed", "odd names", "array names", "sparse"])
    fill = S.choice("fill", ["...", "", "<more>"])
    vals = [1000 + i for i in range(k)]
    if kind == "JSObject elements":
        o = JSObject({i: v for i, v in enumerate(vals)})
    elif kind == "JSObject names":
        o = JSObject({"n%d" % i: v for i, v in enumerate(vals)})
    elif kind == "JSArray":
        o = JSArray(vals)
    elif kind == "JSMap":
        o = JSMap([(i, v) for i, v in enumerate(vals)])
    elif kind == "JSSet":
        o = JSSet(vals)
    elif kind == "mixed":
        o = JSObject({(i if i % 2 == 0 else "n%d" % i): v for i, v in enumerate(vals)})
    elif kind == "odd names":
        o = JSObject({(i if i % 2 == 0 else "-%d" % i): v for i, v in enumerate(vals)})
    elif kind == "array names":
        o = JSArray(vals[:1])
        for i, v in enumerate(vals[1:]):
            o["n%d" % i] = v
    else:
        o = JSArray()
        o[100] = JSHole
        for i, v in enumerate(vals):
            o[10 * i] = v
    lim = S.concrete(lim)
    with js_repr_settings(maxjsobject=lim, maxjsarray=lim, maxdict=lim, maxset=lim, fillvalue=fill, indent=S.choice("indent", [None, 0, 3])):
        r = repr(o)
    shown = len([v for v in vals if str(v) in r])
    S.check(shown == (k if k < lim else lim), "number of entries shown")
    S.check(fill == "" or (fill in r) == (k > lim), "mark of a cut")
    with js_repr_settings(maxlevel=1):
        r = repr(JSObject(a=o))
        S.check(r == "JSObject(a=...)", "values beyond the level are cut")
        S.check(repr(o) != "" and all([str(v) not in repr(o) for v in vals]), "values beyond the level are cut")


LEVELS = ["JSObject", "JSObject name", "JSObject index", "JSObject both", "JSArray", "JSArray name", "JSArray odd name", "sparse", "JSMap", "JSMap key", "JSSet", "JSError", "JSError subclass", "list", "dict", "tuple"]


def level_of(kind, i, v):
    """A value of the kind around v, which also has the leaf 1000 + i."""
    leaf = 1000 + i
    if kind == "JSObject":
        return JSObject({"a b": leaf, "c": v})
    if kind == "JSObject name":
        return JSObject(a=leaf, b=v)
    if kind == "JSObject index":
        return JSObject({0: leaf, 1: v})
    if kind == "JSObject both":
        return JSObject({0: leaf, "a": v})
    if kind == "JSArray":
        return JSArray([leaf, v])
    if kind == "JSArray name":
        o = JSArray([leaf])
        o["a"] = v
        return o
    if kind == "JSArray odd name":
        o = JSArray([v])
        o["a b"] = leaf
        return o
    if kind == "sparse":
        o = JSArray()
        o[100] = leaf
        o[7] = v
        return o
    if kind == "JSMap":
        return JSMap([("a", leaf), (5, v)])
    if kind == "JSMap key":
        return JSMap([(v, leaf)])
    if kind == "JSSet":
        return JSSet([leaf, v])
    if kind == "JSError":
        return JSError("m%d" % leaf, cause=v)
    if kind == "JSError subclass":
        return MyError("m", cause=v, stack="s%d" % leaf)
    if kind == "list":
        return [leaf, v]
    if kind == "dict":
        return {"a": leaf, "b": v}
    return (leaf, v)


def levels(S, n, top):
    """Exactly maxlevel levels of nested values are shown, whatever their kinds."""
    lim = S.concrete(S.int("maxlevel", 0, top))
    v = 1000 + n
    for i in range(n):
        j = n - 1 - i
        v = level_of(S.choice("kind%d" % j, LEVELS if j else LEVELS[:13]), j, v)
    with js_repr_settings(maxlevel=lim, indent=S.choice("indent", [None, 2])):
        r = repr(v)
    for i in range(n + 1):
        S.check((str(1000 + i) in r) == (min(i + 1, n) < lim), "levels shown")


def content(S, n):
    """Without cuts a repr() evaluates to an equal value."""
    kind = S.choice("kind", ["JSObject", "JSArray", "sparse", "JSMap", "JSSet", "MyObject", "MySet", "JSErrorData" if False else "JSObject nested"])
    k = S.choice("k", range(n + 1))
    vs = []
    for i in range(k):
        c = S.choice("v%d" % i, ["int", "str", "none", "hole" if kind == "JSArray" else "list", "map", "buffer"])
        vs.append({"int": 5 + i, "str": "t'%d" % i, "none": None, "hole": JSHole, "list": [i], "map": JSMap({"a": i}), "buffer": JSArrayBuffer(b"a%d" % i)}[c])
    if kind == "JSObject" or kind == "MyObject":
        o = (JSObject if kind == "JSObject" else MyObject)({(i if S.flag("index%d" % i) else ["a", "b c", "d"][i % 3]): v for i, v in enumerate(vs)})
    elif kind == "JSArray":
        o = JSArray(vs)
        if S.flag("name"):
            o["x"] = 1
        elif S.flag("odd name"):
            o["x y"] = 1
        if len(o) == 0:
            return
    elif kind == "sparse":
        o = JSArray({20 * (i + 1): v for i, v in enumerate(vs)})
        o["x"] = 2
    elif kind == "JSMap":
        o = JSMap([(v, i) for i, v in enumerate(vs)])
    elif kind == "JSSet" or kind == "MySet":
        o = (JSSet if kind == "JSSet" else MySet)(vs)
    else:
        o = JSObject(a=JSObject({i: v for i, v in enumerate(vs)}), b=JSArray([1]))
    with js_repr_settings(indent=S.choice("indent", [None, 2])):
        r = repr(o)
    back = eval(r)
    S.check(type(back) is type(o), "type of the evaluated repr()")
    if kind in ("JSMap", "JSSet", "MySet"):
        S.check(len(back) == len(o), "size of the evaluated repr()")
        if not any([isinstance(v, list) for v in vs]) and not any([isinstance(v, JSMap) for v in vs]) and not any([isinstance(v, JSArrayBuffer) for v in vs]):
            S.check(back == o, "value of the evaluated repr()")
    else:
        S.check(back == o, "value of the evaluated repr()")


import keyword
NAMES = sorted(keyword.kwlist) + ["match", "_", "self", "a1", "1a", "a b", "", "é", "\ufb01", "ª", "x́", "\u212b", "K", "__debug__"]


def kwargs(S, n):
    """Property names that are keywords, or that Python spells differently."""
    kind = S.choice("kind", [JSObject, JSArray])
    at = S.choice("elements", [[], [1], [1, JSHole, 3]])
    names = [S.choice("name%d" % i, NAMES) for i in range(n)]
    o = kind()
    for i, v in enumerate(at):
        if v is not JSHole:
            o[i] = v
    for i, k in enumerate(names):
        o[k] = 100 + i
    with js_repr_settings(indent=S.choice("indent", [None, 2])):
        r = repr(o)
    try:
        back = eval(r)
    except SyntaxError:
        S.fail("a repr() that cannot be evaluated: " + " ".join(names))
        return
    S.check(type(back) is type(o) and back == o, "value of the evaluated repr(): " + " ".join(names))


VIEWS = [JSDataView, JSUint8Array, JSInt16Array, JSFloat64Array]


def buffers(S, n):
    """Reprs of buffers and views evaluate to equal ones."""
    data = bytes([65 + i for i in range(S.choice("length", range(n + 1)))])
    how = S.choice("buffer", ["plain", "resizable", "full", "readonly", "view of bytes", "view of bytearray", "shared", "transfer", "bytes", "bytearray"])
    if how == "plain":
        b = JSArrayBuffer(data)
    elif how == "resizable":
        b = JSArrayBuffer(data, max_byte_length=len(data) + S.choice("more", [0, 1, 9]))
    elif how == "full":
        b = JSArrayBuffer(data, resizable=True)
    elif how == "readonly":
        b = JSArrayBuffer(data, readonly=True)
    elif how == "view of bytes":
        b = JSArrayBuffer(memoryview(data), copy_data=False, readonly=True)
    elif how == "view of bytearray":
        b = JSArrayBuffer(memoryview(bytearray(data)), copy_data=False)
    elif how == "shared":
        b = JSSharedArrayBuffer(len(data))
    elif how == "transfer":
        b = JSArrayBufferTransfer(len(data))
    else:
        b = data if how == "bytes" else bytearray(data)
    o = b
    cls = S.choice("as", [None] + VIEWS)
    if cls is not None:
        length = S.choice("items", [None, 0, 1, 2])
        o = cls(b, item_offset=S.choice("offset", [0, 1, 3]), item_length=length, readonly=S.choice("readonly", [None, True]))
    elif how in ("bytes", "bytearray"):
        return
    back = eval(S.concrete(repr(o)))
    S.check(type(back) is type(o), "type of the evaluated repr()")
    if cls is not None:
        S.check(back.item_offset == o.item_offset and back.item_length == o.item_length, "range in the repr() of a view")
        S.check(back.readonly is o.readonly, "readonly in the repr() of a view")
        o, back = o.backing_buffer, back.backing_buffer
        S.check(type(back) is type(o), "type of the evaluated repr()")
    S.check(back == o, "value of the evaluated repr(): " + how)
    if isinstance(o, JSArrayBuffer):
        S.check(back.resizable == o.resizable and back.max_byte_length == o.max_byte_length, "limit in the repr() of a buffer")
        S.check(back.data.readonly == o.data.readonly, "readonly in the repr() of a buffer")


def errors(S):
    """Reprs of errors evaluate to equal ones."""
    kw = {}
    if S.flag("named"):
        kw["name"] = S.choice("name", ["Error", "TypeError", "UriError", "Custom", ""])
    for f in ("stack", "cause"):
        if S.flag("has " + f):
            kw[f] = S.choice(f, ["", "a'\"b", "line\nline"])
    if S.flag("has a value for its cause"):
        kw["cause"] = S.choice("cause value", [JSUndefined, 0, False, JSError("inner"), JSObject(a=1), [], JSMap([(1, 2)])])
    o = JSError(S.choice("message", ["", "m", "it's"]), **kw)
    with js_repr_settings(indent=S.choice("indent", [None, 2])):
        r = repr(o)
    back = eval(S.concrete(r))
    S.check(type(back) is JSError, "type of the evaluated repr()")
    S.check(back.name == o.name and back.message == o.message and back.stack == o.stack, "texts of the evaluated repr()")
    S.check(type(back.cause) is type(o.cause) and back.cause == o.cause, "cause of the evaluated repr()")
