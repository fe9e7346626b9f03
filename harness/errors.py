"""Errors through dumps, V8's reader and loads (C18)."""
from v8serialize import DecodeV8SerializeError, IllegalCyclicReferenceV8SerializeError, dumps, loads
from v8serialize.constants import JSErrorName, SerializationErrorTag, SerializationFeature
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSMap, JSObject, JSSet, JSUndefined
from hx import v8

PROTO = {"EvalError": 69, "RangeError": 82, "ReferenceError": 70, "SyntaxError": 83, "TypeError": 84, "UriError": 85, "URIError": 85, "Error": 69}
MEMBER = {69: JSErrorName.EvalError, 82: JSErrorName.RangeError, 70: JSErrorName.ReferenceError, 83: JSErrorName.SyntaxError,
          84: JSErrorName.TypeError, 85: JSErrorName.UriError}
NAMES = ["EvalError", "RangeError", "ReferenceError", "SyntaxError", "TypeError", "UriError", "URIError", "Error"]
CIRC = SerializationFeature.CircularErrorCause


def canonical(name):
    """The JSErrorName a name reads back as."""
    if name == "URIError":
        return JSErrorName.UriError
    for n in NAMES:
        if name == n and n != "URIError":
            return getattr(JSErrorName, n)
    return JSErrorName.Error


def text(S, name, kinds=("none", "empty", "one", "two")):
    k = S.choice("kind." + name, list(kinds))
    if k == "none":
        return None
    if k == "empty":
        return ""
    return S.str("text%s." % k + name, 1 if k == "one" else 2)


def cause_of(S, kind, depth):
    if kind == "int":
        return S.int("x", -5, 300)
    if kind == "false":
        return False
    if kind == "empty":
        return ""
    if kind == "undefined":
        return JSUndefined
    if kind == "list":
        return [S.int("x", -5, 300)]
    if kind == "error":
        return JSErrorData("inner", name="TypeError", cause=S.int("x", -5, 300))
    if kind == "js error":
        return JSError("inner", stack="s")
    return None


def check_cause(S, kind, got):
    if kind == "int":
        S.check(type(got) is int and got == S.int("x", -5, 300), "cause")
    elif kind == "false":
        S.check(got is False, "cause")
    elif kind == "empty":
        S.check(got == "", "cause")
    elif kind == "undefined":
        S.check(got is JSUndefined, "cause")
    elif kind == "list":
        S.check(type(got) is JSArray and len(got.array) == 1 and got[0] == S.int("x", -5, 300), "cause")
    elif kind == "error":
        S.check(type(got) is JSError and got.message == "inner" and got.name == "TypeError" and got.cause == S.int("x", -5, 300), "cause")
    elif kind == "js error":
        S.check(type(got) is JSError and got.message == "inner" and got.stack == "s" and got.cause is None and got.name == "Error", "cause")
    else:
        S.check(got is None, "cause")


CAUSES = ["none", "int", "false", "empty", "undefined", "list", "error", "js error"]


def roundtrip(S, causes=CAUSES, names=NAMES + ["sym0", "sym1", "sym5"], texts=("none", "empty", "one"), wrap=("top", "list")):
    """Every combination of fields."""
    cls = S.choice("class", ["JSError", "JSErrorData"])
    nk = S.choice("name", list(names))
    as_member = nk in NAMES and nk != "URIError" and S.flag("member")
    if nk.startswith("sym"):
        name = S.str(nk, int(nk[3:]))
    else:
        name = getattr(JSErrorName, nk) if as_member else nk
    message = text(S, "message", texts)
    stack = text(S, "stack", texts)
    ck = S.choice("cause", list(causes))
    cause = cause_of(S, ck, 1)
    e = (JSError if cls == "JSError" else JSErrorData)(message, name=name, stack=stack, cause=cause)
    f = S.choice("features", [0, 4])
    pos = S.choice("pos", list(wrap))
    other = [7]
    g = e if pos == "top" else [other, e, other, e]
    data = dumps(g, features=SerializationFeature(f))
    tree = v8.parse(data)
    node = tree if pos == "top" else tree.items[1]
    written = ("" if message is None else message) if cls == "JSError" else message
    want = canonical(name)
    S.check(node.kind == "error", "written as an error")
    S.check(node.info["proto"] == (69 if want is JSErrorName.Error else PROTO[want.value]) and ("proto" in node.value) == (want is not JSErrorName.Error), "prototype written")
    S.check(node.value == [k for k, v in (("proto", want is not JSErrorName.Error), ("message", written is not None), ("stack", stack is not None), ("cause", cause is not None)) if v],
            "fields written, in order")
    S.check(node.info["message"] == written and node.info["stack"] == stack, "message or stack written")
    with_none = S.flag("data")
    back = loads(data, js_error_builder=JSErrorData.builder) if with_none else loads(data)
    if pos == "list":
        S.check(back[1] is back[3] and back[0] is back[2] and back[0][0] == 7, "sharing")
        S.check(tree.items[1] is tree.items[3] and tree.items[0] is tree.items[2], "sharing as V8 reads it")
        back = back[1]
    S.check(type(back) is (JSErrorData if with_none else JSError), "class read back")
    if name == "URIError":
        S.finding("C18-uri-error-name")
        S.check(back.name == "URIError", "standard name read back")
    else:
        S.check(back.name is want, "name read back")
    S.check(back.message == (written if with_none else written or ""), "message read back")
    S.check((back.message is None) == (with_none and written is None), "presence of a message")
    S.check(back.stack == stack and (back.stack is None) == (stack is None), "stack read back")
    if not with_none or ck not in ("error", "js error"):
        check_cause(S, ck, back.cause)


def put(s, form):
    """A string as V8 writes it; latin-1 only for one byte."""
    if form == "onebyte":
        raw = s.encode("latin-1")
        return b'"' + bytes([len(raw)]) + raw
    raw = s.encode("utf-8")
    return b"S" + bytes([len(raw)]) + raw


def error_bytes(S, name, layout, cause, tags):
    """One error; tags: which of proto, message, stack."""
    out = b"r"
    want = {"name": JSErrorName.Error, "message": "", "stack": None}
    if "p" in tags:
        p = S.choice("proto." + name, list(MEMBER) if name == "outer" and tags == "p" else [82])
        out = out + bytes([p])
        want["name"] = MEMBER[p]
    if "m" in tags:
        form = S.choice("form." + name, ["onebyte", "utf8"])
        m = S.str("m." + name, 1, hi=0xFF)
        out = out + b"m" + put(m, form)
        want["message"] = m
    st = b""
    if "s" in tags:
        t = S.str("s." + name, 1, hi=0xFF)
        st = b"s" + put(t, "onebyte")
        want["stack"] = t
    ca = b"" if cause is None else b"c" + cause
    out = out + (st + ca if layout == "new" else ca + st) + b"."
    return out, want


def check_error(S, e, want, what):
    S.check(type(e) is JSError, "class read back" + what)
    S.check(e.name is want["name"], "name read back" + what)
    S.check(e.message == want["message"], "message read back" + what)
    S.check(e.stack == want["stack"] and (e.stack is None) == (want["stack"] is None), "stack read back" + what)


CONSTANTS = {"null": (b"0", None), "undefined": (b"_", JSUndefined), "true": (b"T", True), "no text": (b'"\x00', "")}


def layouts(S, wrap=("top", "array")):
    """Both orders of stack and cause, nested either way."""
    lo = S.choice("layout", ["new", "old"])
    tags = S.choice("tags", ["", "p", "m", "s", "pm", "ps", "ms", "pms"])
    ck = S.choice("cause", ["none", "int", "error", "object", "itself", "text", "null", "undefined", "true", "no text"])
    inner_want = None
    x = S.int("x", 0, 127)
    if ck == "none":
        cause = None
    elif ck == "int":
        cause = b"U" + bytes([x])
    elif ck == "text":
        cause = b'"\x01' + bytes([x])
    elif ck in CONSTANTS:
        cause = CONSTANTS[ck][0]
    elif ck == "object":
        cause = b'o"\x01kU' + bytes([x]) + b"{\x01"
    elif ck == "itself":
        cause = b"^\x00" if S.choice("pos", list(wrap)) == "top" else b"^\x01"
    else:
        li = S.choice("inner layout", ["new", "old"])
        cause, inner_want = error_bytes(S, "inner", li, b"U" + bytes([x]), S.choice("inner tags", ["", "m", "s", "pms"]))
    body, want = error_bytes(S, "outer", lo, cause, tags)
    pos = S.choice("pos", list(wrap))
    data = b"\xff\x0f" + (body if pos == "top" else b"A\x03" + body + b"o{\x00" + b"^" + bytes([S.int("ref", 0, 4)]) + b"$\x00\x03")
    nobj = 2 + (1 if ck in ("error", "object") else 0)      # array, error, cause; the object follows
    if pos == "array":
        S.assume(S.int("ref", 0, 4) <= nobj)
    back = loads(data)
    e = back if pos == "top" else back[0]
    check_error(S, e, want, "")
    if ck == "int":
        S.check(e.cause == x, "cause")
    elif ck == "text":
        S.check(e.cause == chr(x), "cause")
    elif ck in CONSTANTS:
        S.check(e.cause is CONSTANTS[ck][1] or ck == "no text" and e.cause == "", "cause")
    elif ck == "object":
        S.check(type(e.cause) is JSObject and e.cause["k"] == x, "cause")
    elif ck == "itself":
        S.check(e.cause is e, "cause")
    elif ck == "error":
        check_error(S, e.cause, inner_want, " (cause)")
        S.check(e.cause.cause == x, "cause of the cause")
    else:
        S.check(e.cause is None, "cause")
    if pos == "array":
        r = S.int("ref", 0, 4)
        objs = [back, e] + ([e.cause] if nobj == 3 else []) + [back[1]]
        S.check(back[2] is objs[r], "object a reference names")


def fields(S, n):
    """Any sequence of fields: accepted exactly in one of the two orders."""
    k = S.choice("n", n + 1)
    tags = [S.choice("t%d" % i, list("pmsc")) for i in range(k)]
    body = b"r"
    for t in tags:
        body = body + {"p": b"T", "m": b'm"\x01a', "s": b's"\x01b', "c": b"cU\x05"}[t]
    data = b"\xff\x0f" + body + b"."
    ok = "".join(tags) in ("", "p", "m", "s", "c", "pm", "ps", "pc", "ms", "mc", "sc", "cs", "pms", "pmc", "psc", "pcs", "msc", "mcs", "pmsc", "pmcs")
    try:
        e = loads(data)
    except DecodeV8SerializeError:
        S.reached("rejected")
        S.check(not ok, "a layout of V8 is rejected")
        return
    S.reached("accepted")
    S.check(ok, "fields in an order V8 never writes are accepted")
    S.check(e.message == ("a" if "m" in tags else "") and e.stack == ("b" if "s" in tags else None) and e.cause == (5 if "c" in tags else None)
            and e.name == ("TypeError" if "p" in tags else "Error"), "fields read")


LINKS = ["direct", "list", "JSObject", "JSMap", "JSSet", "JSArray", "dict"]


def cyclic(S, n, links=LINKS, before=True):
    """A chain of errors whose last cause points back, or sideways."""
    k = 1 + S.choice("n", n)
    kinds = [S.choice("class%d" % i, ["JSError", "JSErrorData"]) for i in range(k)]
    errors = [(JSError if c == "JSError" else JSErrorData)("e%d" % i) for i, c in enumerate(kinds)]
    hops = []

    def through(i, target):
        link = S.choice("link%d" % i, list(links))
        if link == "direct":
            return target
        hops.append(i)
        if link == "list":
            return [target]
        if link == "JSObject":
            return JSObject(a=target)
        if link == "JSMap":
            return JSMap([(1, target)])
        if link == "JSSet":
            return JSSet([target])
        if link == "JSArray":
            a = JSArray()
            a["k"] = target
            return a
        return {1: target}
    for i in range(k - 1):
        errors[i].cause = through(i, errors[i + 1])
    end = S.choice("end", ["none"] + list(range(k)) + ["earlier", "twice"])
    earlier = JSErrorData("earlier")
    if end == "earlier":
        errors[-1].cause = through(k - 1, earlier)
    elif end == "twice":
        errors[-1].cause = [earlier, earlier]
    elif end != "none":
        errors[-1].cause = through(k - 1, errors[end])
    f = S.choice("features", [0, 4, 11, 15])
    g = [earlier, errors[0], errors[0], errors[-1], earlier]
    cyc = end not in ("none", "earlier", "twice")
    try:
        data = dumps(g, features=SerializationFeature(f))
    except IllegalCyclicReferenceV8SerializeError:
        S.reached("refused")
        S.check(cyc and not f & 4, "an error without a cyclic cause is refused, or one with the feature enabled")
        return
    S.check(not cyc or f & 4, "a cyclic cause is written without its feature")
    S.reached("cyclic" if cyc else "plain")
    tree = v8.parse(data)
    S.check(tree.items[1] is tree.items[2] and tree.items[0] is tree.items[4], "sharing as V8 reads it")
    back = loads(data)
    S.check(back[1] is back[2] and back[0] is back[4], "sharing")
    walk = [back[1]]
    for i in range(k):
        S.check(type(walk[i]) is JSError and walk[i].message == "e%d" % i, "error %d of the chain" % i)
        c = walk[i].cause
        if i in hops and not (i == k - 1 and end in ("none", "twice")):
            c = inside(c)
        walk.append(c)
    S.check(back[3] is walk[k - 1], "last error")
    if end == "none":
        S.check(walk[k] is None, "end of the chain")
    elif end == "earlier":
        S.check(walk[k] is back[0], "an earlier error as cause")
    elif end == "twice":
        S.check(walk[k][0] is back[0] and walk[k][1] is back[0], "an earlier error twice in a cause")
    else:
        S.check(walk[k] is walk[end], "cyclic cause")


def inside(c):
    if isinstance(c, JSArray):
        return c["k"] if "k" in c else c[0]
    if isinstance(c, JSObject):
        return c["a"]
    if isinstance(c, JSMap):
        return c[1]
    if isinstance(c, JSSet):
        return list(c)[0]
    return c


def names(S, n):
    """Names and prototype tags map one to one."""
    t = S.choice("tag", [69, 82, 70, 83, 84, 85])
    m = JSErrorName.for_error_tag(SerializationErrorTag(t))
    S.check(m is MEMBER[t] and m.error_tag == t, "name of a tag")
    S.check(JSErrorName.for_error_name(m.value) is m and JSErrorName.for_error_name(m) is m, "tag of a name")
    S.check(JSErrorName.Error.error_tag is None and JSErrorName.for_error_name("Error") is JSErrorName.Error, "generic errors")
    s = S.str("s%d" % n, n)
    S.check(JSErrorName.for_error_name(s) is canonical(s), "name of an error")
    for other in (109, 99, 115, 46):
        S.check(JSErrorName.for_error_tag(SerializationErrorTag(other)) is JSErrorName.Error, "a field tag names an error")


def setters(S):
    """A JSError always has a message."""
    e = JSError(text(S, "a"))
    S.check(isinstance(e.message, str), "message")
    m = text(S, "message")
    e.message = m
    S.check(e.message == (m or ""), "assigned message")
    d = JSErrorData(m, name="TypeError", stack="t", cause=[1])
    c = JSError.from_js_error(d)
    S.check(c.message == (m or "") and c.name == "TypeError" and c.stack == "t" and c.cause is d.cause, "from_js_error")
    S.check(loads(dumps(c)).message == (m or ""), "written message")
