"""C25: encode steps, decode steps and decoding options."""
import datetime
from v8serialize import DecodeV8SerializeError, Decoder, Encoder, EncodeV8SerializeError, dumps, loads
from v8serialize.constants import JS_CONSTANT_TAGS, JS_STRING_TAGS, SerializationFeature, SerializationTag
from v8serialize.decode import DefaultDecodeContext, ReadableTagStream, TagReader, TagReaderRegistry, default_decode_steps
from v8serialize import UnhandledTagDecodeV8SerializeError
from v8serialize.encode import (DefaultEncodeContext, TagWriter, UnhandledValueEncodeV8SerializeError, WritableTagStream,
                                default_encode_steps, serialize_object_references)
from v8serialize.jstypes import JSArray, JSError, JSErrorData, JSHole, JSMap, JSObject, JSSet, JSUndefined
from hx import v8


class Refused(Exception):
    pass


# ---- encoding

WAYS = ["next", "add", "write", "refuse", "restart", "catch"]


class Step:
    def __init__(self, i, how, trace):
        self.i, self.how, self.trace = i, how, trace

    def encode(self, value, /, ctx, next):
        if type(value) is not int:
            return next(value)
        self.trace.append((self.i, value))
        if self.how == "next":
            return next(value)
        if self.how == "add":
            return next(value + 1000)
        if self.how == "write":
            return ctx.stream.write_string_onebyte("w%d" % self.i)
        if self.how == "refuse":
            raise Refused(self.i)
        if self.how == "restart":
            if value < 100000:
                return ctx.encode_object(value + 100000)
            return next(value)
        try:
            return next(value)
        except UnhandledValueEncodeV8SerializeError:
            ctx.stream.write_string_onebyte("c%d" % self.i)

    def decode(self, tag, /, ctx, next):
        if tag is not SerializationTag.kUint32:
            return next(tag)
        self.trace.append((self.i, ctx.stream.pos))
        if self.how == "next":
            return next(tag)
        if self.how == "add":
            return next(tag) + 1000
        if self.how == "write":
            return ctx.stream.read_uint32() + 2000 * (self.i + 1)
        if self.how == "refuse":
            raise Refused(self.i)
        if self.how == "restart":
            if len(self.trace) < 5:
                return ctx.decode_object(tag=tag) + 100000
            return next(tag)
        try:
            return next(tag)
        except UnhandledTagDecodeV8SerializeError:
            return ctx.stream.read_uint32() - 1000


class End(Exception):
    pass


def sim(bs, i, v, tail, trace):
    """What the chain makes of the int v from step i on: an int or a text; End when it is refused."""
    if i == len(bs):
        if tail:
            return v
        raise End(("unhandled", v))
    trace.append((i, v))
    how = bs[i]
    if how == "next":
        return sim(bs, i + 1, v, tail, trace)
    if how == "add":
        return sim(bs, i + 1, v + 1000, tail, trace)
    if how == "write":
        return "w%d" % i
    if how == "refuse":
        raise End(("refused", i))
    if how == "restart":
        if v < 100000:
            return sim(bs, 0, v + 100000, tail, trace)
        return sim(bs, i + 1, v, tail, trace)
    try:
        return sim(bs, i + 1, v, tail, trace)
    except End as e:
        if e.args[0][0] == "unhandled":
            return "c%d" % i
        raise


def as_form(S, i, step, attr, forms):
    """The same step as an object or a function."""
    form = forms if forms != "any" else S.choice("form%d" % i, ["object", "function"])
    return step if form == "object" else getattr(step, attr)


def encode_chain(S, n, ways=WAYS, pos=("top", "list", "key", "map", "error"), forms="any", refs=True):
    """Chains of steps around the default ones."""
    k = S.choice("k", range(n + 1))
    x = S.int("x", 0, 999)
    trace, want = [], []
    bs = [S.choice("way%d.%d" % (i, len(ways)), list(ways)) for i in range(k)]
    steps = [as_form(S, i, Step(i, bs[i], trace), "encode", forms) for i in range(k)]
    at = S.choice("references", range(k + 2)) if refs else k
    tail = S.flag("tag writer")
    all_ = list(steps)
    if at <= k:
        all_.insert(at, serialize_object_references)
    if tail:
        all_.append(TagWriter())
    where = S.choice("pos", list(pos))
    value = {"top": x, "list": [x, "s", x + 1], "key": JSObject({"a": x}), "map": {x: x + 1}, "error": JSErrorData(message="m", cause=x)}[where]
    xs = {"top": [x], "list": [x, x + 1], "key": [x], "map": [x, x + 1], "error": [x]}[where]
    end, got = None, []
    if where != "top" and not tail:
        end = ("unhandled", value)
    else:
        try:
            for v in xs:
                got.append(sim(bs, 0, v, tail, want))
        except End as e:
            end = e.args[0]
    src = all_ if S.flag("list") else (s for s in all_)
    try:
        data = dumps(value, encode_steps=src)
    except Refused as e:
        S.reached("refused")
        S.check(end is not None and end[0] == "refused" and e.args[0] == end[1], "a refusal")
        same_trace(S, trace, want)
        return
    except UnhandledValueEncodeV8SerializeError as e:
        S.reached("unhandled")
        S.check(end is not None and end[0] == "unhandled", "a handled value is reported as unhandled")
        S.check(isinstance(e, EncodeV8SerializeError) and isinstance(e, ValueError), "type of the error")
        if where == "top":
            S.check(e.value == end[1], "the unhandled value")
        else:
            S.check(e.value is value, "the unhandled value")
        same_trace(S, trace, want)
        return
    S.reached("written")
    S.check(end is None, "a refused value is written")
    same_trace(S, trace, want)
    t = v8.parse(data)
    if where == "list":
        S.check(t.kind == "array" and len(t.items) == 3 and t.items[1] == "s", "neighbours")
        out = [t.items[0], t.items[2]]
    elif where == "key":
        S.check(t.kind == "object" and len(t.props) == 1 and t.props[0][0] == "a", "keys")
        out = [t.props[0][1]]
    elif where == "map":
        S.check(t.kind == "map" and len(t.items) == 1, "map")
        out = list(t.items[0])
    elif where == "error":
        S.check(t.kind == "error", "error")
        out = [t.info["cause"]]
    else:
        out = [t]
    for a, b in zip(out, got):
        if isinstance(b, str):
            S.check(isinstance(a, str) and a == b, "what a step wrote")
        else:
            S.check(isinstance(a, v8.Num) and a.v == b, "what the chain wrote")


def same_trace(S, a, b):
    S.check(len(a) == len(b), "number of calls of the steps")
    for (i, v), (j, w) in zip(a, b):
        S.check(i == j, "order of the steps")
        S.check(v == w, "value given to a step")


class Odd:
    pass


def unhandled(S):
    """Values no default step knows, anywhere in a value."""
    kind = S.choice("kind", ["object", "type", "function", "complex", "iterator", "module"])
    bad = {"object": Odd(), "type": Odd, "function": unhandled, "complex": 1j, "iterator": iter([]), "module": datetime}[kind]
    pos = S.choice("pos", ["top", "list", "map key", "map value", "set", "object", "array hole", "error", "nested"])
    value = {"top": bad, "list": [1, bad], "map key": {bad: 1} if kind != "iterator" else JSMap([(bad, 1)]), "map value": {1: bad}, "set": JSSet([bad]),
             "object": JSObject(a=bad), "array hole": JSArray({50: bad}), "error": JSErrorData(cause=bad), "nested": [{1: JSObject(a=[bad])}]}[pos]
    try:
        dumps(value)
        S.fail("an unknown value is written")
    except UnhandledValueEncodeV8SerializeError as e:
        S.check(e.value is bad, "the unhandled value")
        S.check(isinstance(e.args[0], str), "message")
    seen = []

    def last(v, /, ctx, next):
        seen.append(v)
        ctx.stream.write_string_onebyte("last")
    data = dumps(value, encode_steps=[*default_encode_steps, last])
    S.check(len(seen) == 1 and seen[0] is bad, "the step after the default ones")
    v8.parse(data)


# ---- decoding

def sim_decode(bs, i, v, tail, pos, trace, tag=True):
    if i == len(bs):
        if tail:
            return v
        raise End(("unhandled", pos))
    trace.append((i, pos))
    how = bs[i]
    if how == "next":
        return sim_decode(bs, i + 1, v, tail, pos, trace)
    if how == "add":
        return sim_decode(bs, i + 1, v, tail, pos, trace) + 1000
    if how == "write":
        return v + 2000 * (i + 1)
    if how == "refuse":
        raise End(("refused", i))
    if how == "restart":
        if len(trace) < 5:
            return sim_decode(bs, 0, v, tail, pos, trace) + 100000
        return sim_decode(bs, i + 1, v, tail, pos, trace)
    try:
        return sim_decode(bs, i + 1, v, tail, pos, trace)
    except End as e:
        if e.args[0][0] == "unhandled":
            return v - 1000
        raise


def decode_chain(S, n, ways=WAYS, pos=("top", "array", "object", "map", "key"), forms="any"):
    """Chains of steps around TagReader."""
    k = S.choice("k", range(n + 1))
    x = S.int("x", 0, 127)
    trace, want = [], []
    bs = [S.choice("way%d.%d" % (i, len(ways)), list(ways)) for i in range(k)]
    steps = [as_form(S, i, Step(i, bs[i], trace), "decode", forms) for i in range(k)]
    tail = S.flag("tag reader")
    all_ = list(steps)
    if tail:
        all_.append(TagReader())
    where = S.choice("pos", list(pos))
    u = b"U" + bytes([x])
    body, at = {"top": (u, [1]), "array": (b"A\x02" + u + u + b"$\x00\x02", [3, 5]), "object": (b'o"\x01a' + u + b"{\x01", [5]),
                "map": (b";I\x02" + u + b":\x02", [4]), "key": (b"o" + u + b"T{\x01", [2])}[where]
    data = b"\xff\x0f" + body
    end, got = None, []
    if where != "top" and not tail:
        end = ("unhandled", 3)
    else:
        try:
            for p in at:
                got.append(sim_decode(bs, 0, x, tail, p + 2, want))
        except End as e:
            end = e.args[0]
    src = all_ if S.flag("list") else (s for s in all_)
    try:
        back = loads(data, decode_steps=src)
    except Refused as e:
        S.reached("refused")
        S.check(end is not None and end[0] == "refused" and e.args[0] == end[1], "a refusal")
        same_trace(S, trace, want)
        return
    except UnhandledTagDecodeV8SerializeError as e:
        S.reached("unhandled")
        S.check(end is not None and end[0] == "unhandled", "a handled tag is reported as unhandled")
        S.check(isinstance(e, DecodeV8SerializeError) and isinstance(e, ValueError), "type of the error")
        S.check(e.tag.value == body[0] and e.position == end[1], "the unhandled tag")
        S.check(bytes(e.data) == data, "data of the error")
        same_trace(S, trace, want)
        return
    S.reached("read")
    S.check(end is None, "a refused tag is read")
    same_trace(S, trace, want)
    if where == "top":
        S.check(back == got[0], "value")
    elif where == "array":
        S.check(len(back) == 2 and back[0] == got[0] and back[1] == got[1], "value")
    elif where == "object":
        S.check(len(back) == 1 and back["a"] == got[0], "value")
    elif where == "map":
        S.check(len(back) == 1 and back[1] == got[0], "value")
    else:
        S.check(len(back) == 1 and back[got[0]] is True, "key")


# ---- options

class MyObject(JSObject):
    pass


class MyArray(JSArray):
    pass


class Box:
    def __init__(self, e):
        self.first = e
        self.name, self.message, self.stack, self.cause = e.name, e.message, e.stack, e.cause


def builder(e):
    b = Box(e)
    return b, b


def host(*, stream):
    return ("host", stream.read_uint32())


UTC = datetime.timezone.utc
NAMES = ["jsmap_type", "jsset_type", "js_object_type", "js_array_type", "js_error_builder", "default_timezone", "host_object_deserializer"]
VALUES = {"jsmap_type": dict, "jsset_type": set, "js_object_type": MyObject, "js_array_type": MyArray, "js_error_builder": builder,
          "default_timezone": UTC, "host_object_deserializer": host}


def payload(x, hostdata):
    """One value of every kind; x is an int (0..127)."""
    u = b"U" + bytes([x])
    return (b"\xff\x0fo" + b'"\x01m;' + u + b"o{\x00:\x02" + b'"\x01s\'' + u + b"T,\x02" + b'"\x01dA\x03' + u + b"-0$\x00\x03" + b'"\x01pa\x64\x49\x02' + u + b"@\x01\x64"
            + b'"\x01er' + b'Rm"\x01xc' + u + b'.' + b'"\x01tD\x00\x00\x00\x00\x00\x00\x00\x00' + hostdata + (b"{\x07" if hostdata else b"{\x06"))


def options(S, names, steps=True):
    """Every set of options changes exactly the kinds it names."""
    on = {o: S.flag(o) if o in names else False for o in NAMES}
    x = S.int("x", 0, 127)
    given = {o: VALUES[o] for o in NAMES if on[o]}
    hostdata = b'"\x01h\\' + (b"\x05" if on["host_object_deserializer"] else b"\x01\x02ab")
    data = payload(x, hostdata)
    how = S.choice("how", ["loads", "reader", "reader false"] if not on["host_object_deserializer"] else ["loads", "loads false", "reader"])
    if how == "loads":
        back = loads(data, **given)
    elif how == "loads false":
        back = loads(data, nodejs=False, **given)
    elif how == "reader":
        if not on["host_object_deserializer"]:
            data = payload(x, b"")
        back = Decoder(decode_steps=[TagReader(**given)]).decodes(data)
    else:
        data = payload(x, b"")
        back = loads(data, nodejs=False, **given)
    S.check(type(back) is (MyObject if on["js_object_type"] else JSObject), "objects")
    m, s, d, p, e, t = back["m"], back["s"], back["d"], back["p"], back["e"], back["t"]
    S.check(type(m) is (dict if on["jsmap_type"] else JSMap), "maps")
    S.check(len(m) == 1 and list(m)[0] == x and type(m[x]) is type(back), "content of a map")
    S.check(type(s) is (set if on["jsset_type"] else JSSet), "sets")
    # Python's own sets take 1 and True for the same
    S.check(len(s) == (1 if x == 1 and on["jsset_type"] else 2), "size of a set")
    S.check(x in s and True in s, "content of a set")
    arr = MyArray if on["js_array_type"] else JSArray
    S.check(type(d) is arr and type(p) is arr, "arrays")
    S.check(len(d.array) == 3 and d[0] == x and 1 not in d and d[2] is None and d.array[1] is JSHole, "content of an array")
    S.check(len(p.array) == 100 and p[1] == x and len(p) == 1, "content of a sparse array")
    S.check(type(e) is (Box if on["js_error_builder"] else JSError), "errors")
    S.check(e.message == "x" and e.cause == x and e.name == "RangeError" and e.stack is None, "content of an error")
    S.check(type(t) is datetime.datetime and (t.tzinfo is (UTC if on["default_timezone"] else None)), "dates")
    if on["host_object_deserializer"]:
        S.check(type(back["h"]) is tuple and back["h"][1] == 5, "host objects")
    elif how == "loads":
        S.check(bytes(memoryview(back["h"].backing_buffer.data)) == b"ab", "host objects")
    if steps:
        st = S.choice("steps", ["default", "empty", "generator"])
        ds = default_decode_steps if st == "default" else [] if st == "empty" else (q for q in default_decode_steps)
        extra = dict(given)
        nodejs = S.choice("nodejs", ["no", "True", "False"])
        if nodejs != "no":
            extra["nodejs"] = nodejs == "True"
        try:
            loads(b"\xff\x0fT", decode_steps=ds, **extra)
            S.check(len(extra) == 0 and st != "empty", "conflicting options are accepted")
        except TypeError:
            S.reached("conflict")
            S.check(len(extra) > 0, "options without a conflict are rejected")
        except UnhandledTagDecodeV8SerializeError:
            S.check(st == "empty" and len(extra) == 0, "options without a conflict are rejected")
        if on["host_object_deserializer"]:
            try:
                loads(data, nodejs=True, **given)
                S.fail("conflicting options are accepted")
            except TypeError:
                pass


CONST = [("kTheHole", "-", JSHole), ("kUndefined", "_", JSUndefined), ("kNull", "0", None), ("kTrue", "T", True), ("kFalse", "F", False)]


def constants(S, reader=False):
    """Replacing constants replaces them everywhere, and no other value."""
    on = [S.flag(n) for n, _, _ in CONST]
    x = S.int("x", 200, 999)
    given = {getattr(SerializationTag, n): x + 10 * i for i, (n, _, _) in enumerate(CONST) if on[i]}
    i = S.choice("constant", list(range(5)))
    c = CONST[i][1].encode()
    want = x + 10 * i if on[i] else CONST[i][2]
    pos = S.choice("pos", ["top", "dense", "object", "sparse", "map key", "map value", "set", "error"])
    if i == 0 and not on[0] and pos in ("object", "sparse"):
        return    # a property of an object cannot be a hole
    data = b"\xff\x0f" + {"top": c, "dense": b"A\x02" + c + b"I\x02$\x00\x02", "object": b'o"\x01a' + c + b"{\x01", "sparse": b"a\x20I\x04" + c + b"@\x01\x20",
                          "map key": b";" + c + b"I\x02:\x02", "map value": b";I\x02" + c + b":\x02", "set": b"'" + c + b",\x01", "error": b"rc" + c + b"."}[pos]
    before = dict(given)
    if reader:
        back = loads(data, decode_steps=[TagReader(js_constants=given)])
    else:
        back = loads(data, js_constants=given)
    S.check(len(given) == len(before), "the mapping given was changed")
    if pos == "top":
        got = back
    elif pos == "dense":
        S.check(len(back.array) == 2 and back[1] == 1, "neighbours")
        got = back.array[0]
    elif pos == "object":
        S.check(len(back) == 1, "object")
        got = back["a"]
    elif pos == "sparse":
        S.check(len(back) == 1 and len(back.array) == 32 and back.array[3] is JSHole, "holes that were not written")
        got = back[2]
    elif pos == "map key":
        got = list(back)[0]
        S.check(len(back) == 1 and back[got] == 1, "map")
    elif pos == "map value":
        got = back[1]
    elif pos == "set":
        S.check(len(back) == 1, "set")
        got = list(back)[0]
    else:
        got = back.cause
    if on[i]:
        S.check(got == want, "a replaced constant")
    else:
        S.check(got is want, "a constant that is not replaced")


# ---- tag readers

SAMPLES = {
    "kDouble": b"N\x00\x00\x00\x00\x00\x00\xf8\x3f", "kOneByteString": b'"\x01a', "kTwoByteString": b"c\x02a\x01", "kUtf8String": b"S\x01a", "kBigInt": b"Z\x10\x01\x00\x00\x00\x00\x00\x00\x00",
    "kInt32": b"I\x02", "kUint32": b"U\x02", "kTheHole": b"-", "kUndefined": b"_", "kNull": b"0", "kTrue": b"T", "kFalse": b"F", "kRegExp": b'R"\x01a\x00', "kBeginJSMap": b";:\x00",
    "kBeginJSSet": b"',\x00", "kBeginJSObject": b"o{\x00", "kBeginDenseJSArray": b"A\x00$\x00\x00", "kBeginSparseJSArray": b"a\x00@\x00\x00", "kArrayBuffer": b"B\x01a",
    "kResizableArrayBuffer": b"~\x01\x02a", "kTrueObject": b"y", "kFalseObject": b"x", "kNumberObject": b"n\x00\x00\x00\x00\x00\x00\xf8\x3f", "kBigIntObject": b"z\x10\x01\x00\x00\x00\x00\x00\x00\x00",
    "kStringObject": b's"\x01a', "kError": b"r.", "kDate": b"D\x00\x00\x00\x00\x00\x00\x00\x00", "kHostObject": b"\\", "kSharedArrayBuffer": b"u\x01", "kArrayBufferTransfer": b"t\x01", "kSharedObject": b"p\x01",
    "kWasmModuleTransfer": b"w\x01", "kWasmMemoryTransfer": b"m\x01",
}
ORDER = sorted(SAMPLES)


class Mark:
    def __init__(self, tag, reader):
        self.tag, self.reader = tag, reader


def tag_readers(S, tags=ORDER, group=False):
    """A registered reader is used for its tags and for no other."""
    which = S.choice("override%d" % len(tags), list(tags))
    sample = S.choice("sample", ORDER)
    reg = TagReaderRegistry()
    if group:
        constraint = S.choice("group", [JS_CONSTANT_TAGS, JS_STRING_TAGS])
        hit = getattr(SerializationTag, sample) in constraint.allowed_tags
    else:
        constraint = getattr(SerializationTag, which)
        hit = which == sample

    def read(reader, tag, ctx):
        # consume what the sample has after its tag
        ctx.stream.pos = ctx.stream.pos + len(SAMPLES[sample]) - 1
        return Mark(tag, reader)
    reg.register(constraint, read)
    S.check(reg.match(getattr(SerializationTag, sample)) is (read if hit else None), "match")
    if S.flag("copied"):
        reg = TagReaderRegistry(reg)
    reader = TagReader(tag_readers=reg)
    S.check(TagReader().tag_readers.match(getattr(SerializationTag, which)) is not read, "other readers are changed")
    data = b"\xff\x0fA\x02" + SAMPLES[sample] + b"I\x0e$\x00\x02"
    if not group and which == "kBeginDenseJSArray" or group and sample in ("kRegExp", "kStringObject") or which == "kOneByteString" and sample in ("kRegExp", "kStringObject"):
        return    # what encloses the sample, or is within it, is read by the override
    if hit:
        if S.flag("later registration"):
            reg.register(constraint, None)
        back = loads(data, decode_steps=[reader])
        S.reached("override")
        S.check(type(back) is JSArray and len(back.array) == 2, "array")
        v = back.array[0]
        S.check(type(v) is Mark and v.tag is getattr(SerializationTag, sample) and v.reader is reader, "the registered reader")
        if sample == "kInt32":
            return
        S.check(back.array[1] == 7, "neighbours")
        return
    if sample in ("kHostObject", "kWasmModuleTransfer", "kWasmMemoryTransfer"):
        for steps in ([reader], [TagReader()]):
            if not group and which == "kInt32":
                return
            try:
                loads(data, decode_steps=steps)
                S.fail("an unsupported tag is read")
            except DecodeV8SerializeError:
                pass
        return
    S.reached("default")
    if not group and which == "kInt32":
        return    # the array around the sample is affected
    back = loads(data, decode_steps=[reader])
    plain = loads(data, decode_steps=[TagReader()])
    S.check(type(back) is JSArray and back.array[1] == 7, "neighbours")
    S.check(type(back.array[0]) is type(plain.array[0]), "a tag that is not overridden")


def unregistered(S):
    """Tags without a reader go to the next step."""
    reader = TagReader()
    tag = S.choice("tag", sorted(SAMPLES))
    t = getattr(SerializationTag, tag)
    r = TagReader()
    del r.tag_readers._index[t]
    data = b"\xff\x0f" + SAMPLES[tag]
    try:
        loads(data, decode_steps=[r])
        S.fail("a tag without a reader is read")
    except UnhandledTagDecodeV8SerializeError as e:
        S.check(e.tag is t and e.position == 3, "the unhandled tag")
    seen = []

    def last(tag, /, ctx, next):
        seen.append(tag)
        return 5
    S.check(loads(data, decode_steps=[r, last]) == 5 and len(seen) == 1 and seen[0] is t, "the next step")
    for name in ("kPadding", "kVerifyObjectCount", "kEndJSObject", "kEndJSMap", "kEndJSSet", "kEndDenseJSArray", "kEndSparseJSArray", "kArrayBufferView"):
        u = getattr(SerializationTag, name)
        if name != "kArrayBufferView":
            S.check(reader.tag_readers.match(u) is None, "a reader for a tag that is no value")


# ---- reuse

def reuse(S):
    """Encoders and decoders keep nothing from one value to the next."""
    x = S.int("x", 0, 127)
    shared = [x]
    steps = default_encode_steps if S.flag("default") else None if S.flag("none") else iter(default_encode_steps)
    enc = Encoder(encode_steps=steps)
    a = enc.encode([shared, shared])
    b = enc.encode(shared)
    c = enc.encode([shared, shared])
    S.check(bytes(a) == bytes(c) and bytes(a) == dumps([shared, shared]) and bytes(b) == dumps(shared), "what an Encoder wrote before matters")
    t = v8.parse(bytes(a))
    S.check(t.items[0] is t.items[1], "sharing")
    d = Decoder(default_decode_steps if S.flag("default decode") else None if S.flag("none decode") else iter(default_decode_steps))
    p = d.decodes(bytes(a))
    q = d.decodes(bytes(b))
    r = d.decodes(bytes(a))
    S.check(p[0] is p[1] and q[0] == x and r[0] is r[1] and r[0] is not p[0] and r is not p, "what a Decoder read before matters")
    try:
        d.decodes(b"\xff\x0f^\x00")
        S.fail("a reference to an object of another value")
    except DecodeV8SerializeError:
        pass
    # without the step for references every object is written out
    e = v8.parse(dumps([shared, shared], encode_steps=[TagWriter()]))
    S.check(e.items[0] is not e.items[1] and e.items[0].items[0].v == x and e.items[1].items[0].v == x, "objects without references")


def contexts(S):
    """Explicit contexts."""
    x = S.int("x", 0, 127)
    data = b"\xff\x0fU" + bytes([x])
    how = S.choice("how", ["data", "stream", "both", "none"])
    try:
        ctx = DefaultDecodeContext(data=data if how in ("data", "both") else None, stream=ReadableTagStream(data) if how in ("stream", "both") else None)
    except ValueError:
        S.check(how in ("both", "none"), "valid arguments are rejected")
        return
    S.check(how in ("data", "stream"), "conflicting arguments are accepted")
    ctx.stream.read_header()
    if S.flag("tag"):
        S.check(ctx.decode_object(tag=ctx.stream.read_tag()) == x, "value")
    else:
        S.check(ctx.decode_object() == x, "value")
    S.check(ctx.stream.pos == 4, "position")
    w = DefaultEncodeContext()
    w.stream.write_header()
    w.encode_object(x)
    S.check(bytes(w.stream.data) == data, "written")
    w2 = DefaultEncodeContext(stream=WritableTagStream(), encode_steps=[])
    try:
        w2.encode_object(x)
        S.fail("no steps")
    except UnhandledValueEncodeV8SerializeError as e:
        S.check(e.value == x, "the unhandled value")
    S.check(len(w2.stream.data) == 0, "written by no step")
