"""Registry: property -> harnesses (module, function, parameters per tier)."""


def H(mod, fn, quick=None, thorough=None, must=(), **kw):
    return dict(mod=mod, fn=fn, quick=quick or {}, thorough=thorough or {}, must=must, **kw)


TAGS = list("bBCwWdDhfFqQ?")
MAXA = 2 ** 32 - 1

CHECKS = {
    "C01": dict(
        bounds="", outside="",
        harnesses=[
            H("numbers", "top_int", dict(bits=130), dict(bits=520), must=("bigint", "numN", "numU", "numI")),
            H("numbers", "boolean"),
            H("numbers", "nested_int", dict(bits=66), dict(bits=130), must=("bigint", "numN", "numU", "numI")),
            H("numbers", "key_int", dict(lo=-200, hi=2**32+300), must=("index", "name")),
        H("numbers", "large_int", dict(bytes_=[9, 16, 31, 63, 64, 126, 127, 128, 129, 255], free=8), dict(bytes_=[9, 16, 31, 63, 64, 126, 127, 128, 129, 255, 256, 257, 511, 513], free=12)),
        ]),
    "C02": dict(bounds="", outside="", harnesses=[
        H("numbers", "top_double"),
        H("numbers", "pair_double", dict(kinds=["plain", "tuple", "wrapper", "list", "nested", "frozenset", "value", "prop", "map"])),
        H("numbers", "mixed", dict(kinds=["plain", "tuple", "wrapper", "nested", "frozenset"])),
        ]),
    "C04": dict(bounds="", outside="", harnesses=[
        H("robust", "any_bytes", dict(n=3), must=("value", "error")),
        H("robust", "any_payload", dict(n=4), must=("value", "error")),
        H("robust", "any_payload", dict(n=3, version=13, pres=["B\x03abcV", "u\x01V", "I"]), must=("value", "error")),
        H("robust", "any_payload", dict(n=4, pres=["B\x09abcdefghiV", "~\x04\x08abcdV", "u\x01V", "\\", "B\x04abcdVB", "B\x04abcdV?", "B\x04abcdVD"]), must=("value", "error")),
        H("robust", "any_payload", dict(n=4, pres=["R\"\x01x", "R\"\x0eabcdefghijklmn", "r", "rm", "RS\x02", "Rc\x02"]), must=("value", "error")),
        H("robust", "any_payload", dict(n=4, pres=["c\x04", "S\x04", "S\x03", "c\x03"]), must=("value", "error")),
        H("robust", "any_payload", dict(n=6, pres=["N\x00\x00", "D\x00\x00", "n\x00\x00"]), must=("value", "error")),
        H("robust", "any_payload", dict(n=5, pres=["Z", "z", "I", "U", "^", "~", "t", "p", "w", "m"]), must=("value", "error")),
        H("robust", "any_payload", dict(n=3, pres=["A", "a", "B", "u", ";", "o", "oI\x02", "A\x02", "a\x05I\x02"]), dict(n=4), must=("value", "error")),
        ]),
    "C03": dict(bounds="", outside="", harnesses=[
        H("strings", "stream", dict(lens=[0, 1, 2], kinds=["onebyte", "twobyte", "utf8"], offsets=[0, 1, 2, 3]),
          must=("written onebyte", "written twobyte", "written utf8", "rejected")),
        H("strings", "top", dict(lens=[0, 1, 2, 3])),
        H("strings", "long", dict(lens=[30, 31, 32, 62, 63, 64, 126, 127, 128, 129, 255, 256, 8191, 8192])),
        H("strings", "nested", dict(lens=[0, 1])),
        H("strings", "in_objects", dict(n=2)),
        *[H("strings", "bytes_read", dict(kind="utf8", n=n), must=("read",)) for n in (0, 1, 2, 3, 4, 5, 6)],
        H("strings", "bytes_read", dict(kind="utf8", n=7), dict(kind="utf8", n=9), must=("read",)),
        *[H("strings", "bytes_read", dict(kind="twobyte", n=n)) for n in (0, 1, 2, 3, 4, 6)],
        H("strings", "bytes_read", dict(kind="onebyte", n=5), must=("read",)),
        *[H("strings", "bytes_read", dict(kind=k, n=n, where=w), must=("read",)) for k, n in (("utf8", 3), ("twobyte", 4), ("onebyte", 2)) for w in ("key", "wrapper", "regexp")],
        ]),
    "C05": dict(bounds="", outside="", harnesses=[
        H("trunc", "any_cut", dict(n=2, tags=[34, 99, 83, 73, 85, 90, 65, 97, 111, 59, 39, 66, 126, 116, 117, 114, 82, 115, 122, 112, 92, 0])),
        H("trunc", "written_cut", dict(hi=300)),
        H("trunc", "counts", dict(n=3), must=("accepted", "rejected")),
        H("trunc", "lengths", dict(n=4), must=("rejected",)),
        ]),
    "C22": dict(bounds="", outside="", harnesses=[
        H("reflog", "history", dict(n=5, k=2), dict(n=6, k=3), must=("known id", "unknown id", "pending id")),
        H("reflog", "nested", dict(depth=3), must=("inner lookup", "cyclic", "out of range")),
        H("reflog", "big_ids"),
        ]),
    "C06": dict(bounds="", outside="", harnesses=[
        H("graphs", "graph", dict(n=2)),
        H("graphs", "leaves", dict(), must=("apart", "one", "merged")),
        H("graphs", "graph", dict(n=2, via=True, kinds=["list", "JSObject", "JSMap", "JSSet", "error"])),
        H("graphs", "graph", dict(n=3, kinds=["list", "JSObject"]), dict(kinds=["list", "JSObject", "JSMap", "sparse"])),
        H("graphs", "graph", dict(n=3, arity=1)),
        H("graphs", "graph", dict(n=4, arity=1, kinds=["JSArray", "JSMap", "error"]), dict(kinds=["JSArray", "JSMap", "JSSet", "dict", "error"])),
        H("sizes", "references", dict(sizes=[127, 130]), dict(sizes=[127, 128, 129, 130, 300, 1000]), must=("read",)),
        ]),
    "C07": dict(bounds="", outside="", harnesses=[
        H("ids", "written", dict(n=2, hi=300)),
        H("ids", "written", dict(n=1, hi=300, features=0)),
        H("ids", "written", dict(n=2, hi=3, kinds="EMPTY")),
        H("ids", "written", dict(n=2, hi=3, node=True, kinds=["int", "list", "view", "view ba", "dataview", "buffer", "view rab"])),
        H("ids", "read", dict(n=2), dict(n=3), must=("known", "unknown", "inner", "wrapper")),
        H("ids", "pending", dict(depth=2), dict(depth=3), must=("known", "unknown")),
        H("sizes", "references", dict(sizes=[127, 130]), dict(sizes=[127, 128, 129, 130, 300, 1000]), must=("read",)),
        ]),
    "C08": dict(bounds="", outside="", harnesses=[
        H("keys", "string", dict(n=0)),
        H("keys", "string", dict(n=1), must=("index", "name")),
        H("keys", "string", dict(n=2), must=("index", "name")),
        H("keys", "string", dict(n=3), must=("index", "name")),
        H("keys", "not_integral"),
        H("keys", "long_digits", dict(n=9)),
        H("keys", "long_digits", dict(n=10)),
        H("keys", "long_digits", dict(n=11)),
        H("keys", "long_digits", dict(n=20)),
        H("keys", "long_digits", dict(n=5000)),
        H("keys", "string", dict(n=4)),
        H("keys", "string", dict(n=7)),
        H("keys", "string", dict(n=10)),
        H("keys", "string", dict(n=11)),
        H("keys", "wire", dict(kind="I")),
        H("keys", "wire", dict(kind="U")),
        H("keys", "wire", dict(kind="N")),
        H("keys", "wire", dict(kind="S"), must=("index", "name")),
        H("keys", "wire", dict(kind='"'), must=("index", "name")),
        H("keys", "wire", dict(kind="c"), must=("index", "name")),
        H("keys", "integer", dict(lo=-(1 << 70), hi=1 << 70), must=("index", "name")),
        H("keys", "any_float", must=("index", "name")),
        H("keys", "pair", dict(n=2, cls="JSObject"), must=("same", "different")),
        H("keys", "pair", dict(n=1, cls="JSArray"), must=("same", "different")),
        H("keys", "boundary", must=("index", "name")),
        ]),
    "C10": dict(bounds="", outside="", harnesses=[
        H("arrays", "history", dict(n=1, lo=0, hi=3, reach=2), dict(hi=5, reach=3)),
        H("arrays", "history", dict(n=2, lo=0, hi=2, view=False, reach=1), dict(view=True, hi=3)),
        H("arrays", "wide", dict(n=1, k=2, ops=["set", "del", "insert", "append", "resize"])),
        H("arrays", "wide", dict(n=2, k=1, top=30, ops=["set", "del", "insert", "append", "resize"]), dict(n=3, top=MAXA)),
        H("arrays", "wide", dict(n=3, k=0, top=30, ops=["set", "append", "resize"]), dict(n=3, k=2)),
        H("arrays", "arguments", dict(n=2), dict(n=3)),
        H("arrays", "constructors", dict(n=2), dict(n=3), must=("created", "bad index", "bad length")),
        H("arrays", "equality", dict(n=2), dict(n=3)),
        ]),
    "C09": dict(bounds="", outside="", harnesses=[
        H("objects", "history", dict(n=1, starts=["empty", "dense", "holes", "sparse", "sparse2", "full15", "dense17", "names"], top=70)),
        H("objects", "history", dict(n=2, starts=["holes", "sparse", "names"], top=22, names=["b"]), dict(n=3)),
        H("objects", "far", dict(n=3), dict(n=4)),
        H("objects", "create", dict(n=2), dict(n=3)),
        H("objects", "from_list", dict(n=3), dict(n=5)),
        ]),
    "C11": dict(bounds="", outside="", harnesses=[
        H("maps", "pair", dict(kinds=["int", "double", "bool", "str", "none", "undefined", "obj"], bits=70, nobj=6), must=("same", "different")),
        H("maps", "pair", dict(kinds=["small", "float", "bool", "str", "obj", "bytes"], bits=3, nobj=0, vals=True), must=("same", "different")),
        H("maps", "triple", dict(n=3)),
        H("maps", "map_history", dict(n=2, start=1), dict(n=3)),
        H("maps", "set_history", dict(n=2, start=1), dict(n=3)),
        H("maps", "sources"),
        ]),
    "C12": dict(bounds="", outside="", harnesses=[
        H("equality", "pairs", dict(n=2, arity=2, mixed=True), must=("equal", "unequal")),
        H("equality", "pairs", dict(n=3, arity=2, kinds=["JSObject", "JSArray", "JSMap", "JSSet", "error"]), dict(mixed=True), must=("equal", "unequal")),
        H("equality", "pairs", dict(n=4, arity=1), dict(n=5), must=("equal", "unequal")),
        H("equality", "pairs", dict(n=4, arity=1, kinds=["JSObject", "JSMap", "error"], mixed=True), must=("equal", "unequal")),
        H("equality", "wide", dict(n=3, arity=1), dict(n=4)),
        H("equality", "raising", dict(n=3, arity=1, kinds=["JSObject", "JSArray", "JSMap", "JSSet", "error"]), dict(n=3, arity=2), must=("raised",)),
        H("equality", "contents", dict(), must=("equal", "unequal")),
        H("equality", "chain", dict(n=4, kinds=["JSObject", "JSMap", "error"]), dict(n=8)),
        ]),
    "C13": dict(bounds="", outside="", harnesses=[
        H("buffers", "create", dict(ns=[0, 1, 2, 7, 8, 9, 16], kinds=["fixed", "rab", "bytearray"]), dict(ns=list(range(18)), kinds=["fixed", "rab", "bytes", "bytearray", "memoryview", "readonly"]), must=("rejected", "created")),
        H("buffers", "create", dict(ns=[8, 9], kinds=["bytes", "memoryview", "readonly"]), must=("rejected", "created")),
        H("buffers", "direct", dict(ns=[0, 3, 8, 9], kinds=["fixed", "rab"]), dict(ns=list(range(17)), kinds=["fixed", "rab", "bytes", "bytearray"]), must=("in bounds", "out of bounds", "rejected")),
        H("buffers", "unreachable", dict(ns=[17]), dict(ns=[65])),
        H("buffers", "resized", dict(n=9, top=12, steps=1), dict(n=9, top=17, steps=2)),
        H("buffers", "resized", dict(n=5, top=8, steps=2, tags=["W", "d", "?"], kinds=["rab"]), dict(n=5, top=8, steps=3), must=("in bounds", "out of bounds")),
        H("buffers", "elements", dict(items=2), dict(items=4), must=("written", "refused")),
        H("buffers", "read_elements", dict(items=2), dict(items=4)),
        H("buffers", "dataview", dict(n=9), dict(n=17), must=("written", "refused", "read")),
        H("buffers", "compare", dict(n=4)),
        ]),
    "C14": dict(bounds="", outside="", harnesses=[
        H("buffers", "constructed", dict(ns=[0, 1, 4]), dict(ns=list(range(9))), must=("created", "refused", "resized", "resize refused")),
        H("buffers", "resizes", dict(ns=[0, 2], top=4, steps=2), dict(ns=[0, 1, 3, 5], top=6, steps=4), must=("resized", "resize refused", "in use")),
        H("buffers", "resizes", dict(ns=[3], top=3, steps=3), dict(ns=[3], top=3, steps=5)),
        H("buffers", "fixed", dict(ns=[0, 1, 5])),
        H("buffers", "grown_outside", dict(n=3, top=5)),
        ]),
    "C15": dict(bounds="", outside="", harnesses=[
        H("bufrt", "buffer", dict(ns=[0, 3]), dict(ns=[0, 1, 3, 8, 130]), must=("written", "refused")),
        H("bufrt", "view", dict(n=9, kinds=["fixed", "rab"], features=["all", "none"]), must=("written", "feature")),
        H("bufrt", "view", dict(n=8, tags=["B", "W", "F", "?"]), dict(n=16), must=("written", "refused")),
        H("bufrt", "view", dict(n=5, tags=["b", "W", "d", "?"], kinds=["rab"], resize=True), dict(n=9, tags=TAGS), must=("written",)),
        H("bufrt", "other", must=()),
        H("bufrt", "sharing", dict(n=4, k=3), dict(n=4, k=4)),
        H("bufrt", "immutable", dict(n=4, kinds=["bytes", "readonly"]), dict(n=4)),
        H("bufrt", "payload", dict(ns=[0, 3, 8]), dict(ns=list(range(18))), must=("accepted", "rejected")),
        H("bufrt", "payload", dict(ns=[4], version=14), must=("accepted", "rejected")),
        H("sizes", "buffers", dict(sizes=[126, 127, 128, 300, 16384]), dict(sizes=[126, 127, 128, 129, 255, 256, 300, 16383, 16384, 65536]), must=("read",)),
        ]),
    "C16": dict(bounds="", outside="", harnesses=[
        H("features", "versions", must=("too old", "supported")),
        H("features", "monotone", must=("ordered",)),
        H("features", "encoder"),
        H("features", "texts"),
        H("features", "names"),
        H("features", "gating", must=("written", "refused", "by version")),
        H("features", "plain_regexp"),
        ]),
    "C17": dict(bounds="", outside="", harnesses=[
        H("wire", "nested", dict(second=["int", "object"], wrap=["top", "key"]), dict(second=["int", "bytes", "object", "hole", "view", "tracking"], wrap=["top", "list", "key"]), must=("written", "refused")),
        H("wire", "nested", dict(second=["bytes", "hole"], wrap=["list"]), dict(second=["double", "regexp", "wrap str", "date"], wrap=["list"]), must=("written", "refused")),
        H("wire", "substituted", must=("written",)),
        H("wire", "leak"),
        H("wire", "sized", dict(n=2, top=1 << 33), must=("written", "refused")),
        H("wire", "references", dict(n=2), must=("written", "refused")),
        H("sizes", "collections", dict(sizes=[64], kinds=["JSMap"]), dict(sizes=[8192, 16384], kinds=["list", "JSMap", "JSSet", "JSObject", "names", "sparse"]), must=("read",), opts=dict(steps=5000000, path_s=400)),
        H("sizes", "collections", dict(sizes=[63, 64, 127, 128]), dict(sizes=[63, 64, 127, 128, 255, 256, 600]), must=("read",)),
        ]),
    "C18": dict(bounds="", outside="", harnesses=[
        H("errors", "roundtrip", dict(causes=["none", "int"], wrap=["top"]), dict(wrap=["top", "list"], texts=["none", "empty", "one", "two"])),
        H("errors", "roundtrip", dict(names=["RangeError", "Error"], texts=["none", "one"])),
        H("errors", "layouts", dict(wrap=["array"]), dict(wrap=["top", "array"])),
        H("errors", "fields", dict(n=4), dict(n=5), must=("accepted", "rejected")),
        H("errors", "cyclic", dict(n=2), dict(n=3), must=("refused", "cyclic", "plain")),
        H("errors", "names", dict(n=0)),
        H("errors", "names", dict(n=5)),
        H("errors", "names", dict(n=8)),
        H("errors", "names", dict(n=9)),
        H("errors", "setters"),
        ]),
    "C19": dict(bounds="", outside="", harnesses=[
        H("regexps", "table"),
        H("regexps", "sets", dict(lo=0, hi=512), must=("invalid",)),
        H("regexps", "python_flags", must=("rejected",)),
        H("regexps", "roundtrip", dict(ns=[0, 1], flags=list(range(512)), wrap=["list"])),
        H("regexps", "roundtrip", dict(ns=[0, 1, 2, 3], flags=[0, 1, 239, 495]), dict(ns=[0, 1, 2, 3, 4, 5])),
        H("regexps", "read", dict(flags=list(range(512)), ns=[0], forms=["onebyte"]), must=("accepted", "rejected")),
        H("regexps", "read", dict(flags=[0, 127, 128, 235, 272, 491], ns=[0, 1, 2]), dict(ns=[0, 1, 2, 3]), must=("accepted", "rejected")),
        H("regexps", "patterns"),
        H("regexps", "no_pattern"),
        ]),
    "C20": dict(bounds="", outside="", harnesses=[
        H("dates", "write", dict(lo=2**39, hi=2**45, outs=["utc", "none"]), dict(lo=-10**15, hi=10**15), must=("written",)),
        H("dates", "write", dict(lo=-2**44, hi=-2**38, zones=["utc", "any"], pos=["list"], outs=["none", "india"]), must=("written",)),
        H("dates", "write", dict(lo=1, hi=2, zones=["west"], pos=["top"], outs=["india"]), dict(lo=-2**16, hi=2**16), must=("written",)),
        H("dates", "write", dict(lo=-10**15, hi=10**15, frac=False, zones=["any"], pos=["top"], outs=["utc"]), dict(lo=-10**15, hi=10**15, frac=False), must=("written",)),
        H("dates", "naive", dict(lo=-10**15, hi=10**15, frac=False), must=("written",)),
        H("dates", "naive", dict(lo=2**40, hi=2**42), dict(lo=2**36, hi=2**47), must=("written",)),
        H("dates", "naive", dict(lo=1100000000000 - 10**7, hi=1100000000000 + 10**7), must=("written",)),
        H("dates", "naive", dict(lo=1500000000000 - 2 * 10**7, hi=1500000000000 + 2 * 10**7), must=("written",)),
        H("dates", "write", dict(lo=2**40, hi=2**41, zones=["dst"], outs=["utc", "none"], pos=["top"]), dict(lo=2**40, hi=2**41, zones=["dst"], outs=["utc", "none", "any"]), must=("written",)),
        H("dates", "write", dict(lo=2**40, hi=2**41, zones=["utc"], outs=["dst"], pos=["list"]), dict(lo=2**40, hi=2**41, zones=["any", "utc"], outs=["dst"]), must=("written",)),
        H("dates", "write", dict(lo=2**40, hi=2**41, zones=["dst"], outs=["dst"], pos=["top"]), must=("written",)),
        H("dates", "exact", dict(lo=2**39, hi=2**43 - 1), dict(lo=2**20, hi=2**43 - 1)),
        H("dates", "exact", dict(lo=-2**43, hi=-2**36), dict(lo=-2**43, hi=-2**20)),
        H("dates", "exact", dict(lo=-1, hi=-1)),
        H("dates", "exact", dict(lo=0, hi=2), dict(lo=-2**20, hi=2**20)),
        H("dates", "read", dict(lo=-10**16, hi=10**16), must=("read", "rejected")),
        H("dates", "read", dict(lo=2**47, hi=2**47 + 2**14, outs=["utc"]), must=("read",)),
        H("dates", "odd", must=("rejected",)),
        ]),
    "C21": dict(bounds="", outside="", harnesses=[
        H("node", "read", dict(ns=list(range(0, 17)), hows=["default"]), dict(ns=list(range(0, 34)), hows=["default", "nodejs", "handler", "function", "steps"]), must=("read",)),
        H("node", "read", dict(ns=[7, 8], codes=[1, 3, 8, 9, 10, 12, 13, 98, 127, 128, 300, 2**32 - 1]), must=("read", "rejected")),
        H("node", "read", dict(ns=[128, 200], codes=[0, 4, 9], hows=["default"]), must=("read",)),
        H("node", "lengths", dict(n=8, hi=127), dict(n=16, hi=127), must=("read", "rejected")),
        H("node", "huge"),
        H("node", "cut", dict(n=8)),
        H("node", "off"),
        H("node", "write", dict(n=9), dict(n=24), must=("written", "other")),
        H("node", "write", dict(n=8, kinds=["fixed"]), dict(n=16), must=("written", "other")),
        H("node", "resized", dict(n=16, top=20)),
        H("node", "streams", dict(n=8, pre=3)),
        H("node", "table"),
        ]),
    "C23": dict(bounds="", outside="", harnesses=[
        H("wrappers", "accept", dict(bits=70), dict(bits=300), must=("no primitive", "refused", "accepted")),
        H("wrappers", "roundtrip", dict(bits=70), dict(bits=300, ns=[0, 1, 2, 3]), must=("number", "bigint", "string", "true", "false")),
        H("wrappers", "read", dict(ns=[0, 1, 2])),
        H("wrappers", "pair", dict(bits=3)),
        ]),
    "C24": dict(bounds="", outside="", harnesses=[
        H("arraywire", "roundtrip", dict(lens=[0, 1, 2, 3]), dict(lens=[0, 1, 2, 3, 4, 5]), must=("sparse", "dense")),
        H("arraywire", "roundtrip", dict(lens=[4, 5], nnames=[0], stores=["dense", "mixed"]), dict(lens=[6, 7], stores=["dense", "sparse", "mixed"]), must=("sparse", "dense")),
        H("arraywire", "forms", dict(lens=[0, 1, 2, 3]), dict(lens=[0, 1, 2, 3, 4, 5])),
        H("arraywire", "wide", dict(k=0), must=("sparse", "dense")),
        H("arraywire", "wide", dict(k=1), must=("sparse", "dense")),
        H("arraywire", "wide", dict(k=2, top=40, name=False), dict(k=2, top=MAXA, name=True), must=("sparse", "dense")),
        H("arraywire", "lengths", dict(k=2), must=("refused", "written")),
        H("arraywire", "declared", dict(form="sparse", items=1), dict(items=2), must=("refused", "read")),
        H("arraywire", "declared", dict(form="dense", items=2), dict(items=4), must=("refused", "read")),
        H("arraywire", "overriding", dict(n=2), dict(n=3)),
        H("sizes", "collections", dict(sizes=[63, 64, 128], kinds=["list", "dense names", "sparse", "sparse names", "holes"]), dict(sizes=[63, 64, 127, 128, 129, 255, 256, 600]), must=("read",)),
        ]),
    "C25": dict(bounds="", outside="", harnesses=[
        H("steps", "encode_chain", dict(n=1), dict(n=2), must=("refused", "unhandled", "written")),
        H("steps", "encode_chain", dict(n=3, refs=False, forms="object", pos=["top", "list", "key"]), dict(n=4, pos=["top", "list", "key", "map", "error"]), must=("refused", "unhandled", "written")),
        H("steps", "unhandled"),
        H("steps", "decode_chain", dict(n=1), dict(n=2), must=("refused", "unhandled", "read")),
        H("steps", "decode_chain", dict(n=3, forms="object", pos=["top", "array", "key"]), dict(n=4, pos=["top", "array", "object", "map", "key"]), must=("refused", "unhandled", "read")),
        H("steps", "options", dict(names=["jsmap_type", "jsset_type", "js_object_type", "js_array_type", "default_timezone", "js_error_builder", "host_object_deserializer"]), must=("conflict",)),
        H("steps", "constants"),
        H("steps", "constants", dict(reader=True)),
        H("steps", "tag_readers", must=("override", "default")),
        H("steps", "tag_readers", dict(group=True, tags=["kNull"]), must=("override", "default")),
        H("steps", "unregistered"),
        H("steps", "reuse"),
        H("steps", "contexts"),
        ]),
    "C27": dict(bounds="", outside="", harnesses=[
        H("kinds", "maps"),
        H("kinds", "counters"),
        H("kinds", "sets"),
        H("kinds", "lists"),
        H("kinds", "scalars"),
        H("kinds", "unsupported"),
        H("kinds", "nested", dict(depth=3), dict(depth=4)),
        H("kinds", "integers"),
        H("sizes", "collections", dict(sizes=[63, 64, 128], kinds=["dict", "JSMap", "set", "JSSet", "list", "JSObject"]), dict(sizes=[63, 64, 127, 128, 129, 255, 256, 600]), must=("read",)),
        ]),
    "C28": dict(bounds="", outside="", harnesses=[
        H("reprs", "history", dict(n=2)),
        H("reprs", "history", dict(n=2, lifo=False, fields=[0]), dict(fields=[0, 2, 13, 14]), must=("out of order",)),
        H("reprs", "history", dict(n=3, fields=[2]), dict(n=3, fields=[0, 2, 13, 14]), must=("all left",)),
        H("reprs", "names"),
        H("reprs", "limits", dict(n=4), dict(n=7, top=8)),
        H("reprs", "levels", dict(n=2, top=3), dict(n=3, top=4)),
        H("reprs", "content", dict(n=2), dict(n=3)),
        H("reprs", "graphs", dict(n=2, indent=True), must=("cycle", "tree")),
        H("reprs", "graphs", dict(n=2, arity=2, kinds=["JSObject", "JSMap", "list", "JSErrorData"]), dict(kinds=["JSObject", "JSArray", "JSMap", "JSSet", "JSError", "list", "JSErrorData"]), must=("cycle", "tree")),
        H("reprs", "graphs", dict(n=3, kinds=["JSObject", "JSSet", "JSErrorData", "dict"]), dict(kinds=["JSObject", "JSArray", "JSMap", "JSSet", "JSError", "JSErrorData", "list", "dict"]), must=("cycle", "tree")),
        H("reprs", "interrupted", dict(n=2), dict(n=3), must=("raised",)),
        H("reprs", "kwargs", dict(n=1), dict(n=2)),
        H("reprs", "buffers", dict(n=3), dict(n=9)),
        H("reprs", "errors"),
        ]),
    "C29": dict(bounds="", outside="", harnesses=[
        H("trace", "frames", dict(n=2), dict(n=3), must=("frames", "no frames")),
        H("trace", "many", dict(n=8), dict(n=40)),
        H("trace", "contexts", dict(n=3), dict(n=5), must=("suppressed",)),
        H("trace", "groups", dict(n=2, depth=1), must=("context", "members")),
        H("trace", "groups", dict(n=2, depth=2, contexts=False), dict(n=3, depth=2, contexts=False), must=("members",)),
        H("trace", "groups", dict(n=1, depth=2), must=("context", "members")),
        H("trace", "groups", dict(n=1, depth=5, contexts=False), must=("members",)),
        H("trace", "groups", dict(n=2, depth=3, contexts=False), must=("members",)),
        H("trace", "data", dict(n=2), dict(n=4), must=("no text",)),
        H("trace", "real", dict(depth=2), dict(depth=6)),
        ]),
    "C26": dict(bounds="", outside="", harnesses=[
        H("bufrt", "input_types", dict(), must=("decoded", "rejected", "buffer")),
        H("bufrt", "input_types", dict(hows=["wide"]), must=("decoded", "rejected")),
        H("bufrt", "reuse"),
        ]),
    "C30": dict(bounds="", outside="", harnesses=[
        H("again", "contents", must=("read",)),
        H("again", "pieces", dict(n=1), must=("read", "refused")),
        H("again", "pieces", dict(n=2), dict(n=3), must=("read", "refused")),
        H("again", "inner", dict(depth=2), dict(depth=3), must=("read", "refused")),
        H("again", "doubles", must=("read",)),
        H("again", "dates", dict(lo=-(10 ** 14), hi=10 ** 14), must=("read",)),
        H("again", "keys", dict(n=2), dict(n=3), must=("read",)),
        H("again", "lengths", must=("read",)),
        H("again", "any_payload", dict(n=5, pres=["u", "t", "p"]), dict(n=6), must=("read", "refused")),
        H("again", "any_payload", dict(n=4), must=("read", "refused")),
        H("again", "any_payload", dict(n=3, version=13, pres=["B\x03abcV", "u\x01V", "I"]), must=("read", "refused")),
        H("again", "any_payload", dict(n=3, pres=["B\x09abcdefghiV", "~\x04\x08abcdV", "u\x01V", "\\", "B\x04abcdVB", "B\x04abcdV?", "B\x04abcdVD"]), dict(n=4), must=("read", "refused")),
        H("again", "any_payload", dict(n=3, pres=["R\"\x01x", "R\"\x0eabcdefghijklmn", "r", "rm", "RS\x02", "Rc\x02"]), dict(n=4), must=("read", "refused")),
        H("again", "any_payload", dict(n=4, pres=["c\x04", "S\x04", "S\x03", "c\x03"]), must=("read", "refused")),
        H("again", "any_payload", dict(n=6, pres=["N\x00\x00", "D\x00\x00", "n\x00\x00"]), must=("read", "refused")),
        H("again", "any_payload", dict(n=4, pres=["Z", "z", "I", "U", "^", "~", "t", "p", "w", "m"]), dict(n=5), must=("read", "refused")),
        H("again", "any_payload", dict(n=3, pres=["A", "a", "B", "u", ";", "o", "oI\x02", "A\x02", "a\x05I\x02"]), dict(n=4), must=("read", "refused")),
        ]),
    "C31": dict(bounds="", outside="", harnesses=[
        H("pure", "unchanged", dict(n=1, hi=300)),
        H("pure", "unchanged", dict(n=2, hi=300, ins=["list", "JSObject"]), dict(ins=None)),
        H("pure", "graph", dict(n=2, kinds=["list", "dict", "JSObject", "JSArray", "sparse", "JSMap", "JSSet", "error"])),
        H("pure", "graph", dict(n=3, arity=1, kinds=["list", "JSObject", "JSMap", "error"]), dict(kinds=["list", "dict", "JSObject", "JSArray", "sparse", "JSMap", "JSSet", "error"])),
        H("pure", "twice", dict(n=1), must=("read", "refused", "failed in between")),
        H("pure", "twice", dict(n=2, others=[b"\xff\x0fA\x01o{\x00"]), dict(others=[b"\xff\x0fo{\x00", b"\xff\x0fA\x01o{\x00", b"\xff\x0fA\x02o{\x00^\x01$\x00\x02", b"\xff\x0f;^\x00", b"\xff\x0frc^"]), must=("read", "refused", "failed in between")),
        H("pure", "template", must=("read", "refused")),
        H("pure", "failing", dict(n=1, hi=300), must=("refused", "raised")),
        H("pure", "nested", dict(n=2, hi=300)),
        H("pure", "errors"),
        H("pure", "lent", dict(n=2), dict(n=5)),
        H("pure", "borrowed", dict(n=2, pres=["B\x04abcdV", "S\x02", "c\x02", "B\x02", "Z", ""]), dict(n=3), must=("read", "refused")),
        ]),
    "C32": dict(bounds="", outside="", harnesses=[
        H("threads", "compare", dict(switches=4), dict(switches=8), must=("equal", "different")),
        H("threads", "compare", dict(switches=2, n=1, third=True), dict(switches=4, n=2)),
        H("threads", "show", dict(switches=6), dict(switches=12)),
        H("threads", "show", dict(switches=2, third=True), dict(switches=4)),
        H("threads", "write", dict(switches=1, hi=300), dict(switches=2)),
        H("threads", "read", dict(switches=2), dict(switches=3)),
        ]),
    "C33": dict(bounds="", outside="", harnesses=[
        H("streams", "sequence", dict(n=1, big=70), dict(big=200), must=("read", "refused")),
        H("streams", "sequence", dict(n=2), must=("read", "refused")),
        H("streams", "sequence", dict(n=3, kinds=["twobyte", "uint32"], big=17), dict(kinds=["twobyte", "uint32", "bigint", "double"]), must=("read", "refused")),
        H("streams", "expect", must=("accepted", "refused")),
        H("streams", "tags", must=("accepted", "refused")),
        H("streams", "containers", dict(n=2), dict(n=3), must=("read", "refused")),
        H("streams", "objects", must=("read",)),
        H("streams", "constrained", must=("written", "refused")),
        ]),
    "C34": dict(bounds="", outside="", harnesses=[
        H("hashes", "views", dict(a=["b", "B", "C", "w", "W", "d", "D", "?", "h", "backport", "f"], b=["B", "b", "W", "D", "?", "h", "f"], n=8, count=2, kinds=["bytes"]),
          dict(n=12, count=3), must=("equal", "different")),
        H("hashes", "views", dict(a=["q", "Q", "F"], b=["b", "W", "d", "q", "Q", "F", "h", "f", "?"], n=8, count=1), dict(n=16, count=2), must=("equal", "different")),
        H("hashes", "views", dict(a=["B", "W", "h"], b=["b", "w"], n=4, kinds=["bytes", "memoryview", "buffer", "shared"]), must=("equal", "different")),
        H("hashes", "hidden", must=("equal", "different")),
        H("hashes", "buffers", dict(n=2), dict(n=6), must=("equal", "different")),
        H("hashes", "wrappers", dict(n=3), dict(n=5), must=("equal", "different")),
        H("hashes", "values", dict(n=3), dict(n=5), must=("equal", "different")),
        H("hashes", "mutable", must=("unhashable",)),
        H("hashes", "members", dict(n=1), dict(n=3)),
        ]),
}

NOT_APPLICABLE = {}

import bounds as _bounds
for _p, (_b, _o) in _bounds.B.items():
    CHECKS[_p]["bounds"], CHECKS[_p]["outside"] = _b, _o

import os
if os.environ.get("VP_ADHOC"):      # development: one harness given on the command line as property CX
    CHECKS["CX"] = dict(bounds="", outside="", harnesses=[eval(os.environ["VP_ADHOC"])])
