"""C24: arrays keep their length, holes, elements and named properties on the wire."""
from v8serialize import DecodeV8SerializeError, dumps, loads
from v8serialize.encode import DefaultEncodeContext, TagWriter, WritableTagStream, serialize_object_references
from v8serialize.constants import MAX_ARRAY_LENGTH
from v8serialize.jstypes import JSArray, JSHole, JSObject
from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties
from hx import v8

NAMES = ["a", "01", "-1", "4294967295", "length"]


def denoted(S, tree):
    """-> (length, elements by index, named properties in order) of what V8 reads."""
    els = {}
    names = []
    if tree.info == "dense":
        length = len(tree.items)
        for i, v in enumerate(tree.items):
            if v is not v8.HOLE:
                els[i] = v
    else:
        length = tree.items
    for k, v in tree.props:
        if isinstance(k, str):
            S.check(not (k.isascii() and k.isdigit() and (k == "0" or k[0] != "0") and int(k) < MAX_ARRAY_LENGTH), "an index written as a name")
            names.append((k, v))
        else:
            S.check(k.form == "I" or k.form == "U", "an index written as a double")
            els[k.v] = v
    return length, els, names


def same(S, tree, back, m, names):
    """tree (read by V8) and back (read by loads) are the list m (with holes) and the names."""
    S.check(tree.kind == "array", "written as an array")
    length, els, props = denoted(S, tree)
    S.check(length == len(m), "length written")
    S.check(len(els) == len([v for v in m if v is not JSHole]), "number of elements written")
    for i, v in enumerate(m):
        S.check((i in els) == (v is not JSHole), "holes written")
        if v is not JSHole:
            S.check(els[i].v == v, "elements written")
    S.check([k for k, _ in props] == [k for k, _ in names], "names written")
    for (k, v), (k2, v2) in zip(props, names):
        S.check(v.v == v2, "named values written")
    S.check(type(back) is JSArray, "read as an array")
    S.check(len(back.array) == len(m), "length read back")
    got = list(back.array)
    for i, v in enumerate(m):
        S.check((got[i] is JSHole) == (v is JSHole), "holes read back")
        if v is not JSHole:
            S.check(got[i] == v, "elements read back")
    S.check(list(back.properties.items()) == names, "names read back")
    S.check(len(back) == len([v for v in m if v is not JSHole]) + len(names), "size read back")


def content(S, lens, nnames):
    n = S.choice("n", lens)
    x = S.int("x", -5, 300)
    m = [JSHole if S.flag("hole%d" % i) else x + i for i in range(n)]
    names = [(NAMES[j], x - j) for j in range(S.choice("names", nnames))]
    return m, names


def roundtrip(S, lens, nnames=(0, 2), stores=("dense", "sparse", "mixed")):
    """Every pattern of holes in either storage."""
    m, names = content(S, lens, nnames)
    store = S.choice("store", list(stores))
    if store == "dense":
        a = JSArray(m)
        for k, v in names:
            a[k] = v
    elif store == "sparse":
        a = JSArray()
        for k, v in names:
            a[k] = v
        a.array = SparseArrayProperties(entries=[(i, v) for i, v in enumerate(m) if v is not JSHole][::-1], length=len(m))
    else:
        a = JSArray()
        a[100] = JSHole
        for k, v in names:
            a[k] = v
        for i in reversed(range(len(m))):
            if m[i] is not JSHole:
                a[i] = m[i]
        a.array.resize(len(m))
    pos = S.choice("pos", ["top", "list"])
    data = dumps(a if pos == "top" else [a, 7, a])
    tree = v8.parse(data)
    back = loads(data)
    if pos == "list":
        S.check(tree.items[2] is tree.items[0] and back[2] is back[0] and tree.items[1].v == 7 and back[1] == 7 and len(tree.items) == 3, "neighbours")
        tree, back = tree.items[0], back[0]
    same(S, tree, back, m, names)
    S.check(tree.info == "sparse" or tree.info == "dense", "form")
    S.reached(tree.info)
    S.check(back == a and a == back, "equality")


def stream():
    s = WritableTagStream()
    s.write_header()
    return s, DefaultEncodeContext(stream=s, encode_steps=[serialize_object_references, TagWriter()])


def forms(S, lens, nnames=(0, 2)):
    """The dense and the sparse form of the same content."""
    m, names = content(S, lens, nnames)
    who = object()
    s1, c1 = stream()
    if names or S.flag("identity"):
        s1.write_js_array_dense(list(m), c1, properties=names if names or S.flag("properties") else None, identity=who)
        S.check(s1.objects.get_serialized_id(who) == 0, "identity of a dense array")
    else:
        src = list(m)
        s1.write_js_array_dense(src, c1)
        S.check(s1.objects.get_serialized_id(src) == 0, "identity of a dense array")
    s2, c2 = stream()
    s2.write_js_array_sparse([(i, v) for i, v in enumerate(m) if v is not JSHole] + names, c2, length=len(m), identity=who)
    S.check(s2.objects.get_serialized_id(who) == 0, "identity of a sparse array")
    d1, d2 = bytes(s1.data), bytes(s2.data)
    t1, t2 = v8.parse(d1), v8.parse(d2)
    S.check(t1.info == "dense" and t2.info == "sparse", "forms")
    b1, b2 = loads(d1), loads(d2)
    same(S, t1, b1, m, names)
    same(S, t2, b2, m, names)
    S.check(b1 == b2 and b2 == b1, "both forms are equal")


def wide(S, k, name=True, top=MAX_ARRAY_LENGTH):
    """Few elements anywhere in an array of any length."""
    a = JSArray()
    lo = 0
    els = []
    for j in range(k):
        p = S.int("p%d" % j, 0, top - 1)
        if j:
            S.assume(p > els[-1][0])
        els.append((p, 50 + j))
    length = S.int("length", 0, top)
    if k:
        S.assume(length > els[-1][0])
    # far enough apart for both forms
    a[16] = JSHole
    a.array.resize(length)
    for p, v in reversed(els):
        a[p] = v
    if name:
        a["n"] = 1
    data = dumps(a)
    tree = v8.parse(data)
    S.check(tree.kind == "array", "written as an array")
    if tree.info == "sparse":
        S.reached("sparse")
        S.check(tree.items == length, "length written")
        S.check(len(tree.props) == k + (1 if name else 0), "number of properties written")
        for (key, v), (p, w) in zip(tree.props, els):
            S.check(not isinstance(key, str) and key.v == p and v.v == w, "elements written")
    else:
        S.reached("dense")
        S.check(len(tree.items) == length, "length written")
        S.check(len([v for v in tree.items if v is not v8.HOLE]) == k, "holes written")
        for p, w in els:
            S.check(tree.items[p].v == w, "elements written")
    back = loads(data)
    S.check(type(back) is JSArray and back.array.__len__() == length, "length read back")
    S.check(len(back) == k + (1 if name else 0) and back.array.elements_used == k, "size read back")
    for p, w in els:
        S.check(back[p] == w, "elements read back")
    if name:
        S.check(back["n"] == 1, "named value read back")
    probe = S.int("probe", 0, top)
    hit = S.any([probe == p for p, _ in els])
    S.check((probe in back) == hit, "holes read back")


def lengths(S, k):
    """Lengths given to the sparse writer."""
    n = S.int("length", -3, 2 ** 34)
    s, ctx = stream()
    before = bytes(s.data)
    try:
        s.write_js_array_sparse([(j, j) for j in range(k)], ctx, length=n, identity=object())
    except ValueError:
        S.reached("refused")
        S.check(S.any([n < 0, n > 2 ** 32 - 1]), "a valid length is refused")
        S.check(bytes(s.data) == before, "written before the refusal")
        return
    S.check(S.all([n >= 0, n <= 2 ** 32 - 1]), "an invalid length is accepted")
    S.reached("written")
    tree = v8.parse(bytes(s.data))
    S.check(tree.info == "sparse" and tree.items == n, "length written")
    if n >= k:
        S.check(loads(bytes(s.data)).array.__len__() == n, "length read back")
    try:
        s.write_js_array_dense([1], ctx, properties=[("a", 1)])
        S.fail("properties without an identity")
    except ValueError:
        pass


def varint(n, size):
    """n as a varint of exactly size bytes."""
    out = []
    for i in range(size):
        out.append((n & 127) | (128 if i < size - 1 else 0))
        n = n >> 7
    return bytes(out)


def declared(S, form, items, bits=35):
    """What is declared at the start and at the end of an array."""
    n = S.int("n", 0, 2 ** bits - 1) if form == "sparse" else S.int("n", 0, items + 1)
    m = S.int("m", 0, 2 ** bits - 1) if form == "sparse" else S.int("m", 0, items + 1)
    cnt = S.int("count", 0, 3)
    named = S.flag("name")
    size = 5 if form == "sparse" else 1
    body = b""
    if form == "sparse":
        keys = []
        for j in range(items):
            p = S.int("p%d" % j, 0, 2 ** 31 - 1)
            if j:
                S.assume(p > keys[-1])
            keys.append(p)
            body = body + b"U" + varint(p, 5) + b"I" + varint(2 * (j + 1), 1)
    else:
        body = b"T" * items
    if named:
        body = body + b'"\x01xI\x02'
    end = b"@" if form == "sparse" else b"$"
    data = b"\xff\x0f" + (b"a" if form == "sparse" else b"A") + varint(n, size) + body + end + varint(cnt, 1) + varint(m, size)
    k = (items if form == "sparse" else 0) + (1 if named else 0)
    ok = S.all([n == m, cnt == k, n <= 2 ** 32 - 1] + ([] if form == "sparse" else [n == items]))
    try:
        back = loads(data)
    except DecodeV8SerializeError:
        S.reached("refused")
        S.check(S.not_(ok), "a valid array is refused")
        return
    S.reached("read")
    S.check(ok, "an invalid array is accepted")
    S.check(len(back) == items + (1 if named else 0), "size")
    if form == "dense":
        S.check(len(back.array) == items, "length")
        for j in range(items):
            S.check(back[j] is True, "elements")
        return
    # an index beyond the declared length grows the array, as in JavaScript
    top = n
    if items and keys[-1] >= n:
        top = keys[-1] + 1
    S.check(back.array.__len__() == top, "length")
    for j in range(items):
        S.check(back[keys[j]] == j + 1, "elements")


def overriding(S, n):
    """Properties after the elements of a dense array may name elements."""
    k = S.choice("n", range(n + 1))
    p = S.int("p", 0, 2 ** 32 - 1)
    kind = S.choice("kind", ["U", "N", "I"])
    if kind == "U":
        key = b"U" + varint(p, 5)
    elif kind == "I":
        S.assume(p < 2 ** 31)
        key = b"I" + varint(2 * p, 5)
    else:
        p = S.choice("pN", [0, 1, 2, 5, 40, 2 ** 32 - 2, 2 ** 32 - 1])
        import struct
        key = b"N" + struct.pack("<d", p)
    holes = [S.flag("hole%d" % i) for i in range(k)]
    data = b"\xff\x0fA" + bytes([k]) + b"".join([b"-" if h else b"I" + varint(2 * i, 1) for i, h in enumerate(holes)]) + key + b"I\x32$\x01" + bytes([k])
    back = loads(data)
    index = p < 2 ** 32 - 1
    length = S.concrete(k)
    if index and p >= k:
        length = p + 1
    S.check(back.array.__len__() == length, "length")
    S.check(back[p] == 25, "the property")
    for i in range(k):
        S.check((i in back) == S.any([not holes[i], p == i]), "holes")
        if not holes[i] and p != i:
            S.check(back[i] == i, "elements")
    used = len([h for h in holes if not h])
    extra = 1
    if p < k and not S.any([p == i and holes[i] for i in range(k)]):
        extra = 0
    S.check(len(back) == used + extra, "size")
