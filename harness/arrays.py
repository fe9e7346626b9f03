"""C10: dense and sparse array storage against a plain list with holes."""
from v8serialize._typing import Order
from v8serialize.jstypes import JSHole
from v8serialize.jstypes.jsarrayproperties import (MAX_ARRAY_LENGTH, DenseArrayProperties, SparseArrayProperties,
                                                   alternating_regions)


def state(S, a, m, what):
    """a describes exactly the list m."""
    S.check(len(a) == len(m), "length after " + what)
    used = [i for i, v in enumerate(m) if v is not JSHole]
    S.check(a.elements_used == len(used), "elements_used after " + what)
    got = list(a)
    S.check(len(got) == len(m), "iteration after " + what)
    for i in range(len(m)):
        S.check((got[i] is JSHole) == (m[i] is JSHole), "holes after " + what)
        if m[i] is not JSHole:
            S.check(got[i] == m[i], "elements after " + what)
    S.check(list(a.element_indexes()) == used, "element_indexes after " + what)
    S.check(list(a.element_indexes(order=Order.DESCENDING)) == used[::-1], "descending element_indexes after " + what)
    un = list(a.element_indexes(order=Order.UNORDERED))
    S.check(len(un) == len(used) and sorted(un) == used, "unordered element_indexes after " + what)
    for i in range(-len(m), len(m)):
        v = a[i]
        S.check((v is JSHole) == (m[i] is JSHole), "item after " + what)
        if v is not JSHole:
            S.check(v == m[i], "item after " + what)


def views(S, a, m, what):
    used = [i for i, v in enumerate(m) if v is not JSHole]
    e = a.elements()
    S.check(len(e) == len(used), "elements() length after " + what)
    S.check(list(e) == used and list(e.keys()) == used, "elements() keys after " + what)
    for (k, v), i in zip(e.items(), used):
        S.check(k == i and v == m[i], "elements() items after " + what)
    d = list(a.elements(order=Order.DESCENDING).items())
    for (k, v), i in zip(d, used[::-1]):
        S.check(k == i and v == m[i], "descending elements() after " + what)
    k = S.int("probe", -len(m) - 2, len(m) + 2)
    inside = False
    for i in used:
        if k == i:
            inside = True
            S.check(e[k] == m[i], "elements()[i] after " + what)
    S.check((k in e) == inside, "elements() membership after " + what)
    if not inside:
        try:
            e[k]
            S.fail("elements()[i] of a hole or outside after " + what)
        except KeyError:
            pass
    try:
        v = a[k]
        S.check(S.all([k >= -len(m), k < len(m)]), "item outside after " + what)
    except IndexError:
        S.check(S.any([k < -len(m), k >= len(m)]), "item inside refused after " + what)
    # regions
    pos = 0
    prev = None
    for r in alternating_regions(a):
        S.check(r.start == pos, "region start after " + what)
        S.check(r.length > 0 and len(r) == r.length, "empty region after " + what)
        kind = "hole" if r.items is None else "used"
        S.check(kind != prev, "regions do not alternate after " + what)
        prev = kind
        for j in range(r.length):
            v = m[pos + j]
            if r.items is None:
                S.check(v is JSHole, "empty region over an element after " + what)
            else:
                S.check(v is not JSHole and r.items[j] == v, "region items after " + what)
        if r.items is not None:
            S.check(len(r.items) == r.length, "region items after " + what)
        pos = pos + r.length
    S.check(pos == len(m), "regions do not cover the array after " + what)


def value(S, name):
    return JSHole if S.flag(name + ".hole") else S.int(name, 0, 99)


OPS = ["set", "del", "insert", "append", "extend", "resize", "reverse", "pop", "popi", "clear", "remove", "iadd"]


def call(f):
    """-> None or the kind of error"""
    try:
        f()
    except IndexError:
        return "IndexError"
    except ValueError:
        return "ValueError"
    return None


def operate(S, op, i, v, w, a):
    """One operation through the public sequence API."""
    if op == "set":
        a[i] = v
    elif op == "del":
        del a[i]
    elif op == "insert":
        a.insert(i, v)
    elif op == "append":
        a.append(v)
    elif op == "extend":
        a.extend([v, w, v])
    elif op == "resize":
        if isinstance(a, list):
            if i < 0:
                raise ValueError
            while len(a) > i:
                a.pop()
            while len(a) < i:
                a.append(JSHole)
        else:
            a.resize(i)
    elif op == "reverse":
        a.reverse()
    elif op == "pop":
        return a.pop()
    elif op == "popi":
        return a.pop(i)
    elif op == "clear":
        a.clear()
    elif op == "remove":
        a.remove(v)
    elif op == "iadd":
        a += [v, w]
    return None


def start(S, lo, hi):
    n = S.choice("start", range(lo, hi + 1))
    return [JSHole if S.flag("s%d.hole" % j) else 10 + j for j in range(n)]


def history(S, n, lo, hi, ops=OPS, cls="both", view=True, reach=1):
    m = start(S, lo, hi)
    todo = []
    if cls != "sparse":
        todo.append(DenseArrayProperties(list(m)))
    if cls != "dense":
        if S.flag("entries"):
            todo.append(SparseArrayProperties(entries=[(i, v) for i, v in reversed(list(enumerate(m))) if v is not JSHole], length=len(m)))
        else:
            todo.append(SparseArrayProperties(list(m)))
    for t in range(n):
        op = S.choice("op%d" % t, ops)
        i, v, w = 0, None, None
        if op in ("set", "del", "insert", "popi", "resize"):
            i = S.int("i%d" % t, -len(m) - reach, len(m) + reach)
        if op in ("set", "insert", "append", "extend", "remove", "iadd"):
            v = value(S, "v%d" % t)
        if op in ("extend", "iadd"):
            w = value(S, "w%d" % t)
        if op == "insert":
            S.assume(i >= -len(m))
        before = list(m)
        want = None
        try:
            want = operate(S, op, i, v, w, m)
            err = None
        except IndexError:
            err = "IndexError"
        except ValueError:
            err = "ValueError"
        for a in todo:
            got = None
            try:
                got = operate(S, op, i, v, w, a)
                e = None
            except IndexError:
                e = "IndexError"
            except ValueError:
                e = "ValueError"
            S.check(e == err, "%s ended with %s instead of %s" % (op, e, err))
            if op in ("pop", "popi") and err is None:
                S.check((got is JSHole) == (want is JSHole), op + " returned a hole or not")
                if want is not JSHole:
                    S.check(got == want, op + " returned another element")
            state(S, a, m, op)
    if view:
        for a in todo:
            views(S, a, m, op)
    if cls == "both":
        S.check(todo[0] == todo[1] and todo[1] == todo[0], "dense and sparse of the same content differ")
        S.check(not (todo[0] != todo[1]), "dense and sparse of the same content differ")


class Model:
    """A list with holes of any length: [(position, value)] and the length."""

    def __init__(self, els, length):
        self.els, self.length = els, length


def wide(S, n, k, ops, top=MAX_ARRAY_LENGTH):
    """Sparse storage of any length, elements at any positions, any index."""
    length = S.int("length", 0, top)
    els = []
    for j in range(k):
        p = S.int("p%d" % j, 0, top - 1)
        S.assume(p < length)
        for q, _ in els:
            S.assume(p != q)
        els.append((p, 10 + j))
    a = SparseArrayProperties(entries=list(els), length=length)
    for t in range(n):
        op = S.choice("op%d" % t, ops)
        i = S.int("i%d" % t, -3, top + 1)
        hole = S.flag("hole%d" % t) if op in ("set", "insert", "append") else False
        v = JSHole if hole else 50 + t
        pos = i
        if op in ("set", "del", "insert") and i < 0:
            pos = i + length
        ok = True
        new, newlen = els, length
        if op == "set":
            ok = S.all([pos >= 0, pos < length])
            new = [(p, x) for p, x in els if p != pos] + ([] if hole else [(pos, v)])
        elif op == "del":
            ok = S.all([pos >= 0, pos < length])
            new = [(p if p < pos else p - 1, x) for p, x in els if p != pos]
            newlen = length - 1
        elif op == "insert":
            S.assume(pos >= 0)
            if i >= length:
                pos = length
            ok = length < MAX_ARRAY_LENGTH
            new = [(p if p < pos else p + 1, x) for p, x in els] + ([] if hole else [(pos, v)])
            newlen = length + 1
        elif op == "append":
            ok = length < MAX_ARRAY_LENGTH
            new = els + ([] if hole else [(length, v)])
            newlen = length + 1
        elif op == "resize":
            ok = S.all([i >= 0, i <= MAX_ARRAY_LENGTH])
            new = [(p, x) for p, x in els if p < i]
            newlen = i
        try:
            if op == "set":
                a[i] = v
            elif op == "del":
                del a[i]
            elif op == "insert":
                a.insert(i, v)
            elif op == "append":
                a.append(v)
            else:
                a.resize(i)
            done = True
        except (IndexError, ValueError):
            done = False
        S.check(done == ok, op + " refused or allowed wrongly")
        if done:
            els, length = new, newlen
        S.check(len_of(a) == length, "length after " + op)
        S.check(a.elements_used == len(els), "elements_used after " + op)
        check_wide(S, a, els, length, op)
    x = S.int("probe", -3, top + 1)
    pos = x if x >= 0 else x + length
    try:
        got = a[x]
        S.check(S.all([pos >= 0, pos < length]), "item outside")
        found = False
        for p, v in els:
            if p == pos:
                found = True
                S.check(got == v, "item")
        if not found:
            S.check(got is JSHole, "item at a hole")
    except IndexError:
        S.check(S.any([pos < 0, pos >= length]), "item inside refused")


def len_of(a):
    return a._max_index + 1 if False else a.__len__()


def check_wide(S, a, els, length, what):
    idx = list(a.element_indexes())
    S.check(len(idx) == len(els), "element_indexes after " + what)
    for j in range(1, len(idx)):
        S.check(idx[j - 1] < idx[j], "element_indexes not ascending after " + what)
    for p, v in els:
        S.check(S.any([q == p for q in idx]), "element_indexes after " + what)
        S.check(a[p] == v, "item after " + what)
    down = list(a.element_indexes(order=Order.DESCENDING))
    S.check(len(down) == len(idx), "descending element_indexes after " + what)
    for p, q in zip(idx, reversed(down)):
        S.check(p == q, "descending element_indexes after " + what)


class Mapping:
    """Has keys() and [] but not items()."""
    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[k]


def arguments(S, n):
    """Storage made from values; arguments that do not go together; indexes and lengths beyond the range."""
    k = S.choice("k", range(n + 1))
    m = [JSHole if S.flag("hole%d" % j) else S.int("v%d" % j, 0, 3) for j in range(k)]
    form = S.choice("form", ["list", "tuple", "generator", "dense", "sparse"])
    src = {"list": list, "tuple": tuple, "generator": iter, "dense": DenseArrayProperties, "sparse": SparseArrayProperties}[form](list(m))
    case = S.choice("case", ["values", "length", "entry", "long"])
    if case == "values":
        cls = DenseArrayProperties if S.flag("dense") else SparseArrayProperties
        a = cls(src) if S.flag("positional") else cls(values=src)
        state(S, a, m, "creation from values")
        return
    try:
        if case == "length":
            SparseArrayProperties(src, length=S.int("length", 0, 5))
        elif case == "entry":
            SparseArrayProperties(entries=[(0, 1), (S.int("index", MAX_ARRAY_LENGTH, 2 ** 33), 1)])
        else:
            SparseArrayProperties(entries=[(0, 1)], length=S.int("long", MAX_ARRAY_LENGTH + 1, 2 ** 33))
        S.fail("arguments not refused")
    except ValueError:
        S.check(case != "entry", "kind of refusal")
    except IndexError:
        S.check(case == "entry", "kind of refusal")


def constructors(S, n):
    """Every way of creating sparse storage denotes the same content."""
    k = S.choice("k", range(0, n + 1))
    es = []
    for j in range(k):
        es.append((S.int("p%d" % j, -2, 6), 10 + j))
    length = S.int("len", -1, 7) if S.flag("length given") else None
    form = S.choice("form", ["pairs", "dict", "generator", "mapping"])
    final = {}
    for p, v in es:
        final[p] = v
    src = es if form == "pairs" else dict(es) if form == "dict" else Mapping(dict(es)) if form == "mapping" else (e for e in es)
    bad = any([p < 0 for p, _ in es])
    try:
        a = SparseArrayProperties(entries=src, length=length)
    except IndexError:
        S.check(bad, "valid entries refused")
        S.reached("bad index")
        return
    except ValueError:
        S.check(length is not None and S.all([length < 0]), "valid length refused")
        S.reached("bad length")
        return
    S.check(not bad, "invalid entries accepted")
    if length is None:
        length = max([p for p in final], default=-1) + 1
    else:
        S.check(length >= 0, "invalid length accepted")
    length = S.concrete(length)
    m = [JSHole] * length
    for p, v in final.items():
        p = S.concrete(p)
        if p < length:
            m[p] = v
    S.reached("created")
    state(S, a, m, "creation")
    b = DenseArrayProperties(m)
    state(S, b, m, "creation")
    S.check(a == b and b == a, "dense and sparse of the same content differ")


def equality(S, n):
    """Equal exactly when lengths, holes and elements agree."""
    def make(p):
        k = S.choice(p + "n", range(0, n + 1))
        m = [JSHole if S.flag("%s%d.hole" % (p, j)) else S.int("%s%d" % (p, j), 0, 3) for j in range(k)]
        return m, (DenseArrayProperties if S.flag(p + "dense") else SparseArrayProperties)(list(m))
    m1, a = make("a")
    m2, b = make("b")
    same = len(m1) == len(m2)
    if same:
        same = S.all([True] + [(x is y) if (x is JSHole or y is JSHole) else x == y for x, y in zip(m1, m2)])
    S.check((a == b) == same, "equality")
    S.check((b == a) == same, "equality is not symmetric")
    S.check((a != b) == S.not_(same), "inequality")
