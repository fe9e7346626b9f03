"""Hash-consed terms over mathematical integers, booleans and IEEE doubles.

Integer terms carry a finite interval, so lowering to bit-vectors wide enough
for every intermediate result is exact (Python ints never wrap)."""
import struct, math
from fractions import Fraction

_table = {}
SEED = 0x9E3779B97F4A7C15
M64 = (1 << 64) - 1


class T:
    __slots__ = ("op", "args", "sort", "lo", "hi", "vars", "z", "sh", "__weakref__")

    def __repr__(self):
        return show(self, int(__import__("os").environ.get("VP_SHOW","4")))


def show(t, d):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "const":
        return str(t.args[0])
    if t.op == "var":
        return t.args[0]
    if d == 0:
        return "..."
    return "(%s %s)" % (t.op, " ".join(show(a, d - 1) for a in t.args))


def _mk(op, args, sort, lo=None, hi=None):
    key = (op, sort) + tuple(id(a) if type(a) is T else ("c", a) for a in args)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort, t.lo, t.hi, t.z = op, args, sort, lo, hi, None
    vs = None
    for a in args:
        if type(a) is T and a.vars:
            vs = a.vars if vs is None else (vs if a.vars <= vs else vs | a.vars)
    t.vars = vs if vs is not None else frozenset()
    t.sh = hash((op, sort) + tuple(a.sh if type(a) is T else a for a in args))
    _table[key] = t
    return t


def clear():
    """Forget terms (between harnesses) to bound memory."""
    _table.clear()
    for k, v in (("TRUE", True), ("FALSE", False)):
        t = globals()[k]
        _table[("const", "B", ("c", v))] = t


def const(c):
    c = int(c)
    return _mk("const", (c,), "I", c, c)


TRUE = _mk("const", (True,), "B")
FALSE = _mk("const", (False,), "B")


def boolc(b):
    return TRUE if b else FALSE


def var_int(name, lo, hi):
    t = _mk("var", (name, lo, hi), "I", lo, hi)
    t.vars = frozenset((t.args,))
    return t


def var_bool(name):
    t = _mk("var", (name, None, None), "B")
    t.vars = frozenset((t.args,))
    return t


def is_const(t):
    return t.op == "const"


def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args[0] + b.args[0])
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if b.args[0] == 0:
            return a
        if a.op == "add" and a.args[1].op == "const":
            return add(a.args[0], const(a.args[1].args[0] + b.args[0]))
    return _mk("add", (a, b), "I", a.lo + b.lo, a.hi + b.hi)


def neg(a):
    if a.op == "const":
        return const(-a.args[0])
    return _mk("neg", (a,), "I", -a.hi, -a.lo)


def sub(a, b):
    if b.op == "const":
        return add(a, const(-b.args[0]))
    if a is b:
        return const(0)
    return _mk("sub", (a, b), "I", a.lo - b.hi, a.hi - b.lo)


def mul(a, b):
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        k = b.args[0]
        if a.op == "const":
            return const(a.args[0] * k)
        if k == 0:
            return const(0)
        if k == 1:
            return a
        if k > 0 and k & (k - 1) == 0:
            return shl(a, k.bit_length() - 1)
    ps = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
    return _mk("mul", (a, b), "I", min(ps), max(ps))


def shl(a, k):
    if a.op == "const":
        return const(a.args[0] << k)
    if k == 0:
        return a
    return _mk("shl", (a, k), "I", a.lo << k, a.hi << k)


def shr(a, k):
    if a.op == "const":
        return const(a.args[0] >> k)
    if k == 0:
        return a
    lo, hi = a.lo >> k, a.hi >> k
    if lo == hi:
        return const(lo)
    if a.op == "shr":
        return shr(a.args[0], a.args[1] + k)
    if a.op == "shl" and a.args[1] >= k:
        return shl(a.args[0], a.args[1] - k)
    if a.op in ("or", "add_disj") and False:
        pass
    return _mk("shr", (a, k), "I", lo, hi)


def floordiv(a, k):
    """Floor division by a positive constant."""
    if a.op == "const":
        return const(a.args[0] // k)
    if k == 1:
        return a
    if k & (k - 1) == 0:
        return shr(a, k.bit_length() - 1)
    lo, hi = a.lo // k, a.hi // k
    if lo == hi:
        return const(lo)
    return _mk("div", (a, k), "I", lo, hi)


def mod(a, k):
    if a.op == "const":
        return const(a.args[0] % k)
    if k == 1:
        return const(0)
    if a.lo // k == a.hi // k:
        return add(a, const(-(a.lo // k) * k))
    if k & (k - 1) == 0:
        return band(a, const(k - 1))
    return _mk("mod", (a, k), "I", 0, k - 1)


def _bits(n):
    return (1 << n.bit_length()) - 1


def _signed_bits(*ts):
    w = 0
    for t in ts:
        w = max(w, t.lo.bit_length() if t.lo >= 0 else (~t.lo).bit_length(),
                t.hi.bit_length() if t.hi >= 0 else (~t.hi).bit_length())
    return w


def band(a, b):
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        k = b.args[0]
        if a.op == "const":
            return const(a.args[0] & k)
        if k == 0:
            return const(0)
        if k == -1:
            return a
        if k > 0 and k & (k + 1) == 0 and a.lo >= 0 and a.hi <= k:
            return a
        if a.op == "and" and a.args[1].op == "const":
            return band(a.args[0], const(a.args[1].args[0] & k))
        if a.op == "shl" and k > 0 and k.bit_length() <= a.args[1]:
            return const(0)
    if a is b:
        return a
    if a.lo >= 0 and b.lo >= 0:
        lo, hi = 0, min(a.hi, b.hi)
    elif a.lo >= 0 or b.lo >= 0:
        lo, hi = 0, a.hi if a.lo >= 0 else b.hi
    else:
        w = _signed_bits(a, b)
        lo, hi = -(1 << w), (1 << w) - 1
    return _mk("and", (a, b), "I", lo, hi)


def _maybe(t, d=4):
    """Mask of the bits that may be set in t >= 0."""
    if t.op == "const":
        return t.args[0]
    if d:
        if t.op == "shl":
            return _maybe(t.args[0], d - 1) << t.args[1]
        if t.op == "or":
            return _maybe(t.args[0], d - 1) | _maybe(t.args[1], d - 1)
    return _bits(t.hi)


def _borx(op, a, b):
    if a.lo >= 0 and b.lo >= 0 and not _maybe(a) & _maybe(b):
        return _mk(op, (a, b), "I", a.lo + b.lo, a.hi + b.hi)
    if a.lo >= 0 and b.lo >= 0:
        lo, hi = 0, _bits(a.hi | b.hi)
        if op == "or":
            lo = max(a.lo, b.lo)
    else:
        w = _signed_bits(a, b)
        lo, hi = -(1 << w), (1 << w) - 1
    return _mk(op, (a, b), "I", lo, hi)


def _slice_of(t):
    """t = ((x >> lo) & (2^w - 1)) << s  ->  (x, lo, w, s)"""
    s = 0
    if t.op == "shl":
        s, t = t.args[1], t.args[0]
    w = None
    if t.op == "and" and t.args[1].op == "const":
        k = t.args[1].args[0]
        if k <= 0 or k & (k + 1):
            return None
        w, t = k.bit_length(), t.args[0]
    lo = 0
    if t.op == "shr":
        lo, t = t.args[1], t.args[0]
    if w is None:
        if t.lo < 0:
            return None
        w = t.hi.bit_length() - lo
    return t, lo, w, s


def bor(a, b):
    if a.op != "const" and b.op != "const" and (a.op == "shl" or b.op == "shl"):
        p, q = _slice_of(a), _slice_of(b)
        if p is not None and q is not None and p[0] is q[0]:
            if p[3] > q[3]:
                p, q = q, p
            if p[3] + p[2] == q[3] and p[1] + p[2] == q[1]:
                return shl(band(shr(p[0], p[1]), const((1 << (p[2] + q[2])) - 1)), p[3])
    return _bor(a, b)


def _bor(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args[0] | b.args[0])
    if a.op == "const" and a.args[0] == 0:
        return b
    if b.op == "const" and b.args[0] == 0:
        return a
    if a is b:
        return a
    return _borx("or", a, b)


def bxor(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args[0] ^ b.args[0])
    if a.op == "const" and a.args[0] == 0:
        return b
    if b.op == "const" and b.args[0] == 0:
        return a
    return _borx("xor", a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const":
        a, b = b, a
    if a.op == "const":
        return boolc(a.args[0] == b.args[0])
    if a.lo > b.hi or b.lo > a.hi:
        return FALSE
    if b.op == "const":
        k = b.args[0]
        if a.op == "add" and a.args[1].op == "const":
            return eq(a.args[0], const(k - a.args[1].args[0]))
        if a.op == "b2i":
            return a.args[0] if k == 1 else bnot(a.args[0])
        if a.op == "abs":
            return b_or(eq(a.args[0], b), eq(a.args[0], const(-k))) if k else eq(a.args[0], b)
        if a.op == "neg":
            return eq(a.args[0], const(-k))
        if a.op == "shr":
            lo = k << a.args[1]
            return b_and(bnot(lt(a.args[0], const(lo))), lt(a.args[0], const(lo + (1 << a.args[1]))))
        if a.op == "shl":
            return eq(a.args[0], const(k >> a.args[1])) if k & ((1 << a.args[1]) - 1) == 0 else FALSE
    if b.op != "const" and b.sh < a.sh:
        a, b = b, a
    return _mk("eq", (a, b), "B")


def ne(a, b):
    return bnot(eq(a, b))


def lt(a, b):
    if a is b:
        return FALSE
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    if b.op == "const" and a.op == "add" and a.args[1].op == "const":
        return lt(a.args[0], const(b.args[0] - a.args[1].args[0]))
    if a.op == "const" and b.op == "add" and b.args[1].op == "const":
        return lt(const(a.args[0] - b.args[1].args[0]), b.args[0])
    if b.op == "const":
        if a.op == "abs":
            return b_and(lt(a.args[0], b), lt(const(-b.args[0]), a.args[0]))
        if a.op == "neg":
            return lt(const(-b.args[0]), a.args[0])
        if a.op == "shr":       # a>>k < c  <=>  a < c<<k
            return lt(a.args[0], const(b.args[0] << a.args[1]))
        if a.op == "shl":       # a<<k < c  <=>  a < ceil(c / 2^k)
            return lt(a.args[0], const(-((-b.args[0]) >> a.args[1])))
    if a.op == "const":
        if b.op == "abs":
            return b_or(lt(a, b.args[0]), lt(b.args[0], const(-a.args[0])))
        if b.op == "neg":
            return lt(b.args[0], const(-a.args[0]))
        if b.op == "shr":       # c < b>>k  <=>  (c+1)<<k <= b
            return bnot(lt(b.args[0], const((a.args[0] + 1) << b.args[1])))
        if b.op == "shl":       # c < b<<k  <=>  floor(c / 2^k) < b
            return lt(const(a.args[0] >> b.args[1]), b.args[0])
    return _mk("lt", (a, b), "B")


def le(a, b):
    return bnot(lt(b, a))


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,), "B")


def b_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return _mk("band", (a, b), "B")


def b_or(a, b):
    return bnot(b_and(bnot(a), bnot(b)))


def b_all(ts):
    ts = [t for t in ts if t is not TRUE]
    if any(t is FALSE for t in ts):
        return FALSE
    if not ts:
        return TRUE
    if len(ts) == 1:
        return ts[0]
    return _mk("all", tuple(ts), "B")


def b_any(ts):
    return bnot(b_all([bnot(t) for t in ts]))


def b_eq(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return bnot(b)
    if b is FALSE:
        return bnot(a)
    return _mk("beq", (a, b), "B")


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == "B":
        return b_and(b_or(bnot(c), a), b_or(c, b))
    return _mk("ite", (c, a, b), "I", min(a.lo, b.lo), max(a.hi, b.hi))


def clip(t, lo, hi):
    """t, known to lie within [lo, hi] on every path that uses this term."""
    if t.op == "const":
        return t
    if t.op == "clip" and t.lo <= lo and hi <= t.hi:
        t = t.args[0]
    return _mk("clip", (t, lo, hi), "I", lo, hi)


def split(t, k):
    """(q, r) with t == k * q + r, as much of t as possible in q."""
    op = t.op
    if op == "const":
        return const(t.args[0] // k), const(t.args[0] % k)
    if op == "clip":
        return split(t.args[0], k)
    if op in ("add", "sub"):
        (q1, r1), (q2, r2) = split(t.args[0], k), split(t.args[1], k)
        f = add if op == "add" else sub
        return f(q1, q2), f(r1, r2)
    if op == "neg":
        q, r = split(t.args[0], k)
        return neg(q), neg(r)
    if op == "shl":
        q, r = split(t.args[0], k)
        j = t.args[1]
        if r.op != "const" and (1 << j) % k == 0:
            return add(shl(q, j), mul(r, const((1 << j) // k))), const(0)
        if k & (k - 1) == 0 and r.op != "const" and j and k >> j:
            q2, r2 = split(t.args[0], k >> j)
            return q2, shl(r2, j)
        return shl(q, j), shl(r, j)
    if op == "mul" and t.args[1].op == "const":
        c = t.args[1].args[0]
        if c % k == 0:
            return mul(t.args[0], const(c // k)), const(0)
        q, r = split(t.args[0], k)
        return mul(q, t.args[1]), mul(r, t.args[1])
    return const(0), t


def sfloordiv(t, k):
    q, r = split(t, k)
    return add(q, floordiv(r, k))


def smod(t, k):
    return mod(split(t, k)[1], k)


def linear(t):
    """({atom: coefficient}, constant); mod(x, k) counts as x - k * div(x, k)."""
    out, c = {}, 0
    todo = [(t, 1)]
    while todo:
        t, f = todo.pop()
        op = t.op
        if op == "const":
            c += f * t.args[0]
        elif op == "clip":
            todo.append((t.args[0], f))
        elif op == "add":
            todo += [(t.args[0], f), (t.args[1], f)]
        elif op == "sub":
            todo += [(t.args[0], f), (t.args[1], -f)]
        elif op == "neg":
            todo.append((t.args[0], -f))
        elif op == "shl":
            todo.append((t.args[0], f << t.args[1]))
        elif op == "mul" and t.args[1].op == "const":
            todo.append((t.args[0], f * t.args[1].args[0]))
        elif op == "mod":
            todo += [(t.args[0], f), (floordiv(t.args[0], t.args[1]), -f * t.args[1])]
        else:
            out[t] = out.get(t, 0) + f
    return {a: f for a, f in out.items() if f}, c


def normal(t):
    """t with divisions cancelled, where that is possible."""
    if t.op in ("const", "var"):
        return t
    d, c = linear(t)
    if len(d) == 1 and not c and list(d.values()) == [1]:
        return t
    r = const(c)
    for a in sorted(d, key=lambda a: a.sh):
        r = add(r, mul(a, const(d[a])))
    if t.lo > r.lo or t.hi < r.hi:
        return clip(r, max(t.lo, r.lo), min(t.hi, r.hi))
    return r


def abs_(a):
    if a.lo >= 0:
        return a
    if a.hi <= 0:
        return neg(a)
    return _mk("abs", (a,), "I", 0, max(-a.lo, a.hi))


def b2i(c):
    if c.op == "const":
        return const(c.args[0])
    return _mk("b2i", (c,), "I", 0, 1)


# ---- IEEE doubles: represented by their 64-bit pattern (an "I" term) ----
EXPM = 0x7FF0000000000000
MAGM = 0x7FFFFFFFFFFFFFFF


def f2bits(f):
    return struct.unpack("<Q", struct.pack("<d", f))[0]


def bits2f(b):
    return struct.unpack("<d", struct.pack("<Q", b & M64))[0]


def _int_float(b):
    """finite by construction"""
    return b.op == "ffromint" and -(1 << 1000) < b.args[0].lo and b.args[0].hi < (1 << 1000)


def f_isnan(b):
    if _int_float(b):
        return FALSE
    return lt(const(EXPM), band(b, const(MAGM)))


def f_isinf(b):
    if _int_float(b):
        return FALSE
    return eq(band(b, const(MAGM)), const(EXPM))


def f_iszero(b):
    if _int_float(b):
        return eq(b.args[0], const(0))
    return eq(band(b, const(MAGM)), const(0))


def f_sign(b):
    if _int_float(b):
        return lt(b.args[0], const(0))
    return le(const(1 << 63), b)


def f_eq(a, b):
    return b_all([bnot(f_isnan(a)), bnot(f_isnan(b)),
                  b_or(eq(a, b), b_and(f_iszero(a), f_iszero(b)))])


def f_key(b):
    """Monotone integer key for non-NaN doubles (both zeros map to 0)."""
    mag = band(b, const(MAGM))
    return ite(f_sign(b), neg(mag), mag)


def f_lt(a, b):
    return b_all([bnot(f_isnan(a)), bnot(f_isnan(b)), lt(f_key(a), f_key(b))])


def f_le(a, b):
    return b_all([bnot(f_isnan(a)), bnot(f_isnan(b)), le(f_key(a), f_key(b))])


def f_op(op, args, sort, lo=None, hi=None):
    """fp ops lowered through z3's FP theory: isint, toint (lo/hi given), fromint."""
    if all(type(a) is not T or a.op == "const" for a in args):
        v = eval_op(op, [a.args[0] if type(a) is T else a for a in args])
        return boolc(v) if sort == "B" else const(v)
    if op == "fisint" and _int_float(args[0]):
        return TRUE
    return _mk(op, args, sort, lo, hi)


def eval_op(op, a):
    if op == "fisint":
        f = bits2f(a[0]); return (not math.isnan(f)) and (not math.isinf(f)) and f.is_integer()
    if op == "ftoint":
        f = bits2f(a[0])
        if math.isnan(f) or math.isinf(f): return a[1]
        return max(a[1], min(a[2], int(f)))
    if op == "ffromint":
        return f2bits(float(a[0]))
    raise AssertionError(op)


def evaluate(t, env, memo):
    r = memo.get(t)
    if r is not None:
        return r
    op, args = t.op, t.args
    if op == "const":
        r = args[0]
    elif op == "var":
        r = env[args[0]]
    else:
        a = [evaluate(x, env, memo) if type(x) is T else x for x in args]
        if op == "add": r = a[0] + a[1]
        elif op == "sub": r = a[0] - a[1]
        elif op == "neg": r = -a[0]
        elif op == "abs": r = abs(a[0])
        elif op == "mul": r = a[0] * a[1]
        elif op == "shl": r = a[0] << a[1]
        elif op == "shr": r = a[0] >> a[1]
        elif op == "div": r = a[0] // a[1]
        elif op == "mod": r = a[0] % a[1]
        elif op == "and": r = a[0] & a[1]
        elif op == "or": r = a[0] | a[1]
        elif op == "xor": r = a[0] ^ a[1]
        elif op == "eq": r = a[0] == a[1]
        elif op == "lt": r = a[0] < a[1]
        elif op == "not": r = not a[0]
        elif op == "band": r = a[0] and a[1]
        elif op == "all": r = all(a)
        elif op == "beq": r = bool(a[0]) == bool(a[1])
        elif op == "ite": r = a[1] if a[0] else a[2]
        elif op == "b2i": r = int(a[0])
        elif op == "clip": r = a[0]
        else: r = eval_op(op, a)
    memo[t] = r
    return r
