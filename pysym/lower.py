"""Lowering of terms to z3 (QF_BV / QF_BVFP) and solving."""
import os, time
import z3
from . import terms
from .terms import T

CTX = None


def width(lo, hi):
    """Signed width holding lo..hi."""
    w = 1
    if hi > 0:
        w = max(w, hi.bit_length() + 1)
    if lo < 0:
        w = max(w, (~lo).bit_length() + 1)
    return w


def ext(z, w, tw):
    if tw == w:
        return z
    if tw > w:
        return z3.SignExt(tw - w, z)
    return z3.Extract(tw - 1, 0, z)


def L(t):
    """-> z3 Bool for 'B' terms, signed z3 BV of width(t.lo,t.hi) for 'I' terms."""
    if t.z is not None:
        return t.z
    # iterative for deep terms
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop(); continue
        todo = [a for a in x.args if type(a) is T and a.z is None]
        if todo:
            stack.extend(todo); continue
        x.z = _low(x)
        stack.pop()
    return t.z


def _low(t):
    op, a = t.op, t.args
    if op == "const":
        if t.sort == "B":
            return z3.BoolVal(a[0])
        return z3.BitVecVal(a[0], width(a[0], a[0]))
    if op == "var":
        if t.sort == "B":
            return z3.Bool(a[0])
        return z3.BitVec(a[0], width(t.lo, t.hi))
    if t.sort == "I":
        w = width(t.lo, t.hi)
        if op in ("add", "sub", "mul", "and", "or", "xor"):
            x, y = a
            ww = max(w, width(x.lo, x.hi), width(y.lo, y.hi))
            zx, zy = ext(x.z, width(x.lo, x.hi), ww), ext(y.z, width(y.lo, y.hi), ww)
            r = {"add": lambda: zx + zy, "sub": lambda: zx - zy, "mul": lambda: zx * zy,
                 "and": lambda: zx & zy, "or": lambda: zx | zy, "xor": lambda: zx ^ zy}[op]()
            return ext(r, ww, w)
        if op == "neg":
            x = a[0]; ww = max(w, width(x.lo, x.hi))
            return ext(-ext(x.z, width(x.lo, x.hi), ww), ww, w)
        if op == "abs":
            x = a[0]; ww = max(w, width(x.lo, x.hi))
            zx = ext(x.z, width(x.lo, x.hi), ww)
            return ext(z3.If(zx < 0, -zx, zx), ww, w)
        if op == "shl":
            x = a[0]
            return z3.Concat(ext(x.z, width(x.lo, x.hi), w - a[1]), z3.BitVecVal(0, a[1])) if w > a[1] else z3.BitVecVal(0, w)
        if op == "shr":
            x = a[0]; wx = width(x.lo, x.hi)
            if a[1] >= wx:
                return ext(z3.Extract(wx - 1, wx - 1, x.z), 1, w)
            r = z3.Extract(wx - 1, a[1], x.z)
            return ext(r, wx - a[1], w)
        if op in ("div", "mod"):
            x, k = a
            wx = max(width(x.lo, x.hi), width(0, k)) + 1
            zx = ext(x.z, width(x.lo, x.hi), wx); zk = z3.BitVecVal(k, wx)
            if x.lo >= 0:
                q = z3.UDiv(zx, zk)
                r = z3.URem(zx, zk)
            else:
                r = zx % zk          # bvsmod: sign follows divisor => floor mod
                q = (zx - r) / zk    # exact signed division
            return ext(q if op == "div" else r, wx, w)
        if op == "ite":
            x, y = a[1], a[2]
            return z3.If(a[0].z, ext(x.z, width(x.lo, x.hi), w), ext(y.z, width(y.lo, y.hi), w))
        if op == "clip":
            x = a[0]; ww = max(w, width(x.lo, x.hi))
            return ext(ext(x.z, width(x.lo, x.hi), ww), ww, w)
        if op == "b2i":
            return z3.If(a[0].z, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if op == "ftoint":
            f = _fp(a[0]); lo, hi = a[1], a[2]
            W = width(lo, hi)
            bits = a[0]
            raw = z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(W))
            flo, fhi = z3.FPVal(float(lo), z3.Float64()), z3.FPVal(float(hi), z3.Float64())
            r = z3.If(z3.Or(z3.fpIsNaN(f), z3.fpIsInf(f)), z3.BitVecVal(lo, W),
                      z3.If(z3.fpGEQ(f, fhi), z3.BitVecVal(hi, W),
                            z3.If(z3.fpLEQ(f, flo), z3.BitVecVal(lo, W), raw)))
            return ext(r, W, w)
        if op == "ffromint":
            x = a[0]
            f = z3.fpSignedToFP(z3.RNE(), x.z, z3.Float64())
            return ext(z3.ZeroExt(1, z3.fpToIEEEBV(f)), 65, w)
    else:
        if op in ("eq", "lt"):
            x, y = a
            ww = max(width(x.lo, x.hi), width(y.lo, y.hi))
            zx, zy = ext(x.z, width(x.lo, x.hi), ww), ext(y.z, width(y.lo, y.hi), ww)
            return zx == zy if op == "eq" else zx < zy
        if op == "not":
            return z3.Not(a[0].z)
        if op == "band":
            return z3.And(a[0].z, a[1].z)
        if op == "all":
            return z3.And(*[x.z for x in a])
        if op == "beq":
            return a[0].z == a[1].z
        if op == "fisint":
            f = _fp(a[0])
            return z3.And(z3.Not(z3.fpIsNaN(f)), z3.Not(z3.fpIsInf(f)),
                          z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), f), f))
    raise AssertionError(op)


def _fp(bits):
    w = width(bits.lo, bits.hi)
    return z3.fpBVToFP(ext(bits.z, w, 64), z3.Float64())


class Stats:
    def __init__(self):
        self.queries = 0; self.sat = 0; self.unsat = 0; self.cached = 0; self.solver_s = 0.0; self.slow = 0.0


_range_memo = {}


def var_range(v):
    """Range constraint of a var (name, lo, hi)."""
    name, lo, hi = v
    if lo is None:
        return None
    w = width(lo, hi)
    if lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1:
        return None
    z = z3.BitVec(name, w)
    return z3.And(z >= lo, z <= hi)


def model_value(m, v):
    name, lo, hi = v
    if lo is None:
        r = m.eval(z3.Bool(name), model_completion=True)
        return z3.is_true(r)
    r = m.eval(z3.BitVec(name, width(lo, hi)), model_completion=True)
    x = r.as_signed_long()
    if not (lo <= x <= hi):
        x = lo
    return x


class Inconclusive(BaseException):
    pass


_cache = {}
SLOW = float(os.environ.get("VP_SLOW", "0"))


def reset():
    _cache.clear()


def solve(cons, stats, timeout_ms=60000):
    """Satisfiability of a conjunction of terms.  -> dict of var values or None."""
    key = frozenset(id(c) for c in cons)
    hit = _cache.get(key, 0)
    if hit != 0:
        stats.cached += 1
        return hit[0]
    t0 = time.time()
    s = z3.Solver() if any_fp(cons) else z3.SolverFor("QF_BV")
    s.set("timeout", timeout_ms)
    vs = set()
    for c in cons:
        vs |= c.vars
        s.add(L(c))
    for v in vs:
        r = var_range(v)
        if r is not None:
            s.add(r)
    res = s.check()
    stats.queries += 1
    if res == z3.sat:
        stats.sat += 1
        m = s.model()
        out = {v[0]: model_value(m, v) for v in vs}
    elif res == z3.unsat:
        stats.unsat += 1
        out = None
    else:
        raise Inconclusive("solver returned unknown: %s" % s.reason_unknown())
    dt = time.time() - t0
    stats.solver_s += dt
    stats.slow = max(stats.slow, dt)
    if SLOW and dt > SLOW:
        import sys
        print("SLOW %.1fs %s\n   " % (dt, res) + "\n   ".join(terms.show(c, 14) for c in cons), file=sys.stderr, flush=True)
    _cache[key] = (out, cons)  # keep cons alive so that ids stay unique
    return out


_fpmemo = {}


def any_fp(cons):
    for c in cons:
        r = _fpmemo.get(c)
        if r is None:
            r = _has_fp(c, set())
            _fpmemo[c] = r
        if r:
            return True
    return False


def _has_fp(t, seen):
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("fisint", "ftoint", "ffromint"):
            return True
        st.extend(a for a in x.args if type(a) is T)
    return False
