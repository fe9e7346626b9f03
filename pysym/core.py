"""Symbolic proxies with concrete shadows, and the per-path context."""
import math, operator, sys
from fractions import Fraction
from . import terms as tm
from .terms import T


class EngineSignal(BaseException):
    pass


class Unsupported(EngineSignal):
    pass


class PathLimit(EngineSignal):
    pass


class Diverged(EngineSignal):
    pass


class EngineBug(EngineSignal):
    pass


class Path:
    """One concolic execution."""

    def __init__(self, inputs, prefix_hashes, step_limit):
        self.inputs = inputs            # name -> concrete value
        self.vars = {}                  # name -> term var tuple
        self.events = []                # (kind, term, value): 'b' branch taken term ; 'c' concretise term==value
        self.decided = {}               # term -> bool
        self.conc = {}                  # term -> value
        self.sites = {}                 # event index -> source location of a concretisation
        self.prefix = prefix_hashes
        self.steps = 0
        self.step_limit = step_limit
        self.max_events = 20000
        self.dec = {}                   # int term -> its decimal digits (chars)
        self.dyadic = {}                # float bits term -> its exact value (dates.SymDy)
        self.num = {}                   # digit terms -> the int they spell

    def _push(self, ev):
        i = len(self.events)
        if i < len(self.prefix):
            h = hash((ev[0], ev[1].sh, ev[2]))
            if h != self.prefix[i] :
                raise Diverged("execution diverged from its predicted prefix at event %d: %r" % (i, ev))
        self.events.append(ev)
        if i > self.max_events:
            raise PathLimit("too many decisions")

    def branch(self, t, c):
        """Record that bool term t evaluated to c on this run."""
        if t.op == "const":
            if not (t.args[0] == c):
                raise EngineBug((t, c))
            return c
        base, pol = (t.args[0], False) if t.op == "not" else (t, True)
        d = self.decided.get(base)
        if d is not None:
            if not ((d == pol) == c):
                raise EngineBug(("shadow mismatch", t, c))
            return c
        self.decided[base] = (c == pol)
        self._push(("b", t if c else tm.bnot(t), True))
        return c

    def concretise(self, t, c):
        if t.op == "const":
            if not (t.args[0] == c):
                raise EngineBug((t, c))
            return c
        if t in self.conc:
            if not (self.conc[t] == c):
                raise EngineBug('shadow mismatch')
            return c
        self.conc[t] = c
        self._push(("c", t, c))
        self.sites[len(self.events) - 1] = _site()
        return c

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.step_limit:
            raise PathLimit("step limit")


def _site():
    f, out = sys._getframe(2), []
    while f is not None and len(out) < 4:
        fn = f.f_code.co_filename
        if "/pysym/" not in fn:
            out.append("%s:%d(%s)" % (fn.rsplit("/", 1)[-1], f.f_lineno, f.f_code.co_name))
        elif not out:
            out.append("pysym:%s" % f.f_code.co_name)
        f = f.f_back
    return " < ".join(out)


P = None  # current Path


def set_path(p):
    global P
    P = p


# ---------------------------------------------------------------- ints
def term_of(x):
    t = type(x)
    if t is SymInt:
        return x.n
    if t is SymBool:
        return tm.b2i(x.n)
    return tm.const(int(x))


def mk_int(n, c):
    if n.op == "const":
        if not (n.args[0] == c):
            raise EngineBug((n, c))
        return n.args[0]
    return SymInt(n, c)


def mk_bool(n, c):
    if n.op == "const":
        if not (n.args[0] == c):
            raise EngineBug((n, c))
        return n.args[0]
    return SymBool(n, c)


def shadow(x):
    """Strip proxies, deeply for str/bytes; shallow for containers."""
    f = getattr(type(x), "_shadow", None)
    return f(x) if f is not None else x


def _intlike(x):
    return type(x) is SymInt or type(x) is SymBool or isinstance(x, int)


def _ci(x):
    t = type(x)
    return x.c if t is SymInt else (int(x.c) if t is SymBool else int(x))


def _num_other(x):
    """int-like other operand -> (term, shadow) or None"""
    t = type(x)
    if t is SymInt:
        return x.n, x.c
    if t is SymBool:
        return tm.b2i(x.n), int(x.c)
    if t is int or t is bool or (isinstance(x, int)):
        return tm.const(int(x)), int(x)
    return None


class SymInt:
    __slots__ = ("n", "c")

    def __init__(self, n, c):
        self.n = n
        self.c = c

    @property
    def __class__(self):
        return int

    def _shadow(self):
        return self.c

    # arithmetic
    def __add__(self, o):
        r = _num_other(o)
        if r is None:
            return _float_arith(operator.add, self, o)
        return mk_int(tm.add(self.n, r[0]), self.c + r[1])
    __radd__ = __add__

    def __sub__(self, o):
        r = _num_other(o)
        if r is None:
            return _float_arith(operator.sub, self, o)
        return mk_int(tm.sub(self.n, r[0]), self.c - r[1])

    def __rsub__(self, o):
        r = _num_other(o)
        if r is None:
            return _float_arith(operator.sub, o, self)
        return mk_int(tm.sub(r[0], self.n), r[1] - self.c)

    def __mul__(self, o):
        r = _num_other(o)
        if r is None:
            if isinstance(o, (list, tuple, str, bytes, bytearray)):
                return o * self.__index__()
            return _float_arith(operator.mul, self, o)
        return mk_int(tm.mul(self.n, r[0]), self.c * r[1])
    __rmul__ = __mul__

    def __neg__(self):
        return mk_int(tm.neg(self.n), -self.c)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.n.lo >= 0:
            return self
        return mk_int(tm.abs_(self.n), abs(self.c))

    def __invert__(self):
        return mk_int(tm.sub(tm.const(-1), self.n), ~self.c)

    def _divisor(self, o):
        if type(o) in (SymInt, SymBool):
            o = o.__index__()
        return o

    def __floordiv__(self, o):
        if not _intlike(o):
            return _float_arith(operator.floordiv, self, o)
        o = self._divisor(o)
        if o <= 0:
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            return (-self) // (-o)
        return mk_int(tm.floordiv(self.n, o), self.c // o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        if not _intlike(o):
            return _float_arith(operator.mod, self, o)
        o = self._divisor(o)
        if o <= 0:
            if o == 0:
                raise ZeroDivisionError("integer modulo by zero")
            return -((-self) % (-o))
        return mk_int(tm.mod(self.n, o), self.c % o)

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return divmod(o, self.__index__())

    def __truediv__(self, o):
        if type(o) is SymInt or isinstance(o, int):
            return SymRatio.make(self, o)
        return _float_arith(operator.truediv, self, o)

    def __rtruediv__(self, o):
        if isinstance(o, int):
            return SymRatio.make(o, self)
        return _float_arith(operator.truediv, o, self)

    def __pow__(self, o, m=None):
        return pow(self.__index__(), o, m) if m is not None else self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        if type(o) in (SymInt, SymBool):
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        return mk_int(tm.shl(self.n, o), self.c << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if type(o) in (SymInt, SymBool):
            o = o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        return mk_int(tm.shr(self.n, o), self.c >> o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        r = _num_other(o)
        if r is None:
            return NotImplemented
        return mk_int(tm.band(self.n, r[0]), self.c & r[1])
    __rand__ = __and__

    def __or__(self, o):
        r = _num_other(o)
        if r is None:
            return NotImplemented
        return mk_int(tm.bor(self.n, r[0]), self.c | r[1])
    __ror__ = __or__

    def __xor__(self, o):
        r = _num_other(o)
        if r is None:
            return NotImplemented
        return mk_int(tm.bxor(self.n, r[0]), self.c ^ r[1])
    __rxor__ = __xor__

    # comparisons
    def _cmp(self, o, f, g):
        r = _num_other(o)
        if r is None:
            if type(o) is SymFloat or isinstance(o, float):
                return _int_float_cmp(self, o, g)
            return NotImplemented
        return mk_bool(f(self.n, r[0]), g(self.c, r[1]))

    def __eq__(self, o):
        return self._cmp(o, tm.eq, operator.eq)

    def __ne__(self, o):
        return self._cmp(o, tm.ne, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, tm.lt, operator.lt)

    def __le__(self, o):
        return self._cmp(o, tm.le, operator.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: tm.lt(b, a), operator.gt)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: tm.le(b, a), operator.ge)

    def __bool__(self):
        return P.branch(tm.ne(self.n, tm.const(0)), self.c != 0)

    def __index__(self):
        return P.concretise(self.n, self.c)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __round__(self, nd=None):
        return self if nd is None else round(self.__index__(), nd)

    def __repr__(self):
        return str(self.c)

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.c, spec)

    def bit_length(self):
        a = abs(self)
        if type(a) is not SymInt:
            return a.bit_length()
        n = a.n
        hi = n.hi.bit_length()
        lo = max(0, n.lo).bit_length()
        r = tm.const(lo)
        for k in range(lo, hi):
            r = tm.add(r, tm.b2i(tm.le(tm.const(1 << k), n)))
        return mk_int(r, self.c.bit_length())

    def bit_count(self):
        return self.__index__().bit_count()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .seqs import SymBytes
        length = operator.index(length)
        if length < 0:
            raise ValueError("length argument must be non-negative")
        if signed:
            ok = (self >= -(1 << (8 * length - 1))) if length else (self == 0)
            ok2 = (self < (1 << (8 * length - 1))) if length else True
            if not (ok and ok2):
                raise OverflowError("int too big to convert")
        else:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if not self < (1 << (8 * length)):
                raise OverflowError("int too big to convert")
        bs = [(self >> (8 * i)) & 0xFF for i in range(length)]
        if byteorder == "big":
            bs.reverse()
        elif byteorder != "little":
            raise ValueError("byteorder must be either 'little' or 'big'")
        return SymBytes(bs)

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    def as_integer_ratio(self):
        return self, 1

    real = property(lambda s: s)
    imag = property(lambda s: 0)
    numerator = property(lambda s: s)
    denominator = property(lambda s: 1)


class SymBool:
    __slots__ = ("n", "c")

    def __init__(self, n, c):
        self.n = n
        self.c = c

    @property
    def __class__(self):
        return bool

    def _shadow(self):
        return self.c

    def __bool__(self):
        return P.branch(self.n, self.c)

    def _i(self):
        return mk_int(tm.b2i(self.n), int(self.c))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return str(self.c)
    __str__ = __repr__

    def __format__(self, spec):
        return format(self.c, spec)

    def _bb(self, o, f, g, h):
        if type(o) is SymBool:
            return mk_bool(f(self.n, o.n), g(self.c, o.c))
        if o is True or o is False:
            return mk_bool(f(self.n, tm.boolc(o)), g(self.c, o))
        i = self._i()
        return h(i, o)

    def __and__(self, o):
        return self._bb(o, tm.b_and, operator.and_, operator.and_)
    __rand__ = __and__

    def __or__(self, o):
        return self._bb(o, tm.b_or, operator.or_, operator.or_)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bb(o, lambda a, b: tm.bnot(tm.b_eq(a, b)), operator.xor, operator.xor)
    __rxor__ = __xor__

    def __eq__(self, o):
        if o is True or o is False or type(o) is SymBool:
            return self._bb(o, tm.b_eq, operator.eq, None)
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return vp_not(r)


def _deleg(name):
    op = getattr(operator, name, None)

    def f(self, *a):
        i = self._i()
        r = getattr(type(i), name)(i, *a)
        return r
    f.__name__ = name
    return f


for _n in ("__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __neg__ __pos__ __abs__ __invert__ "
           "__floordiv__ __rfloordiv__ __mod__ __rmod__ __divmod__ __truediv__ __rtruediv__ __lshift__ __rlshift__ "
           "__rshift__ __rrshift__ __lt__ __le__ __gt__ __ge__ __pow__").split():
    def _mkf(n):
        def f(self, *a):
            i = self._i()
            return getattr(i, n)(*a)
        return f
    setattr(SymBool, _n, _mkf(_n))
SymBool.bit_length = lambda self: self._i().bit_length() if type(self._i()) is SymInt else int(self._i()).bit_length()
SymBool.to_bytes = lambda self, *a, **k: self._i().to_bytes(*a, **k)
SymBool.is_integer = lambda self: True


def vp_not(b):
    """Boolean negation without forking."""
    if type(b) is SymBool:
        return mk_bool(tm.bnot(b.n), not b.c)
    return not b


def b_all(bs):
    """Conjunction of python bools / SymBools without forking."""
    ts, c = [], True
    for b in bs:
        if type(b) is SymBool:
            ts.append(b.n)
            c = c and b.c
        elif not b:
            return False
    return mk_bool(tm.b_all(ts), c)


def b_any(bs):
    return vp_not(b_all([vp_not(b) for b in bs]))


# ---------------------------------------------------------------- ratios
class SymRatio:
    """Exact a/b (ints) standing for the correctly rounded float a/b.  Only
    comparisons with constants are modelled exactly (see _cmp); anything else
    concretises."""
    __slots__ = ("a", "b")

    @staticmethod
    def make(a, b):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        r = object.__new__(SymRatio)
        r.a, r.b = a, b
        return r

    @property
    def __class__(self):
        return float

    def _shadow(self):
        return _ci(self.a) / _ci(self.b)

    def _cmp(self, o, op):
        if isinstance(o, float) and not isinstance(o, (SymFloat, SymRatio)) and not math.isnan(o) and not math.isinf(o):
            f = Fraction(o)
            # a/b != n/d implies |a/b - n/d| >= 1/(|b| d), i.e. relatively >= 1/(|b| |n|): the rounded
            # quotient cannot land on o (or cross it) while |b| |n| < 2^52
            b = term_of(self.b)
            if max(abs(b.lo), abs(b.hi)) * abs(f.numerator) < 1 << 52:
                l, r = self.a * f.denominator, self.b * f.numerator
                if bool(self.b > 0):
                    return op(l, r)
                return op(r, l)
        elif isinstance(o, int):
            return self._cmp(float(o), op)
        return op(self._shadow2(), o)

    def _shadow2(self):
        return operator.index(self.a) / operator.index(self.b)

    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)
    def __eq__(self, o): return self._cmp(o, operator.eq)
    def __ne__(self, o): return self._cmp(o, operator.ne)
    def __float__(self): return self._shadow2()
    def __hash__(self): return hash(self._shadow2())
    def __bool__(self): return bool(self.a != 0)
    def __repr__(self): return repr(self._shadow())
    def __format__(self, s): return format(self._shadow(), s)
    def __add__(self, o): return self._shadow2() + o
    __radd__ = __add__
    def __sub__(self, o): return self._shadow2() - o
    def __rsub__(self, o): return o - self._shadow2()
    def __mul__(self, o): return self._shadow2() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self._shadow2() / o
    def __int__(self):
        return int(self._shadow2())
    __trunc__ = __int__


# ---------------------------------------------------------------- floats
def _fterm(x):
    if type(x) is SymFloat:
        return x.n
    return tm.const(tm.f2bits(float(x)))


def mk_float(n, c):
    if n.op == "const":
        return tm.bits2f(n.args[0])
    return SymFloat(n, c)


def _float_arith(op, a, b):
    """Arithmetic producing floats: operands are concretised."""
    if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return NotImplemented
    return op(conc_num(a), conc_num(b))


def conc_num(x):
    t = type(x)
    if t is SymInt or t is SymBool:
        return x.__index__()
    if t is SymFloat:
        return x.conc()
    if issubclass(t, SymRatio):
        return x._shadow2()
    return x


def _int_float_cmp(i, f, g):
    """compare SymInt/int i with float f under operator g (i g f)."""
    if type(f) is not SymFloat:
        f = float(f) if type(f) is not SymRatio else f._shadow2()
        if math.isnan(f):
            return g is operator.ne
        if math.isinf(f):
            return g(0, f)
        fr = Fraction(f)
        if type(i) is not SymInt:
            return g(i, f)
        return g(i * fr.denominator, fr.numerator)
    y = _from_int(f)
    if y is not None:
        return g(i, y)
    ia = abs(i)
    small = (ia.n.hi <= 1 << 53) if type(ia) is SymInt else (ia <= 1 << 53)
    if not small and not bool(ia <= 1 << 53):
        return _big_int_float_cmp(i, f, g)
    t = term_of(i)
    if t.hi > 1 << 53 or t.lo < -(1 << 53):
        t = tm.ite(tm.b_and(tm.le(t, tm.const(1 << 53)), tm.le(tm.const(-(1 << 53)), t)), t, tm.const(0))
        if t.op != "const":
            t = T_clip(t)
    fi = mk_float(tm.f_op("ffromint", (t,), "I", 0, tm.M64), float(_ci(i)))
    return g(fi, f)


def T_clip(t):
    return t


def _big_int_float_cmp(i, f, g):
    """i g f for |i| > 2^53, exactly: a double of that magnitude is an integer."""
    if f.isnan():
        return g is operator.ne
    t = term_of(i)
    lim = max(abs(t.lo), abs(t.hi)).bit_length()
    if lim > 200:
        return g(conc_num(i), f.conc())
    if not (abs(f) >= 2.0 ** 53):
        return g(i, 0)
    if not (abs(f) <= 2.0 ** lim):
        return g(0, f)          # |f| > |i|
    k = 1 << lim
    return g(i, mk_int(tm.f_op("ftoint", (f.n, -k, k), "I", -k, k), int(f.c)))


def _from_int(f):
    """If f is the exact image of an int of magnitude <= 2^53, that int."""
    if f.n.op == "ffromint":
        y = f.n.args[0]
        if -(1 << 53) <= y.lo and y.hi <= (1 << 53):
            return mk_int(y, int(f.c))
        ok = tm.b_and(tm.le(y, tm.const(1 << 53)), tm.le(tm.const(-(1 << 53)), y))
        if mk_bool(ok, abs(f.c) <= 2.0 ** 53 and tm_small(y, f)):
            return mk_int(y, int(f.c))
    return None


def tm_small(y, f):
    # |float(y)| == 2^53 may also come from y == 2^53 + 1
    if abs(f.c) < 2.0 ** 53:
        return True
    v = tm.evaluate(y, P.inputs, {})
    return abs(v) <= 1 << 53


class SymFloat:
    __slots__ = ("n", "c")

    def __init__(self, n, c):
        self.n = n      # bits term, 0..2^64-1
        self.c = c

    @property
    def __class__(self):
        return float

    def _shadow(self):
        return self.c

    def conc(self):
        P.concretise(self.n, tm.f2bits(self.c))
        return self.c

    def _cmp(self, o, ft, g):
        if type(o) is SymFloat or (isinstance(o, float) and type(o) is not SymRatio):
            oc = o.c if type(o) is SymFloat else float(o)
            return mk_bool(ft(self.n, _fterm(o)), g(self.c, oc))
        if type(o) is SymRatio:
            return g(self.conc(), o._shadow2())
        if _intlike(o):
            if type(o) is SymInt or type(o) is SymBool:
                swap = {operator.lt: operator.gt, operator.gt: operator.lt, operator.le: operator.ge,
                        operator.ge: operator.le, operator.eq: operator.eq, operator.ne: operator.ne}
                if type(o) is SymBool:
                    o = o._i()
                return _int_float_cmp(o, self, swap[g])
            o = int(o)
            try:
                exact = int(float(o)) == o
            except OverflowError:
                exact = False
            if exact:
                return mk_bool(ft(self.n, _fterm(float(o))), g(self.c, float(o)))
            # compare with an int that is not a double: bracket by neighbours
            try:
                f = float(o)
            except OverflowError:
                f = math.inf if o > 0 else -math.inf
            if math.isinf(f):
                lo, hi = (1.7976931348623157e308, math.inf) if o > 0 else (-math.inf, -1.7976931348623157e308)
            elif int(f) < o:
                lo, hi = f, math.nextafter(f, math.inf)
            else:
                lo, hi = math.nextafter(f, -math.inf), f
            if g is operator.eq:
                return False
            if g is operator.ne:
                return True
            if g in (operator.lt, operator.le):
                return mk_bool(tm.f_le(self.n, _fterm(lo)), g(self.c, o))
            return mk_bool(tm.f_le(_fterm(hi), self.n), g(self.c, o))
        return NotImplemented

    def __eq__(self, o): return self._cmp(o, tm.f_eq, operator.eq)
    def __ne__(self, o): return self._cmp(o, lambda a, b: tm.bnot(tm.f_eq(a, b)), operator.ne)
    def __lt__(self, o): return self._cmp(o, tm.f_lt, operator.lt)
    def __le__(self, o): return self._cmp(o, tm.f_le, operator.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: tm.f_lt(b, a), operator.gt)
    def __ge__(self, o): return self._cmp(o, lambda a, b: tm.f_le(b, a), operator.ge)

    def __bool__(self):
        return P.branch(tm.bnot(tm.f_iszero(self.n)), self.c != 0)

    def isnan(self):
        return mk_bool(tm.f_isnan(self.n), math.isnan(self.c))

    def isinf(self):
        return mk_bool(tm.f_isinf(self.n), math.isinf(self.c))

    def is_integer(self):
        c = self.c
        return mk_bool(tm.f_op("fisint", (self.n,), "B"), (not math.isnan(c)) and (not math.isinf(c)) and c.is_integer())

    LIM = 1 << 70

    def to_int(self):
        d = _dyadic(self)
        if d is not None:
            return d.trunc() if type(d) is not float else int(d)
        if self.isnan():
            raise ValueError("cannot convert float NaN to integer")
        if self.isinf():
            raise OverflowError("cannot convert float infinity to integer")
        y = _from_int(self)
        if y is not None:
            return y
        L = float(SymFloat.LIM)
        if not (self <= L and self >= -L):
            return int(self.conc())
        return mk_int(tm.f_op("ftoint", (self.n, -SymFloat.LIM, SymFloat.LIM), "I", -SymFloat.LIM, SymFloat.LIM), int(self.c))

    def __int__(self):
        return operator.index(self.to_int())
    __trunc__ = __int__

    def __neg__(self):
        return mk_float(tm.bxor(self.n, tm.const(1 << 63)), -self.c)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_float(tm.band(self.n, tm.const(tm.MAGM)), abs(self.c))

    def __float__(self):
        return self.conc()

    def __hash__(self):
        return hash(self.conc())

    def __repr__(self):
        return repr(self.c)
    __str__ = __repr__

    def __format__(self, s):
        return format(self.c, s)

    def hex(self): return self.conc().hex()
    def as_integer_ratio(self): return self.conc().as_integer_ratio()
    real = property(lambda s: s)
    imag = property(lambda s: 0.0)

    def conjugate(self): return self


for _n, _o in (("add", operator.add), ("sub", operator.sub), ("mul", operator.mul), ("truediv", operator.truediv),
               ("floordiv", operator.floordiv), ("mod", operator.mod), ("pow", operator.pow)):
    def _mk1(op):
        return (lambda self, o: _float_arith(op, self, o)), (lambda self, o: _float_arith(op, o, self))
    _a, _b = _mk1(_o)
    def _mk2(name, plain):
        def f(self, o):
            if isinstance(o, (int, float)):
                d = _dyadic(self)
                if d is not None:
                    r = getattr(d, name, None)
                    if r is not None:
                        r = r(o)
                        if r is not NotImplemented:
                            return r
            return plain(self, o)
        return f
    setattr(SymFloat, "__%s__" % _n, _mk2("__%s__" % _n, _a) if _n != "pow" else _a)
    setattr(SymFloat, "__r%s__" % _n, _mk2("__r%s__" % _n, _b) if _n != "pow" else _b)


class SymScaled(SymRatio):
    """f * k or f / k for a symbolic double f and a constant k: only the value's
    class is used symbolically (see model.h_fromtimestamp), else concretised."""
    __slots__ = ("f", "op", "k")

    @staticmethod
    def of(op, f, k):
        r = object.__new__(SymScaled)
        r.f, r.op, r.k = f, op, k
        return r

    def _shadow(self):
        return self.op(self.f.c, self.k)

    def _shadow2(self):
        return self.op(self.f.conc(), self.k)

    def _cmp(self, o, op):
        return op(self._shadow2(), o)

    def __bool__(self):
        return bool(self._shadow2())


def _scaled(op, name):
    plain = getattr(SymFloat, name)

    def f(self, o):
        d = _dyadic(self)
        if d is not None:
            return getattr(d, name)(o)
        if type(o) in (int, float) and o == o and o != 0 and abs(o) < 1e12:
            return SymScaled.of(op, self, o)
        return plain(self, o)
    setattr(SymFloat, name, f)


def _dyadic(f):
    """f as an exact m * 2**-s when its exponent is known (see dates)."""
    from .dates import of_float
    return of_float(f)


_scaled(operator.truediv, "__truediv__")
_scaled(operator.mul, "__mul__")
_scaled(operator.mul, "__rmul__")

SYM_SCALARS = (SymInt, SymBool, SymFloat, SymRatio)


def is_sym(x):
    t = type(x)
    return getattr(t, "_is_sym", False)


for _c in SYM_SCALARS:
    _c._is_sym = True
SymRatio._is_sym = True
SymScaled._is_sym = True


def sym_eq(a, b):
    """a == b as python bool or SymBool, without forking where possible.
    Follows CPython's PyObject_RichCompare(Py_EQ) with identity shortcut for
    container elements; recurses into tuples/lists so that the result is one
    formula."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple or ta is list and tb is list:
        if len(a) != len(b):
            return False
        return b_all([sym_eq(x, y) for x, y in zip(a, b)])
    return a == b
