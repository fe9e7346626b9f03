"""Models of CPython's datetime and timedelta (instants as exact integer
microseconds) and of correctly rounded double arithmetic on values m * 2**-s
with a concrete s (one path per binary exponent)."""
import datetime as _dt, math, operator, struct, time
from . import core, terms as tm
from .core import SymInt, SymFloat, SymRatio, mk_int, mk_float, term_of, _ci, conc_num

US_DAY = 86400 * 10 ** 6
EPOCH = _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)
MIN_US = (_dt.datetime.min.replace(tzinfo=_dt.timezone.utc) - EPOCH) // _dt.timedelta(microseconds=1)
MAX_US = (_dt.datetime.max.replace(tzinfo=_dt.timezone.utc) - EPOCH) // _dt.timedelta(microseconds=1)
MAX_DELTA = 999999999 * US_DAY


def _bounds(a):
    t = term_of(a)
    return t.lo, t.hi


def _narrow(a, lo, hi):
    """a, known to be within [lo, hi] on this path, as a term with that interval."""
    if type(a) is not SymInt:
        return a
    t = a.n
    if t.lo >= lo and t.hi <= hi:
        return a
    lo, hi = max(lo, t.lo), min(hi, t.hi)
    if lo == hi:
        return lo
    return mk_int(tm.clip(t, lo, hi), a.c)


def norm(x):
    return mk_int(tm.normal(x.n), x.c) if type(x) is SymInt else x


def fdiv(x, d):
    if type(x) is SymInt:
        return mk_int(tm.sfloordiv(x.n, d), x.c // d)
    return x // d


def fmod(x, d):
    if type(x) is SymInt:
        return mk_int(tm.smod(x.n, d), x.c % d)
    return x % d


def _rhe_div(x, d):
    """round-half-even(x / d), d > 0 constant."""
    q, r = fdiv(x, d), fmod(x, d)
    if type(q) is not SymInt and type(r) is not SymInt:
        return q + (1 if 2 * r > d or 2 * r == d and q & 1 else 0)
    tq, tr = term_of(q), term_of(r)
    two = tm.add(tr, tr)
    up = tm.b_or(tm.lt(tm.const(d), two), tm.b_and(tm.eq(two, tm.const(d)), tm.eq(tm.band(tq, tm.const(1)), tm.const(1))))
    c = _ci(q) + (1 if 2 * _ci(r) > d or 2 * _ci(r) == d and _ci(q) & 1 else 0)
    return mk_int(tm.add(tq, tm.b2i(up)), c)


def _ilog(a, d):
    """The k with 2^k <= a/d < 2^(k+1), a > 0 (forks)."""
    lo, hi = _bounds(a)
    lo = max(lo, 1)

    def flog(n):
        k = n.bit_length() - d.bit_length()
        while (n >= d << k) if k >= 0 else ((n << -k) >= d):
            k += 1
        while not ((n >= d << k) if k >= 0 else ((n << -k) >= d)):
            k -= 1
        return k
    l, h = flog(lo), flog(max(hi, 1))
    while l < h:
        m = (l + h + 1) // 2
        if (a >= d << m) if m >= 0 else ((a << -m) >= d):
            l = m
        else:
            h = m - 1
    return l


class SymDy(SymRatio):
    """The double m * 2**-s exactly."""
    __slots__ = ("m", "s")

    @staticmethod
    def exact(m, s=0):
        m = norm(m)
        if type(m) is not SymInt:
            return math.ldexp(float(m), -s) if abs(m) < 1 << 53 else m / (1 << s) if s >= 0 else float(m << -s)
        r = object.__new__(SymDy)
        r.m, r.s = m, s
        return r

    @staticmethod
    def ratio(n, d, s=0):
        """The double nearest to n / d * 2**-s; d a positive constant."""
        g = d & -d
        d, s = d // g, s + g.bit_length() - 1
        n = norm(n)
        if type(n) is not SymInt:
            from fractions import Fraction
            return float(Fraction(n, d) / (Fraction(2) ** s))
        if d == 1:
            lo, hi = _bounds(n)
            if max(abs(lo), abs(hi)) <= 1 << 53:
                return SymDy.exact(n, s)
        elif fmod(n, d) == 0:
            return SymDy.ratio(fdiv(n, d), 1, s)
        if n == 0:
            return 0.0
        neg = bool(n < 0)
        a = -n if neg else n
        k = _ilog(a, d)
        t = 52 - k                      # a/d * 2^t in [2^52, 2^53)
        if t >= 0:
            m = _rhe_div(a << t, d)
        else:
            m = _rhe_div(a, d << -t)
        m = _narrow(m, 1 << 52, 1 << 53)
        if k - s < -1000 or k - s > 1000:
            raise core.Unsupported("subnormal or overflowing double")
        return SymDy.exact(-m if neg else m, s + t)

    def _shadow(self):
        c = _ci(self.m)
        return math.ldexp(float(c), -self.s)

    def _shadow2(self):
        c = operator.index(self.m)
        return math.ldexp(float(c), -self.s)

    def tofloat(self):
        """As a SymFloat (bit pattern)."""
        m, s = self.m, self.s
        lo, hi = _bounds(m)
        c = self._shadow()
        if s == 0:
            return mk_float(tm.f_op("ffromint", (term_of(m),), "I", 0, tm.M64), c)
        if m == 0:
            return 0.0
        neg = bool(m < 0)
        a = -m if neg else m
        if _bounds(a)[0] >= 1 << 52 and _bounds(a)[1] <= 1 << 53:
            k = 52
        else:
            k = _ilog(a, 1)
            a = a << (52 - k) if k <= 52 else a >> (k - 52)
        e = k - s + 1023
        if not 0 < e < 2046:
            raise core.Unsupported("subnormal or overflowing double")
        bits = (a - (1 << 52)) + ((e << 52) | (1 << 63 if neg else 0))
        # a full interval keeps its bytes from folding, so that they recombine to this term
        n = tm.clip(term_of(bits), 0, tm.M64)
        core.P.dyadic[n] = self
        return mk_float(n, c)

    # -- comparisons
    def _cmp(self, o, op):
        o = dyadic(o)
        if o is None:
            return op(self._shadow2(), o)
        if type(o) is float:
            if math.isnan(o) or math.isinf(o):
                return op(0.0, o)
        m, s = parts(o)
        a, b = self.m, m
        if s > self.s:
            a = a << (s - self.s)
        else:
            b = b << (self.s - s)
        return op(a, b)

    # -- arithmetic
    def _add(self, o, sign=1, swap=False):
        o2 = dyadic(o)
        if o2 is None:
            return NotImplemented
        m, s = parts(o2)
        a, b = self.m, m
        if s > self.s:
            a = a << (s - self.s)
        else:
            b = b << (self.s - s)
        s = max(s, self.s)
        return SymDy.ratio(b - a if swap else a + b if sign > 0 else a - b, 1, s)

    def __add__(self, o): return self._add(o)
    __radd__ = __add__
    def __sub__(self, o): return self._add(o, -1)
    def __rsub__(self, o): return self._add(o, -1, True)

    def __mul__(self, o):
        o2 = dyadic(o)
        if o2 is None:
            return NotImplemented
        m, s = parts(o2)
        if type(m) is SymInt:
            return self._shadow2() * o
        return SymDy.ratio(self.m * m, 1, s + self.s)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o2 = dyadic(o)
        if o2 is None:
            return NotImplemented
        m, s = parts(o2)
        if type(m) is SymInt:
            return self._shadow2() / o
        if m == 0:
            raise ZeroDivisionError("float division by zero")
        return SymDy.ratio(self.m if m > 0 else -self.m, abs(m), self.s - s)

    def __rtruediv__(self, o):
        return o / self._shadow2()

    def __floordiv__(self, o):
        m, s = parts(dyadic(o))
        if type(m) is SymInt or m <= 0:
            return self._shadow2() // o
        a, d = self.m, m
        if s >= self.s:
            a = a << (s - self.s)
        else:
            d = d << (self.s - s)
        return SymDy.ratio(fdiv(a, d), 1)

    def __mod__(self, o):
        m, s = parts(dyadic(o))
        if type(m) is SymInt or m <= 0 or not bool(self.m >= 0):
            return self._shadow2() % o
        a, d = self.m, m
        if s >= self.s:
            a = a << (s - self.s)
        else:
            d = d << (self.s - s)
        return SymDy.ratio(fmod(a, d), 1, max(s, self.s))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        if self.m == 0:
            return -0.0
        return SymDy.exact(-self.m, self.s)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymDy.exact(abs(self.m), self.s)

    def __bool__(self):
        return bool(self.m != 0)

    def floor(self):
        return fdiv(self.m, 1 << self.s) if self.s >= 0 else self.m << -self.s

    def ceil(self):
        return -fdiv(-self.m, 1 << self.s) if self.s > 0 else self.floor()

    def trunc(self):
        if self.s <= 0:
            return self.floor()
        if self.m >= 0:
            return norm(fdiv(self.m, 1 << self.s))
        return norm(-fdiv(-self.m, 1 << self.s))

    to_int = trunc
    def __trunc__(self): return operator.index(self.trunc())
    __int__ = __trunc__
    def __floor__(self): return self.floor()
    def __ceil__(self): return self.ceil()

    def __round__(self, nd=None):
        if nd is None:
            return _rhe_div(self.m, 1 << self.s) if self.s > 0 else self.floor()
        if not 0 <= nd <= 20:
            return round(self._shadow2(), nd)
        n = _rhe_div(self.m * 10 ** nd, 1 << self.s) if self.s > 0 else self.m * 10 ** nd << -self.s
        return SymDy.ratio(n, 10 ** nd)

    def is_integer(self):
        if self.s <= 0:
            return True
        return fmod(self.m, 1 << self.s) == 0

    def modf(self):
        i = self.trunc()
        if self.s <= 0:
            return 0.0, SymDy.ratio(i, 1)
        return SymDy.exact(self.m - (i << self.s), self.s), SymDy.ratio(i, 1)


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(SymDy, "__%s__" % _n, (lambda op: lambda self, o: self._cmp(o, op))(getattr(operator, _n)))
SymDy.__hash__ = lambda self: hash(self._shadow2())
SymDy._is_sym = True


def dyadic(x):
    """x as a SymDy, int-like or plain float; None when it is not known as one."""
    t = type(x)
    if t is SymDy or t is SymInt:
        return x
    if t is SymFloat:
        return of_float(x)
    if isinstance(x, int):
        return int(conc_num(x))
    if isinstance(x, float) and t is not SymRatio and not issubclass(t, SymRatio):
        return float(x)
    return None


def parts(x):
    """(m, s) of a SymDy, int or finite float."""
    if type(x) is SymDy:
        return x.m, x.s
    if type(x) is SymInt:
        lo, hi = _bounds(x)
        if max(abs(lo), abs(hi)) > 1 << 53:
            x = SymDy.ratio(x, 1)
            return parts(x)
        return x, 0
    if isinstance(x, int) and not isinstance(x, float):
        x = float(x)
    n, d = float(x).as_integer_ratio()
    return n, d.bit_length() - 1


def of_float(f):
    """SymFloat -> SymDy, when its exponent is known; else None."""
    d = core.P.dyadic.get(f.n)
    if d is not None:
        return d
    i = core._from_int(f) if f.n.op == "ffromint" else None
    if i is not None:
        return SymDy.exact(i)
    n = f.n
    if n.lo >> 52 == n.hi >> 52:
        e = (n.lo >> 52) & 0x7FF
        if 0 < e < 2047:
            m = mk_int(tm.band(n, tm.const((1 << 52) - 1)), tm.f2bits(f.c) & ((1 << 52) - 1)) + (1 << 52)
            d = SymDy.exact(-m if n.lo >> 63 else m, 52 - (e - 1023))
            core.P.dyadic[n] = d
            return d
    return None


def h_modf(x):
    d = dyadic(x)
    if type(d) is SymDy:
        return d.modf()
    if type(d) is SymInt:
        return 0.0, SymDy.ratio(d, 1)
    return math.modf(conc_num(x))


# ---------------------------------------------------------------- timedelta
class SymDelta:
    """A timedelta of `us` microseconds."""
    __slots__ = ("us",)
    _is_sym = False

    @property
    def __class__(self):
        return _dt.timedelta

    @staticmethod
    def make(us):
        us = norm(us)
        if type(us) is not SymInt:
            return _dt.timedelta(microseconds=us)
        lo, hi = _bounds(us)
        if lo < -MAX_DELTA or hi >= MAX_DELTA + US_DAY:
            if not (us >= -MAX_DELTA and us < MAX_DELTA + US_DAY):
                raise OverflowError("days=%d; must have magnitude <= 999999999" % (us.c // US_DAY))
            us = _narrow(us, -MAX_DELTA, MAX_DELTA + US_DAY - 1)
        r = object.__new__(SymDelta)
        r.us = us
        return r

    def _shadow(self):
        return _dt.timedelta(microseconds=_ci(self.us))

    days = property(lambda s: fdiv(s.us, US_DAY))
    seconds = property(lambda s: fmod(fdiv(s.us, 10 ** 6), 86400))
    microseconds = property(lambda s: fmod(s.us, 10 ** 6))

    def total_seconds(self):
        return SymDy.ratio(self.us, 10 ** 6)

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymDelta.make(self.us + td_us(o))
        if isinstance(o, _dt.datetime):
            return dt_add(o, self.us)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return SymDelta.make(self.us - td_us(o)) if isinstance(o, _dt.timedelta) else NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymDelta.make(td_us(o) - self.us)
        if isinstance(o, _dt.datetime):
            return dt_add(o, -self.us)
        return NotImplemented

    def __neg__(self): return SymDelta.make(-self.us)
    def __pos__(self): return self
    def __abs__(self): return SymDelta.make(abs(self.us))

    def __mul__(self, o):
        if isinstance(o, float):
            return SymDelta.make(operator.index(self.us)) * conc_num(o)
        return SymDelta.make(self.us * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _dt.timedelta):
            d = td_us(o)
            d = operator.index(d)
            return SymDy.ratio(self.us if d > 0 else -self.us, abs(d))
        if isinstance(o, float):
            return _dt.timedelta(microseconds=operator.index(self.us)) / conc_num(o)
        o = operator.index(o)
        return SymDelta.make(_rhe_div(self.us if o > 0 else -self.us, abs(o)))

    def __rtruediv__(self, o):
        return o / _dt.timedelta(microseconds=operator.index(self.us))

    def __floordiv__(self, o):
        if isinstance(o, _dt.timedelta):
            d = operator.index(td_us(o))
            return fdiv(self.us, d) if d > 0 else self.us // d
        return SymDelta.make(fdiv(self.us, operator.index(o)))

    def __rfloordiv__(self, o):
        return o // _dt.timedelta(microseconds=operator.index(self.us))

    def __mod__(self, o):
        return SymDelta.make(fmod(self.us, operator.index(td_us(o))))

    def __divmod__(self, o):
        return self // o, self % o

    def __bool__(self):
        return bool(self.us != 0)

    def __hash__(self):
        return hash(_dt.timedelta(microseconds=operator.index(self.us)))

    def __repr__(self):
        return repr(self._shadow())
    __str__ = __repr__


def _cmps(cls, get):
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        def f(op):
            def g(self, o):
                p = get(self, o)
                if p is None:
                    return NotImplemented
                return op(*p)
            return g
        setattr(cls, "__%s__" % n, f(getattr(operator, n)))


_cmps(SymDelta, lambda a, b: (a.us, td_us(b)) if isinstance(b, _dt.timedelta) else None)


def td_us(d):
    if type(d) is SymDelta:
        return d.us
    return d.days * US_DAY + d.seconds * 10 ** 6 + d.microseconds


_FACTORS = dict(days=US_DAY, seconds=10 ** 6, microseconds=1, milliseconds=1000, minutes=60 * 10 ** 6, hours=3600 * 10 ** 6,
                weeks=7 * US_DAY)


def h_timedelta(*a, **k):
    for name, v in zip(("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"), a):
        k[name] = v
    if not any(getattr(type(v), "_is_sym", False) for v in k.values()):
        return _dt.timedelta(**k)
    us, left = 0, None
    for name, v in k.items():
        f = _FACTORS[name]
        if type(v) is core.SymBool:
            v = v._i()
        if type(v) is SymInt or isinstance(v, int):
            us = us + v * f
            continue
        d = dyadic(v)
        if type(v) is SymFloat and d is None:
            if len(k) == 1:
                return _stub_delta(v, f)
            d = v.conc()
        if type(d) is not SymDy:
            d = conc_num(v)
            if math.isnan(d) or math.isinf(d):
                return _dt.timedelta(**{name: d})
        i = d.trunc() if type(d) is SymDy else int(d)
        us = us + i * f
        fr = d.modf()[0] if type(d) is SymDy else math.modf(d)[0]
        if not bool(fr != 0):
            continue
        fr = fr * float(f)
        j = fr.trunc() if type(fr) is SymDy else int(fr)
        us = us + j
        fr = fr.modf()[0] if type(fr) is SymDy else math.modf(fr)[0]
        if left is not None:
            fr = fr + left
        left = fr
    if left is not None:
        # round-half-even(us + left), |left| < 1
        m, s = parts(dyadic(left))
        if s > 0:
            us = _rhe_div((us << s) + m, 1 << s)
        else:
            us = us + (m << -s)
    return SymDelta.make(us)


def _stub_delta(f, factor):
    """A double with unknown exponent: one representative per class (NaN, infinite,
    out of the range of timedelta or datetime on either side, within)."""
    if not f.isnan() and not f.isinf():
        top = float((MAX_DELTA + 2 * US_DAY) // factor)
        for lim in (top, (MAX_US + 2.0 * US_DAY) / factor, (MAX_US - 2.0 * US_DAY) / factor, (MIN_US + 2.0 * US_DAY) / factor,
                    (MIN_US - 2.0 * US_DAY) / factor, -top):
            if f > lim:
                break
    c = f.c
    if math.isnan(c) or math.isinf(c):
        return _dt.timedelta(milliseconds=c)
    return _dt.timedelta(microseconds=c * factor)


# ----------------------------------------------------------------- datetime
class SymTZ(_dt.tzinfo):
    """A fixed symbolic offset."""

    def __init__(self, off_us):
        self.off = off_us

    def utcoffset(self, dt): return SymDelta.make(self.off)
    def dst(self, dt): return None
    def tzname(self, dt): return "X"


class SymDst(_dt.tzinfo):
    """A zone whose offset changes once, at the instant `t` (us)."""

    def __init__(self, t, before, after):
        self.steps = [(t, before, after)]

    def utcoffset(self, dt):
        return None if dt is None else SymDelta.make(dt_parts(dt)[1])

    def dst(self, dt): return None
    def tzname(self, dt): return "Y"

    def fromutc(self, dt):
        u, off, _ = dt_parts(dt)
        return place(u + off, self)


_LOCAL = []


def local_steps():
    """The transitions of the local zone between 1900 and 2100 (us), after its first offset."""
    if not _LOCAL:
        def off(t):
            return time.localtime(t).tm_gmtoff
        lo, hi, day = -2208988800, 4102444800, 86400
        steps, t, o = [], lo, off(lo)
        while t < hi and len(steps) < 9:
            n = off(t + day)
            if n != o:
                x, y = t, t + day
                while y - x > 1:
                    m = (x + y) // 2
                    if off(m) == o:
                        x = m
                    else:
                        y = m
                steps.append((y * 10 ** 6, o * 10 ** 6, n * 10 ** 6))
                o = n
            t += day
        _LOCAL.append((off(lo) * 10 ** 6, steps))
    return _LOCAL[0]


def steps_of(tz):
    """(first offset, [(instant, offset before, offset after)]) of a zone, or None."""
    if tz is None:
        r = local_steps()
        return r if len(r[1]) < 9 else None
    if isinstance(tz, SymTZ):
        return tz.off, []
    if isinstance(tz, SymDst):
        return tz.steps[0][1], tz.steps
    if type(tz) is _dt.timezone:
        return td_us(tz.utcoffset(None)), []
    return None


def off_at(us, tz):
    """Offset at an instant; None for zones that are not modelled."""
    z = steps_of(tz)
    if z is None:
        return None
    off = z[0]
    for t, b, a in z[1]:
        if us < t:
            return off
        off = a
    return off


def fold_at(us, tz):
    for t, b, a in steps_of(tz)[1]:
        if b > a and us >= t and us < t + (b - a):
            return 1
    return 0


def off_of_wall(wall, fold, tz):
    """PEP 495."""
    z = steps_of(tz)
    if z is None:
        return None
    off = z[0]
    for t, b, a in z[1]:
        later = b if b > a else a
        if wall < t + (later if fold == 0 else a + b - later):
            return off
        off = a
    return off


def place(us, tz):
    """The instant in a zone (None: naive local time)."""
    return make_dt(us, off_at(us, tz), tz)


class SymDateTime:
    """The instant `us` (microseconds since the epoch) shown at offset `off`;
    tz None for a naive datetime (local time)."""
    __slots__ = ("us", "off", "tz", "_fold")
    _is_sym = False

    @property
    def fold(self):
        if self._fold is None:
            self._fold = fold_at(self.us, self.tz)
        return self._fold

    @property
    def __class__(self):
        return _dt.datetime

    def _shadow(self):
        z = _dt.timezone(_dt.timedelta(microseconds=_ci(self.off)))
        d = EPOCH + _dt.timedelta(microseconds=_ci(self.us))
        d = d.astimezone(z)
        return d if self.tz is not None else d.replace(tzinfo=None, fold=self.fold)

    def _real(self):
        operator.index(self.us), operator.index(self.off)
        d = self._shadow()
        return d if self.tz is None or isinstance(self.tz, (SymTZ, SymDst)) else d.astimezone(self.tz)

    tzinfo = property(lambda s: s.tz)
    local = property(lambda s: s.us + s.off)
    microsecond = property(lambda s: fmod(s.local, 10 ** 6))
    second = property(lambda s: fmod(fdiv(s.local, 10 ** 6), 60))
    minute = property(lambda s: s.local // (60 * 10 ** 6) % 60)
    hour = property(lambda s: s.local // (3600 * 10 ** 6) % 24)
    year = property(lambda s: s._real().year)
    month = property(lambda s: s._real().month)
    day = property(lambda s: s._real().day)
    max = _dt.datetime.max
    min = _dt.datetime.min

    def utcoffset(self):
        return None if self.tz is None else SymDelta.make(self.off)

    def timestamp(self):
        return SymDy.ratio(self.us, 10 ** 6)

    def astimezone(self, tz=None):
        if tz is None:
            off = off_at(self.us, None)
            if off is None:
                return self._real().astimezone()
            return make_dt(self.us, off, _dt.timezone(_dt.timedelta(microseconds=off)))
        if tz is self.tz:
            return self
        off = off_at(self.us, tz)
        if off is None:
            return self._real().astimezone(tz)
        return make_dt(self.us, off, tz)

    def replace(self, **k):
        wall, tz = self.us + self.off, self.tz
        fold = k.pop("fold") if "fold" in k else self.fold
        if "tzinfo" in k:
            z = k.pop("tzinfo")
            if steps_of(z) is None:
                return self._real().replace(tzinfo=z, fold=fold, **k)
            tz = z
        if "microsecond" in k:
            m = k.pop("microsecond")
            if not (m >= 0 and m < 10 ** 6):
                raise ValueError("microsecond must be in 0..999999")
            wall = wall - fmod(wall, 10 ** 6) + m
        if "second" in k:
            v = k.pop("second")
            if not (v >= 0 and v < 60):
                raise ValueError("second must be in 0..59")
            wall = wall + (v - fmod(fdiv(wall, 10 ** 6), 60)) * 10 ** 6
        r = at_wall(wall, fold, tz)
        return r._real().replace(**k) if k else r

    def __add__(self, o):
        return dt_add(self, td_us(o)) if isinstance(o, _dt.timedelta) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return dt_add(self, -td_us(o))
        if isinstance(o, _dt.datetime):
            return dt_sub(self, o)
        return NotImplemented

    def __rsub__(self, o):
        return dt_sub(o, self) if isinstance(o, _dt.datetime) else NotImplemented

    def __bool__(self):
        return True

    def __hash__(self):
        return hash(self._real())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._real(), name)

    def __repr__(self):
        return repr(self._shadow())

    def __str__(self):
        return str(self._shadow())

    def __format__(self, s):
        return format(self._shadow(), s)


def at_wall(wall, fold, tz):
    off = off_of_wall(wall, fold, tz)
    return make_dt(wall - off, off, tz, fold)


def make_dt(us, off, tz, fold=None):
    """Refuses instants whose local time is outside the years 1..9999."""
    us = norm(us)
    loc = norm(us + off)
    if type(loc) is SymInt:
        lo, hi = _bounds(loc)
        if (lo < MIN_US or hi > MAX_US) and not (loc >= MIN_US and loc <= MAX_US):
            raise OverflowError("date value out of range")
        us = _narrow(us, MIN_US - _bounds(off)[1], MAX_US - _bounds(off)[0])
    elif not MIN_US <= loc <= MAX_US:
        raise OverflowError("date value out of range")
    if type(us) is not SymInt and type(off) is not SymInt and tz is not None and not isinstance(tz, (SymTZ, SymDst)):
        return (EPOCH + _dt.timedelta(microseconds=us)).astimezone(tz)
    r = object.__new__(SymDateTime)
    r.us, r.off, r.tz, r._fold = us, off, tz, fold
    return r


def dt_parts(d):
    """(us, off, tz) of any datetime."""
    if type(d) is SymDateTime:
        return d.us, d.off, d.tz
    if d.tzinfo is None or isinstance(d.tzinfo, (SymTZ, SymDst)):
        wall = (d.replace(tzinfo=_dt.timezone.utc) - EPOCH) // _dt.timedelta(microseconds=1)
        off = off_of_wall(wall, d.fold, d.tzinfo)
        if off is None:
            raise core.Unsupported("local time zone")
        return wall - off, off, d.tzinfo
    off = td_us(d.utcoffset())
    return (d - EPOCH) // _dt.timedelta(microseconds=1), off, d.tzinfo


def dt_add(d, us):
    u, off, tz = dt_parts(d)
    if steps_of(tz) is None:
        us = operator.index(us)
        return (d._real() if type(d) is SymDateTime else d) + _dt.timedelta(microseconds=us)
    return at_wall(u + off + us, 0, tz)


def dt_sub(a, b):
    ua, oa, ta = dt_parts(a)
    ub, ob, tb = dt_parts(b)
    if (ta is None) != (tb is None):
        raise TypeError("can't subtract offset-naive and offset-aware datetimes")
    if ta is tb:
        return SymDelta.make((ua + oa) - (ub + ob)) if type(ta) is not _dt.timezone else SymDelta.make(ua - ub)
    return SymDelta.make(ua - ub)


def _dt_cmp(a, b):
    if not isinstance(b, _dt.datetime):
        return None
    ua, oa, ta = dt_parts(a)
    ub, ob, tb = dt_parts(b)
    if (ta is None) != (tb is None):
        return object(), object()
    if ta is tb and type(ta) is not _dt.timezone:
        return ua + oa, ub + ob
    return ua, ub


_cmps(SymDateTime, _dt_cmp)


def h_fromts(f, a, k, utc=False):
    """datetime.fromtimestamp(x[, tz]) for symbolic x; None when not modelled."""
    x = a[0]
    tz = a[1] if len(a) > 1 else k.get("tz")
    if utc:
        tz = None
    d = dyadic(x)
    if type(d) is SymInt:
        us = d * 10 ** 6
    elif type(d) is SymDy:
        us = d.trunc() * 10 ** 6
        fr = d.modf()[0]
        if bool(fr != 0):
            fr = fr * 1e6
            m, s = parts(dyadic(fr))
            us = us + (_rhe_div(m, 1 << s) if s > 0 else m << -s)
    else:
        return None
    if not utc and steps_of(tz) is None:
        return None
    try:
        return at_wall(us, 0, None) if utc else place(us, tz)
    except OverflowError:
        raise ValueError("year is out of range") from None
