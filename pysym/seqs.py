"""Symbolic strings and byte buffers: concrete length, symbolic elements."""
import math, operator, struct, sys, unicodedata
from . import terms as tm
from . import core
from .core import SymInt, SymBool, SymFloat, mk_int, mk_bool, mk_float, b_all, b_any, vp_not, term_of, _ci, is_sym, conc_num


def _seq_eq(a, b):
    return b_all([x == y for x, y in zip(a, b)])


def in_ranges(x, ranges):
    """x (int|SymInt) within any of [(lo,hi)], no forking."""
    if type(x) is not SymInt:
        return any(l <= x <= h for l, h in ranges)
    ts = []
    for l, h in ranges:
        if h < x.n.lo or l > x.n.hi:
            continue
        ts.append(tm.b_and(tm.le(tm.const(l), x.n), tm.le(x.n, tm.const(h))) if l != h else tm.eq(x.n, tm.const(l)))
    return mk_bool(tm.b_any(ts) if ts else tm.FALSE, any(l <= x.c <= h for l, h in ranges))


def _ranges_of(pred):
    out, start = [], None
    for i in range(0x110000):
        if pred(chr(i)):
            if start is None:
                start = i
        elif start is not None:
            out.append((start, i - 1)); start = None
    if start is not None:
        out.append((start, 0x10FFFF))
    return out


_rcache = {}


def ranges_of(name):
    if name not in _rcache:
        _rcache[name] = _ranges_of(lambda ch: getattr(ch, name)())
    return _rcache[name]


def _clamp_slice(s, n):
    """slice -> concrete (start, stop, step); symbolic bounds are clamped by branching first."""
    def fix(v):
        if type(v) is SymInt:
            if v >= n:
                return n
            if v <= -n:
                return -n
            return v.__index__()
        return v
    return slice(fix(s.start), fix(s.stop), fix(s.step)).indices(n)


def _index(i, n, exc=IndexError, msg="index out of range"):
    """element index -> concrete in-range index (forks; out of range raises once)."""
    if type(i) is SymInt:
        if i >= n or i < -n:
            raise exc(msg)
        i = i.__index__()
    else:
        i = operator.index(i)
    if i < 0:
        i += n
    if not 0 <= i < n:
        raise exc(msg)
    return i



# ------------------------------------------------- methods str and bytes have in common
class _SeqMethods:
    """Methods over `_els()` (the elements), `_mk(list)` and `_arg(x)` (elements of an argument); every decision forks on
    whether the symbolic elements are equal, never on their values."""
    __slots__ = ()

    def _in_set(self, c, chars):
        if chars is None:
            rs = ranges_of("isspace") if self._text else [(9, 13), (32, 32)]
        else:
            rs = None
        if rs is not None:
            return bool(in_ranges(c, rs))
        for x in self._arg(chars):
            if c == x:
                return True
        return False

    def lstrip(self, chars=None):
        e = self._els()
        i = 0
        while i < len(e) and self._in_set(e[i], chars):
            i += 1
        return self._mk(e[i:])

    def rstrip(self, chars=None):
        e = self._els()
        j = len(e)
        while j > 0 and self._in_set(e[j - 1], chars):
            j -= 1
        return self._mk(e[:j])

    def strip(self, chars=None):
        e = self._els()
        i, j = 0, len(e)
        while i < j and self._in_set(e[i], chars):
            i += 1
        while j > i and self._in_set(e[j - 1], chars):
            j -= 1
        return self._mk(e[i:j])

    def _span(self, start, end):
        a, b, _ = _clamp_slice(slice(start, end), len(self._els()))
        return a, b

    def find(self, sub, start=None, end=None):
        e, p = self._els(), self._arg(sub)
        a, b = self._span(start, end)
        for i in range(a, b - len(p) + 1):
            if _seq_eq(e[i:i + len(p)], p):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        e, p = self._els(), self._arg(sub)
        a, b = self._span(start, end)
        for i in range(b - len(p), a - 1, -1):
            if _seq_eq(e[i:i + len(p)], p):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError("substring not found" if self._text else "subsection not found")
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError("substring not found" if self._text else "subsection not found")
        return i

    def _pieces(self, sep, limit=-1, e=None):
        """Split at non-overlapping occurrences of a non-empty sep."""
        p = self._arg(sep)
        if e is None:
            e = self._els()
        if not p:
            raise ValueError("empty separator")
        out, start, i = [], 0, 0
        while i + len(p) <= len(e) and limit != 0:
            if _seq_eq(e[i:i + len(p)], p):
                out.append(self._mk(e[start:i]))
                i += len(p)
                start = i
                limit -= 1
            else:
                i += 1
        out.append(self._mk(e[start:]))
        return out

    def count(self, sub, start=None, end=None):
        a, b = self._span(start, end)
        if not self._arg(sub):
            return b - a + 1 if b >= a else 0
        return len(self._pieces(sub, -1, self._els()[a:b])) - 1 if b > a else 0

    def replace(self, old, new, count=-1):
        e, n = self._els(), self._arg(new)
        if not self._arg(old):
            out = []
            for k, c in enumerate(e):
                if count < 0 or k < count:
                    out += n
                out.append(c)
            if count < 0 or len(e) < count:
                out += n
            return self._mk(out)
        out = []
        for k, piece in enumerate(self._pieces(old, count)):
            if k:
                out += n
            out += self._arg(piece)
        return self._mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            return self._pieces(sep, maxsplit)
        out, cur = [], None
        e = self._els()
        i = 0
        while i < len(e):
            if self._in_set(e[i], None):
                if cur is not None:
                    out.append(self._mk(cur))
                    cur = None
            else:
                if cur is None:
                    if maxsplit >= 0 and len(out) >= maxsplit:
                        j = len(e)
                        while self._in_set(e[j - 1], None):
                            j -= 1
                        out.append(self._mk(e[i:j]))
                        return out
                    cur = []
                cur.append(e[i])
            i += 1
        if cur is not None:
            out.append(self._mk(cur))
        return out

    def partition(self, sep):
        if not len(sep):
            raise ValueError("empty separator")
        i = self.find(sep)
        e = self._els()
        if i < 0:
            return (self._mk(e), self._mk([]), self._mk([]))
        return (self._mk(e[:i]), sep, self._mk(e[i + len(sep):]))

    def rpartition(self, sep):
        if not len(sep):
            raise ValueError("empty separator")
        i = self.rfind(sep)
        e = self._els()
        if i < 0:
            return (self._mk([]), self._mk([]), self._mk(e))
        return (self._mk(e[:i]), sep, self._mk(e[i + len(sep):]))

    def removesuffix(self, p):
        return self._mk(self._els()[:len(self._els()) - len(p)]) if len(p) and self.endswith(p) else self._mk(self._els())

    def _fill(self, width, fillchar):
        p = self._arg(" " if self._text else b" ") if fillchar is None else self._arg(fillchar)
        if len(p) != 1:
            raise TypeError("The fill character must be exactly one character long")
        return p * max(0, operator.index(width) - len(self._els()))

    def ljust(self, width, fillchar=None):
        return self._mk(self._els() + self._fill(width, fillchar))

    def rjust(self, width, fillchar=None):
        return self._mk(self._fill(width, fillchar) + self._els())

    def _case(self, lo, hi, delta, name):
        out = []
        for c in self._els():
            if type(c) is SymInt and (not self._text or c < 128):
                out.append(c + delta if in_ranges(c, [(lo, hi)]) else c)
            elif self._text:
                out += [ord(x) for x in getattr(chr(operator.index(c)), name)()]
            else:
                out += list(getattr(bytes([operator.index(c)]), name)())
        return self._mk(out)

    def lower(self): return self._case(65, 90, 32, "lower")
    def upper(self): return self._case(97, 122, -32, "upper")
    def casefold(self): return self._case(65, 90, 32, "casefold") if self._text else self.conc().casefold()


# --------------------------------------------------------------------- str
def mk_str(chars):
    for c in chars:
        if type(c) is SymInt:
            return SymStr(chars)
    return "".join(map(chr, chars))


def chars_of(s):
    return s.chars if issubclass(type(s), SymStr) else [ord(c) for c in s]


class SymStr(_SeqMethods):
    __slots__ = ("chars",)
    _is_sym = True
    _text = True

    def _els(self):
        return self.chars

    def _mk(self, els):
        return mk_str(els)

    def _arg(self, x):
        if not isinstance(x, str):
            raise TypeError("must be str, not " + type(x).__name__)
        return chars_of(x)

    def __init__(self, chars):
        self.chars = list(chars)

    @property
    def __class__(self):
        return str

    def _shadow(self):
        return "".join(chr(_ci(c)) for c in self.chars)

    def conc(self):
        return "".join(chr(operator.index(c)) for c in self.chars)

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __hash__(self):
        return hash(self.conc())

    def __eq__(self, o):
        if isinstance(o, str):
            oc = chars_of(o)
            if len(oc) != len(self.chars):
                return False
            return _seq_eq(self.chars, oc)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vp_not(r)

    def _lt(self, o, strict_eq):
        a, b = self.chars, chars_of(o)
        for x, y in zip(a, b):
            if x == y:
                continue
            return x < y
        return len(a) < len(b) if strict_eq else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._lt(o, False) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return vp_not(self._lt(o, False)) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return vp_not(self._lt(o, True)) if isinstance(o, str) else NotImplemented

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, s = _clamp_slice(i, len(self.chars))
            return mk_str(self.chars[slice(a, b if b >= 0 else None, s)])
        return mk_str([self.chars[_index(i, len(self.chars), IndexError, "string index out of range")]])

    def __iter__(self):
        for c in self.chars:
            yield mk_str([c])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(self.chars + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk_str(chars_of(o) + self.chars)

    def __mul__(self, n):
        return mk_str(self.chars * operator.index(n))
    __rmul__ = __mul__

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        oc = chars_of(o)
        n, m = len(self.chars), len(oc)
        return b_any([_seq_eq(self.chars[i:i + m], oc) for i in range(0, n - m + 1)])

    def __mod__(self, o):
        return self.conc() % o

    def __str__(self):
        return self._shadow()

    def __repr__(self):
        return repr(self._shadow())

    def __format__(self, spec):
        return format(self._shadow(), spec)

    def _all(self, name):
        rs = ranges_of(name)
        if not self.chars:
            return name == "isascii"
        return b_all([in_ranges(c, rs) for c in self.chars])

    def isdecimal(self): return self._all("isdecimal")
    def isdigit(self): return self._all("isdigit")
    def isnumeric(self): return self._all("isnumeric")
    def isspace(self): return self._all("isspace")
    def isalnum(self): return self._all("isalnum")
    def isalpha(self): return self._all("isalpha")

    def isascii(self):
        return b_all([c < 128 for c in self.chars])

    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            if isinstance(p, tuple) and not a:
                return b_any([self.startswith(q) for q in p])
            return self.conc().startswith(p, *a)
        pc = chars_of(p)
        return len(pc) <= len(self.chars) and _seq_eq(self.chars[:len(pc)], pc)

    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            return self.conc().endswith(p, *a)
        pc = chars_of(p)
        return len(pc) <= len(self.chars) and _seq_eq(self.chars[len(self.chars) - len(pc):], pc)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def encode(self, encoding="utf-8", errors="strict"):
        return encode_str(self, encoding, errors)

    def join(self, it):
        out = []
        for k, s in enumerate(it):
            if k:
                out += self.chars
            out += chars_of(s)
        return mk_str(out)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)
        return getattr(self.conc(), name)


def norm_enc(e):
    e = e.lower().replace("-", "").replace("_", "").replace(" ", "")
    return {"iso88591": "latin1", "usascii": "ascii", "l1": "latin1", "u8": "utf8", "utf": "utf8", "latin": "latin1", "8859": "latin1", "cp819": "latin1",
            "u16": "utf16", "utf16": "utf16", "unicodelittleunmarked": "utf16le", "646": "ascii"}.get(e, e)


PY_NAME = {"utf8": "utf-8", "latin1": "latin-1", "utf16le": "utf-16-le", "utf16be": "utf-16-be", "utf16": "utf-16", "utf8sig": "utf-8"}
ENCS = ("utf8", "latin1", "ascii", "utf16le", "utf16be", "utf16", "utf8sig")
HANDLERS = ("strict", "surrogatepass", "replace", "ignore", "surrogateescape")
_TABLES = {}


def charmap(encoding):
    """The code points of the 256 bytes of a single-byte codec (None: undefined), or None for other codecs."""
    if encoding not in _TABLES:
        t = None
        try:
            t = []
            for b in range(256):
                try:
                    c = bytes([b]).decode(encoding)
                except UnicodeDecodeError:
                    c = None
                t.append(None if c is None else ord(c))
            if any(bytes([b]) != (chr(c).encode(encoding)) for b, c in enumerate(t) if c is not None) or t[0x41] is None:
                t = None
            elif len(bytes([0x41, 0x80, 0x41]).decode(encoding, "replace")) != 3:
                t = None
        except Exception:
            t = None
        _TABLES[encoding] = t
    return _TABLES[encoding]


def _mapped(x, pairs):
    """x + the offset of the pair it is in: the value of a table at x, with pairs [(x, value)]."""
    if type(x) is not SymInt:
        return dict(pairs).get(x, x)
    t, c = x.n, x.c
    for k, v in pairs:
        if v != k:
            t = tm.ite(tm.eq(x.n, tm.const(k)), tm.const(v), t)
            if x.c == k:
                c = v
    vs = [v for _, v in pairs]
    return mk_int(tm.clip(t, min(vs), max(vs)), c)


def _runs(keys):
    keys, out = sorted(keys), []
    for k in keys:
        if out and out[-1][1] == k - 1:
            out[-1] = (out[-1][0], k)
        else:
            out.append((k, k))
    return out


def encode_str(s, encoding="utf-8", errors="strict"):
    if not issubclass(type(s), SymStr):
        return s.encode(encoding, errors)
    enc = norm_enc(encoding)
    out = []
    sp = errors == "surrogatepass" and enc not in ("latin1", "ascii")
    table = None if enc in ENCS else charmap(encoding)
    if (enc not in ENCS and table is None) or errors not in HANDLERS or errors == "surrogateescape" and enc not in ("utf8", "ascii"):
        return s.conc().encode(encoding, errors)
    units = "utf16le" if enc == "utf16" else enc
    if enc == "utf16":
        out += [0xFF, 0xFE]
    elif enc == "utf8sig":
        out += [0xEF, 0xBB, 0xBF]

    def err(i, reason):
        c = s.chars[i]
        if errors == "ignore":
            return
        if errors == "replace":
            out.extend([63, 0] if units == "utf16le" else [0, 63] if units == "utf16be" else [63])
            return
        if errors == "surrogateescape" and units not in ("utf16le", "utf16be") and in_ranges(c, [(0xDC80, 0xDCFF)]):
            out.append(c - 0xDC00)
            return
        raise UnicodeEncodeError("charmap" if table is not None else PY_NAME.get(enc, enc), s._shadow(), i, i + 1, reason)
    if table is not None:
        pairs = [(c, b) for b, c in enumerate(table) if c is not None]
        runs = _runs(c for c, _ in pairs)
    for i, c in enumerate(s.chars):
        if table is not None:
            if in_ranges(c, runs):
                out.append(_mapped(c, pairs))
            else:
                err(i, "character maps to <undefined>")
        elif enc == "latin1":
            if c < 256:
                out.append(c)
            else:
                err(i, "ordinal not in range(256)")
        elif enc == "ascii":
            if c < 128:
                out.append(c)
            else:
                err(i, "ordinal not in range(128)")
        elif enc in ("utf8", "utf8sig"):
            if c < 0x80:
                out.append(c)
            elif c < 0x800:
                out += [0xC0 | (c >> 6), 0x80 | (c & 0x3F)]
            elif c < 0x10000:
                if not sp and in_ranges(c, [(0xD800, 0xDFFF)]):
                    err(i, "surrogates not allowed")
                    continue
                out += [0xE0 | (c >> 12), 0x80 | ((c >> 6) & 0x3F), 0x80 | (c & 0x3F)]
            else:
                out += [0xF0 | (c >> 18), 0x80 | ((c >> 12) & 0x3F), 0x80 | ((c >> 6) & 0x3F), 0x80 | (c & 0x3F)]
        else:
            if c < 0x10000:
                if not sp and in_ranges(c, [(0xD800, 0xDFFF)]):
                    err(i, "surrogates not allowed")
                    continue
                us = [c]
            else:
                v = c - 0x10000
                us = [0xD800 | (v >> 10), 0xDC00 | (v & 0x3FF)]
            for u in us:
                b = [u & 0xFF, u >> 8]
                out += b if units == "utf16le" else b[::-1]
    return mk_bytes([_norm(x) for x in out])


def _norm(x):
    return x


def decode_bytes(data, encoding="utf-8", errors="strict"):
    """data: list of int|SymInt."""
    if not any(type(b) is SymInt for b in data):
        return bytes(data).decode(encoding, errors)
    enc = norm_enc(encoding)
    sp = errors == "surrogatepass"
    table = None if enc in ENCS else charmap(encoding)
    if (enc not in ENCS and table is None) or errors not in HANDLERS or errors == "surrogateescape" and enc not in ("utf8", "ascii"):
        return bytes(map(operator.index, data)).decode(encoding, errors)
    n = len(data)
    out = []
    little = enc != "utf16be"

    def err(i, j, reason):
        if errors == "replace":
            out.append(0xFFFD)
            return j
        if errors == "ignore":
            return j
        if errors == "surrogateescape":
            bad = [b for b in data[i:j] if b < 128]
            if not bad:
                out.extend(0xDC00 + b for b in data[i:j])
                return j
        name = "charmap" if table is not None else PY_NAME.get(enc, enc) if enc != "utf16" else "utf-16-le" if little else "utf-16-be"
        raise UnicodeDecodeError(name, bytes(map(_ci, data)), i, j, reason)
    if enc == "latin1":
        return mk_str(list(data))
    if enc == "ascii":
        for i, b in enumerate(data):
            if b >= 128:
                err(i, i + 1, "ordinal not in range(128)")
            else:
                out.append(b)
        return mk_str(out)
    if table is not None:
        pairs = [(b, c) for b, c in enumerate(table) if c is not None]
        runs = _runs(b for b, _ in pairs)
        for i, b in enumerate(data):
            if in_ranges(b, runs):
                out.append(_mapped(b, pairs))
            else:
                err(i, i + 1, "character maps to <undefined>")
        return mk_str(out)
    i = 0
    if enc in ("utf8", "utf8sig"):
        if enc == "utf8sig" and n >= 3 and data[0] == 0xEF and data[1] == 0xBB and data[2] == 0xBF:
            i = 3
        while i < n:
            b = data[i]
            if b < 0x80:
                out.append(b); i += 1; continue
            if b < 0xC2 or b > 0xF4:
                i = err(i, i + 1, "invalid start byte")
                continue
            if b < 0xE0:
                need, lo, hi, v = 1, 0x80, 0xBF, b & 0x1F
            elif b < 0xF0:
                need, v = 2, b & 0x0F
                lo, hi = 0x80, 0xBF
                if b == 0xE0: lo = 0xA0
                elif not sp and b == 0xED: hi = 0x9F
            else:
                need, v = 3, b & 0x07
                lo, hi = 0x80, 0xBF
                if b == 0xF0: lo = 0x90
                elif b == 0xF4: hi = 0x8F
            end = None
            for k in range(need):
                if i + 1 + k >= n:
                    end = err(i, n, "unexpected end of data")
                    break
                cb = data[i + 1 + k]
                l, h = (lo, hi) if k == 0 else (0x80, 0xBF)
                if not in_ranges(cb, [(l, h)]):
                    end = err(i, i + 1 + k, "invalid continuation byte")
                    break
                v = (v << 6) | (cb & 0x3F)
            if end is not None:
                i = end
                continue
            out.append(v)
            i += 1 + need
        return mk_str(out)
    if enc == "utf16" and n >= 2:
        if data[0] == 0xFF and data[1] == 0xFE:
            i = 2
        elif data[0] == 0xFE and data[1] == 0xFF:
            i, little = 2, False

    def unit(i):
        lo, hi = (data[i], data[i + 1]) if little else (data[i + 1], data[i])
        return lo | (hi << 8)
    while i < n:
        if i + 1 >= n:
            i = err(i, n, "truncated data")
            continue
        u = unit(i)
        if sp or not in_ranges(u, [(0xD800, 0xDFFF)]):
            if not sp:
                out.append(u); i += 2; continue
            if not in_ranges(u, [(0xD800, 0xDBFF)]) or i + 3 >= n or not in_ranges(unit(i + 2), [(0xDC00, 0xDFFF)]):
                out.append(u); i += 2; continue
        if u >= 0xDC00:
            i = err(i, i + 2, "illegal encoding")
            continue
        if i + 3 >= n:
            i = err(i, n, "unexpected end of data")
            continue
        u2 = unit(i + 2)
        if not in_ranges(u2, [(0xDC00, 0xDFFF)]):
            i = err(i, i + 2, "illegal UTF-16 surrogate")
            continue
        out.append((((u & 0x3FF) << 10) | (u2 & 0x3FF)) + 0x10000)
        i += 4
    return mk_str(out)


def _dkey(chars):
    return tuple(c.n if type(c) is SymInt else c for c in chars)


def int_to_str(x):
    """exact str() of a SymInt; forks on sign and digit count."""
    P = core.P
    if x < 0:
        r = int_to_str(-x) if type(-x) is SymInt else str(-x)
        return mk_str([45] + chars_of(r))
    known = P.dec.get(x.n)
    if known is not None:       # the digits it was parsed from, without leading zeros
        i = 0
        while i < len(known) - 1 and known[i] == 48:
            i += 1
        return mk_str(list(known[i:]))
    n = x.n.hi
    d = 1
    while 10 ** d <= n:
        if x < 10 ** d:
            break
        d += 1
    out = []
    for k in reversed(range(d)):
        if k == d - 1 and d > 1:
            # leading digit 1..9 by comparisons (the value has exactly d digits here)
            t, c = tm.const(1), 1
            for j in range(2, 10):
                b = tm.le(tm.const(j * 10 ** k), x.n)
                t = tm.add(t, tm.b2i(b))
                c += x.c >= j * 10 ** k
            out.append(mk_int(tm.add(t, tm.const(48)), c + 48))
            continue
        q = x // (10 ** k) if k else x
        out.append(q % 10 + 48)
    P.num[_dkey(out)] = x
    return mk_str(out)


_digit_blocks = None


def _digit_value(c):
    """value of a (symbolic) decimal digit"""
    global _digit_blocks
    if type(c) is not SymInt:
        return int(chr(c))
    if _digit_blocks is None:
        _digit_blocks = [l + k for l, h in ranges_of("isdecimal") for k in range(0, h - l + 1, 10)]
        assert all(int(chr(l + k)) == k for l in _digit_blocks for k in range(10))
    start = tm.const(48)
    for l in _digit_blocks:
        if l > 48 and l <= c.n.hi:
            start = tm.ite(tm.le(tm.const(l), c.n), tm.const(l), start)
    v = c - mk_int(start, c.c - int(chr(c.c)))
    return mk_int(tm.band(v.n, tm.const(15)), v.c) if type(v) is SymInt and (v.n.lo < 0 or v.n.hi > 15) else v


def str_to_int(s):
    """exact int() for SymStr."""
    if not s.chars or len(s.chars) > 4300:
        if s.chars and b_all([in_ranges(c, [(48, 57)]) for c in s.chars]):
            return int("1" * len(s.chars))      # raises ValueError whatever the digits are
        return int(s.conc())
    P = core.P
    known = P.num.get(_dkey(s.chars))
    if known is not None:
        return known
    if b_all([in_ranges(c, [(48, 57)]) for c in s.chars]):
        v = 0
        for c in s.chars:
            v = v * 10 + (c - 48)
        # tighten the interval
        if type(v) is SymInt:
            hi = 10 ** len(s.chars) - 1
            if v.n.hi > hi or v.n.lo < 0:
                v = mk_int(tm.band(v.n, tm.const((1 << hi.bit_length()) - 1)), v.c)
            if type(v) is SymInt:
                P.dec[v.n] = tuple(s.chars)
        return v
    if len(s.chars) > 40:
        return int(s.conc())
    # digits of any script, underscores, a sign, spaces around
    kinds = []
    for c in s.chars:
        if in_ranges(c, ranges_of("isdecimal")):
            kinds.append("1")
        elif in_ranges(c, ranges_of("isspace")):
            kinds.append(" ")
        elif c == 95:
            kinds.append("_")
        elif c == 43:
            kinds.append("+")
        elif c == 45:
            kinds.append("-")
        else:
            raise ValueError("invalid literal for int() with base 10")
    int("".join(kinds))
    v = 0
    for c, k in zip(s.chars, kinds):
        if k == "1":
            v = v * 10 + _digit_value(c)
    return -v if "-" in kinds else v


class SymMatch:
    """a match of a regular expression; details are those of a concrete string"""
    def __init__(self, f, s):
        self._f, self._s, self._m = f, s, None

    def _get(self):
        if self._m is None:
            self._m = self._f(self._s.conc())
        return self._m

    def __getattr__(self, name):
        return getattr(self._get(), name)

    def __getitem__(self, k):
        return self._get()[k]


_RX_CLASS = {"CATEGORY_DIGIT": ("isdecimal", [(48, 57)]), "CATEGORY_SPACE": ("isspace", [(9, 13), (32, 32)]),
             "CATEGORY_WORD": ("isalnum", [(48, 57), (65, 90), (95, 95), (97, 122)])}


class _NoRx(Exception):
    pass


def _rx_in(c, items, flags):
    import re
    neg, ts = False, []
    for op, v in items:
        o = op.name
        if o == "NEGATE":
            neg = True
        elif o == "LITERAL":
            ts.append(in_ranges(c, [(v, v)]))
        elif o == "RANGE":
            ts.append(in_ranges(c, [v]))
        elif o == "CATEGORY":
            n = v.name.replace("_NOT_", "_")
            if n not in _RX_CLASS:
                raise _NoRx()
            name, ascii_ = _RX_CLASS[n]
            r = in_ranges(c, ascii_ if flags & re.ASCII else ranges_of(name) + ([(95, 95)] if n == "CATEGORY_WORD" else []))
            ts.append(vp_not(r) if "_NOT_" in v.name else r)
        else:
            raise _NoRx()
    r = b_any(ts)
    return vp_not(r) if neg else r


def _rx_add(d, k, t):
    d[k] = b_any([d[k], t]) if k in d else t


def _rx_seq(seq, starts, cs, flags):
    """{position: condition} -> the same after matching seq"""
    import re
    n = len(cs)
    for op, v in seq:
        o, out = op.name, {}
        if o in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            for k, t in starts.items():
                if k < n:
                    c = cs[k]
                    q = (in_ranges(c, [(v, v)]) if o == "LITERAL" else vp_not(in_ranges(c, [(v, v)])) if o == "NOT_LITERAL"
                         else _rx_in(c, v, flags) if o == "IN" else True if flags & re.DOTALL else vp_not(in_ranges(c, [(10, 10)])))
                    out[k + 1] = b_all([t, q])
        elif o == "AT":
            if flags & re.MULTILINE or v.name not in ("AT_BEGINNING", "AT_BEGINNING_STRING", "AT_END", "AT_END_STRING"):
                raise _NoRx()
            for k, t in starts.items():
                if v.name.startswith("AT_BEGINNING"):
                    if k == 0:
                        out[k] = t
                elif k == n:
                    out[k] = t
                elif k == n - 1 and v.name == "AT_END":
                    out[k] = b_all([t, in_ranges(cs[k], [(10, 10)])])
        elif o == "BRANCH":
            for alt in v[1]:
                for k, t in _rx_seq(alt, starts, cs, flags).items():
                    _rx_add(out, k, t)
        elif o == "SUBPATTERN" and not v[1] and not v[2]:
            out = _rx_seq(v[3], starts, cs, flags)
        elif o in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = v
            cur = starts
            for i in range(min(int(hi), int(lo) + n) + 1):
                if i >= lo:
                    for k, t in cur.items():
                        _rx_add(out, k, t)
                cur = _rx_seq(sub, cur, cs, flags)
                if not cur:
                    break
        else:
            raise _NoRx()
        starts = out
    return starts


def rx_match(p, name, s):
    """p.match/fullmatch/search of a symbolic string"""
    import re
    cs = s.chars
    f = getattr(p, name)
    try:
        if p.flags & re.IGNORECASE or not isinstance(p.pattern, str):
            raise _NoRx()
        seq = re._parser.parse(p.pattern, p.flags)
        starts = {k: True for k in (range(len(cs) + 1) if name == "search" else [0])}
        ends = _rx_seq(seq, starts, cs, p.flags)
    except _NoRx:
        return f(s.conc())
    ok = b_any([t for k, t in ends.items() if name != "fullmatch" or k == len(cs)])
    if ok:
        return SymMatch(f, s)
    return None


# ------------------------------------------------------------------- bytes
def bytes_list(x):
    """elements of any bytes-like, or None"""
    t = type(x)
    if t in (SymBytes, SymByteArray):
        return x.data
    if t is SymMemoryView:
        return x.bytes()
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, memoryview):
        return list(x.cast("B")) if x.nbytes else []
    return None


def mk_bytes(data):
    for c in data:
        if type(c) is SymInt:
            return SymBytes(data)
    return bytes(data)


class _BufBase(_SeqMethods):
    __slots__ = ()
    _is_sym = True
    _text = False

    def _els(self):
        return self.data

    def _mk(self, els):
        return self._new(els)

    def _arg(self, x):
        if isinstance(x, int):
            return [x]
        d = bytes_list(x)
        if d is None:
            raise TypeError("a bytes-like object is required, not " + repr(type(x).__name__))
        return d

    def _sh(self):
        return bytes(map(_ci, self.data))

    def conc(self):
        return bytes(map(operator.index, self.data))

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return bool(self.data)

    def __eq__(self, o):
        if self is o:
            return True
        od = bytes_list(o)
        if od is None:
            if hasattr(o, "__buffer__") and not isinstance(o, str):
                od = bytes_list(o.__buffer__(0))
            else:
                return NotImplemented
        if len(od) != len(self.data):
            return False
        return _seq_eq(self.data, od)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vp_not(r)

    def __lt__(self, o):
        od = bytes_list(o)
        if od is None:
            return NotImplemented
        for x, y in zip(self.data, od):
            if x == y:
                continue
            return x < y
        return len(self.data) < len(od)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, s = _clamp_slice(i, len(self.data))
            return self._new(self.data[slice(a, b if b >= 0 else None, s)])
        return self.data[_index(i, len(self.data), IndexError, "index out of range")]

    def __iter__(self):
        i = 0
        while i < len(self.data):
            yield self.data[i]
            i += 1

    def __add__(self, o):
        od = bytes_list(o)
        if od is None:
            return NotImplemented
        return self._new(self.data + od)

    def __radd__(self, o):
        od = bytes_list(o)
        if od is None:
            return NotImplemented
        r = od + self.data
        return SymByteArray(r) if isinstance(o, bytearray) else mk_bytes(r)

    def __mul__(self, n):
        return self._new(self.data * operator.index(n))
    __rmul__ = __mul__

    def __contains__(self, x):
        if isinstance(x, int):
            return bool(b_any([d == x for d in self.data]))
        od = bytes_list(x)
        m = len(od)
        return bool(b_any([_seq_eq(self.data[i:i + m], od) for i in range(len(self.data) - m + 1)]))

    def decode(self, encoding="utf-8", errors="strict"):
        return decode_bytes(self.data, encoding, errors)

    def startswith(self, p):
        pd = bytes_list(p)
        return len(pd) <= len(self.data) and _seq_eq(self.data[:len(pd)], pd)

    def endswith(self, p):
        pd = bytes_list(p)
        return len(pd) <= len(self.data) and _seq_eq(self.data[len(self.data) - len(pd):], pd)

    def __repr__(self):
        return repr(self._shadow())
    __str__ = __repr__

    def __format__(self, s):
        return format(self._shadow(), s)

    def __buffer__(self, flags=0):
        return SymMemoryView.of(self)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("data", "exports") or not hasattr(bytearray, name):
            raise AttributeError(name)
        v = self.conc()
        return getattr(bytearray(v) if type(self) is SymByteArray else v, name)

    def __bytes__(self):
        return self.conc()


class SymBytes(_BufBase):
    __slots__ = ("data", "exports")

    def __init__(self, data):
        self.data = list(data)
        self.exports = 0

    @property
    def __class__(self):
        return bytes

    def _shadow(self):
        return self._sh()

    def _new(self, d):
        return mk_bytes(d)

    def __hash__(self):
        return hash(self.conc())


def _byte(x):
    if not (isinstance(x, int)):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
    if not (x >= 0 and x <= 255):
        raise ValueError("byte must be in range(0, 256)")
    return x if type(x) is SymInt else int(x)


class SymByteArray(_BufBase):
    __slots__ = ("data", "exports")
    __hash__ = None

    def __init__(self, data=()):
        self.data = list(data)
        self.exports = 0

    @property
    def __class__(self):
        return bytearray

    def _shadow(self):
        return bytearray(self._sh())

    def _new(self, d):
        return SymByteArray(d)

    def _resizing(self):
        if self.exports:
            raise BufferError("Existing exports of data: object cannot be re-sized")

    def append(self, x):
        x = _byte(x)
        self._resizing()
        self.data.append(x)

    def extend(self, it):
        d = bytes_list(it)
        if d is None:
            if hasattr(it, "__buffer__"):
                d = bytes_list(it.__buffer__(0))
            else:
                d = [_byte(x) for x in it]
        if d:
            self._resizing()
        self.data.extend(d)

    def __iadd__(self, it):
        self.extend(it)
        return self

    def insert(self, i, x):
        x = _byte(x)
        self._resizing()
        self.data.insert(operator.index(i), x)

    def pop(self, i=-1):
        self._resizing()
        return self.data.pop(operator.index(i))

    def clear(self):
        self._resizing()
        self.data.clear()

    def copy(self):
        return SymByteArray(self.data)

    def reverse(self):
        self.data.reverse()

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            d = bytes_list(v)
            if d is None:
                d = [_byte(x) for x in v]
            a, b, s = _clamp_slice(i, len(self.data))
            if s == 1:
                b = max(a, b)
                if b - a != len(d):
                    self._resizing()
                self.data[a:b] = d
            else:
                self.data[slice(a, b if b >= 0 else None, s)] = d
            return
        k = _index(i, len(self.data), IndexError, "bytearray index out of range")
        self.data[k] = _byte(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            a, b, s = _clamp_slice(i, len(self.data))
            sl = slice(a, b if b >= 0 else None, s)
            if self.data[sl]:
                self._resizing()
            del self.data[sl]
            return
        k = _index(i, len(self.data), IndexError, "bytearray index out of range")
        self._resizing()
        del self.data[k]


# -------------------------------------------------------------- structs
SIZES = {c: struct.calcsize("<" + c) for c in "cbB?hHiIlLqQefd"}


def native_size(code):
    return struct.calcsize(code)


def parse_format(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "@"
    if fmt[:1] in "@=<>!" and fmt:
        order, fmt = fmt[0], fmt[1:]
    little = order in "<" or (order in "@=" and sys.byteorder == "little")
    codes = []
    num = ""
    for ch in fmt:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        if ch in "spPxnN":
            raise core.Unsupported("struct code " + ch)
        codes += [ch] * (int(num) if num else 1)
        num = ""
    out = [(c, native_size(c) if order == "@" else SIZES[c]) for c in codes]
    if order == "@" and len({s for _, s in out}) > 1:
        raise core.Unsupported("native alignment")
    return little, out


# set while it is found out whether a hash depends on symbolic data; "term" while its dependence is recorded
_HASH = {"probe": 0, "sym": False, "term": False}


def unpack_code(code, bs, little):
    """bs: list of bytes (int|SymInt) -> value"""
    if _HASH["probe"] and any(type(b) is SymInt for b in bs):
        _HASH["sym"] = True
        bs = [0] * len(bs)
    if not any(type(b) is SymInt for b in bs):
        return struct.unpack(("<" if little else ">") + code, bytes(bs))[0] if SIZES[code] == len(bs) else \
            struct.unpack(code, bytes(bs))[0]
    if code == "c":
        return mk_bytes(bs)
    if not little:
        bs = bs[::-1]
    v = 0
    for k, b in enumerate(bs):
        v = v | (b << (8 * k))
    n = len(bs) * 8
    if code in "BHILQ":
        return v
    if code in "bhilq":
        # (v ^ 2^(n-1)) - 2^(n-1)
        return (v ^ (1 << (n - 1))) - (1 << (n - 1))
    if code == "?":
        return v != 0
    if code == "d":
        t = term_of(v)
        raw = _ci(v)
        return mk_float(t, tm.bits2f(raw))
    if code in "fe":
        raw = operator.index(v)
        return struct.unpack("<" + code, raw.to_bytes(len(bs), "little"))[0]
    raise core.Unsupported("unpack " + code)


def pack_code(code, size, v, little):
    if code == "c":
        d = bytes_list(v)
        if d is None or len(d) != 1:
            raise struct.error("char format requires a bytes object of length 1")
        return d
    if code in "bBhHiIlLqQ":
        if type(v) is SymBool:
            v = v._i()
        if type(v) is not SymInt:
            return list(struct.pack(("<" if little else ">") + code, v)) if SIZES[code] == size else \
                list(struct.pack(code, v))
        n = size * 8
        lo, hi = (0, (1 << n) - 1) if code in "BHILQ" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        if not (v >= lo and v <= hi):
            raise struct.error("argument out of range")
        if lo < 0:
            v = v & ((1 << n) - 1)
        bs = [(v >> (8 * k)) & 0xFF for k in range(size)]
        return bs if little else bs[::-1]
    if code == "?":
        return [1 if v else 0]
    if code == "d":
        if hasattr(type(v), "tofloat"):
            v = v.tofloat()
        if type(v) is SymFloat:
            bits = mk_int(v.n, tm.f2bits(v.c))
        elif type(v) in (SymInt, SymBool):
            i = v if type(v) is SymInt else v._i()
            if type(i) is SymInt:
                a = abs(i)
                if type(a) is SymInt and a.n.hi > (1 << 1000):
                    i = i.__index__()
            f = float(_ci(i))
            bits = mk_int(tm.f_op("ffromint", (term_of(i),), "I", 0, tm.M64), tm.f2bits(f))
        else:
            return list(struct.pack(("<" if little else ">") + "d", conc_num(v)))
        bs = [(bits >> (8 * k)) & 0xFF for k in range(8)]
        return bs if little else bs[::-1]
    if code in "fe":
        return list(struct.pack(("<" if little else ">") + code, conc_num(v)))
    raise core.Unsupported("pack " + code)


# ------------------------------------------------------------ memoryview
class SymMemoryView:
    __slots__ = ("base", "off", "n", "format", "readonly", "released", "odd_itemsize", "__weakref__")
    _is_sym = True

    @staticmethod
    def of(obj):
        if type(obj) is SymMemoryView:
            obj._check()
            return SymMemoryView(obj.base, obj.off, obj.n, obj.format, obj.readonly)
        if type(obj) is SymByteArray:
            return SymMemoryView(obj, 0, len(obj.data), "B", False)
        if type(obj) is SymBytes:
            return SymMemoryView(obj, 0, len(obj.data), "B", True)
        if isinstance(obj, bytes):
            return SymMemoryView(SymBytes(obj), 0, len(obj), "B", True, realobj=obj)
        raise core.Unsupported("memoryview of %r" % type(obj))

    def __init__(self, base, off, n, fmt, readonly, realobj=None):
        self.base = base
        self.off = off      # bytes
        self.n = n          # bytes
        self.format = fmt
        self.readonly = readonly
        self.odd_itemsize = 0
        self.released = False
        base.exports += 1

    @property
    def __class__(self):
        return memoryview

    def _check(self):
        if self.released:
            raise ValueError("operation forbidden on released memoryview object")

    def release(self):
        if not self.released:
            self.released = True
            self.base.exports -= 1

    def __del__(self):
        try:
            self.release()
        except Exception:
            pass

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.release()

    def bytes(self):
        self._check()
        return self.base.data[self.off:self.off + self.n]

    def _shadow(self):
        return bytes(map(_ci, self.bytes()))

    @property
    def itemsize(self):
        self._check()
        return self.odd_itemsize or struct.calcsize(self.format.lstrip("@"))

    @property
    def nbytes(self):
        self._check()
        return self.n

    @property
    def obj(self):
        self._check()
        return self.base

    ndim = property(lambda s: (s._check(), 1)[1])
    shape = property(lambda s: (len(s),))
    strides = property(lambda s: (s.itemsize,))
    contiguous = c_contiguous = f_contiguous = property(lambda s: True)
    suboffsets = property(lambda s: ())

    def __len__(self):
        self._check()
        return self.n // self.itemsize

    def toreadonly(self):
        self._check()
        return SymMemoryView(self.base, self.off, self.n, self.format, True)

    def cast(self, fmt, shape=None):
        self._check()
        if shape is not None:
            raise core.Unsupported("cast shape")
        if fmt not in tuple("cbBhHiIlLqQefd?") and not (len(fmt) == 2 and fmt[0] == "@"):
            raise ValueError("memoryview: destination format must be a native single character format prefixed with an optional '@'")
        f = fmt.lstrip("@")
        if f not in "bBc" and self.format not in "bBc":
            raise TypeError("memoryview: cannot cast between two non-byte formats")
        if self.n % struct.calcsize(f):
            raise TypeError("memoryview: length is not a multiple of itemsize")
        return SymMemoryView(self.base, self.off, self.n, fmt, self.readonly)

    def __getitem__(self, i):
        self._check()
        isz = self.itemsize
        if self.odd_itemsize:
            raise core.Unsupported("items of a memoryview without a format")
        if i is Ellipsis:
            return self
        if isinstance(i, slice):
            a, b, s = _clamp_slice(i, len(self))
            if s != 1:
                raise core.Unsupported("memoryview step")
            b = max(a, b)
            return SymMemoryView(self.base, self.off + a * isz, (b - a) * isz, self.format, self.readonly)
        k = _index(i, len(self), IndexError, "index out of bounds on dimension 1")
        o = self.off + k * isz
        return unpack_code(self.format.lstrip("@"), self.base.data[o:o + isz], sys.byteorder == "little")

    def __setitem__(self, i, v):
        self._check()
        if self.readonly:
            raise TypeError("cannot modify read-only memory")
        isz = self.itemsize
        if isinstance(i, slice):
            a, b, s = _clamp_slice(i, len(self))
            if s != 1:
                raise core.Unsupported("memoryview step")
            b = max(a, b)
            d = bytes_list(v)
            if d is None:
                raise TypeError("a bytes-like object is required")
            if len(d) != (b - a) * isz:
                raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
            o = self.off + a * isz
            self.base.data[o:o + len(d)] = d
            return
        k = _index(i, len(self), IndexError, "index out of bounds on dimension 1")
        code = self.format.lstrip("@")
        if code in "bBhHiIlLqQ":
            if not isinstance(v, int) and not hasattr(v, "__index__"):
                raise TypeError("memoryview: invalid type for format %r" % self.format)
        try:
            d = pack_code(code, isz, v, sys.byteorder == "little")
        except struct.error:
            raise ValueError("memoryview: invalid value for format %r" % self.format) from None
        o = self.off + k * isz
        self.base.data[o:o + isz] = d

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def tolist(self):
        return [self[i] for i in range(len(self))]

    def tobytes(self, order=None):
        return mk_bytes(self.bytes())

    def __bytes__(self):
        return bytes(map(operator.index, self.bytes()))

    def __buffer__(self, flags=0):
        flags = operator.index(flags)
        if flags & 1 and self.readonly:
            raise BufferError("memoryview: underlying buffer is not writable")
        m = SymMemoryView.of(self)
        if not flags & 4:
            # no format was asked for: the items are plain bytes, their size stays
            isz = self.itemsize
            m.format = "B"
            if isz != 1:
                m.odd_itemsize = isz
        elif not flags & 8 and self.format != "B":
            raise BufferError("memoryview: cannot cast to unsigned bytes if the format flag is present")
        return m

    def __release_buffer__(self, b):
        pass

    def __eq__(self, o):
        if self is o:
            return True
        if self.released:
            return False
        if type(o) is SymMemoryView:
            if o.released:
                return False
            if self.format.lstrip("@") == o.format.lstrip("@") and self.format.lstrip("@") not in "efd":
                if self.n != o.n:
                    return False
                return _seq_eq(self.bytes(), o.bytes())
            a, b = self.tolist(), o.tolist()
        else:
            if isinstance(o, memoryview):
                b = o.tolist()
            else:
                b = bytes_list(o)
                if b is None:
                    return NotImplemented
            a = self.tolist()
        if len(a) != len(b):
            return False
        return _seq_eq(a, b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vp_not(r)

    def hashable(self):
        self._check()
        if not self.readonly:
            raise ValueError("cannot hash writable memoryview object")
        if self.format not in ("B", "b", "c"):
            raise ValueError("memoryview: hashing is restricted to formats 'B', 'b' or 'c'")
        if type(self.base) is SymByteArray:
            raise TypeError("unhashable type: 'bytearray'")

    def hex(self, *a):
        return bytes(self).hex(*a)

    def __repr__(self):
        return "<memory>"
