"""Semantics of Python operations over symbolic values, called by rewritten code."""
import builtins, re, string, codecs, collections, dataclasses, datetime, enum, functools, inspect, itertools, math, operator, struct, sys, types
from collections import abc
from . import core, seqs, dates
from .dates import SymDy
from . import terms as tm
from .core import (SymInt, SymBool, SymFloat, SymRatio, SymScaled, mk_int, mk_bool, mk_float, is_sym, sym_eq, b_all, b_any, vp_not,
                   conc_num, term_of, _ci, EngineSignal, Unsupported)
from .seqs import (SymStr, SymBytes, SymByteArray, SymMemoryView, mk_str, mk_bytes, bytes_list, chars_of, _index,
                   _clamp_slice, int_to_str, str_to_int, decode_bytes, encode_str, unpack_code, pack_code, parse_format,
                   in_ranges)

current_copy = None
FUNCS = set()        # functions of the code under test entered symbolically
BUF_TYPES = (SymBytes, SymByteArray, SymMemoryView)


# ------------------------------------------------------------------ helpers
class LazyStr(SymStr):
    """A string whose characters are only computed if something looks at them
    (error messages usually are not)."""
    __slots__ = ("_thunk", "_sh_thunk", "_v")

    def __init__(self, thunk, sh):
        self._thunk, self._sh_thunk, self._v = thunk, sh, None

    @property
    def chars(self):
        if self._v is None:
            self._v = list(chars_of(self._thunk()))
        return self._v

    def _shadow(self):
        return self._sh_thunk()


def force(x):
    """LazyStr -> SymStr/str"""
    if type(x) is LazyStr:
        return mk_str(x.chars)
    return x


# seqs tests `type(s) is SymStr`; make lazies transparent there
def _chars_of(s):
    return s.chars if isinstance(type(s), type) and issubclass(type(s), SymStr) else [ord(c) for c in s]


seqs.chars_of = _chars_of
chars_of = _chars_of


def conc(x):
    """Concretise a symbolic value into the real Python value."""
    t = type(x)
    if t is SymInt:
        return x.__index__()
    if t is SymBool:
        return bool(x)
    if t is SymFloat:
        return x.conc()
    if issubclass(t, SymRatio):
        return x._shadow2()
    if t is SymStr or t is LazyStr:
        return x.conc()
    if t is SymBytes:
        return x.conc()
    if t is SymByteArray:
        return bytearray(x.conc())
    if t is SymMemoryView:
        m = memoryview(bytes(x))
        return m if x.format in ("B", "@B") else m.cast(x.format)
    if t is SymFlag:
        return x.conc()
    if t is tuple:
        return tuple(conc(e) for e in x)
    if t is list:
        return [conc(e) for e in x]
    return x


_HASH = seqs._HASH
_orig_hashes = {}


def _patch_hash(cls):
    orig = cls.__hash__

    def __hash__(self):
        if _HASH["probe"]:
            _HASH["sym"] = True
            return 0
        return orig(self)
    cls.__hash__ = __hash__


def key_is_sym(x):
    """Raises TypeError for unhashable x; True if x's hash depends on symbolic data."""
    t = type(x)
    if t is int or t is str or t is bytes or t is float:
        return False
    if t in (SymInt, SymBool, SymFloat, SymRatio, SymDy, SymStr, LazyStr):
        return True
    if t is SymBytes:
        return any(type(b) is SymInt for b in x.data)
    _HASH["probe"] += 1
    old = _HASH["sym"]
    _HASH["sym"] = False
    try:
        hash(x)
        return _HASH["sym"]
    finally:
        _HASH["probe"] -= 1
        _HASH["sym"] = old


class HashTerm:
    """What a hash depends on: equal terms have equal hashes; other coincidences are disregarded."""
    __slots__ = ("kind", "x")
    _is_sym = True

    def __init__(self, kind, x):
        self.kind, self.x = kind, x

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not HashTerm or o.kind != self.kind:
            return False
        if self.x is o.x:
            return True
        if self.kind == "tuple":
            return len(self.x) == len(o.x) and b_all([a == b for a, b in zip(self.x, o.x)])
        return self.x == o.x

    def __ne__(self, o):
        return vp_not(self.__eq__(o))

    __hash__ = None

    def _shadow(self):
        return 0

    def _no(self, *a):
        raise core.Unsupported("arithmetic on a hash")

    __index__ = __int__ = __xor__ = __rxor__ = __add__ = __radd__ = __mul__ = __rmul__ = __mod__ = __and__ = __or__ = _no


def hash_term(x):
    t = type(x)
    if t is HashTerm:
        return x
    if t in (SymInt, SymBool, SymFloat, SymRatio, SymDy, int, bool, float):
        return HashTerm("number", x)
    if t in (SymStr, LazyStr, str):
        return HashTerm("str", x)
    if t in (SymBytes, bytes):
        return HashTerm("bytes", x)
    if t is SymMemoryView:
        x.hashable()
        return HashTerm("bytes", x.tobytes())
    if t is memoryview:
        hash(x)
        return HashTerm("bytes", bytes(x))
    if isinstance(x, tuple) and t.__hash__ is tuple.__hash__:
        return HashTerm("tuple", [hash_term(e) for e in x])
    if getattr(t, "_is_sym", False):
        return HashTerm("object", hash(x))
    f = t.__hash__
    if f is None:
        raise TypeError("unhashable type: %r" % t.__name__)
    if type(f) is types.FunctionType and not issubclass(t, enum.Enum):
        if f.__code__.co_filename == "<string>":    # made by @dataclass
            c = next(c for c in t.__mro__ if "__hash__" in c.__dict__)
            fs = [g for g in c.__dict__["__dataclass_fields__"].values() if g._field_type is dataclasses._FIELD]
            return hash_term(tuple(getattr(x, g.name) for g in fs if (g.compare if g.hash is None else g.hash)))
        h = f(x)
        return h if type(h) is HashTerm else HashTerm("object", h)
    return HashTerm("object", hash(x))


def s_hash(x):
    old, _HASH["term"] = _HASH["term"], True
    try:
        return hash_term(x)
    finally:
        _HASH["term"] = old


def vp_hash(x):
    if _HASH["probe"]:
        return hash(x)
    if _HASH["term"]:
        return hash_term(x)
    if key_is_sym(x):
        return 0
    return hash(x)


for _c in (SymInt, SymBool, SymFloat, SymRatio, SymDy, SymStr, SymBytes, dates.SymDelta, dates.SymDateTime):
    _patch_hash(_c)
LazyStr.__hash__ = SymStr.__hash__


def _mv_hash(self):
    self.hashable()
    if _HASH["probe"]:
        if any(type(b) is SymInt for b in self.bytes()):
            _HASH["sym"] = True
        return 0
    return hash(self._shadow() if not any(type(b) is SymInt for b in self.bytes()) else bytes(map(operator.index, self.bytes())))


SymMemoryView.__hash__ = _mv_hash


# ------------------------------------------------------------------ dict
class _Tok:
    __slots__ = ()


class _DictIter:
    def __init__(self, d, f, rev=False):
        self.d, self.f = d, f
        self.n = len(d._d)
        self.it = reversed(d._d.values()) if rev else iter(d._d.values())

    def __iter__(self):
        return self

    def __next__(self):
        if self.d is None:
            raise StopIteration
        if len(self.d._d) != self.n:
            self.n = -1
            raise RuntimeError("dictionary changed size during iteration")
        try:
            e = next(self.it)
        except StopIteration:
            self.d = None
            raise
        return self.f(e)

    def __length_hint__(self):
        return self.n


class _View:
    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return _DictIter(self.d, self.F)

    def __reversed__(self):
        return _DictIter(self.d, self.F, True)

    def __repr__(self):
        return "%s(%r)" % (type(self).__name__, list(self))


class _Keys(_View, abc.KeysView):
    F = staticmethod(lambda e: e[0])
    __init__ = _View.__init__

    def __contains__(self, k):
        return bool(self.d._contains(k))

    @property
    def __class__(self):
        return type({}.keys())


class _Values(_View, abc.ValuesView):
    F = staticmethod(lambda e: e[1])
    __init__ = _View.__init__

    def __contains__(self, v):
        return any(x is v or x == v for x in self)

    @property
    def __class__(self):
        return type({}.values())


class _Items(_View, abc.ItemsView):
    F = staticmethod(lambda e: (e[0], e[1]))
    __init__ = _View.__init__

    def __contains__(self, kv):
        k, v = kv
        e = self.d._find(k)
        return e is not None and bool(sym_eq(e[1], v))

    @property
    def __class__(self):
        return type({}.items())


_MISSING = object()


_REPRS = set()


def _repr_once(o, again, f):
    """The repr of a container that may contain itself (as Py_ReprEnter)."""
    if id(o) in _REPRS:
        return again
    _REPRS.add(id(o))
    try:
        return f()
    finally:
        _REPRS.discard(id(o))


class SymDict:
    """Insertion-ordered dict whose keys may be symbolic."""
    __slots__ = ("_d", "_s", "__weakref__")
    __hash__ = None
    _is_symdict = True

    def __init__(self, *a, **k):
        self._d = {}     # token -> [key, value]; token is the key itself when concrete
        self._s = {}     # symbolic tokens
        if a or k:
            self.update(*a, **k)

    @property
    def __class__(self):
        return dict

    def _find_tok(self, k):
        if not key_is_sym(k):
            k = conc(k) if type(k) is SymBytes else k
            if k in self._d:
                return k
            if self._s:
                for t in list(self._s):
                    if sym_eq(self._d[t][0], k):
                        return t
            return _MISSING
        k = force(k)
        for t, e in list(self._d.items()):
            if sym_eq(e[0], k):
                return t
        return _MISSING

    def _find(self, k):
        t = self._find_tok(k)
        return None if t is _MISSING else self._d[t]

    def _contains(self, k):
        # one formula when keys are scalars
        if type(k) in (SymInt, SymStr, LazyStr) or self._s:
            k = force(k)
            key_is_sym(k)
            if not self._s and not is_sym(k):
                return k in self._d
            return b_any([sym_eq(e[0], k) for e in self._d.values()])
        return self._find_tok(k) is not _MISSING

    def __contains__(self, k):
        return bool(self._contains(k))

    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        return e[1]

    def __setitem__(self, k, v):
        t = self._find_tok(k)
        if t is not _MISSING:
            self._d[t][1] = v
            return
        k = force(k)
        if type(k) is SymBytes and not key_is_sym(k):
            k = conc(k)
        if key_is_sym(k):
            t = _Tok()
            self._s[t] = True
            self._d[t] = [k, v]
        else:
            self._d[k] = [k, v]

    def __delitem__(self, k):
        t = self._find_tok(k)
        if t is _MISSING:
            raise KeyError(k)
        self._s.pop(t, None) if self._s else None
        del self._d[t]

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return bool(self._d)

    def __iter__(self):
        return _DictIter(self, _Keys.F)

    def __reversed__(self):
        return _DictIter(self, _Keys.F, True)

    def keys(self):
        return _Keys(self)

    def values(self):
        return _Values(self)

    def items(self):
        return _Items(self)

    def get(self, k, d=None):
        e = self._find(k)
        return d if e is None else e[1]

    def pop(self, k, *d):
        t = self._find_tok(k)
        if t is _MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        if self._s:
            self._s.pop(t, None)
        return self._d.pop(t)[1]

    def popitem(self):
        if not self._d:
            raise KeyError("popitem(): dictionary is empty")
        t, e = self._d.popitem()
        self._s.pop(t, None)
        return e[0], e[1]

    def setdefault(self, k, d=None):
        e = self._find(k)
        if e is None:
            self[k] = d
            return d
        return e[1]

    def clear(self):
        self._d.clear()
        self._s.clear()

    def copy(self):
        r = SymDict()
        r._d = {t: [e[0], e[1]] for t, e in self._d.items()}
        r._s = dict(self._s)
        return r

    __copy__ = copy

    def update(self, *a, **kw):
        if len(a) > 1:
            raise TypeError("update expected at most 1 argument, got %d" % len(a))
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                if type(o) is SymDict:
                    for e in list(o._d.values()):
                        self[e[0]] = e[1]
                else:
                    for k in o.keys():
                        self[k] = o[k]
            else:
                for i, kv in enumerate(o):
                    try:
                        kv = list(kv) if type(kv) is not tuple else kv
                    except TypeError:
                        raise TypeError("cannot convert dictionary update sequence element #%d to a sequence" % i)
                    if len(kv) != 2:
                        raise ValueError("dictionary update sequence element #%d has length %d; 2 is required" % (i, len(kv)))
                    self[kv[0]] = kv[1]
        for k, v in kw.items():
            self[k] = v

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        r = self.copy()
        r.update(o)
        return r

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        od = o if type(o) is SymDict else SymDict(o)
        rs = []
        for e in list(self._d.values()):
            f = od._find(e[0])
            if f is None:
                return False
            r = sym_eq(e[1], f[1])
            if r is False:
                return False
            if r is not True and not r:
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        return _repr_once(self, "{...}", lambda: "{%s}" % ", ".join(["%r: %r" % (k, v) for k, v in self.items()]))

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r


def vp_dict(parts):
    d = SymDict()
    for star, k, v in parts:
        if star:
            d.update(v)
        else:
            d[k] = v
    return d


def vp_dictcomp(gen):
    d = SymDict()
    for k, v in gen:
        d[k] = v
    return d


# ------------------------------------------------------------------ set
class SymSet(abc.MutableSet):
    """set/frozenset whose elements may be symbolic (built from set(...),
    frozenset(...), {a, b} and set comprehensions in rewritten code).  The
    iteration order of real sets depends on hashes, so code whose behaviour
    depends on it is compared with care: elements keep insertion order here."""
    _is_sym = False
    __slots__ = ("_m", "_frozen", "__weakref__")

    def __init__(self, it=(), frozen=False):
        self._m, self._frozen = SymDict(), frozen
        for x in it:
            self._m[x] = None

    @property
    def __class__(self):
        return frozenset if self._frozen else set

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def __contains__(self, x):
        return x in self._m

    def __iter__(self):
        if self._m._s:
            return iter(self._m)
        return iter(set(self._m._d))

    def __len__(self):
        return len(self._m)

    def add(self, x):
        if self._frozen:
            raise AttributeError("'frozenset' object has no attribute 'add'")
        self._m.setdefault(x, None)

    def discard(self, x):
        if self._frozen:
            raise AttributeError("'frozenset' object has no attribute 'discard'")
        self._m.pop(x, None)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SymSet(self._m, self._frozen)

    def union(self, *its):
        r = SymSet(self._m, False)
        r.update(*its)
        r._frozen = self._frozen
        return r

    def issubset(self, o):
        return self <= o

    def __eq__(self, o):
        if not isinstance(o, abc.Set):
            return NotImplemented
        return len(self) == len(o) and all(x in o for x in self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        if not self._frozen:
            raise TypeError("unhashable type: 'set'")
        if _HASH["probe"]:
            for x in self._m:
                hash(x)
            return 0
        return hash(frozenset(self._m))

    def __repr__(self):
        n = "frozenset" if self._frozen else "set"
        return _repr_once(self, n + "(...)", lambda: "%s(%r)" % (n, list(self._m)))


def vp_mkset(it, frozen=False):
    xs = list(it)
    if not any(key_is_sym(x) for x in xs):
        return frozenset(xs) if frozen else set(xs)
    return SymSet(xs, frozen)


def h_set(*a):
    return vp_mkset(*a) if a else SymSet()


def h_frozenset(*a):
    if a and type(a[0]) is frozenset:
        return a[0]
    return vp_mkset(*a, frozen=True) if a else frozenset()


# ------------------------------------------------------------------ range
class SymRange:
    _is_sym = True

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, operator.index(step)
        if self.step == 0:
            raise ValueError("range() arg 3 must not be zero")

    @property
    def __class__(self):
        return range

    def _shadow(self):
        return range(_ci(self.start), _ci(self.stop), self.step)

    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            core.P.tick()
            yield i
            i = i + self.step

    def length(self):
        if self.step > 0:
            n = (self.stop - self.start + (self.step - 1)) // self.step
        else:
            n = (self.start - self.stop + (-self.step - 1)) // (-self.step)
        if type(n) is SymInt:
            return n if n > 0 else 0
        return max(0, n)

    def __len__(self):
        return operator.index(self.length())

    def __bool__(self):
        return bool(self.length() > 0)

    def contains(self, x):
        if not isinstance(x, int):
            if isinstance(x, float):
                if not x.is_integer():
                    return False
            else:
                return any(x == y for y in self)
        s = self.step
        if s > 0:
            r = [x >= self.start, x < self.stop]
        else:
            r = [x <= self.start, x > self.stop]
        if abs(s) != 1:
            r.append((x - self.start) % abs(s) == 0)
        return b_all(r)

    def __contains__(self, x):
        return bool(self.contains(x))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return range(conc(self.start), conc(self.stop), self.step)[conc_slice(i)]
        n = self.length()
        if i < 0:
            i = i + n
        if not (i >= 0 and i < n):
            raise IndexError("range object index out of range")
        return self.start + i * self.step

    def __repr__(self):
        return repr(self._shadow())

    __str__ = __repr__

    def __eq__(self, o):
        return conc(self.start) == o.start and conc(self.stop) == o.stop and self.step == o.step

    __hash__ = None


def conc_slice(s):
    return slice(conc(s.start), conc(s.stop), conc(s.step))


def h_range(*a):
    if any(type(x) in (SymInt, SymBool) for x in a):
        a = [x._i() if type(x) is SymBool else x for x in a]
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        return SymRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return range(*a)


# ------------------------------------------------------------------ enum
class SymFlag:
    """A Flag member with a symbolic value."""
    __slots__ = ("cls", "v")
    _is_sym = True

    def __init__(self, cls, v):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "v", v)

    @property
    def __class__(self):
        return self.cls

    def conc(self):
        return self.cls(operator.index(self.v))

    def _shadow(self):
        return self.cls(_ci(self.v))

    value = _value_ = property(lambda s: s.v)

    def _other(self, o):
        if type(o) is SymFlag:
            return o.v if o.cls is self.cls else None
        if isinstance(o, self.cls):
            return o._value_
        if isinstance(o, int) and issubclass(self.cls, int):
            return o
        return None

    def _bin(self, o, f):
        v = self._other(o)
        if v is None:
            return NotImplemented
        return mk_flag(self.cls, f(self.v, v))

    def __and__(self, o): return self._bin(o, operator.and_)
    def __or__(self, o): return self._bin(o, operator.or_)
    def __xor__(self, o): return self._bin(o, operator.xor)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        b = self.cls._boundary_
        if b in (enum.EJECT, enum.KEEP):
            return self.conc().__invert__()
        return mk_flag(self.cls, self.cls._singles_mask_ & ~self.v)

    def contains(self, o):
        if not isinstance(o, self.cls):
            raise TypeError("unsupported operand type(s) for 'in': %r and %r" % (type(o).__qualname__, self.cls.__qualname__))
        v = o.v if type(o) is SymFlag else o._value_
        return (v & self.v) == v

    def __contains__(self, o):
        return bool(self.contains(o))

    def __iter__(self):
        for m in self.cls:
            if (self.v & m._value_) != 0:
                yield m

    def __len__(self):
        return operator.index(self.v).bit_count()

    def __bool__(self):
        return bool(self.v != 0)

    def __eq__(self, o):
        if type(o) is SymFlag:
            return self.cls is o.cls and self.v == o.v if self.cls is o.cls else False
        if isinstance(o, self.cls):
            return self.v == o._value_
        if issubclass(self.cls, int) and isinstance(o, int):
            return self.v == o
        return NotImplemented if not isinstance(o, enum.Enum) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else vp_not(r)

    def __hash__(self):
        if _HASH["probe"]:
            _HASH["sym"] = True
            return 0
        return hash(self.conc())

    def __index__(self):
        if not issubclass(self.cls, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % self.cls.__name__)
        return operator.index(self.v)

    __int__ = __index__

    def __lt__(self, o): return self.v < o
    def __le__(self, o): return self.v <= o
    def __gt__(self, o): return self.v > o
    def __ge__(self, o): return self.v >= o

    def _arith(op):
        def f(self, o):
            if not issubclass(self.cls, int):
                return NotImplemented
            return op(self.v, o.v if type(o) is SymFlag else o)

        def r(self, o):
            if not issubclass(self.cls, int):
                return NotImplemented
            return op(o, self.v)
        return f, r

    __rshift__, __rrshift__ = _arith(operator.rshift)
    __lshift__, __rlshift__ = _arith(operator.lshift)
    __add__, __radd__ = _arith(operator.add)
    __sub__, __rsub__ = _arith(operator.sub)
    __mul__, __rmul__ = _arith(operator.mul)
    __floordiv__, __rfloordiv__ = _arith(operator.floordiv)
    __mod__, __rmod__ = _arith(operator.mod)

    def __repr__(self):
        return repr(self._shadow())
    __str__ = __repr__

    def __format__(self, s):
        return format(self._shadow(), s)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        a = inspect.getattr_static(self.cls, name)
        if isinstance(a, property):
            return a.fget(self)
        if isinstance(a, types.FunctionType):
            return types.MethodType(a, self)
        if isinstance(a, (classmethod, staticmethod)):
            return getattr(self.cls, name)
        return getattr(self.conc(), name)


def mk_flag(cls, v):
    if type(v) is not SymInt:
        return cls(v)
    return SymFlag(cls, v)


core._num_other_flag = None
_old_num_other = core._num_other


def _num_other(x):
    if type(x) is SymFlag:
        if issubclass(x.cls, int):
            return term_of(x.v), _ci(x.v)
        return None
    return _old_num_other(x)


core._num_other = _num_other


def enum_call(cls, v, a, k):
    if a or k:
        return cls(conc(v), *a, **k)
    if type(v) is SymFlag:
        return v if v.cls is cls else enum_call(cls, v.v, (), {}) if issubclass(v.cls, int) else cls(v.conc())
    if type(v) is SymBool:
        v = v._i()
    if issubclass(cls, enum.Flag) and type(v) is SymInt:
        # known single values stay symbolic
        mask = cls._flag_mask_
        b = cls._boundary_
        if v < 0:
            return cls(conc(v))
        bad = (v & ~mask) != 0
        if b is enum.KEEP:
            return mk_flag(cls, v)
        if bad:
            if b is enum.STRICT:
                raise ValueError("%r invalid value %s" % (cls, core.shadow(v)))
            if b is enum.CONFORM:
                return mk_flag(cls, v & mask)
            return v     # EJECT
        return mk_flag(cls, v)
    vals = list(cls._value2member_map_)
    if type(v) in (SymInt, SymFloat, SymRatio, SymStr, LazyStr, SymBytes):
        v = force(v)
        if b_any([sym_eq(x, v) for x in vals]):
            for x in vals:
                if sym_eq(x, v):
                    return cls._value2member_map_[x]
        r = cls._missing_(v)
        if r is None:
            raise ValueError("%r is not a valid %s" % (core.shadow(v), cls.__qualname__))
        return r
    return cls(v)


# ------------------------------------------------------------------ lru_cache
class SymLRU:
    def __init__(self, fn, typed=False):
        self.fn, self.typed = fn, typed
        self.entries = []
        functools.update_wrapper(self, fn)

    def cache_clear(self):
        self.entries = []

    def __get__(self, obj, typ=None):
        return self if obj is None else types.MethodType(self, obj)

    def __call__(self, *a, **k):
        key_is_sym(a)
        kk = tuple(k.items())
        key_is_sym(kk)
        ty = tuple(vp_type(x) for x in a) + tuple(vp_type(x) for x in k.values()) if self.typed else None
        exact = (not self.typed and not k and len(a) == 1 and vp_type(a[0]) in (int, str))
        for ea, ekk, ety, eex, r in self.entries:
            if len(ea) != len(a) or len(ekk) != len(kk) or ety != ty or eex != exact:
                continue
            if sym_eq(ea, a) and sym_eq(ekk, kk):
                return r
        r = self.fn(*a, **k)
        self.entries.append((a, kk, ty, exact, r))
        return r


def vp_lru(maxsize=128, typed=False):
    if callable(maxsize):
        return vp_lru_plain(maxsize)

    def deco(fn):
        c = SymLRU(fn, typed)
        if current_copy is not None and current_copy.loading:
            current_copy.caches.append(c)
        return c
    return deco


def vp_lru_plain(fn):
    return vp_lru()(fn)


# ------------------------------------------------------------------ struct
def _pack_all(fmt, vals):
    little, codes = parse_format(fmt)
    if len(codes) != len(vals):
        raise struct.error("pack expected %d items for packing (got %d)" % (len(codes), len(vals)))
    out = []
    for (c, sz), v in zip(codes, vals):
        out += pack_code(c, sz, v, little)
    return out


def h_pack(fmt, *vals):
    if not any(is_sym(v) for v in vals):
        return struct.pack(fmt, *vals)
    return mk_bytes(_pack_all(fmt, vals))


def _unpack_list(fmt, data):
    little, codes = parse_format(fmt)
    out, o = [], 0
    for c, sz in codes:
        out.append(unpack_code(c, data[o:o + sz], little))
        o += sz
    return tuple(out)


def h_unpack(fmt, buf):
    if type(buf) not in BUF_TYPES and not _pybuf(buf):
        return struct.unpack(fmt, buf)
    d = _data(buf)
    if len(d) != struct.calcsize(fmt):
        raise struct.error("unpack requires a buffer of %d bytes" % struct.calcsize(fmt))
    return _unpack_list(fmt, d)


def h_unpack_from(fmt, buffer, offset=0):
    if type(buffer) not in BUF_TYPES and not _pybuf(buffer) and not is_sym(offset):
        return struct.unpack_from(fmt, buffer, offset)
    d = _data(buffer)
    n, sz = len(d), struct.calcsize(fmt)
    if offset < 0:
        if offset + sz > 0:
            raise struct.error("not enough data to unpack")
        if offset + n < 0:
            raise struct.error("offset out of range")
        offset = offset + n
    if n - offset < sz:
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % sz)
    offset = operator.index(offset)
    return _unpack_list(fmt, d[offset:offset + sz])


def h_pack_into(fmt, buffer, offset, *vals):
    if type(buffer) not in BUF_TYPES and not _pybuf(buffer):
        return struct.pack_into(fmt, buffer, conc(offset), *[conc(v) for v in vals])
    if _pybuf(buffer):
        buffer = SymMemoryView.of(_getbuf(buffer))
    if type(buffer) is SymBytes or (type(buffer) is SymMemoryView and buffer.readonly):
        raise TypeError("argument must be read-write bytes-like object, not memoryview")
    out = None
    n = len(buffer) if type(buffer) is SymByteArray else buffer.nbytes
    sz = struct.calcsize(fmt)
    if offset < 0:
        if offset + sz > 0:
            raise struct.error("no space to pack")
        if offset + n < 0:
            raise struct.error("offset out of range")
        offset = offset + n
    if n - offset < sz:
        raise struct.error("pack_into requires a buffer of at least %d bytes" % sz)
    out = _pack_all(fmt, vals)
    offset = operator.index(offset)
    if type(buffer) is SymByteArray:
        buffer.data[offset:offset + sz] = out
    else:
        o = buffer.off + offset
        buffer.base.data[o:o + sz] = out


def h_iter_unpack(fmt, buffer):
    d = _data(buffer)
    sz = struct.calcsize(fmt)
    if len(d) % sz:
        raise struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % sz)
    for o in range(0, len(d), sz):
        yield _unpack_list(fmt, d[o:o + sz])


def h_fromtimestamp(f, a, k):
    """The C constructor is a stub: one representative per class of timestamp
    (NaN, infinite, beyond the years 1-9999 on either side, within)."""
    x = a[0]
    if type(x) is SymFloat:
        x = SymScaled.of(operator.truediv, x, 1)
    b, k_ = x.f, (x.k if x.op is operator.mul else 1 / x.k)
    if not b.isnan() and not b.isinf():
        for lim in (253402300800.0 + 172800, 253402300800.0 - 172800, -62135596800.0 + 172800, -62135596800.0 - 172800):
            if b > lim / k_:
                break
    return f(x._shadow(), *[conc(y) for y in a[1:]], **{n: conc(v) for n, v in k.items()})


class SymStruct:
    def __init__(self, format):
        struct.Struct(format)
        self.format = format
        self.size = struct.calcsize(format)

    def pack(self, *v): return h_pack(self.format, *v)
    def unpack(self, b): return h_unpack(self.format, b)
    def unpack_from(self, buffer, offset=0): return h_unpack_from(self.format, buffer, offset)
    def pack_into(self, buffer, offset, *v): return h_pack_into(self.format, buffer, offset, *v)
    def iter_unpack(self, b): return h_iter_unpack(self.format, b)


# ------------------------------------------------------------------ buffers
def _pybuf(x):
    """x is an instance of a Python-level class with __buffer__"""
    m = getattr(type(x), "__buffer__", None)
    return isinstance(m, types.FunctionType) and type(x) not in BUF_TYPES


def _getbuf(x, flags=0):
    return type(x).__buffer__(x, flags)


def _data(x):
    if _pybuf(x):
        x = _getbuf(x)
    d = bytes_list(x)
    if d is None:
        raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
    return d


def h_memoryview(x):
    if type(x) in BUF_TYPES:
        return SymMemoryView.of(x)
    if _pybuf(x):
        return h_memoryview(_getbuf(x))
    return memoryview(x)


def h_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymBytes:
            return x
        if t in BUF_TYPES:
            return mk_bytes(list(_data(x)))
        if _pybuf(x):
            return mk_bytes(list(_data(x)))
        if t in (SymInt, SymBool):
            if x < 0:
                raise ValueError("negative count")
            return bytes(operator.index(x))
        if isinstance(x, (bytes, bytearray, memoryview, int, str)):
            return bytes(x)
        m = getattr(t, "__bytes__", None)
        if m is not None:
            return m(x)
        if hasattr(x, "__iter__"):
            d = []
            for b in x:
                if not isinstance(b, int) and not hasattr(b, "__index__"):
                    raise TypeError("'%s' object cannot be interpreted as an integer" % type(b).__name__)
                if not (b >= 0 and b <= 255):
                    raise ValueError("bytes must be in range(0, 256)")
                d.append(b)
            return mk_bytes(d)
        return bytes(x)
    if a and type(a[0]) in (SymStr, LazyStr):
        return encode_str(force(a[0]), *[conc(x) for x in a[1:]], **k)
    return bytes(*a, **k)


def h_bytearray(*a, **k):
    if not a and not k:
        return SymByteArray()
    if len(a) == 1 and not k and type(a[0]) in (SymInt, SymBool, int, bool):
        n = a[0]
        if n < 0:
            raise ValueError("negative count")
        n = operator.index(n)
        if n > 1 << 24:
            raise MemoryError
        return SymByteArray([0] * n)
    if len(a) == 1 and not k and not isinstance(a[0], str):
        x = a[0]
        if type(x) in BUF_TYPES or _pybuf(x):
            return SymByteArray(_data(x))
        if isinstance(x, (bytes, bytearray, memoryview)):
            return SymByteArray(bytes_list(x))
        b = h_bytes(x)
        return SymByteArray(bytes_list(b))
    b = h_bytes(*a, **k)
    return SymByteArray(bytes_list(b))


def h_codecs_decode(obj, encoding="utf-8", errors="strict"):
    encoding, errors = conc(encoding), conc(errors)
    if type(obj) in BUF_TYPES or _pybuf(obj):
        return decode_bytes(_data(obj), encoding, errors)
    return codecs.decode(obj, encoding, errors)


def h_codecs_encode(obj, encoding="utf-8", errors="strict"):
    if type(obj) in (SymStr, LazyStr):
        return encode_str(force(obj), encoding, errors)
    return codecs.encode(obj, encoding, errors)


def h_from_bytes(b, byteorder="big", *, signed=False):
    if type(b) in BUF_TYPES or _pybuf(b):
        d = list(_data(b))
    elif isinstance(b, (bytes, bytearray, memoryview)):
        return int.from_bytes(b, byteorder, signed=signed)
    else:
        d = list(b)
        if not any(is_sym(x) for x in d):
            return int.from_bytes(d, byteorder, signed=signed)
    byteorder = conc(byteorder)
    if byteorder == "big":
        d.reverse()
    elif byteorder != "little":
        raise ValueError("byteorder must be either 'little' or 'big'")
    v = 0
    for i, x in enumerate(d):
        v = v | (x << (8 * i))
    if signed and d:
        n = 8 * len(d)
        v = (v ^ (1 << (n - 1))) - (1 << (n - 1))
    return v


# ------------------------------------------------------------------ scalars
def vp_type(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        if getattr(t, "_is_sym", False) or t in (SymDict, SymSet, dates.SymDelta, dates.SymDateTime):
            return x.__class__
        return t
    return type(*a)


def h_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return x
        if t is SymBool:
            return x._i()
        if t is SymFloat:
            return x.to_int()
        if t is SymRatio and max(abs(term_of(x.a).lo), abs(term_of(x.a).hi)) < 1 << 52:
            return h_floor(x) if x >= 0 else h_ceil(x)
        if issubclass(t, SymRatio):
            return int(x._shadow2())
        if t in (SymStr, LazyStr):
            x = force(x)
            return str_to_int(x) if type(x) is SymStr else int(x)
        if t is SymFlag:
            return x.v
        if t in BUF_TYPES:
            return int(conc(x))
        return int(x)
    return int(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()})


def int_to_float(i):
    """float(i) for a SymInt"""
    n = i.n
    LIM = 1 << 1000
    if n.hi > LIM or n.lo < -LIM:
        if not (i <= LIM and i >= -LIM):
            return float(i.__index__())
        raise Unsupported("float() of a very wide symbolic int")
    return mk_float(tm.f_op("ffromint", (n,), "I", 0, tm.M64), float(i.c))


def h_float(*a):
    if a:
        x = a[0]
        t = type(x)
        if t is SymFloat:
            return x
        if t is SymInt:
            return int_to_float(x)
        if t is SymBool:
            return float(bool(x))
        if issubclass(t, SymRatio):
            return x
        if getattr(t, "_is_sym", False):
            return float(conc(x))
    return float(*a)


def h_bool(*a):
    if a:
        x = a[0]
        t = type(x)
        if t is SymBool:
            return x
        if t is SymInt:
            return x != 0
        if t is SymFloat:
            return mk_bool(tm.bnot(tm.f_iszero(x.n)), x.c != 0)
    return bool(*a)


def _usermethod(x, name):
    m = getattr(type(x), name, None)
    return m if isinstance(m, types.FunctionType) else None


def h_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return LazyStr(lambda: int_to_str(x), lambda: str(x.c))
        if t in (SymStr, LazyStr):
            return x
        if t is SymBool:
            return "True" if x else "False"
        if getattr(t, "_is_sym", False):
            return LazyStr(lambda: str(conc(x)), lambda: str(core.shadow(x)))
        m = _usermethod(x, "__str__")
        if m is not None:
            return m(x)
        if isinstance(x, BaseException) and t.__str__ is BaseException.__str__:
            if len(x.args) == 1:
                return h_str(x.args[0])
            if not x.args:
                return ""
        m = _usermethod(x, "__repr__")
        if m is not None and t.__str__ is object.__str__:
            return m(x)
        return str(x)
    if a and (type(a[0]) in BUF_TYPES):
        return decode_bytes(_data(a[0]), *[conc(x) for x in a[1:]], **k)
    return str(*[conc(x) for x in a], **k)


def h_repr(x):
    t = type(x)
    if t is SymInt:
        return h_str(x)
    if getattr(t, "_is_sym", False):
        return LazyStr(lambda: repr(conc(x)), lambda: repr(core.shadow(x)))
    m = _usermethod(x, "__repr__")
    if m is not None:
        return m(x)
    return repr(x)


def h_hex(x):
    if is_sym(x):
        return LazyStr(lambda: hex(conc(x)), lambda: hex(core.shadow(x)))
    return hex(x)


def h_chr(x):
    if type(x) is SymInt:
        if not (x >= 0 and x <= 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return mk_str([x])
    return chr(x)


def h_ord(x):
    if type(x) in (SymStr, LazyStr):
        c = x.chars
        if len(c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(c))
        return c[0]
    if type(x) is SymBytes and len(x.data) == 1:
        return x.data[0]
    return ord(x)


def h_len(x):
    t = type(x)
    if t is list or t is tuple or t is dict or t is str or t is bytes:
        return len(x)
    m = _usermethod(x, "__len__")
    if m is not None and t not in (SymStr,):
        r = m(x)
        if type(r) is SymInt:
            if r < 0:
                raise ValueError("__len__() should return >= 0")
            return r
        if type(r) is not int:
            return len(x)
        if r < 0:
            raise ValueError("__len__() should return >= 0")
        return r
    return len(x)


def h_isnan(x):
    if type(x) is SymFloat:
        return x.isnan()
    if type(x) in (SymInt, SymBool):
        if type(x) is SymInt and (x.n.hi >= 1 << 1023 or x.n.lo <= -(1 << 1023)):
            lim = (1 << 1024) - (1 << 970)
            if x >= lim or x <= -lim:
                raise OverflowError("int too large to convert to float")
        return False
    if type(x) is SymRatio or type(x) is SymDy:
        return False
    return math.isnan(x)


def h_isinf(x):
    if type(x) is SymFloat:
        return x.isinf()
    if type(x) in (SymInt, SymBool):
        return h_isnan(x)
    if type(x) is SymDy:
        return False
    return math.isinf(conc(x))


def h_isfinite(x):
    if type(x) is SymFloat:
        return vp_not(b_any([x.isinf(), x.isnan()]))
    if type(x) is SymDy:
        return True
    return math.isfinite(conc(x))


def h_copysign(a, b):
    if type(a) is SymFloat or type(b) is SymFloat:
        def bits(v):
            if type(v) is SymFloat:
                return mk_int(v.n, tm.f2bits(v.c))
            return tm.f2bits(float(conc(v)))
        r = (bits(a) & tm.MAGM) | (bits(b) & (1 << 63))
        return mk_float(term_of(r), tm.bits2f(_ci(r)))
    return math.copysign(conc(a), conc(b))


def _rounder(real, name):
    def h(x):
        if type(x) in (SymInt, SymBool):
            return x
        if type(x) is SymRatio and max(abs(term_of(x.a).lo), abs(term_of(x.a).hi)) < 1 << 52:
            # the rounded quotient is on the same side of every integer
            return x.a // x.b if name == "floor" else -(-x.a // x.b)
        d = dates.dyadic(x) if type(x) in (SymFloat, SymDy) else None
        if type(d) is SymDy:
            return getattr(d, name)()
        if type(x) is SymFloat:
            t = x.to_int()
            if x.is_integer() or (x >= 0 if name == "floor" else x <= 0):
                return t
            return t - 1 if name == "floor" else t + 1
        return real(conc(x))
    return h


h_floor = _rounder(math.floor, "floor")
h_ceil = _rounder(math.ceil, "ceil")


def h_round(x, nd=None):
    nd = conc(nd)
    if type(x) is SymInt and (nd is None or nd >= 0):
        return x
    d = dates.dyadic(x) if type(x) in (SymFloat, SymDy) else None
    if type(d) is SymDy:
        return d.__round__(nd)
    return round(conc(x), nd) if nd is not None else round(conc(x))


def h_trunc(x):
    return h_int(x)


def callback(f):
    """f as something that builtins may call"""
    t = type(f)
    if f is None or t is types.FunctionType or id(f) in TRANSPARENT:
        return f
    return lambda *a, **k: vp_call(f, *a, **k)


def h_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=callback(key), reverse=conc(reverse))


def h_map(f, *its):
    return map(callback(f), *its)


def h_filter(f, it):
    return filter(callback(f), it)


def h_reduce(f, *a):
    return functools.reduce(callback(f), *a)


def h_starmap(f, it):
    return itertools.starmap(callback(f), it)


def h_takewhile(f, it):
    return itertools.takewhile(callback(f), it)


def h_groupby(it, key=None):
    return itertools.groupby(it, callback(key))


def h_join(sep, it):
    xs = list(it)
    if isinstance(sep, str):
        if not any(is_sym(x) for x in xs) and not is_sym(sep):
            return sep.join(xs)
        for i, x in enumerate(xs):
            if not isinstance(x, str):
                raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(x).__name__))

        def th():
            out = []
            for i, x in enumerate(xs):
                if i:
                    out += chars_of(sep)
                out += chars_of(x)
            return mk_str(out)
        return LazyStr(th, lambda: core.shadow(sep).join(core.shadow(x) for x in xs))
    out = []
    for i, x in enumerate(xs):
        if i:
            out += bytes_list(sep)
        out += _data(x)
    return mk_bytes(out)


def is_symstr(v):
    return type(v) is SymStr or type(v) is LazyStr


def int_format(v, spec):
    """format() of a symbolic int with a width: 5d, 04x"""
    base = {"d": 10, "x": 16, "X": 16, "b": 2, "o": 8}[spec[-1]]
    width, zero = int(spec[:-1] or "0"), spec.startswith("0")
    neg = bool(v < 0)
    a = -v if neg else v
    if base == 10:
        cs = list(chars_of(int_to_str(a)))
    else:
        n = 1
        while a >= base ** n:
            n += 1
        cs = []
        for k in range(n - 1, -1, -1):
            d = (a // base ** k) % base
            cs.append(d + 48 if base <= 10 or d < 10 else d + (55 if spec[-1] == "X" else 87))
    pad = width - len(cs) - neg
    sign = [45] if neg else []
    if zero:
        cs = sign + [48] * max(0, pad) + cs
    else:
        cs = [32] * max(0, pad) + sign + cs
    return mk_str(cs)


_INTSPEC = re.compile(r"\d*[dxXbo]")
_PERCENT = re.compile(r"%(%|(0?\d*)([srdixX]))")


def vp_mod(a, b):
    """a % b, where a may be a template"""
    t = type(a)
    if t is LazyStr:
        a = force(a)
        t = type(a)
    if t is not str:
        return a % b
    args = b if type(b) is tuple else (b,)
    if not any(needs_str(x) for x in args):
        return a % b
    parts, pos, k = [], 0, 0
    for m in _PERCENT.finditer(a):
        if "%" in a[pos:m.start()]:
            break
        parts.append(a[pos:m.start()])
        pos = m.end()
        if m[1] == "%":
            parts.append("%")
            continue
        if k >= len(args):
            break
        x, w, c = args[k], m[2], m[3]
        k += 1
        if c == "s" or c == "r":
            parts.append((x, 115 if c == "s" else 114, ">" + w if w else ""))
        elif type(x) is SymInt:
            parts.append((x, -1, w + ("d" if c == "i" else c)))
        else:
            parts.append(("%" + w + c) % conc(x))
    else:
        if k == len(args) and "%" not in a[pos:]:
            return vp_fstr(*parts, a[pos:])
    return a % (tuple([conc(force(x)) for x in args]) if type(b) is tuple else conc(force(b)))


def vp_strformat(s, a, k):
    """s.format(*a, **k)"""
    parts, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(s):
        parts.append(lit)
        if name is None:
            continue
        if name == "":
            name = str(auto)
            auto += 1
        if "{" in spec or not (name.isdecimal() and int(name) < len(a) or name in k):
            return s.format(*[conc(force(x)) for x in a], **{n: conc(force(v)) for n, v in k.items()})
        parts.append((a[int(name)] if name.isdecimal() else k[name], ord(conv) if conv else -1, spec))
    return vp_fstr(*parts)


def needs_str(x):
    return is_sym(x) or _usermethod(x, "__str__") is not None or _usermethod(x, "__repr__") is not None


def vp_fstr(*parts):
    if not any(type(p) is tuple for p in parts):
        return "".join(parts)
    lazy, out = False, []
    for p in parts:
        if type(p) is not tuple:
            out.append((p, None))
            continue
        v, conv, spec = p
        spec = conc(force(spec))
        if conv == 114:
            s = h_repr(v)
        elif conv == 97:
            s = ascii(conc(v))
        elif conv == 115:
            s = h_str(v)
        elif is_sym(v):
            if spec == "" or (spec == "s" and is_symstr(v)) or (spec == "d" and type(v) is SymInt):
                s = h_str(v)
            elif type(v) is SymInt and _INTSPEC.fullmatch(spec):
                s = LazyStr((lambda v=v, spec=spec: int_format(v, spec)), (lambda v=v, spec=spec: format(v.c, spec)))
            else:
                s = LazyStr((lambda v=v, spec=spec: format(conc(v), spec)), (lambda v=v, spec=spec: format(core.shadow(v), spec)))
            spec = ""
        elif spec == "" and type(v).__format__ is object.__format__:
            s = h_str(v)
        elif spec == "" and isinstance(v, BaseException):
            s = h_str(v)
        else:
            s = format(v, spec)
            spec = ""
        if is_sym(s):
            if spec == "s" and is_symstr(s):
                spec = ""
            if spec != "":
                s = LazyStr((lambda s=s, spec=spec: format(conc(s), spec)), (lambda s=s, spec=spec: format(core.shadow(s), spec)))
            lazy = True
        elif spec != "":
            s = format(s, spec)
        out.append((s, None))
    ss = [s for s, _ in out]
    if not lazy:
        return "".join(ss)
    return LazyStr(lambda: mk_str([c for s in ss for c in chars_of(s)]), lambda: "".join(core.shadow(s) for s in ss))


# ------------------------------------------------------------------ operators
def vp_is(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymBool or tb is SymBool:
        if ta is SymBool and (b is True or b is False or tb is SymBool):
            return a == b
        if tb is SymBool and (a is True or a is False):
            return b == a
        return False
    if ta is SymFlag or tb is SymFlag:
        # canonical members are singletons; pseudo-members of Flags are cached too
        if vp_type(a) is vp_type(b):
            return a == b
    return False


def vp_isnot(a, b):
    return vp_not(vp_is(a, b))


def vp_in(x, c):
    t = type(c)
    if t is SymDict:
        return c._contains(x)
    if t is SymRange or t is SymFlag:
        return c.contains(x)
    if t is SymStr or t is LazyStr:
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand, not " + type(x).__name__)
        return c.contains(force(x))
    if t in BUF_TYPES:
        return x in c
    xs = getattr(type(x), "_is_sym", False)
    if t is range:
        if type(x) in (SymInt, SymBool, SymFloat):
            return SymRange(c.start, c.stop, c.step).contains(x)
        return x in c
    if t in (list, tuple, collections.deque):
        r = []
        for e in c:
            q = sym_eq(e, x)
            if q is True:
                return True
            r.append(q if type(q) is SymBool else bool(q))
        return b_any(r)
    if isinstance(c, enum.EnumMeta):
        if xs and type(x) is not SymFlag:
            m = type(c).__contains__
            if isinstance(m, types.FunctionType) and m.__module__.startswith("v8serialize"):
                return m(c, x)
            return b_any([sym_eq(v, force(x)) for v in c._value2member_map_])
        if type(x) is SymFlag:
            return x.cls is c
        return x in c
    if t is str and xs:
        return SymStr([ord(ch) for ch in c]).contains(force(x))
    if t in (bytes, bytearray) and xs:
        return x in SymBytes(c)
    m = getattr(t, "__contains__", None)
    if isinstance(m, types.FunctionType):
        if m.__code__.co_filename == __file__:
            return x in c
        r = m(c, x)
        return r if type(r) is SymBool else bool(r)
    if t in (set, frozenset, dict, types.MappingProxyType, type({}.keys())) and (xs or type(x) is tuple) and key_is_sym(x):
        return b_any([sym_eq(e, force(x)) for e in list(c)])
    return x in c


def vp_notin(x, c):
    return vp_not(vp_in(x, c))


def vp_getitem(o, i):
    t = type(o)
    ti = type(i)
    if t is list or t is tuple:
        if ti is SymInt or ti is SymBool:
            return o[_index(i, len(o), IndexError, t.__name__ + " index out of range")]
        if ti is slice and (is_sym(i.start) or is_sym(i.stop) or is_sym(i.step)):
            a, b, s = _clamp_slice(i, len(o))
            return o[slice(a, b if b >= 0 else None, s)]
        return o[i]
    if t is str or t is bytes:
        if ti is SymInt:
            return o[_index(i, len(o), IndexError, "index out of range")]
        if ti is slice and (is_sym(i.start) or is_sym(i.stop) or is_sym(i.step)):
            a, b, s = _clamp_slice(i, len(o))
            return o[slice(a, b if b >= 0 else None, s)]
        return o[i]
    if t in (dict, types.MappingProxyType) and (is_sym(i) or ti is tuple) and key_is_sym(i):
        for k in list(o):
            if sym_eq(k, force(i)):
                return o[k]
        raise KeyError(i)
    if t is range and (ti is SymInt or ti is SymBool):
        return SymRange(o.start, o.stop, o.step)[i]
    if t is memoryview or t is bytearray:
        if ti is SymInt:
            i = _index(i, len(o), IndexError, "index out of bounds")
        elif ti is slice:
            i = slice(*_clamp_slice(i, len(o)))
    return o[i]


def vp_setitem(v, o, i):
    t = type(o)
    if t is list:
        if type(i) in (SymInt, SymBool):
            i = _index(i, len(o), IndexError, "list assignment index out of range")
        elif type(i) is slice and (is_sym(i.start) or is_sym(i.stop)):
            i = slice(*_clamp_slice(i, len(o)))
    elif t is dict and is_sym(i):
        for k in list(o):
            if sym_eq(k, force(i)):
                o[k] = v
                return
        i = conc(i)
    o[i] = v


def vp_delitem(o, i):
    t = type(o)
    if t is list:
        if type(i) in (SymInt, SymBool):
            i = _index(i, len(o), IndexError, "list assignment index out of range")
        elif type(i) is slice and (is_sym(i.start) or is_sym(i.stop)):
            i = slice(*_clamp_slice(i, len(o)))
    elif t is dict and is_sym(i):
        for k in list(o):
            if sym_eq(k, force(i)):
                del o[k]
                return
        raise KeyError(i)
    del o[i]


_AUG = {"Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "FloorDiv": operator.ifloordiv, "Mod": operator.imod,
        "BitOr": operator.ior, "BitAnd": operator.iand, "BitXor": operator.ixor, "LShift": operator.ilshift,
        "RShift": operator.irshift, "Div": operator.itruediv, "Pow": operator.ipow}


def vp_augitem(op, o, i, v):
    if type(i) is not slice and is_sym(i) and type(o) is list:
        i = _index(i, len(o), IndexError, "list index out of range")
    vp_setitem(_AUG[op](vp_getitem(o, i), v), o, i)


def vp_tick():
    if core.P is not None:
        core.P.tick()


def vp_fn(name):
    if core.P is not None:
        FUNCS.add(name)
        core.P.tick()


# ------------------------------------------------------------------ calls
def h_field(*a, **k):
    f = k.get("default_factory")
    if f is bytearray:
        k["default_factory"] = SymByteArray
    elif f is dict:
        k["default_factory"] = SymDict
    return dataclasses.field(*a, **k)


def h_minmax(real, cmp):
    def h(*a, **k):
        if len(a) == 2 and not k and type(a[0]) in (SymInt, int) and type(a[1]) in (SymInt, int) and (is_sym(a[0]) or is_sym(a[1])):
            x, y = a
            c = cmp(y, x)         # python keeps the first on ties
            if type(c) is SymBool:
                return mk_int(tm.ite(c.n, term_of(y), term_of(x)), _ci(y) if c.c else _ci(x))
            return y if c else x
        return real(*a, **k)
    return h


def h_mappingproxy(m):
    return types.MappingProxyType(m)


def h_repeat(x, *n):
    if n and type(n[0]) is SymInt:
        return (x for _ in SymRange(0, n[0], 1))
    return itertools.repeat(x, *n)


def h_islice(it, *a):
    return itertools.islice(it, *[conc(x) for x in a])


def h_eval_set(cls):
    return cls


def h_divmod(a, b):
    return a // b, a % b


def h_calcsize(f):
    return struct.calcsize(conc(f))


def h_setattr_obj(*a):
    return object.__setattr__(*a)


def h_dict(*a, **k):
    return SymDict(*a, **k)


def h_format(v, spec=""):
    return vp_fstr((v, -1, spec))


def h_isinstance(x, c):
    return isinstance(x, c)


def h_sum(it, start=0):
    for x in it:
        start = start + x
    return start


DISPATCH = {}


def reg(f, h):
    DISPATCH[id(f)] = (h, f)


for _f, _h in [
    (type, vp_type), (int, h_int), (float, h_float), (bool, h_bool), (str, h_str), (bytes, h_bytes), (bytearray, h_bytearray),
    (memoryview, h_memoryview), (dict, h_dict), (set, h_set), (frozenset, h_frozenset), (range, h_range), (len, h_len), (hash, vp_hash), (repr, h_repr), (hex, h_hex),
    (chr, h_chr), (ord, h_ord), (math.isnan, h_isnan), (math.isinf, h_isinf), (math.isfinite, h_isfinite),
    (math.copysign, h_copysign), (math.floor, h_floor), (math.trunc, h_trunc), (math.ceil, h_ceil), (math.modf, dates.h_modf), (round, h_round), (datetime.timedelta, dates.h_timedelta),
    (struct.pack, h_pack), (struct.unpack, h_unpack), (struct.unpack_from, h_unpack_from), (struct.pack_into, h_pack_into),
    (struct.iter_unpack, h_iter_unpack), (struct.Struct, SymStruct), (codecs.decode, h_codecs_decode),
    (codecs.encode, h_codecs_encode), (functools.lru_cache, vp_lru), (dataclasses.field, h_field),
    (max, h_minmax(max, lambda y, x: y > x)), (min, h_minmax(min, lambda y, x: y < x)),
    (itertools.repeat, h_repeat), (itertools.islice, h_islice), (divmod, h_divmod), (format, h_format), (sum, h_sum),
    (sorted, h_sorted), (map, h_map), (filter, h_filter), (functools.reduce, h_reduce), (itertools.starmap, h_starmap), (itertools.takewhile, h_takewhile), (itertools.groupby, h_groupby),
]:
    reg(_f, _h)

def _h_re(f):
    def h(p, s, flags=0):
        if type(s) in (SymStr, LazyStr) and isinstance(p, (str, re.Pattern)):
            return seqs.rx_match(re.compile(p, flags), f.__name__, SymStr(chars_of(s)))
        return f(p, s, flags)
    return h


for _f in (re.match, re.fullmatch, re.search):
    reg(_f, _h_re(_f))

# builtins that work on proxies through the normal protocols
TRANSPARENT = {id(f): f for f in (
    isinstance, issubclass, getattr, hasattr, setattr, iter, next, zip, enumerate, reversed, list, tuple,
    all, any, sum, abs, callable, id, print, vars, dir, super, property, object, slice,
    itertools.chain, itertools.count, itertools.zip_longest, itertools.tee,
    operator.index, operator.eq, operator.itemgetter, operator.attrgetter, operator.methodcaller,
    functools.partial, object.__setattr__, object.__new__, types.MappingProxyType, collections.deque)}
try:
    import bisect, heapq
    for _f in (bisect.bisect_left, bisect.bisect_right, bisect.insort, bisect.insort_left, bisect.insort_right):
        TRANSPARENT[id(_f)] = _f
except ImportError:
    pass

_BUILTIN = type(len)                 # builtin_function_or_method
_BUILTIN_M = type(re.compile('').match)
_MDESC = type(str.join)              # method_descriptor
_WRAP = type(object().__str__)       # method-wrapper
_SLOT = type(int.__add__)            # wrapper_descriptor

_LIST_OK = {"append", "extend", "index", "count", "remove", "sort", "reverse", "clear", "copy", "__contains__"}


def _any_sym(a, k):
    for x in a:
        if getattr(type(x), "_is_sym", False):
            return True
    if k:
        for x in k.values():
            if getattr(type(x), "_is_sym", False):
                return True
    return False


import reprlib
_REPR1 = reprlib.Repr.repr1


_TEXT = {SymInt.__repr__, SymInt.__format__}


def vp_call(f, /, *a, **k):
    h = DISPATCH.get(id(f))
    if h is not None:
        return h[0](*a, **k)
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        if t is types.MethodType and f.__func__ in _TEXT and type(f.__self__) is SymInt:
            return h_str(f.__self__) if not a else h_format(f.__self__, *a)
        if t is types.MethodType and f.__func__ is _REPR1 and a and type(a[0]) in (SymMemoryView, SymByteArray, SymDict):
            # reprlib chooses the method by the name of the type
            m = getattr(f.__self__, {SymMemoryView: "repr_memoryview", SymByteArray: "repr_bytearray"}.get(type(a[0]), "repr_dict"), None)
            if m is not None:
                return m(*a, **k)
        return f(*a, **k)
    if t is _BUILTIN or t is _BUILTIN_M:
        return call_builtin(f, a, k)
    if isinstance(f, enum.EnumMeta):
        if a and getattr(type(a[0]), "_is_sym", False):
            return enum_call(f, a[0], a[1:], k)
        return f(*a, **k)
    if t is types.GenericAlias:
        h = DISPATCH.get(id(f.__origin__))
        if h is not None:
            return h[0](*a, **k)
        return f(*a, **k)
    if (t is _MDESC or t is _SLOT) and a:
        # e.g. str.encode(s), dict.get(d, k)
        s = a[0]
        if getattr(type(s), "_is_sym", False) or type(s) is SymDict or _any_sym(a, k):
            if f.__name__ in ("__str__", "__repr__") and len(a) == 1:
                return h_repr(s) if f.__name__ == "__repr__" else h_str(s)
            m = getattr(s, f.__name__, None)
            if m is not None and f.__name__ not in ("__setattr__", "__init__", "__new__"):
                return vp_call(m, *a[1:], **k)
        return f(*a, **k)
    return f(*a, **k)


_SEQ_METHODS = frozenset(["startswith", "endswith", "__eq__", "__contains__", "strip", "lstrip", "rstrip", "find", "rfind", "index", "rindex", "count",
                          "replace", "split", "partition", "rpartition", "removesuffix", "ljust", "rjust"])


def call_builtin(f, a, k):
    if id(f) in TRANSPARENT:
        return f(*a, **k)
    s = getattr(f, "__self__", None)
    name = f.__name__
    ts = type(s)
    if ts is types.ModuleType or s is None:
        if f.__module__ == "_operator" or not _any_sym(a, k):
            return f(*a, **k)
        return f(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()})
    if s is int and name == "from_bytes":
        return h_from_bytes(*a, **k)
    if s is dict and name == "fromkeys":
        return SymDict.fromkeys(*a)
    if ts is str:
        if name == "join":
            return h_join(s, *a)
        if _any_sym(a, k):
            if name in _SEQ_METHODS:
                return getattr(SymStr([ord(c) for c in s]), name)(*[force(x) for x in a])
            if name == "format":
                return vp_strformat(s, a, k)
            return f(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()})
        return f(*a, **k)
    if ts is bytes or ts is bytearray:
        if name == "join":
            return h_join(s, *a)
        if _any_sym(a, k) or any(_pybuf(x) for x in a):
            if ts is bytes and name in _SEQ_METHODS:
                return getattr(SymBytes(s), name)(*a)
            return f(*[conc(x) for x in a], **k)
        return f(*a, **k)
    if ts is list:
        if name in _LIST_OK:
            return f(*a, **k)
        if name == "insert" and a and type(a[0]) is SymInt:
            n = len(s)
            i = a[0]
            if i >= n:
                i = n
            elif i <= -n:
                i = 0
            return f(operator.index(i), a[1])
        if name == "pop" and a and type(a[0]) is SymInt:
            return f(_index(a[0], len(s), IndexError, "pop index out of range"))
        if name in ("__getitem__", "__setitem__", "__delitem__") and a and is_sym(a[0]):
            if name == "__getitem__":
                return vp_getitem(s, a[0])
            if name == "__setitem__":
                return vp_setitem(a[1], s, a[0])
            return vp_delitem(s, a[0])
        return f(*a, **k)
    if ts is dict or ts is types.MappingProxyType:
        if a and (is_sym(a[0]) or type(a[0]) is tuple) and name in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
            if key_is_sym(a[0]):
                q = force(a[0])
                for key in list(s):
                    if sym_eq(key, q):
                        return True if name == "__contains__" else getattr(s, name)(key, *a[1:])
                if name == "__contains__":
                    return False
                if name == "get":
                    return a[1] if len(a) > 1 else None
                if name == "pop" and len(a) > 1:
                    return a[1]
                if name == "setdefault":
                    s[conc(q)] = a[1] if len(a) > 1 else None
                    return a[1] if len(a) > 1 else None
                raise KeyError(q)
        return f(*a, **k)
    if ts in (set, frozenset):
        if name == "add" and a and key_is_sym(a[0]):
            raise Unsupported("symbolic element added to a real set")
        return f(*a, **k)
    if name in ("fromtimestamp", "utcfromtimestamp") and isinstance(s, type) and a and (
            type(a[0]) in (SymFloat, SymScaled, SymDy, SymInt) or isinstance((a[1:] or [k.get("tz")])[0], (dates.SymTZ, dates.SymDst))):
        r = dates.h_fromts(f, a, k, name[0] == "u")
        if r is not None:
            return r
        if type(a[0]) in (SymFloat, SymScaled):
            return h_fromtimestamp(f, a, k)
        return f(*[conc(y) for y in a], **{n: conc(v) for n, v in k.items()})
    if ts is float and name == "fromhex":
        return f(*[conc(x) for x in a])
    if ts is struct.Struct and name in ("pack", "pack_into", "unpack", "unpack_from", "iter_unpack"):
        return getattr(SymStruct(s.format), name)(*a, **k)
    if ts is re.Pattern and name in ("match", "fullmatch", "search") and len(a) == 1 and not k and type(a[0]) in (SymStr, LazyStr):
        return seqs.rx_match(s, name, SymStr(chars_of(a[0])))
    if _any_sym(a, k) and ts not in (collections.deque,) and not isinstance(s, (types.GeneratorType, type)):
        if name in ("__setattr__", "send", "throw"):
            return f(*a, **k)
        if isinstance(s, (int, float, memoryview, struct.Struct)) or ts.__module__ in ("re", "_struct", "datetime"):
            return f(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()})
    return f(*a, **k)


INJECT = {
    "_vp_call": vp_call, "_vp_is": vp_is, "_vp_isnot": vp_isnot, "_vp_in": vp_in, "_vp_notin": vp_notin,
    "_vp_getitem": vp_getitem, "_vp_setitem": vp_setitem, "_vp_delitem": vp_delitem, "_vp_augitem": vp_augitem,
    "_vp_dict": vp_dict, "_vp_set": vp_mkset, "_vp_dictcomp": vp_dictcomp, "_vp_fstr": vp_fstr, "_vp_mod": vp_mod, "_vp_tick": vp_tick, "_vp_fn": vp_fn,
    "_vp_lru": vp_lru, "_vp_lru_plain": vp_lru_plain, "_vp_SYM": True,
}
