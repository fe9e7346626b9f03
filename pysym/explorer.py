"""Exhaustive exploration of a harness: every path is executed once over symbolic
inputs; the solver produces an input for every feasible unexplored decision, and
the exploration ends when no decision is left (= the assertion was decided for
every value within the harness's bounds)."""
import os, pickle, random, signal, sys, time, traceback, gc
from multiprocessing import connection
from . import core, dates, lower, model, seqs
from . import terms as tm
from .core import (Path, EngineSignal, Unsupported, PathLimit, Diverged, SymInt, SymBool, SymFloat, mk_int, mk_bool)
from .seqs import SymStr, SymBytes, SymByteArray, SymMemoryView
from .lower import Inconclusive

STEP_LIMIT = int(os.environ.get("VP_STEPS", "60000"))
CONC_LIMIT = 600


from plainapi import VPViolation, AssumeFailed, _SBase, PlainS


class SymS(_SBase):
    sym = True

    def __init__(self, path):
        super().__init__()
        self.p = path

    def int(self, name, lo, hi):
        p = self.p
        v = p.inputs.get(name)
        if v is None:
            v = 0 if lo <= 0 <= hi else lo
            p.inputs[name] = v
        assert lo <= v <= hi, (name, v, lo, hi)
        return mk_int(tm.var_int(name, lo, hi), v)

    def bool(self, name):
        v = bool(self.p.inputs.setdefault(name, False))
        return mk_bool(tm.var_bool(name), v)

    def double(self, name):
        v = self.p.inputs.setdefault(name, 0)
        return core.mk_float(tm.var_int(name, 0, tm.M64), tm.bits2f(v))

    def str(self, name, n, lo=0, hi=0x10FFFF, surrogates=False):
        cs = [self.int("%s.%d" % (name, i), lo, hi) for i in range(n)]
        if not surrogates and lo < 0xE000 and hi >= 0xD800:
            for c in cs:
                self.assume(model.vp_not(seqs.in_ranges(c, [(0xD800, 0xDFFF)])))
        return seqs.mk_str(cs)

    def bytes(self, name, n):
        return seqs.mk_bytes([self.int("%s.%d" % (name, i), 0, 255) for i in range(n)])

    def datetime(self, us, tz):
        return dates.place(us, tz)

    def tz(self, off_us):
        return dates.SymTZ(off_us)

    def dst(self, t, before, after):
        return dates.SymDst(t, before, after)

    def concrete(self, x):
        return model.conc(x)

    def all(self, xs):
        return core.b_all(list(xs))

    def any(self, xs):
        return core.b_any(list(xs))

    def not_(self, x):
        return core.vp_not(x)

    def same(self, a, b):
        return model.vp_is(a, b)

    def hash(self, x):
        return model.s_hash(x)

    def check(self, cond, label, info=""):
        if not cond:
            raise VPViolation(label, core.shadow(info) if core.is_sym(info) else info)

    def choice(self, name, options):
        if type(options) is int:
            options = range(options)
        if len(options) == 1:
            return options[0]
        return options[model.conc(self.int(name, 0, len(options) - 1))]


def canon(x, d=0):
    """Comparable concrete form of an observed value (proxies -> their shadow)."""
    if getattr(type(x), "_is_sym", False):
        x = core.shadow(x)
    t = type(x)
    if t is bool or x is None or t is int or t is str:
        return (t.__name__, x)
    if t is float:
        b = tm.f2bits(x)
        return ("float", "nan" if x != x else b)
    if isinstance(x, (bytes, bytearray)):
        return ("bytes", bytes(x))
    if isinstance(x, memoryview):
        return ("bytes", bytes(x))
    if isinstance(x, (list, tuple)) and d < 6:
        return ("seq", [canon(e, d + 1) for e in x])
    if isinstance(x, dict) and d < 6:
        return ("dict", [(canon(k, d + 1), canon(v, d + 1)) for k, v in x.items()])
    return ("obj", t.__name__)


class Harness:
    def __init__(self, mod, fn, params, must=(), opts=None):
        self.mod, self.fn, self.params, self.must = mod, fn, params, tuple(must)
        self.opts = opts or {}
        self.sym = self.plain = None
        self.name = "%s.%s" % (mod, fn) + ("(%s)" % ", ".join("%s=%r" % kv for kv in params.items()) if params else "")

    def load(self, symc, plainc):
        self.sym = getattr(symc.load("hx." + self.mod), self.fn)
        self.plain = getattr(plainc.load("hx." + self.mod), self.fn)


def _exc_label(e):
    tb = e.__traceback__
    where = ""
    for fr, ln in traceback.walk_tb(tb):
        f = fr.f_code.co_filename
        if "/harness/" in f or "/v8serialize/" in f:
            where = "%s:%s" % (os.path.basename(f), fr.f_code.co_name)
    return "unexpected exception %s" % type(e).__name__, where


def run_plain(h, inputs):
    S = PlainS(dict(inputs))
    try:
        h.plain(S, **h.params)
        return ("ok",), S
    except AssumeFailed:
        return ("assume",), S
    except VPViolation as v:
        return ("viol", v.label, str(v.info)), S
    except Exception as e:
        l, w = _exc_label(e)
        return ("viol", l, "%s in %s: %s" % (type(e).__name__, w, str(e)[:300])), S


class Stats:
    def __init__(self):
        self.paths = self.ok = self.assumed = self.validated = 0
        self.decisions = 0
        self.limit = 0
        self.marks = {}
        self.funcs = set()
        self.per_h = {}
        self.samples = {}
        self.q = lower.Stats()
        self.obs_checked = 0
        self.known = {}
        self.conc_sites = {}
        self.checked = 0
        self.gaps = {}
        self.gap_samples = []

    def merge(self, o):
        for k in ("paths", "ok", "assumed", "validated", "decisions", "limit", "obs_checked", "checked"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.marks.items():
            self.marks[k] = self.marks.get(k, 0) + v
        for k, v in o.known.items():
            self.known.setdefault(k, v)
        for k, v in o.conc_sites.items():
            self.conc_sites[k] = self.conc_sites.get(k, 0) + v
        self.funcs |= o.funcs
        for k, v in o.gaps.items():
            self.gaps[k] = self.gaps.get(k, 0) + v
        self.gap_samples = (self.gap_samples + o.gap_samples)[:8]
        for k, v in o.per_h.items():
            self.per_h[k] = self.per_h.get(k, 0) + v
        for k, v in o.samples.items():
            self.samples.setdefault(k, v)
        q, r = self.q, o.q
        q.queries += r.queries; q.sat += r.sat; q.unsat += r.unsat; q.cached += r.cached
        q.solver_s += r.solver_s; q.slow = max(q.slow, r.slow)


class Item:
    __slots__ = ("h", "inputs", "bound", "prefix", "excl")

    def __init__(self, h, inputs, bound=0, prefix=(), excl=()):
        self.h, self.inputs, self.bound, self.prefix, self.excl = h, inputs, bound, prefix, excl

    def __getstate__(self):
        return (self.h, self.inputs, self.bound, self.prefix, self.excl)

    def __setstate__(self, s):
        self.h, self.inputs, self.bound, self.prefix, self.excl = s


class Engine:
    def __init__(self, harnesses, symc, plainc, known=()):
        self.hs, self.symc, self.plainc = harnesses, symc, plainc
        self.known = set(known)
        self.st = Stats()
        self.violations = []
        self.errors = []
        self.limits = []

    def _alarm(self, *a):
        raise PathLimit("path wall-clock limit")

    def gap(self, h, why, inputs):
        """A path the engine could not encode: its one input was run on the real
        code, other values of the path stay unexplored."""
        self.st.gaps[h.name] = self.st.gaps.get(h.name, 0) + 1
        if len(self.st.gap_samples) < 4:
            self.st.gap_samples.append("%s: %s on %r" % (h.name, why[:600], inputs))

    def run_item(self, it, stack):
        h = self.hs[it.h]
        st = self.st
        p = Path(dict(it.inputs), it.prefix, h.opts.get("steps", STEP_LIMIT))
        core.set_path(p)
        self.symc.activate()
        self.symc.reset()
        S = SymS(p)
        signal.signal(signal.SIGALRM, self._alarm)
        signal.alarm(h.opts.get("path_s", 120))
        try:
            try:
                h.sym(S, **h.params)
                out = ("ok",)
            except AssumeFailed:
                out = ("assume",)
            except VPViolation as v:
                out = ("viol", v.label, str(v.info))
            except PathLimit as e:
                out = ("limit", str(e))
            except (EngineSignal, Inconclusive) as e:
                out = ("gap", "%s: %s" % (type(e).__name__, e))
                if os.environ.get("VP_DEBUG"):
                    traceback.print_exc()
            except Exception as e:
                l, w = _exc_label(e)
                out = ("viol", l, w + ": " + _safe_str(e))
                if os.environ.get("VP_DEBUG"):
                    traceback.print_exc()
            obs_sym = [canon(x) for x in S.obs]
            obs_terms = [x for x in S.obs]
        finally:
            signal.alarm(0)
        core.set_path(None)
        st.paths += 1
        st.per_h[h.name] = st.per_h.get(h.name, 0) + 1
        inputs = p.inputs
        # -- the engine's own sanity: every recorded decision must hold under the inputs
        env = _Env(inputs)
        memo = {}
        for i, (k, t, v) in enumerate(p.events):
            if tm.evaluate(t, env, memo) != v:
                out = ("gap", "term/shadow mismatch: %s %r expected %r inputs %r" % (k, t, v, inputs))
                del p.events[i:]
                break
        for x in obs_terms:
            if type(x) is SymInt and out[0] != "gap":
                if tm.evaluate(x.n, env, memo) != x.c:
                    out = ("gap", "observed term/shadow mismatch %r" % (x.n,))
        for i, w in p.sites.items():
            if i >= it.bound:
                w = h.name + " @ " + w
                st.conc_sites[w] = st.conc_sites.get(w, 0) + 1
        for m in S.marks:
            key = h.name + " :: " + m
            st.marks[key] = st.marks.get(key, 0) + 1
        if out[0] == "limit":
            st.limit += 1
            self.limits.append((it.h, dict(inputs), out[1]))
            self.symc.activate()
        else:
            # -- validate the path against the real code
            self.plainc.activate()
            self.plainc.reset()
            pout, PS = run_plain(h, inputs)
            st.validated += 1
            if pout[0] == "viol":
                tagged = [t for t in PS.tags if t in self.known]
                if tagged:
                    st.known.setdefault(tagged[0], (h.name, dict(inputs), pout[1:]))
                else:
                    self.violations.append((it.h, dict(inputs), pout[1], pout[2]))
                    return
            obs_p = [canon(x) for x in PS.obs]
            if out[0] == "gap":
                self.gap(h, out[1], inputs)
            elif pout[:2] != out[:2]:
                self.gap(h, "symbolic run %r, real run %r" % (out, pout), inputs)
            elif obs_p != obs_sym:
                self.gap(h, "observations differ: %r vs %r" % (obs_sym, obs_p), inputs)
            else:
                st.obs_checked += len(obs_p)
            if out[0] == "ok":
                st.ok += 1
                if h.name not in st.samples or (len(p.events) > 8 and st.samples[h.name][1] < 8):
                    st.samples[h.name] = (dict(inputs), len(p.events))
            elif out[0] == "assume":
                st.assumed += 1
        # -- children
        ev = p.events
        hashes = [hash((k, t.sh, v)) for k, t, v in ev]
        st.decisions += len(ev) - it.bound
        if len(ev) < it.bound:
            if out[0] != "gap":
                self.gap(h, "path shorter than its prefix", inputs)
            return
        groups = _Slicer()
        for i in range(min(it.bound, len(ev))):
            groups.add(_cons(ev[i]))
        children = []
        for i in range(it.bound, len(ev)):
            k, t, v = ev[i]
            base = groups.slice(t.vars)
            if k == "b":
                neg = [tm.bnot(t)]
            else:
                excl = set(it.excl) if i == it.bound else set()
                excl.add(v)
                if len(excl) > CONC_LIMIT:
                    self.gap(h, "enumeration of more than %d values of %r at %s" % (CONC_LIMIT, t, p.sites.get(i)), inputs)
                    groups.add(_cons(ev[i]))
                    continue
                neg = [tm.ne(t, tm.const(e)) for e in excl]
            try:
                m = lower.solve(base + neg, st.q) if not any(n is tm.FALSE for n in neg) else None
            except Inconclusive as e:
                self.gap(h, str(e), inputs)
                m = None
            if m is not None:
                inp = dict(inputs)
                inp.update(m)
                if k == "b":
                    pre = hashes[:i] + [hash(("b", tm.bnot(t).sh, True))]
                    children.append(Item(it.h, inp, i + 1, pre))
                else:
                    children.append(Item(it.h, inp, i, hashes[:i], tuple(excl)))
            groups.add(_cons(ev[i]))
        stack.extend(children)
        if len(tm._table) > 1500000:
            # terms are regenerated on demand; drop them all
            lower.reset()
            lower._fpmemo.clear()
            tm.clear()
            gc.collect()


def _safe_str(e):
    try:
        return str(e)[:300]
    except BaseException as e2:
        return "<%s>" % type(e2).__name__


class _Env:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]


def _cons(e):
    k, t, v = e
    return t if k == "b" else tm.eq(t, tm.const(v))


class _Slicer:
    """Constraints grouped by connected variables."""

    def __init__(self):
        self.parent = {}
        self.cons = {}

    def find(self, v):
        p = self.parent
        r = v
        while p.get(r, r) is not r and p.get(r, r) != r:
            r = p[r]
        while p.get(v, v) != r:
            p[v], v = r, p[v]
        return r

    def add(self, c):
        vs = list(c.vars)
        if not vs:
            return
        r = self.find(vs[0])
        self.cons.setdefault(r, [])
        for v in vs[1:]:
            q = self.find(v)
            if q != r:
                a, b = self.cons.get(r, []), self.cons.pop(q, [])
                if len(b) > len(a):
                    a, b = b, a
                a.extend(b)
                self.parent[q] = r
                self.cons[r] = a
        self.cons[r].append(c)

    def slice(self, vs):
        out, seen = [], set()
        for v in vs:
            r = self.find(v)
            if r not in seen:
                seen.add(r)
                out.extend(self.cons.get(r, ()))
        return out


# ------------------------------------------------------------------ parallel driver
def _worker(conn, eng, slice_s):
    stack = []
    try:
        while True:
            cmd, arg = conn.recv()
            if cmd == "stop":
                break
            if cmd == "donate":
                n = max(1, len(stack) // 2) if len(stack) > 1 else 0
                out, stack = stack[:n], stack[n:]
                conn.send(("items", out, len(stack)))
                continue
            stack.extend(arg)
            t0 = time.time()
            model.FUNCS.clear()
            eng.st = Stats()
            eng.violations, eng.errors, eng.limits = [], [], []
            fatal = None
            while stack and time.time() - t0 < slice_s:
                it = stack.pop()
                try:
                    eng.run_item(it, stack)
                except RecursionError:
                    eng.gap(eng.hs[it.h], "engine recursion", it.inputs)
                except (EngineSignal, Inconclusive, Exception) as e:
                    eng.gap(eng.hs[it.h], "engine failure: %r\n%s" % (e, traceback.format_exc()[-1500:]), it.inputs)
                if eng.violations or eng.errors:
                    break
            eng.st.funcs = set(model.FUNCS)
            conn.send(("done", eng.st, eng.violations, eng.errors, eng.limits, fatal, len(stack)))
    except (EOFError, KeyboardInterrupt):
        pass
    finally:
        os._exit(0)


class Result:
    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.errors = []
        self.limits = []
        self.complete = False
        self.timed_out = False


def explore(harnesses, symc, plainc, known=(), jobs=8, budget_s=600, verbose=False, seed=1):
    eng = Engine(harnesses, symc, plainc, known)
    res = Result()
    for h in harnesses:
        h.load(symc, plainc)
    gc.collect()
    gc.freeze()
    jobs = max(1, min(jobs, 8))
    ws = []
    import multiprocessing
    for j in range(jobs):
        a, b = multiprocessing.Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            for c, _ in ws:
                c.close()
            sys.setrecursionlimit(12000)
            _worker(b, eng, 0.25)
        b.close()
        ws.append((a, pid))
    pool = [Item(i, {}) for i in range(len(harnesses))]
    rnd = random.Random(seed)
    rnd.shuffle(pool)
    nst = {id(c): 0 for c, _ in ws}
    busy, idle = {}, [c for c, _ in ws]
    t0 = time.time()
    tv = t0
    stop = False
    donating = set()
    try:
        while True:
            if not stop:
                # hand out work
                while idle and pool:
                    c = idle.pop()
                    k = max(1, len(pool) // (len(idle) + 1))
                    items, pool = pool[:k], pool[k:]
                    c.send(("go", items))
                    busy[id(c)] = c
            if not busy:
                break
            if time.time() - t0 > budget_s + 15:
                res.timed_out = True        # a worker is stuck in a long step: leave it
                stop = True
                break
            for c in connection.wait(list(busy.values()), timeout=5):
                try:
                    msg = c.recv()
                except EOFError:
                    res.errors.append("a worker died (out of memory?)")
                    del busy[id(c)]
                    stop = True
                    continue
                if msg[0] == "items":
                    pool.extend(msg[1])
                    nst[id(c)] = msg[2]
                    c.send(("go", []))
                    continue
                _, st, viol, errs, lims, fatal, n = msg
                res.stats.merge(st)
                nst[id(c)] = n
                res.violations += viol
                res.errors += errs
                res.limits += lims
                if fatal:
                    res.errors.append(fatal)
                if viol or errs or fatal or len(res.limits) > 3:
                    stop = True
                if time.time() - t0 > budget_s:
                    res.timed_out = True
                    stop = True
                if stop or n == 0:
                    del busy[id(c)]
                    idle.append(c)
                    continue
                if n > 1 and len(pool) < 2 * len(idle) :
                    c.send(("donate", None))
                else:
                    c.send(("go", []))
            if verbose and time.time() - tv > 10:
                tv = time.time()
                print("  .. %.0fs paths=%d queries=%d pending=%d" % (tv - t0, res.stats.paths, res.stats.q.queries,
                                                                    sum(nst.values()) + len(pool)), file=sys.stderr, flush=True)
        res.complete = not stop and not res.errors and not res.limits and not res.stats.gaps
    finally:
        for c, pid in ws:
            try:
                c.send(("stop", None))
            except Exception:
                pass
            c.close()
        tend = time.time() + 2
        for c, pid in ws:
            while time.time() < tend:
                r, _ = os.waitpid(pid, os.WNOHANG)
                if r:
                    break
                time.sleep(0.02)
            else:
                try:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
    return res
