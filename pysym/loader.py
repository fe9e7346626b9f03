"""Imports v8serialize (and harness modules) from source, either rewritten so
that every operation the engine must see goes through `model`, or as is."""
import ast, importlib.abc, importlib.util, os, sys
from . import model

SRC = os.environ.get("VP_SRC", "/repo/src")
HARNESS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
PREFIXES = ("v8serialize", "hx")      # hx = harness package

_NOCALL = {"super", "locals", "globals", "vars", "dir", "cast", "TypeVar", "NewType", "ParamSpec", "eval", "exec",
           "TYPE_CHECKING", "overload", "isinstance", "issubclass", "getattr", "hasattr", "callable", "iter", "next"}


def N(id):
    return ast.Name(id=id, ctx=ast.Load())


def C(fn, *args):
    return ast.Call(func=N(fn), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.infn = 0

    # -- structure
    def _fn(self, node):
        self.stack.append(node.name)
        qn = self.mod + ":" + ".".join(self.stack)
        node.args = self._args(node.args)
        node.decorator_list = [self._deco(d) for d in node.decorator_list]
        node.returns = None if not self._keep_ann(node) else node.returns
        self.infn += 1
        node.body = [self.visit(s) for s in node.body]
        node.body = _flat(node.body)
        self.infn -= 1
        self.stack.pop()
        i = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                  and isinstance(node.body[0].value.value, str)) else 0
        node.body.insert(i, ast.Expr(C("_vp_fn", ast.Constant(qn))))
        return node

    def _keep_ann(self, node):
        return True

    def _args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    visit_FunctionDef = _fn

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        node.args = self._args(node.args)
        self.infn += 1
        node.body = self.visit(node.body)
        self.infn -= 1
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        infn, self.infn = self.infn, 0
        node.body = _flat([self.visit(s) for s in node.body])
        self.infn = infn
        self.stack.pop()
        return node

    def _deco(self, d):
        nm = _dotted(d.func if isinstance(d, ast.Call) else d)
        if nm in ("lru_cache", "functools.lru_cache", "cache", "functools.cache"):
            if isinstance(d, ast.Call):
                return ast.Call(func=N("_vp_lru"), args=d.args, keywords=d.keywords)
            return N("_vp_lru_plain" if not nm.endswith("cached") else nm)
        return d

    # -- statements
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript) and node.value is not None:
            return self.visit_Assign(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node), done=True)
        return node

    def visit_Assign(self, node, done=False):
        if not done:
            node.value = self.visit(node.value)
        if self.infn and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(C("_vp_setitem", node.value, self.visit(t.value), self._index(t.slice))), node)
        node.targets = [self._target(t) for t in node.targets]
        return node

    def _target(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._target(e) for e in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self._target(t.value)
        elif isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
        elif isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
        return t

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if self.infn and isinstance(node.target, ast.Subscript):
            t = node.target
            return ast.copy_location(ast.Expr(C("_vp_augitem", ast.Constant(type(node.op).__name__), self.visit(t.value),
                                                self._index(t.slice), node.value)), node)
        node.target = self._target(node.target)
        return node

    def visit_Delete(self, node):
        if not self.infn:
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(C("_vp_delitem", self.visit(t.value), self._index(t.slice))), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[self._target(t)]), node))
        return out

    def visit_For(self, node):
        node.target = self._target(node.target)
        node.iter = self.visit(node.iter)
        node.body = [ast.Expr(C("_vp_tick"))] + _flat([self.visit(s) for s in node.body])
        node.orelse = _flat([self.visit(s) for s in node.orelse])
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        node.body = [ast.Expr(C("_vp_tick"))] + _flat([self.visit(s) for s in node.body])
        node.orelse = _flat([self.visit(s) for s in node.orelse])
        return node

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if field in ("annotation", "returns", "type_params"):
                continue
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None:
                            continue
                        if isinstance(v, list):
                            new.extend(v)
                            continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                setattr(node, field, self.visit(old))
        return node

    # -- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in _NOCALL:
            node.args = [self.visit(a) for a in node.args] if f.id not in ("TypeVar", "NewType", "ParamSpec") else node.args
            for k in node.keywords:
                k.value = self.visit(k.value)
            if f.id == "cast" and len(node.args) == 2:
                return node.args[1]
            return node
        if not self.infn and not _modlevel_call(f):
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        fn = self.visit(f)
        node.args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return ast.copy_location(ast.Call(func=N("_vp_call"), args=[fn] + node.args, keywords=node.keywords), node)

    def _index(self, s):
        s = self.visit(s)
        return self._slice(s)

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return C("slice", *[x if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            s.elts = [self._slice(e) for e in s.elts]
        return s

    def visit_Subscript(self, node):
        if not self.infn or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(C("_vp_getitem", self.visit(node.value), self._index(node.slice)), node)

    def visit_Compare(self, node):
        node.left = self.visit(node.left)
        node.comparators = [self.visit(c) for c in node.comparators]
        if len(node.ops) != 1:
            if any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in node.ops) and self.infn:
                return self._chain(node)
            return node
        r = self._cmp1(node.left, node.ops[0], node.comparators[0])
        return ast.copy_location(r, node) if r is not None else node

    def _cmp1(self, l, o, r):
        if isinstance(o, (ast.Is, ast.IsNot)):
            if isinstance(r, ast.Constant) and r.value is None:
                return None
            return C("_vp_is" if isinstance(o, ast.Is) else "_vp_isnot", l, r)
        if isinstance(o, ast.In):
            return C("_vp_in", l, r)
        if isinstance(o, ast.NotIn):
            return C("_vp_notin", l, r)
        return None

    def _chain(self, node):
        vals, cur = [], node.left
        for i, (o, c) in enumerate(zip(node.ops, node.comparators)):
            last = i == len(node.ops) - 1
            if last:
                right, nxt = c, None
            else:
                nm = "_vp_t%d" % id(c)
                right, nxt = ast.NamedExpr(target=ast.Name(id=nm, ctx=ast.Store()), value=c), N(nm)
            e = self._cmp1(cur, o, right)
            vals.append(e if e is not None else ast.Compare(left=cur, ops=[o], comparators=[right]))
            cur = nxt
        return ast.copy_location(ast.BoolOp(op=ast.And(), values=vals), node)

    def visit_Dict(self, node):
        if not self.infn:
            return self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            v = self.visit(v)
            if k is None:
                parts.append(ast.Tuple(elts=[ast.Constant(True), ast.Constant(None), v], ctx=ast.Load()))
            else:
                parts.append(ast.Tuple(elts=[ast.Constant(False), self.visit(k), v], ctx=ast.Load()))
        return ast.copy_location(C("_vp_dict", ast.List(elts=parts, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        if not self.infn:
            return self.generic_visit(node)
        node = self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(C("_vp_dictcomp", g), node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        if not self.infn:
            return node
        return ast.copy_location(C("_vp_set", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        if not self.infn:
            return node
        return ast.copy_location(C("_vp_set", ast.GeneratorExp(elt=node.elt, generators=node.generators)), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.infn and isinstance(node.op, ast.Mod):
            return ast.copy_location(C("_vp_mod", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        if not self.infn:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is not None:
                    spec = ast.JoinedStr(values=[self.generic_visit(x) for x in spec.values])
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion),
                                             spec if spec is not None else ast.Constant("")], ctx=ast.Load()))
        return ast.copy_location(C("_vp_fstr", *parts), node)


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _dotted(n.value)
        return None if b is None else b + "." + n.attr
    return None


def _modlevel_call(f):
    # calls at module/class level that create mutable storage
    return isinstance(f, ast.Name) and f.id in ("field", "bytearray", "dict")


def _flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


def instrument(src, path, modname):
    tree = ast.parse(src, path)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class _Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg, sym, copy):
        self.path, self.ispkg, self.sym, self.copy = path, ispkg, sym, copy

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        if self.sym:
            module.__dict__.update(model.INJECT)
            code = instrument(src, self.path, module.__name__)
        else:
            code = compile(src, self.path, "exec", dont_inherit=True)
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    copy = None

    def find_spec(self, name, path=None, target=None):
        if self.copy is None or name.split(".")[0] not in PREFIXES:
            return None
        root = name.split(".")[0]
        base = os.path.join(SRC if root == "v8serialize" else os.path.dirname(HARNESS), *(
            name.split(".") if root == "v8serialize" else ["harness"] + name.split(".")[1:]))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            p, pkg = os.path.join(base, "__init__.py"), True
        elif os.path.isfile(base + ".py"):
            p, pkg = base + ".py", False
        else:
            return None
        return importlib.util.spec_from_loader(
            name, _Loader(p, pkg, self.copy.sym, self.copy), is_package=pkg, origin=p) if not pkg else \
            importlib.util.spec_from_file_location(name, p, loader=_Loader(p, pkg, self.copy.sym, self.copy),
                                                   submodule_search_locations=[base])


_finder = _Finder()
sys.meta_path.insert(0, _finder)
_active = None


class Copy:
    """One loaded copy of the code under test plus harnesses."""

    def __init__(self, sym):
        self.sym = sym
        self.mods = {}
        self.caches = []
        self.loading = False

    def activate(self):
        global _active
        if _active is self:
            return
        if _active is not None:
            _active._save()
        for k in [k for k in sys.modules if k.split(".")[0] in PREFIXES]:
            del sys.modules[k]
        sys.modules.update(self.mods)
        _active = self
        _finder.copy = self
        model.current_copy = self

    def _save(self):
        self.mods = {k: m for k, m in sys.modules.items() if k.split(".")[0] in PREFIXES}

    def load(self, name):
        import functools
        self.activate()
        self.loading = True
        try:
            return self._load(name)
        finally:
            self.loading = False

    def _load(self, name):
        import functools
        if not self.sym:
            real = functools.lru_cache
            copy = self

            def recording(maxsize=128, typed=False):
                r = real(maxsize, typed)
                if callable(maxsize):
                    if copy.loading:
                        copy.caches.append(r)
                    return r

                def deco(fn):
                    w = r(fn)
                    if copy.loading:
                        copy.caches.append(w)
                    return w
                return deco
            functools.lru_cache = recording
            try:
                m = importlib.import_module(name)
            finally:
                functools.lru_cache = real
        else:
            m = importlib.import_module(name)
        self._save()
        return m

    def reset(self):
        """Forget memoised results so that every path starts afresh."""
        n = 0
        for c in self.caches:
            c.cache_clear()
