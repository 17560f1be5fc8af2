"""Side-effect analysis: flow-sensitive may-alias roots per variable, one summary
per function (which parameters it writes to, which roots its result aliases),
iterated to a fixpoint over the resolved call graph.

Roots: ("p", i)  the object passed for parameter i
       ("g", module, name)  a mutable object bound at module level
       ("d", i)  the default object of parameter i (mutable default)"""
import ast
import builtins

VIEW_METHODS = {"reshape", "ravel", "view", "transpose", "swapaxes", "squeeze", "diagonal", "__getitem__", "get", "setdefault",
                "values", "items", "__iter__"}
VIEW_ATTRS = {"T", "real", "imag", "flat", "mT", "base", "data"}
VIEW_FUNCS = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "atleast_2d", "atleast_3d", "squeeze",
              "ravel", "reshape", "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "broadcast_to", "real", "imag",
              "flip", "fliplr", "flipud", "rot90", "diagonal", "as_strided", "sliding_window_view", "require", "array_split", "split",
              "vsplit", "hsplit", "asmatrix", "permute_dims", "matrix_transpose", "asarray_chkfinite", "broadcast_arrays", "diag"}
WRITE_METHODS = {"sort", "fill", "resize", "put", "partition", "itemset", "setfield", "setflags", "append", "extend", "insert", "pop",
                 "remove", "clear", "update", "reverse", "add", "discard", "popitem", "setdefault", "__setitem__", "__setattr__",
                 "__delitem__", "__iadd__", "__isub__", "__imul__", "__itruediv__", "appendleft", "popleft", "rotate"}
WRITE_FUNCS = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0, "put_along_axis": 0, "shuffle": 0,
               "setattr": 0, "delattr": 0, "heappush": 0, "heapify": 0, "heappop": 0, "insort": 0}
OVERWRITE = {"overwrite_x", "overwrite_a", "overwrite_b", "overwrite_ab", "overwrite_data", "overwrite_v", "overwrite_input", "overwrite_c",
             "overwrite_y", "overwrite_r"}
UFUNC1 = {"abs", "absolute", "negative", "exp", "log", "log10", "log2", "log1p", "exp2", "expm1", "sqrt", "square", "sin", "cos", "tan", "floor", "ceil", "rint",
          "sign", "conj", "conjugate", "reciprocal", "fabs", "cbrt", "deg2rad", "rad2deg", "degrees", "radians", "sinh", "cosh", "tanh", "arctan", "trunc"}
UFUNC2 = {"add", "subtract", "multiply", "divide", "true_divide", "floor_divide", "power", "maximum", "minimum", "mod", "remainder", "fmod", "hypot",
          "arctan2", "fmax", "fmin", "float_power", "logaddexp", "matmul"}
SAFE_OBJ = {"int", "float", "str", "bool", "complex", "Literal", "tuple", "Tuple"}


class V:
    """alias roots of a value, and of what it contains"""
    __slots__ = ("al", "el", "kind")

    def __init__(self, al=frozenset(), el=frozenset(), kind="any"):
        self.al, self.el, self.kind = frozenset(al), frozenset(el), kind

    def join(self, o):
        return V(self.al | o.al, self.el | o.el, self.kind if self.kind == o.kind else "any")

    def __eq__(self, o):
        return (self.al, self.el, self.kind) == (o.al, o.el, o.kind)


FRESH = V()
NEW = V(kind="arr")
MAKERS = {"linspace", "arange", "zeros", "ones", "empty", "full", "zeros_like", "ones_like", "copy", "concatenate", "append", "geomspace", "logspace", "outer"}


class Summary:
    def __init__(self):
        self.writes = {}      # root -> (module, line, what, chain)
        self.ret = frozenset()
        self.retel = frozenset()

    def key(self):
        return (tuple(sorted(map(str, self.writes))), self.ret, self.retel)


def ann_kind(a):
    if a is None:
        return "any"
    s = ast.unparse(a)
    if "ndarray" in s or "List" in s or "list" in s or "dict" in s.lower() or "SlidingWindow" in s or "Array" in s or "Sequence" in s:
        return "arr"
    names = {n.id for n in ast.walk(a) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(a) if isinstance(n, ast.Attribute)}
    if names & SAFE_OBJ and not names & {"Any", "object"}:
        return "scalar"
    return "any"


class Func:
    def __init__(self, module, node, qual, cls=None):
        self.module, self.node, self.qual, self.cls = module, node, qual, cls
        a = node.args
        self.params = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.names = [x.arg for x in self.params]
        self.npos = len(a.posonlyargs + a.args)
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.summary = Summary()
        self.arrays = set()    # parameters that receive arrays from inside the package

    @property
    def public(self):
        return not any(p.startswith("_") for p in self.qual.split(".")[-1:]) or self.node.name in ("__call__",)

    def defaults(self):
        a = self.node.args
        out = {}
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out


def mutable_expr(e):
    """does evaluating e give a mutable container/array?"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        if n in ("count", "cycle", "iter", "Random", "default_rng", "RandomState", "Generator", "list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "bytearray", "WeakValueDictionary", "SimpleNamespace", "Lock", "local"):
            return True
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "numpy") and n not in (
                "float64", "float32", "int64", "int32", "dtype", "finfo", "iinfo", "vectorize", "frompyfunc", "log", "sqrt", "exp", "log10"):
            return True
    return False


class Effects:
    def __init__(self, prog, only="spafe"):
        self.prog = prog
        self.funcs = {}        # id(node) -> Func
        self.byname = {}
        self.methods = {}
        self.globals = {}      # (module, name) -> expr
        self.sites = 0
        for m in prog.modules.values():
            if not m.name.split(".")[0] == only:
                continue
            for n, (k, pay) in m.bind.items():
                if k == "assign" and mutable_expr(pay):
                    self.globals[(m.name, n)] = pay
                elif k == "class":
                    for s in pay.body:
                        for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []):
                            if isinstance(t, ast.Name) and mutable_expr(s.value):
                                self.globals[(m.name, n + "." + t.id)] = s.value
            self.collect(m, m.tree.body, m.name)
        self.events = []
        for _ in range(8):
            old = {k: f.summary.key() for k, f in self.funcs.items()}
            self.events = []
            self.sites = 0
            for f in self.funcs.values():
                self.analyse(f)
            if all(f.summary.key() == old[k] for k, f in self.funcs.items()):
                break

    def collect(self, m, body, prefix, cls=None):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, s, prefix + "." + s.name, cls)
                self.funcs[id(s)] = f
                self.byname[f.qual] = f
                if cls:
                    self.methods.setdefault(s.name, []).append(f)
                self.collect_nested(m, s, f.qual)
            elif isinstance(s, ast.ClassDef):
                self.collect(m, s.body, prefix + "." + s.name, s.name)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for sub in ast.iter_child_nodes(s):
                    if isinstance(sub, ast.stmt):
                        self.collect(m, [sub], prefix, cls)

    def collect_nested(self, m, fn, prefix):
        for s in ast.walk(fn):
            if s is not fn and isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and id(s) not in self.funcs:
                f = Func(m, s, prefix + ".<locals>." + s.name)
                self.funcs[id(s)] = f

    # -------------------------------------------------------------- one function
    def analyse(self, f):
        A = Walk(self, f)
        A.run()
        f.summary = A.sum
        self.events += A.events
        self.sites += A.sites


class Walk:
    def __init__(self, E, f):
        self.E, self.f, self.m = E, f, f.module
        self.sum = Summary()
        self.events = []
        self.sites = 0
        self.globals_decl = set()
        self.locals = assigned_names(f.node)
        self.ints = int_names(f.node)
        self.limports = local_imports(f.module, f.node)

    def run(self):
        f = self.f
        env = {}
        defs = f.defaults()
        body_uses = array_uses(f.node)
        for i, p in enumerate(f.params):
            al = {("p", i)}
            k = ann_kind(p.annotation)
            if k == "any" and p.arg in body_uses or i in f.arrays:
                k = "arr"
            if p.arg in defs and mutable_expr(defs[p.arg]):
                al.add(("d", i))
                k = "arr"
            env[p.arg] = V(al, al if k == "arr" else (), k)
        if f.vararg:
            env[f.vararg] = V((), {("p", len(f.params))}, "any")
        self.env = env
        self.block(f.node.body)

    def block(self, body):
        for s in body:
            self.stmt(s)

    def fork(self, fns):
        e0 = self.env
        outs = []
        for fn in fns:
            self.env = dict(e0)
            fn()
            outs.append(self.env)
        keys = set()
        for o in outs:
            keys |= set(o)
        self.env = {}
        for k in keys:
            vs = [o[k] for o in outs if k in o]
            v = vs[0]
            for w in vs[1:]:
                v = v.join(w)
            self.env[k] = v

    def write(self, roots, node, what):
        self.sites += 1
        for r in roots:
            if r not in self.sum.writes:
                self.sum.writes[r] = (self.m, getattr(node, "lineno", self.f.node.lineno), what, self.f.qual)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.bind(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            self.ev(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                v = self.name(t)
                if t.id in self.globals_decl:
                    self.events.append(("global", self.f, s, "rebinds the module-level name %s" % t.id))
                if v.kind == "arr":
                    self.write(v.al, s, "in-place operator on %s" % t.id)
                elif v.kind == "any" and not isinstance(s.op, (ast.Pow,)):
                    g = {r for r in v.al if r[0] == "g"}
                    self.write(g, s, "in-place operator on %s" % t.id)
                    self.env[t.id] = V()
            elif isinstance(t, ast.Subscript):
                v = self.ev(t.value)
                self.ev(t.slice)
                self.write(v.al, s, "in-place item operator on %s" % ast.unparse(t.value)[:40])
            elif isinstance(t, ast.Attribute):
                self.attr_store(t, s)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = self.ev(s.value)
                self.sum.ret |= v.al
                self.sum.retel |= v.el
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.fork([lambda: self.block(s.body), lambda: self.block(s.orelse)])
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            for _ in range(2):
                def loop():
                    self.bind(s.target, elem(it))
                    self.block(s.body)
                self.fork([loop, lambda: None])
            self.block(s.orelse)
        elif isinstance(s, ast.While):
            for _ in range(2):
                def loop():
                    self.ev(s.test)
                    self.block(s.body)
                self.fork([loop, lambda: None])
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v)
            self.block(s.body)
        elif isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            self.fork([lambda: (self.block(s.body), self.block(s.orelse))] + [lambda: None] + [lambda h=h: self.block(h.body) for h in s.handlers])
            self.block(s.finalbody)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.ev(t.value).al, s, "del of an item of %s" % ast.unparse(t.value)[:40])
                elif isinstance(t, ast.Attribute):
                    self.attr_store(t, s)
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(s, ast.Global):
            self.globals_decl |= set(s.names)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.nested(s)
            self.env[s.name] = V()
        elif isinstance(s, ast.Raise):
            if s.exc:
                self.ev(s.exc)
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif type(s).__name__ == "Match":
            self.ev(s.subject)
            self.fork([lambda c=c: self.block(c.body) for c in s.cases] + [lambda: None])

    def nested(self, s):
        """body of a closure, run with the enclosing bindings (its own parameters are fresh)"""
        save = dict(self.env)
        locs = self.locals
        self.locals = locs | assigned_names(s)
        for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
            self.env[a.arg] = V()
        r0, r1 = self.sum.ret, self.sum.retel
        self.block(s.body if isinstance(s.body, list) else [ast.copy_location(ast.Expr(s.body), s.body)])
        self.sum.ret, self.sum.retel = r0, r1
        self.env = save
        self.locals = locs

    def attr_store(self, t, s):
        v = self.ev(t.value)
        r = {x for x in v.al}
        if self.f.cls and self.f.node.name in ("__init__", "__post_init__", "__new__", "__setstate__") and isinstance(t.value, ast.Name) and self.f.names[:1] == [t.value.id]:
            return
        self.write(r, s, "store to attribute %s" % ast.unparse(t)[:40])
        # function, class or module attributes
        if isinstance(t.value, ast.Name) and t.value.id not in self.env:
            r = self.E.prog.lookup(self.m.name, t.value.id)
            if r is not None and (r[0] in ("func", "class", "mod", "ext")):
                self.events.append(("global", self.f, s, "stores into %s, which outlives the call" % ast.unparse(t)[:50]))
        elif isinstance(t.value, ast.Attribute) or isinstance(t.value, ast.Call):
            u = ast.unparse(t.value)
            if "__class__" in u or u.startswith("type("):
                self.events.append(("global", self.f, s, "stores into %s, which outlives the call" % ast.unparse(t)[:50]))

    def bind(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.globals_decl:
                self.events.append(("global", self.f, t, "rebinds the module-level name %s" % t.id))
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, elem(v))
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.write(b.al, t, "item assignment to %s" % ast.unparse(t.value)[:40])
            n = t.value
            if isinstance(n, ast.Name) and n.id in self.env and v.al:
                self.env[n.id] = V(b.al, b.el | (v.al if b.kind != "nd" else ()), b.kind)
        elif isinstance(t, ast.Attribute):
            self.attr_store(t, t)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v)

    def name(self, e):
        if e.id in self.env:
            return self.env[e.id]
        if e.id in self.locals:
            return FRESH
        r = self.E.prog.lookup(self.m.name, e.id)
        if r is not None and r[0] == "assign":
            mod = r[1].name
            nm = next((n for n, b in r[1].bind.items() if b[0] == "assign" and b[1] is r[2]), e.id)
            if (mod, nm) in self.E.globals:
                root = {("g", mod, nm)}
                return V(root, root, "arr")
        return FRESH

    def ev(self, e):
        if isinstance(e, ast.Name):
            return self.name(e)
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value)
            if isinstance(e.value, ast.Name) and e.value.id not in self.env and e.value.id not in self.locals:
                r = self.E.prog.lookup(self.m.name, e.value.id)
                if r is not None and r[0] == "mod" and (r[1].name, e.attr) in self.E.globals:
                    root = {("g", r[1].name, e.attr)}
                    return V(root, root, "arr")
            g = self.class_attr(e)
            if g is not None:
                return V({g}, {g}, "arr")
            if e.attr in VIEW_ATTRS:
                return V(v.al, v.el, v.kind)
            return V(v.al if v.kind != "arr" or e.attr == "__dict__" else (), v.el, "any")
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value)
            self.ev(e.slice)
            k = index_kind(e.slice, self.ints)
            if k == "slice":
                return V(v.al, v.el, v.kind)
            if k == "fancy":
                return V()
            # integer or key: an element; may be a row view
            return V(v.al | v.el, v.el, "any") if v.al or v.el else FRESH
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.IfExp):
            self.ev(e.test)
            return self.ev(e.body).join(self.ev(e.orelse))
        if isinstance(e, ast.BoolOp):
            v = FRESH
            for x in e.values:
                v = v.join(self.ev(x))
            return V(v.al, v.el, "any")
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            el = frozenset()
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x)
                el |= v.al | v.el
            return V((), el)
        if isinstance(e, ast.Dict):
            el = frozenset()
            for k, x in zip(e.keys, e.values):
                if k is not None:
                    self.ev(k)
                v = self.ev(x)
                el |= v.al | v.el
            return V((), el)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.bind(e.target, v)
            return v
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            save = dict(self.env)
            for g in e.generators:
                self.bind(g.target, elem(self.ev(g.iter)))
                for c in g.ifs:
                    self.ev(c)
            if isinstance(e, ast.DictComp):
                self.ev(e.key)
                v = self.ev(e.value)
            else:
                v = self.ev(e.elt)
            self.env = save
            return V((), v.al | v.el)
        if isinstance(e, ast.Lambda):
            self.nested(e)
            return FRESH
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        kids = [self.ev(c) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
        return NEW if isinstance(e, ast.BinOp) and any(k.kind == "arr" for k in kids) else FRESH

    def class_attr(self, e):
        if not isinstance(e.value, ast.Name):
            return None
        n = e.value.id
        if self.f.cls and self.f.names[:1] == [n]:
            k = (self.m.name, self.f.cls + "." + e.attr)
        elif n not in self.env and n not in self.locals:
            r = self.E.prog.lookup(self.m.name, n)
            if r is None or r[0] != "class":
                return None
            k = (r[1].name, r[2].name + "." + e.attr)
        else:
            return None
        return ("g",) + k if k in self.E.globals else None

    # -------------------------------------------------------------- calls
    def target(self, fn):
        """('func', Func) | ('ext', dotted) | ('method', name, value) | None"""
        if isinstance(fn, ast.Name):
            if fn.id in self.limports:
                return self.dotted(self.limports[fn.id])
            if fn.id in self.env or fn.id in self.locals:
                return None
            r = self.E.prog.lookup(self.m.name, fn.id)
            if r is None:
                return ("ext", "builtins." + fn.id) if hasattr(builtins, fn.id) else None
            return self.resolved(r)
        if isinstance(fn, ast.Attribute):
            parts = []
            x = fn
            while isinstance(x, ast.Attribute):
                parts.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name) and x.id in self.limports:
                return self.dotted(".".join([self.limports[x.id]] + parts[::-1]))
            if isinstance(x, ast.Name) and x.id not in self.env and x.id not in self.locals:
                r = self.E.prog.lookup(self.m.name, x.id)
                parts.reverse()
                while r is not None and r[0] == "mod" and parts:
                    r = self.E.prog.lookup(r[1].name, parts.pop(0))
                if r is not None and r[0] == "ext":
                    return ("ext", ".".join([r[1]] + parts))
                if r is not None and not parts:
                    return self.resolved(r)
            return ("method", fn.attr, fn.value)
        return None

    def dotted(self, path):
        mod, _, nm = path.rpartition(".")
        if mod in self.E.prog.modules:
            r = self.E.prog.lookup(mod, nm)
            return self.resolved(r) if r is not None else None
        return ("ext", path)

    def resolved(self, r):
        if r[0] == "func":
            f = self.E.funcs.get(id(r[2]))
            return ("func", f) if f else None
        if r[0] == "ext":
            return ("ext", r[1])
        return None

    def call(self, e):
        t = self.target(e.func)
        args = [self.ev(a) for a in e.args]
        star = any(isinstance(a, ast.Starred) for a in e.args)
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        kwnode = {k.arg: k.value for k in e.keywords}
        for n in ("out",):
            if n in kws:
                v = kws[n]
                self.write(v.al | (v.el if isinstance(kwnode[n], (ast.Tuple, ast.List)) else frozenset()), e, "out= argument")
        for n in kws:
            if n in OVERWRITE and not (isinstance(kwnode[n], ast.Constant) and not kwnode[n].value) and args:
                self.write(args[0].al, e, "%s= argument" % n)
        if t is None:
            if isinstance(e.func, ast.Lambda):
                self.ev(e.func)
            return FRESH
        if t[0] == "func":
            return self.internal(e, t[1], args, kws, star)
        if t[0] == "method":
            recv = self.ev(t[2])
            nm = t[1]
            if nm in WRITE_METHODS and recv.al:
                ms = self.E.methods.get(nm)
                if not ms or any(("p", 0) in m.summary.writes for m in ms):
                    if not (nm == "resize" and recv.kind == "any"):
                        self.write(recv.al, e, "call of the in-place method %s" % nm)
            elif nm in self.E.methods:
                for m in self.E.methods[nm]:
                    w = m.summary.writes.get(("p", 0))
                    if w and recv.al:
                        self.write(recv.al, e, "call of %s, which %s" % (m.qual, w[2]))
            if nm in ("append", "add", "extend", "insert", "update", "setdefault") and isinstance(t[2], ast.Name) and t[2].id in self.env:
                el = frozenset()
                for v in args:
                    el |= v.al | v.el
                self.env[t[2].id] = V(recv.al, recv.el | el, recv.kind)
            if nm == "byteswap" and (args or kws):
                self.write(recv.al, e, "byteswap in place")
            if nm in VIEW_METHODS:
                return V(recv.al, recv.el, recv.kind)
            if nm == "astype":
                c = kwnode.get("copy")
                if c is not None and not (isinstance(c, ast.Constant) and c.value is True):
                    return V(recv.al, recv.el, recv.kind)
            if nm in ("pop", "popitem", "__next__"):
                return elem(recv)
            return FRESH
        return self.external(e, t[1], args, kws, kwnode)

    def external(self, e, path, args, kws, kwnode):
        last = path.split(".")[-1]
        top = path.split(".")[0]
        a0 = args[0] if args else kws.get("a", kws.get("x", kws.get("object", FRESH)))
        if last in WRITE_FUNCS and (top != "builtins" or last in ("setattr", "delattr")):
            self.write(a0.al if args else kws.get("dst", a0).al, e, "call of %s" % path)
            return FRESH
        if top == "numpy":
            if path.split(".")[-2:-1] and path.split(".")[-2] in UFUNC1 | UFUNC2 and last == "at":
                self.write(a0.al, e, "ufunc.at")
            if last in UFUNC1 and len(e.args) >= 2:
                self.write(args[1].al, e, "output argument of %s" % path)
            if last in UFUNC2 and len(e.args) >= 3:
                self.write(args[2].al, e, "output argument of %s" % path)
            if last == "clip" and len(e.args) >= 4:
                self.write(args[3].al, e, "output argument of %s" % path)
            if last == "nan_to_num":
                c = kwnode.get("copy") or (e.args[1] if len(e.args) > 1 else None)
                if c is not None and isinstance(c, ast.Constant) and not c.value:
                    self.write(a0.al, e, "nan_to_num in place")
                    return V(a0.al, a0.el, a0.kind)
            if last == "median" and "overwrite_input" in kwnode:
                pass
            if last in VIEW_FUNCS:
                return V(a0.al, a0.el, "arr" if a0.al else a0.kind)
            if last == "array":
                c = kwnode.get("copy")
                if c is not None and isinstance(c, ast.Constant) and c.value in (False, None):
                    return V(a0.al, (), "arr")
                return NEW
            return NEW if last in MAKERS else FRESH
        if top == "builtins":
            if last in ("enumerate", "zip", "reversed", "iter", "list", "tuple", "sorted", "map", "filter", "dict", "set"):
                el = frozenset()
                for v in args:
                    el |= v.al | v.el
                return V((), el)
            if last == "next":
                self.write({r for r in a0.al if r[0] == "g"}, e, "next() on a module-level iterator")
            if last in ("next", "max", "min"):
                return elem(a0)
            if last == "vars" or last == "getattr":
                return V(a0.al, a0.el, "any")
            if last == "memoryview":
                return a0
            return FRESH
        if path in ("copy.copy", "dataclasses.replace"):
            return V((), a0.el)
        if top == "scipy" and last in VIEW_FUNCS:
            return V(a0.al, a0.el, a0.kind)
        return FRESH

    def internal(self, e, f, args, kws, star):
        actual = {}
        for i, v in enumerate(args):
            if star:
                break
            if i < f.npos:
                actual[i] = v
        for n, v in kws.items():
            if n in f.names:
                actual[f.names.index(n)] = v
        for i, v in actual.items():
            if v.kind == "arr":
                f.arrays.add(i)
        for r, w in f.summary.writes.items():
            if r[0] == "p" and r[1] in actual:
                v = actual[r[1]]
                self.write(v.al, e, "passed to %s, which writes to it (%s, line %d)" % (f.qual, w[2], w[1]))
        al, el = set(), set()
        for r in f.summary.ret:
            if r[0] == "p" and r[1] in actual:
                al |= actual[r[1]].al
                el |= actual[r[1]].el
            elif r[0] == "g":
                al.add(r)
            elif r[0] == "d" and r[1] not in actual:
                al.add(("dx", f.qual, r[1]))
        for r in f.summary.retel:
            if r[0] == "p" and r[1] in actual:
                el |= actual[r[1]].al | actual[r[1]].el
            elif r[0] == "g":
                el.add(r)
        return V(al, el, "arr" if al else "any")


def elem(v):
    return V(v.al | v.el, v.el, "any") if v.al or v.el else FRESH


def local_imports(m, fn):
    out = {}
    for x in ast.walk(fn):
        if isinstance(x, ast.Import):
            for a in x.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(x, ast.ImportFrom):
            base = m.resolve_rel(x.module, x.level)
            for a in x.names:
                out[a.asname or a.name] = base + "." + a.name
    return out


def int_names(fn):
    """names that only ever hold integers: loop counters"""
    out, other = set(), set()
    for x in ast.walk(fn):
        if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name):
            t = x.target
            if x.iter.func.id == "range" and isinstance(t, ast.Name):
                out.add(t.id)
            elif x.iter.func.id == "enumerate" and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                out.add(t.elts[0].id)
        elif isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        other.add(n.id)
    return out - other


def intlike(x, ints):
    if isinstance(x, ast.Constant):
        return isinstance(x.value, int)
    if isinstance(x, ast.Name):
        return x.id in ints
    if isinstance(x, ast.UnaryOp):
        return isinstance(x.op, ast.USub) and intlike(x.operand, ints)
    if isinstance(x, ast.BinOp):
        return intlike(x.left, ints) and intlike(x.right, ints)
    return isinstance(x, ast.Constant) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("int", "len")


def index_kind(s, ints=()):
    """slice: a view; fancy: a copy; else an element"""
    items = s.elts if isinstance(s, ast.Tuple) else [s]
    if isinstance(s, ast.Constant) and isinstance(s.value, str):
        return "elem"
    if all(isinstance(x, ast.Slice) or (isinstance(x, ast.Constant) and x.value in (None, Ellipsis)) for x in items):
        return "slice"
    if all(isinstance(x, ast.Slice) or (isinstance(x, ast.Constant) and x.value in (None, Ellipsis)) or intlike(x, ints) for x in items):
        return "slice" if any(isinstance(x, ast.Slice) for x in items) else "elem"
    return "fancy"


def assigned_names(fn):
    out = set()
    gl = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.Global):
            gl |= set(x.names)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            out.add(x.name)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            pass
    return out - gl


def array_uses(fn):
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name):
            out.add(x.value.id)
        elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.attr in ("shape", "T", "ndim", "size", "dtype", "sum", "mean", "max", "min", "copy"):
            out.add(x.value.id)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and x.args and isinstance(x.args[0], ast.Name):
            out.add(x.args[0].id)
    return out
