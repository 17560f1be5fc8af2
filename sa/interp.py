"""Abstract interpreter: syntax tree -> value-number terms.

Every construct is evaluated once on symbolic inputs; branches are merged with
decision diagrams, loops are summarised (parallel stores, accumulations,
first-order recurrences) instead of being run, calls are expanded through the
resolved call graph or kept as opaque primitives.  Anything outside the model
becomes an `unknown` term, which can never contribute to an alarm.
"""
import ast
from fractions import Fraction as Fr
from . import terms as tm
from .terms import (T, const, add, sub, mul, div, neg, power, func, ite, lt, le, eq, truth, band, bor, bnot,
                    TRUE, FALSE, NONE, ZERO, ONE, cval, string, unknown, fresh, subst, lift, el)

UNROLL = 40


class Arr:
    """immutable array value in index notation"""
    __slots__ = ("shape", "fn", "memo", "islist", "comp", "dt")

    def __init__(self, shape, fn, islist=False, comp=None, dt=None):
        self.shape = tuple(shape)
        self.fn = fn
        self.memo = {}
        self.islist = islist
        self.comp = comp    # (mask Arr, fn of positions) for a[mask]
        self.dt = dt

    @property
    def rank(self):
        return len(self.shape)

    def get(self, *idx):
        r = self.memo.get(idx)
        if r is None:
            if any(i.op == "ite" for i in idx):
                r = lift(lambda *ii: self.get(*ii), *idx)
            else:
                r = self.fn(*idx)
            self.memo[idx] = r
        return r

    def as_lam(self):
        return tm.lam(self.shape, self.get)


class Cell:
    __slots__ = ("kind", "id", "view", "cls", "name")
    n = 0

    def __init__(self, kind, view=None, cls=None, name=None):
        Cell.n += 1
        self.kind, self.id, self.view, self.cls, self.name = kind, Cell.n, view, cls, name


class Tup:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Choice:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class FuncVal:
    def __init__(self, module, node, env=None, name=None):
        self.module, self.node, self.env = module, node, env
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = None

    @property
    def qual(self):
        return self.module.name + "." + self.name


class ClassVal:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name


class ExtVal:
    def __init__(self, path):
        self.path = path


class ModVal:
    def __init__(self, module):
        self.module = module


class Method:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class RangeVal:
    def __init__(self, lo, n, step):
        self.lo, self.n, self.step = lo, n, step


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Seq:
    """lazy sequence: n items, item(k) -> value"""

    def __init__(self, n, item):
        self.n, self.item = n, item


class MaskIdx:
    def __init__(self, mask):
        self.mask = mask


ELLIPSIS = object()


class State:
    __slots__ = ("env", "heap", "live", "rets", "brk", "cont")

    def __init__(self, env, heap, live):
        self.env, self.heap, self.live = env, heap, live
        self.rets = []     # (cond, value)
        self.brk = FALSE
        self.cont = FALSE

    def fork(self):
        s = State(dict(self.env), dict(self.heap), self.live)
        s.rets = list(self.rets)
        s.brk, s.cont = self.brk, self.cont
        return s


class Raised:
    def __init__(self, cond, exc, loc):
        self.cond, self.exc, self.loc = cond, exc, loc


class Unsupported(Exception):
    pass


SUMMARY = {}       # value-numbered calls: (function, argument values) -> result
_ks = {}


def key_sym(k, d):
    s = _ks.get((k, d))
    if s is None:
        s = _ks[(k, d)] = fresh("a", hi=sub(d, ONE))
    return s


class Interp:
    def __init__(self, prog, opaque=None, maxdepth=50):
        self.prog = prog
        self.opaque = opaque or {}
        self.heap = {}
        self.st = State({}, self.heap, TRUE)
        self.raises = []
        self.depth = 0
        self.cutite = ()           # functions whose results by cases are value-numbered
        self.cutret = False        # value-number the arrays that nested calls return
        self.maxdepth = maxdepth
        self.modcache = {}
        self.loc = ("", 0, "")
        self.notes = []
        self.calls = set()         # (caller qual, callee, line)
        self.funcs = set()         # functions expanded
        self.fstack = []
        from . import npmodel
        self.np = npmodel.Model(self)

    # ---------------------------------------------------------------- heap
    def new(self, arr):
        c = Cell("arr")
        self.st.heap[c.id] = arr
        return c

    def newlist(self, items):
        c = Cell("list")
        self.st.heap[c.id] = tuple(items)
        return c

    def newdict(self, d):
        c = Cell("dict")
        self.st.heap[c.id] = dict(d)
        return c

    def newobj(self, cls, d):
        c = Cell("obj", cls=cls)
        self.st.heap[c.id] = dict(d)
        return c

    def deref(self, c):
        if c.view is not None:
            base, spec = c.view
            b = self.deref(base)
            if b is None or isinstance(b, T):
                return b
            return spec[0](b)
        return self.st.heap.get(c.id)

    def write(self, c, content):
        if c.view is not None:
            base, spec = c.view
            nb = spec[1](self.deref(base), content) if spec[1] else None
            if nb is None:
                self.note("store through a view that is not modelled")
                self.write(base, self.unk_arr(self.deref(base), "store through view"))
            else:
                self.write(base, nb)
            return
        self.st.heap[c.id] = content

    def unk_arr(self, a, why):
        if isinstance(a, Arr):
            u = unknown(why)
            return Arr(a.shape, lambda *i: u, a.islist)
        return unknown(why)

    def note(self, s):
        if len(self.notes) < 200:
            self.notes.append("%s:%s: %s" % (self.loc[0], self.loc[1], s))

    def unk(self, why):
        self.note(why)
        return unknown(why)

    # -------------------------------------------------------------- arrays
    def arr(self, v):
        """Arr view of a value (or None)"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, Cell):
            if v.kind == "arr":
                a = self.deref(v)
                return a if isinstance(a, Arr) else None
            if v.kind == "list":
                c = self.deref(v)
                if isinstance(c, Arr):
                    return c
                return self.static_arr(c, True) if isinstance(c, (tuple, list)) else None
            return None
        if isinstance(v, Tup):
            return self.static_arr(v.items, False)
        if isinstance(v, RangeVal):
            return Arr((v.n,), lambda k: add(v.lo, mul(k, v.step)), True)
        if isinstance(v, Seq):
            return self.seq_arr(v)
        return None

    def cutarr(self, a, lim=None):
        """value-number a large array expression (see terms.cut_term)"""
        if not isinstance(a, Arr) or a.rank == 0 or a.comp is not None:
            return a
        try:
            idx = [fresh("c", hi=sub(n, ONE) if n.op != "ite" else None) for n in a.shape]
            g = tm.cut_term(a.get(*idx), idx, lim)
        except tm.Blowup:
            raise
        if g is None:
            return a
        return Arr(a.shape, g, a.islist, None, a.dt)

    def cut_heap(self):
        """at loop entry: abbreviate every large array in the heap"""
        for c, v in list(self.st.heap.items()):
            if isinstance(v, Arr):
                w = self.cutarr(v)
                if w is not v:
                    self.st.heap[c] = w

    def static_arr(self, items, islist):
        if not items:
            return Arr((ZERO,), lambda *i: unknown("element of empty list"), islist)
        subs = []
        for x in items:
            if isinstance(x, T):
                subs.append(x)
            else:
                a = self.arr(x)
                if a is None:
                    return None
                subs.append(a)
        if any(isinstance(x, T) and x.op == "unknown" for x in subs):
            return None                     # may be a row of anything
        if all(isinstance(x, T) for x in subs):
            return Arr((const(len(subs)),), lambda k: pick(k, subs), islist)
        if any(isinstance(x, T) for x in subs):
            return None
        r = subs[0].rank
        if any(x.rank != r for x in subs):
            return None
        return Arr((const(len(subs)),) + subs[0].shape,
                   lambda k, *rest: pick(k, [x.get(*rest) if cval(k) is None or int(cval(k)) == j else None
                                             for j, x in enumerate(subs)]), islist)

    def seq_arr(self, s):
        """materialise a lazy sequence as an array"""
        k = fresh("q", hi=sub(s.n, ONE))
        v = s.item(k)
        return self.value_arr(s.n, k, v)

    def value_arr(self, n, k, v, islist=True):
        if isinstance(v, T):
            if v.op == "unknown":
                return None
            return Arr((n,), lambda i: subst(v, {k: i}), islist)
        a = self.arr(v)
        if a is None or any(tm.atoms_of(d, lambda y: y is k) for d in a.shape):
            return None                     # rows of different lengths are not an array
        return Arr((n,) + tuple(a.shape),
                   lambda i, *rest: subst(a.get(*rest), {k: i}), islist)

    def val(self, a):
        """wrap an Arr as a value"""
        return self.new(a)

    # ------------------------------------------------------------ iteration
    def seq(self, v):
        """(n term, item fn, static items or None)"""
        if isinstance(v, RangeVal):
            return v.n, lambda k: add(v.lo, mul(k, v.step)), None
        if isinstance(v, Seq):
            return v.n, v.item, None
        if isinstance(v, Tup):
            return const(len(v.items)), None, list(v.items)
        if isinstance(v, Cell):
            c = self.deref(v)
            if v.kind == "list" and isinstance(c, tuple):
                return const(len(c)), None, list(c)
            if v.kind == "dict":
                return const(len(c)), None, [k if isinstance(k, T) else string(k) for k in c]
            if isinstance(c, Arr):
                if c.rank == 0:
                    return None
                if c.rank == 1:
                    return c.shape[0], lambda k: c.get(k), None
                return c.shape[0], lambda k: self.index(v, [k]), None
        if isinstance(v, Arr):
            return self.seq(self.new(v))
        if isinstance(v, T) and v.op == "str":
            return const(len(v.args[0])), None, [string(x) for x in v.args[0]]
        return None

    # --------------------------------------------------------- merge values
    def vmerge(self, c, a, b, h1=None, h2=None):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, T) and isinstance(b, T):
            ka = a.op in ("none", "str", "obj")
            kb = b.op in ("none", "str", "obj")
            return ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.vmerge(c, x, y, h1, h2) for x, y in zip(a.items, b.items)])
        if isinstance(a, Cell) and isinstance(b, Cell) and a.kind in ("arr", "list") and b.kind in ("arr", "list"):
            A = self.arr_in(a, h1)
            B = self.arr_in(b, h2)
            if A is not None and B is not None and A.rank == B.rank:
                m = self.amerge(c, A, B)
                return self.new(m)
            if a.kind == b.kind == "list" and A is not None and B is not None:
                pass
        if isinstance(a, Cell) and isinstance(b, Cell) and a.kind == b.kind == "obj" and a.cls is b.cls:
            da = (h1 or self.st.heap).get(a.id)
            db = (h2 or self.st.heap).get(b.id)
            if da is not None and db is not None and set(da) == set(db):
                return self.newobj(a.cls, {k: self.vmerge(c, da[k], db[k], h1, h2) for k in da})
        return Choice(c, a, b)

    def arr_in(self, c, heap):
        if heap is None:
            return self.arr(c)
        save = self.st.heap
        self.st.heap = heap
        try:
            return self.arr(c)
        finally:
            self.st.heap = save

    def amerge(self, c, A, B):
        if A is B:
            return A
        return Arr([ite(c, x, y) for x, y in zip(A.shape, B.shape)],
                   lambda *i: ite(c, A.get(*i), B.get(*i)), A.islist or B.islist)

    def merge_states(self, c, s1, s2):
        l1, l2 = s1.live, s2.live
        brk, cont = bor(s1.brk, s2.brk), bor(s1.cont, s2.cont)
        rets = list(s1.rets)
        have = set(id(x) for x in rets)
        rets += [x for x in s2.rets if id(x) not in have]
        if l1 is FALSE and l2 is not FALSE:
            s2.rets, s2.brk, s2.cont = rets, brk, cont
            self.merge_brk(s2, s1, c)
            return s2
        if l2 is FALSE and l1 is not FALSE:
            s1.rets, s1.brk, s1.cont = rets, brk, cont
            return s1
        st = State({}, {}, bor(l1, l2))
        st.rets, st.brk, st.cont = rets, brk, cont
        heap = dict(s1.heap)
        for k, v in s2.heap.items():
            if k not in heap:
                heap[k] = v
        st.heap = heap
        save = self.st
        self.st = st
        for k, v in s2.heap.items():
            if k in s1.heap and s1.heap[k] is not v:
                heap[k] = self.cmerge(c, s1.heap[k], v, s1.heap, s2.heap)
        for n in set(s1.env) | set(s2.env):
            if n in s1.env and n in s2.env:
                st.env[n] = self.vmerge(c, s1.env[n], s2.env[n], s1.heap, s2.heap)
            else:
                st.env[n] = s1.env.get(n, s2.env.get(n))
        self.st = save
        return st

    def merge_brk(self, live, dead, c):
        pass

    def cmerge(self, c, a, b, h1, h2):
        if a is b:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank:
            return self.amerge(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.vmerge(c, x, y, h1, h2) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return {k: self.vmerge(c, a[k], b[k], h1, h2) for k in a}
        if isinstance(a, ListAcc) and isinstance(b, ListAcc):
            return ListAcc(a.base, a.items, True)
        if isinstance(a, (Arr, tuple)) and isinstance(b, (Arr, tuple)):
            x = a if isinstance(a, Arr) else self.static_arr(a, True)
            y = b if isinstance(b, Arr) else self.static_arr(b, True)
            if x is not None and y is not None and x.rank == y.rank:
                return self.amerge(c, x, y)
        return self.unk("merge of incompatible contents")

    # ------------------------------------------------------------- raising
    def do_raise(self, exc, cond=None):
        c = self.st.live if cond is None else band(self.st.live, cond)
        if c is FALSE:
            return
        self.raises.append(Raised(c, exc, self.loc + (tuple(self.fstack[-1:]),)))
        self.st.live = band(self.st.live, bnot(c))

    # ------------------------------------------------------------ functions
    def function(self, modname, name):
        r = self.prog.lookup(modname, name)
        if r is None or r[0] != "func":
            return None
        return FuncVal(r[1], r[2])

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Choice):
            return self.choice_call(f, args, kwargs, node)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw, node)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, ClassVal):
            return self.construct(f, args, kwargs)
        if isinstance(f, Method):
            for a in list(args) + list(kwargs.values()) + [f.obj]:
                if isinstance(a, Choice):
                    return self.dist_call(f, args, kwargs, node)
            return self.np.method(f.obj, f.name, args, kwargs)
        if isinstance(f, ExtVal):
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, Choice):
                    return self.dist_call(f, args, kwargs, node)
            return self.np.call(f.path, args, kwargs)
        if isinstance(f, T) and f is NONE:
            self.do_raise("TypeError")
            return unknown("raised")
        return self.unk("call of an unresolved value")

    def dist_call(self, f, args, kwargs, node):
        """distribute a call over the first Choice among its operands"""
        obj = f.obj if isinstance(f, Method) else None
        ch = None
        for a in ([obj] if obj is not None else []) + list(args) + list(kwargs.values()):
            if isinstance(a, Choice):
                ch = a
                break

        def side(v):
            rep = lambda x: v if x is ch else x
            ff = Method(rep(obj), f.name) if obj is not None else f
            return lambda: self.call(ff, [rep(a) for a in args], {k: rep(a) for k, a in kwargs.items()}, node)
        return self.two(ch.c, side(ch.a), side(ch.b))

    def two(self, c, fa, fb):
        """evaluate both alternatives under their conditions and merge"""
        live = self.st.live
        l1, l2 = band(live, c), band(live, bnot(c))
        if l1 is FALSE:
            return fb()
        if l2 is FALSE:
            return fa()
        self.st.live = l1
        a = fa()
        r1 = self.st.live
        self.st.live = l2
        b = fb()
        r2 = self.st.live
        self.st.live = bor(r1, r2)
        if r1 is FALSE:
            return b
        if r2 is FALSE:
            return a
        return self.vmerge(c, a, b)

    def choice_call(self, f, args, kwargs, node):
        return self.two(f.c, lambda: self.call(f.a, args, kwargs, node), lambda: self.call(f.b, args, kwargs, node))

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        for k, v in enumerate(args):
            if k < len(pos):
                env[pos[k]] = v
            else:
                rest.append(v)
        extra = {}
        names = set(pos) | set(x.arg for x in a.kwonlyargs)
        for k, v in kwargs.items():
            if k in names and k not in env:
                env[k] = v
            elif k in env:
                self.do_raise("TypeError")
            else:
                extra[k] = v
        if a.vararg:
            env[a.vararg.arg] = Tup(rest)
        elif rest:
            self.do_raise("TypeError")
        if a.kwarg:
            env[a.kwarg.arg] = self.newdict(extra)
        elif extra:
            self.do_raise("TypeError")
        nd = len(a.defaults)
        for k, d in enumerate(a.defaults):
            n = pos[len(pos) - nd + k]
            if n not in env:
                env[n] = self.default(f, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default(f, d)
        for n in list(pos) + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                self.do_raise("TypeError")
                env[n] = unknown("missing argument")
        return env

    def default(self, f, d):
        return self.eval_in(f.module, d, dict(f.env or {}))

    def eval_in(self, module, expr, env):
        save_m = self.fstack
        save_env = self.st.env
        self.fstack = self.fstack + [(module, "<default>")]
        self.st.env = env
        try:
            return self.eval(expr)
        finally:
            self.st.env = save_env
            self.fstack = save_m

    def call_func(self, f, args, kwargs, node=None):
        q = f.qual
        self.calls.add((self.fstack[-1][1] if self.fstack else "", q, self.loc[1]))
        if q in self.opaque and f.env is None:
            env = self.bind_args(f, args, kwargs)
            return self.opaque[q](self, f, env)
        for d in getattr(f.node, "decorator_list", []):
            n = dotted(d.func if isinstance(d, ast.Call) else d)
            if n and n.split(".")[-1] in ("lru_cache", "cache", "wraps", "staticmethod", "njit", "jit", "vectorize"):
                continue
            return self.unk("decorated function " + q)
        if self.depth > self.maxdepth:
            return self.unk("call depth")
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f.node)):
            return self.unk("generator " + q)
        env = dict(f.env or {})
        env.update(self.bind_args(f, args, kwargs))
        if self.st.live is FALSE:
            return unknown("raised")
        self.funcs.add(q)
        cutting = self.cutret is True or (self.cutret and q in self.cutret)
        if cutting:
            self.cut_cells(list(args) + list(kwargs.values()))
        key = None
        if cutting and self.depth > 0 and not f.env:
            key = self.call_key(q, env)
            hit = SUMMARY.get(key) if key is not None else None
            if hit is not None:
                for a in hit[1]:
                    if a not in tm.ASSUME:
                        tm.ASSUME.append(a)
                return self.thaw(hit[0])
            before = (self.st.live, dict(self.st.heap), len(self.raises), list(tm.ASSUME), len(self.notes))
        saved = self.st
        sloc = self.loc
        st = State(env, saved.heap, saved.live)
        self.st = st
        self.depth += 1
        self.fstack.append((f.module, q))
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                self.st.rets.append((self.st.live, v, self.st.heap))
                self.st.live = FALSE
            else:
                self.block(f.node.body)
                if self.st.live is not FALSE:
                    self.st.rets.append((self.st.live, NONE, self.st.heap))
        finally:
            self.fstack.pop()
            self.depth -= 1
            st = self.st
            self.st = saved
            self.loc = sloc
        rets = [r for r in st.rets if r[0] is not FALSE]
        if not rets:
            saved.live = FALSE
            saved.heap = st.heap
            return unknown("raised")
        # merge returns (and their heaps)
        c, v, h = rets[-1]
        live = c
        for c2, v2, h2 in reversed(rets[:-1]):
            s1, s2 = State({"r": v2}, h2, c2), State({"r": v}, h, live)
            m = self.merge_states(c2, s1, s2)
            v, h, live = m.env["r"], m.heap, m.live
        saved.heap = h
        saved.live = live
        if q in self.cutite and self.depth > 0:
            v = self.cut_cases(v)
        if cutting and self.depth > 0:
            self.cut_cells(v.items if isinstance(v, Tup) else [v])
        if key is not None:
            v = self.summarise(key, v, before)
        return v

    def call_key(self, q, env):
        """value numbers of the arguments of a call, None when one is not tracked"""
        out = [q, tuple(a for a in tm.ASSUME)]
        for n, v in sorted(env.items()):
            k = self.value_key(v)
            if k is None:
                return None
            out.append((n, k))
        return tuple(out)

    def value_key(self, v):
        if isinstance(v, T):
            return None if v.unk else v
        if isinstance(v, Tup):
            ks = tuple(self.value_key(x) for x in v.items)
            return None if None in ks else ("tup",) + ks
        if isinstance(v, Cell) and v.kind == "obj":
            d = self.deref(v)
            if not isinstance(d, dict):
                return None
            ks = tuple((n, self.value_key(x)) for n, x in sorted(d.items()))
            return None if any(k is None for _, k in ks) else ("obj", ks)
        if isinstance(v, Cell) and v.kind == "arr":
            a = self.arr(v)
            if not isinstance(a, Arr) or a.comp is not None or any(d.unk or d.op == "ite" for d in a.shape):
                return None
            idx = [key_sym(k, d) for k, d in enumerate(a.shape)]
            try:
                e = a.get(*idx)
            except tm.Blowup:
                return None
            return None if e.unk else ("arr", a.shape, e, a.dt)
        return None

    def summarise(self, key, v, before):
        live, heap, nr, facts, notes = before
        if self.st.live is not live or len(self.notes) != notes:
            return v
        if any(r.cond is not FALSE for r in self.raises[nr:]):
            return v
        h = self.st.heap
        if any(h.get(k) is not x for k, x in heap.items()):
            return v
        fz = self.freeze(v, heap)
        if fz is not None:
            SUMMARY[key] = (fz, [a for a in tm.ASSUME if a not in facts])
            return self.thaw(fz)
        return v

    def freeze(self, v, heap):
        if isinstance(v, T):
            return None if v.unk else v
        if isinstance(v, Tup):
            xs = [self.freeze(x, heap) for x in v.items]
            return None if any(x is None for x in xs) else Tup(xs)
        if isinstance(v, Cell) and v.kind == "arr":
            r = v
            while r.view is not None:
                r = r.view[0]
            a = self.arr(v)
            return a if isinstance(a, Arr) and r.id not in heap else None
        return None

    def thaw(self, x):
        if isinstance(x, Tup):
            return Tup([self.thaw(y) for y in x.items])
        return self.new(x) if isinstance(x, Arr) else x

    def cut_cases(self, v):
        """value-number a result defined by cases"""
        if isinstance(v, T):
            if v.op == "ite":
                g = tm.cut_term(v, [], 3)
                return g() if g else v
            return v
        if isinstance(v, Cell) and v.kind == "arr" and v.view is None:
            a = self.st.heap.get(v.id)
            if isinstance(a, Arr) and a.rank and a.comp is None:
                idx = [fresh("c", hi=sub(n, ONE) if n.op != "ite" else None) for n in a.shape]
                if a.get(*idx).op == "ite":
                    self.st.heap[v.id] = self.cutarr(a, 3)
        return v

    def cut_cells(self, vs):
        h = self.st.heap
        for x in vs:
            if isinstance(x, Cell) and x.kind == "arr":
                while x.view is not None:
                    x = x.view[0]
                a = h.get(x.id)
                if isinstance(a, Arr):
                    h[x.id] = self.cutarr(a, 6)

    def construct(self, cls, args, kwargs):
        node = cls.node
        decs = [dotted(d.func if isinstance(d, ast.Call) else d) or "" for d in node.decorator_list]
        for b in node.bases:
            n = dotted(b) or ""
            if n.split(".")[-1] == "NamedTuple":
                decs.append("dataclass")
        attrs = {}
        if any(d.split(".")[-1] == "dataclass" for d in decs):
            fields = []
            for s in node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    fields.append((s.target.id, s.value))
            vals = dict(zip([f for f, _ in fields], args))
            vals.update(kwargs)
            for n, d in fields:
                if n in vals:
                    attrs[n] = vals[n]
                elif d is not None:
                    attrs[n] = self.field_default(cls, d)
                else:
                    self.do_raise("TypeError")
            for s in node.body:
                if isinstance(s, ast.FunctionDef) and s.name == "__post_init__":
                    o = self.newobj(cls, attrs)
                    self.call_func(FuncVal(cls.module, s, {}, cls.name + "." + s.name), [o], {})
                    return o
            return self.newobj(cls, attrs)
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and s.name == "__init__":
                o = self.newobj(cls, attrs)
                self.call_func(FuncVal(cls.module, s, {}, cls.name + "." + s.name), [o] + list(args), kwargs)
                return o
        return self.newobj(cls, {"args": Tup(args)})

    def field_default(self, cls, d):
        if isinstance(d, ast.Call) and (dotted(d.func) or "").split(".")[-1] == "field":
            for k in d.keywords:
                if k.arg == "default":
                    return self.eval_in(cls.module, k.value, {})
                if k.arg == "default_factory":
                    return self.call(self.eval_in(cls.module, k.value, {}), [], {})
        return self.eval_in(cls.module, d, {})

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.st.live is FALSE:
                return
            self.stmt(s)

    def stmt(self, s):
        m = self.fstack[-1][0] if self.fstack else None
        self.loc = (m.path if m else "", getattr(s, "lineno", 0), self.fstack[-1][1] if self.fstack else "")
        k = type(s).__name__
        h = getattr(self, "s_" + k, None)
        if h is None:
            self.note("statement " + k + " not modelled")
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.st.env[n.id] = unknown("statement " + k)
            return
        h(s)

    def s_Pass(self, s):
        pass

    def s__Exec(self, s):
        s.f()

    def s_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            self.st.env[nm] = ModVal(self.prog.modules[full]) if full in self.prog.modules else ExtVal(full)

    def s_ImportFrom(self, s):
        m = self.fstack[-1][0]
        base = m.resolve_rel(s.module, s.level)
        for a in s.names:
            self.st.env[a.asname or a.name] = self.resolved(self.prog.lookup(base, a.name) or ("ext", (base or "") + "." + a.name))

    def s_Global(self, s):
        self.note("global statement")

    s_Nonlocal = s_Global

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.do_raise("AssertionError", bnot(c))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)

    def s_FunctionDef(self, s):
        self.st.env[s.name] = FuncVal(self.fstack[-1][0], s, self.st.env, s.name)

    def s_ClassDef(self, s):
        self.st.env[s.name] = ClassVal(self.fstack[-1][0], s)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.st.rets.append((self.st.live, v, self.st.heap))
        self.st.live = FALSE

    def s_Raise(self, s):
        exc = "?"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                f = self.eval(e.func)
            else:
                f = self.eval(e)
            if isinstance(f, ClassVal):
                exc = f.module.name + "." + f.name
            elif isinstance(f, ExtVal):
                exc = f.path.split(".")[-1]
            elif isinstance(f, Cell) and f.kind == "obj" and f.cls is not None:
                exc = f.cls.module.name + "." + f.cls.name
            elif isinstance(f, FuncVal):
                v = self.eval(e)
                if isinstance(v, Cell) and v.kind == "obj" and v.cls is not None:
                    exc = v.cls.module.name + "." + v.cls.name
        self.do_raise(exc)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target))
            v = self.eval(s.value)
            if isinstance(cur, Cell) and cur.kind == "arr":
                r = self.binop(op, cur, v)
                a = self.arr(r)
                if a is None:
                    a = self.unk_arr(self.deref(cur), "augmented assignment")
                self.write(cur, a)
                return
            if isinstance(cur, Cell) and cur.kind == "list" and op == "Add":
                self.np.method(cur, "extend", [v], {})
                return
            self.st.env[s.target.id] = self.binop(op, cur, v)
            return
        if isinstance(s.target, ast.Subscript):
            base = self.eval(s.target.value)
            idx = self.index_items(s.target.slice)
            cur = self.getitem(base, idx)
            v = self.binop(op, cur, self.eval(s.value))
            self.store(s.target, base, idx, v)
            return
        if isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.binop(op, cur, self.eval(s.value)))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            self.store(t, base, self.index_items(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def unpack(self, elts, v):
        if isinstance(v, Choice):
            for k, e in enumerate(elts):
                self.assign(e, self.getitem(v, [const(k)]))
            return
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        s = self.seq(v)
        if s is None:
            for e in elts:
                self.assign(e, self.unk("unpacking"))
            return
        n, item, static = s
        if star:
            if static is None:
                for e in elts:
                    self.assign(e, self.unk("starred unpacking"))
                return
            k = star[0]
            after = len(elts) - k - 1
            for j in range(k):
                self.assign(elts[j], static[j])
            self.assign(elts[k].value, self.newlist(static[k:len(static) - after]))
            for j in range(after):
                self.assign(elts[k + 1 + j], static[len(static) - after + j])
            return
        for k, e in enumerate(elts):
            if static is not None:
                if len(static) != len(elts):
                    self.do_raise("ValueError")
                    self.assign(e, unknown("raised"))
                    continue
                self.assign(e, static[k])
            else:
                self.assign(e, item(const(k)))

    def setattr(self, o, name, v):
        if isinstance(o, Cell) and o.kind == "obj":
            d = dict(self.deref(o))
            d[name] = v
            self.write(o, d)
        elif isinstance(o, Cell) and o.kind == "arr" and name == "shape":
            self.write(o, self.unk_arr(self.deref(o), "shape assignment"))
        else:
            self.note("attribute store not modelled")

    # ---------------------------------------------------------- control flow
    def cond(self, e):
        v = self.eval(e)
        return self.truthv(v)

    def truthv(self, v):
        if isinstance(v, T):
            if v.unk and v.op == "unknown":
                return tm.batom(v)
            return truth(v)
        if isinstance(v, Choice):
            return ite(v.c, self.truthv(v.a), self.truthv(v.b))
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, RangeVal):
            return lt(ZERO, v.n)
        if isinstance(v, Cell):
            c = self.deref(v)
            if v.kind in ("list", "dict") and isinstance(c, (tuple, dict)):
                return TRUE if c else FALSE
            if isinstance(c, Arr) and (c.islist):
                return lt(ZERO, c.shape[0])
            if isinstance(c, Arr):
                n = cval(c.shape[0]) if c.rank == 1 else None
                if n == 1:
                    return truth(c.get(ZERO))
                return tm.batom(tm.app("truth", c.as_lam()))
            return TRUE
        if isinstance(v, (FuncVal, ClassVal, ExtVal, ModVal, Partial)):
            return TRUE
        return tm.batom(unknown("truth value"))

    def ctx(self, c):
        """simplify a condition by the current path condition"""
        live = self.st.live
        if c in (TRUE, FALSE) or live is TRUE:
            return c
        if band(live, c) is FALSE:
            return FALSE
        if band(live, bnot(c)) is FALSE:
            return TRUE
        return c

    def s_If(self, s):
        c = self.ctx(self.cond(s.test))
        if self.st.live is FALSE:
            return
        if c is TRUE:
            return self.block(s.body)
        if c is FALSE:
            return self.block(s.orelse)
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, f1, f2):
        s1, s2 = self.st, self.st.fork()
        s1.live = band(s1.live, c)
        s2.live = band(s2.live, bnot(c))
        f1()
        s1 = self.st
        self.st = s2
        f2()
        s2 = self.st
        self.st = s1
        self.st = self.merge_states(c, s1, s2)

    def s_Match(self, s):
        subj = self.eval(s.subject)

        def pat(p):
            if isinstance(p, ast.MatchValue):
                return self.compare1("Eq", subj, self.eval(p.value))
            if isinstance(p, ast.MatchSingleton):
                return self.compare1("Is", subj, self.constant(p.value))
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    self.st.env[p.name] = subj
                return TRUE
            if isinstance(p, ast.MatchOr):
                r = FALSE
                for q in p.patterns:
                    r = bor(r, pat(q))
                return r
            return tm.batom(unknown("pattern"))

        def go(cases):
            if not cases:
                return
            cs = cases[0]
            c = pat(cs.pattern)
            if cs.guard is not None:
                c = band(c, self.cond(cs.guard))
            c = self.ctx(c)
            if c is TRUE:
                return self.block(cs.body)
            if c is FALSE:
                return go(cases[1:])
            self.branch(c, lambda: self.block(cs.body), lambda: go(cases[1:]))
        go(s.cases)

    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.unk("context manager"))
        self.block(s.body)

    def s_Try(self, s):
        n0 = len(self.raises)
        entry = self.st.fork()
        self.block(s.body)
        new = self.raises[n0:]
        if new and s.handlers:
            caught, rest = [], []
            for r in new:
                h = self.handler_for(s.handlers, r.exc)
                if h is None:
                    rest.append(r)
                else:
                    caught.append((r, h))
            self.raises[n0:] = rest
            for r, h in caught:
                main = self.st
                hs = entry.fork()
                hs.live = r.cond
                hs.rets = list(main.rets)
                self.st = hs
                if h.name:
                    hs.env[h.name] = self.newobj(None, {"args": Tup([])})
                self.block(h.body)
                hs = self.st
                self.st = main
                self.st = self.merge_states(r.cond, hs, main)
        if self.st.live is not FALSE:
            self.block(s.orelse)
        fin = self.st
        if s.finalbody:
            if fin.live is FALSE:
                return
            self.block(s.finalbody)

    def handler_for(self, handlers, exc):
        e = exc.split(".")[-1]
        anc = {e, "Exception", "BaseException"} | set(self.ancestors(exc))
        if e in ("KeyError", "IndexError"):
            anc.add("LookupError")
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                if (dotted(t) or "?").split(".")[-1] in anc:
                    return h
        return None

    def ancestors(self, exc):
        out = []
        mod, _, nm = exc.rpartition(".")
        r = self.prog.lookup(mod, nm) if mod in self.prog.modules else None
        if r and r[0] == "class":
            for b in r[2].bases:
                n = dotted(b)
                if n:
                    out.append(n.split(".")[-1])
                    rr = self.prog.lookup(r[1].name, n)
                    if rr and rr[0] == "class":
                        out += self.ancestors(rr[1].name + "." + n)
        return out

    def s_Break(self, s):
        self.st.brk = bor(self.st.brk, self.st.live)
        self.st.live = FALSE

    def s_Continue(self, s):
        self.st.cont = bor(self.st.cont, self.st.live)
        self.st.live = FALSE

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.eval(s.iter)
        if isinstance(it, Choice):
            return self.kill_assigned(s, "loop over alternatives")
        sq = self.seq(it)
        if sq is None:
            return self.kill_assigned(s, "loop over an unknown iterable")
        n, item, static = sq
        cn = cval(n)
        if static is None and cn is not None and cn <= UNROLL:
            static = [item(const(k)) for k in range(int(max(cn, 0)))]
        if static is not None:
            return self.unroll(s, static)
        from . import loops
        if isinstance(it, RangeVal) and not it.lo.unk and tm.atoms_of(it.lo, lambda x: x.op == "ite" or x.op == "thr"):
            return self.for_cut(s, it)
        loops.summarise_for(self, s, n, item)

    def for_cut(self, s, it):
        """the first value of the range is a case distinction: summarise the
        loop for any first value, then put the actual one back"""
        from . import loops
        b = tm.bounds(it.lo)[0]
        lo = tm.fresh("lo", lo=b if b > -10 ** 9 else None)
        n = tm.fresh("n", lo=0) if not cval(it.n) else it.n
        mp = {lo: it.lo, n: it.n} if n is not it.n else {lo: it.lo}
        rv = RangeVal(lo, n, it.step)
        nr = len(self.raises)
        before = dict(self.st.heap)
        n_, item, _ = self.seq(rv)
        loops.summarise_for(self, s, n_, item)
        st = self.st

        def back(v):
            if isinstance(v, T):
                return tm.subst(v, mp)
            if isinstance(v, Tup):
                return Tup([back(x) for x in v.items])
            if isinstance(v, Arr):
                return Arr([back(d) for d in v.shape], lambda *i, v=v: tm.subst(v.get(*i), mp), v.islist)
            if isinstance(v, (Cell, str, int, float, type(None))):
                return v
            if type(v) is tuple:
                return tuple(back(x) for x in v)
            return v
        for c, v in list(st.heap.items()):
            if before.get(c) is not v:
                st.heap[c] = back(v)
        for nm, v in list(st.env.items()):
            st.env[nm] = back(v)
        st.live, st.brk, st.cont = back(st.live), back(st.brk), back(st.cont)
        st.rets = [(back(c), back(v)) for c, v in st.rets]
        for r in self.raises[nr:]:
            r.cond = back(r.cond)

    def unroll(self, s, items):
        outer_brk, outer_cont = self.st.brk, self.st.cont
        self.st.brk = FALSE
        broke = FALSE
        dead_states = []
        for v in items:
            if self.st.live is FALSE:
                break
            self.st.cont = FALSE
            self.st.brk = FALSE
            pre = self.st
            self.assign(s.target, v)
            if has_ctl(s.body):
                # break/continue under symbolic conditions: continue values merge
                self.ctl_block(s.body, dead_states)
            else:
                self.block(s.body)
        # re-join broken states
        if self.st.live is not FALSE and s.orelse:
            self.block(s.orelse)
        for ds in reversed(dead_states):
            cur = self.st
            self.st = self.merge_states(ds.live, ds, cur)
        self.st.brk, self.st.cont = outer_brk, outer_cont

    def ctl_block(self, body, dead_states):
        """execute a loop body that contains break/continue at unrolled iterations"""
        conts = []

        def run(stmts):
            for k, s in enumerate(stmts):
                if self.st.live is FALSE:
                    return
                if isinstance(s, ast.Break):
                    d = self.st.fork()
                    dead_states.append(d)
                    self.st.live = FALSE
                    return
                if isinstance(s, ast.Continue):
                    conts.append(self.st.fork())
                    self.st.live = FALSE
                    return
                if isinstance(s, ast.If) and has_ctl([s]):
                    c = self.ctx(self.cond(s.test))
                    if c is TRUE:
                        run(s.body)
                    elif c is FALSE:
                        run(s.orelse)
                    else:
                        self.branch(c, lambda: run(s.body), lambda: run(s.orelse))
                    continue
                self.stmt(s)
        run(body)
        for d in conts:
            cur = self.st
            self.st = self.merge_states(d.live, d, cur)

    def kill_assigned(self, s, why):
        self.note(why)
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                v = self.st.env.get(n.id)
                self.st.env[n.id] = unknown(why)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    v = self.st.env.get(b.id)
                    if isinstance(v, Cell):
                        c = self.deref(v)
                        if isinstance(c, Arr):
                            self.write(v, self.unk_arr(c, why))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                v = self.st.env.get(n.func.value.id)
                if isinstance(v, Cell) and v.kind == "list":
                    u = unknown(why)
                    self.write(v, Arr((unknown(why),), lambda *i: u, True))
        if any(isinstance(n, (ast.Return,)) for n in ast.walk(s)):
            self.st.rets.append((band(self.st.live, tm.batom(unknown(why))), unknown(why), self.st.heap))

    def s_While(self, s):
        from . import loops
        loops.summarise_while(self, s)

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        h = getattr(self, "e_" + type(e).__name__, None)
        if h is None:
            return self.unk("expression " + type(e).__name__)
        return h(e)

    def constant(self, v):
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, (int, float)):
            return const(v)
        if isinstance(v, complex):
            return add(const(v.real), mul(const(v.imag), tm.I))
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return ELLIPSIS
        return self.unk("constant")

    def e_Constant(self, e):
        return self.constant(e.value)

    def e_Name(self, e):
        n = e.id
        if n in self.st.env:
            return self.st.env[n]
        m = self.fstack[-1][0]
        return self.global_name(m, n)

    def global_name(self, m, n):
        r = self.prog.lookup(m.name, n) if m is not None else None
        if r is None:
            return self.np.builtin(n)
        return self.resolved(r)

    def resolved(self, r):
        k = r[0]
        if k == "func":
            return FuncVal(r[1], r[2])
        if k == "class":
            return ClassVal(r[1], r[2])
        if k == "mod":
            return ModVal(r[1])
        if k == "ext":
            v = self.np.extconst(r[1])
            return v if v is not None else ExtVal(r[1])
        if k == "assign":
            key = id(r[2])
            if key not in self.modcache:
                self.modcache[key] = unknown("recursive module constant")
                live = self.st.live
                n0 = len(self.raises)
                self.st.live = TRUE
                v = self.eval_in(r[1], r[2], {})
                self.st.live = live
                del self.raises[n0:]
                self.modcache[key] = v
                if isinstance(v, Cell):
                    self.modheap(v)
            v = self.modcache[key]
            if isinstance(v, Cell) and v.id not in self.st.heap and v.view is None:
                self.st.heap.update(self._modheap)
            return v
        return self.unk("name")

    _modheap = None

    def modheap(self, v):
        if self._modheap is None:
            self._modheap = {}
        # keep module-level objects available in every forked heap
        self._modheap.update({k: c for k, c in self.st.heap.items()})

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.st.env[e.target.id] = v
        return v

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sq = self.seq(self.eval(x.value))
                if sq is None or sq[2] is None:
                    return self.unk("starred element")
                out += sq[2]
            else:
                out.append(self.eval(x))
        return Tup(out)

    def e_List(self, e):
        parts = []
        if any(isinstance(x, ast.Starred) for x in e.elts):
            cur = self.newlist([])
            for x in e.elts:
                v = self.eval(x.value) if isinstance(x, ast.Starred) else self.newlist([self.eval(x)])
                cur = self.binop("Add", cur, self.np.call("list", [v], {}))
            return cur
        return self.newlist([self.eval(x) for x in e.elts])

    def e_Set(self, e):
        return Tup([self.eval(x) for x in e.elts])

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v)
                if isinstance(x, Cell) and x.kind == "dict":
                    d.update(self.deref(x))
                    continue
                return self.unk("dict unpacking")
            kk = self.eval(k)
            if isinstance(kk, T) and kk.op in ("str", "poly", "none", "true", "false"):
                # evaluate the entry in isolation so that an error in one entry is seen
                d[kk] = self.eval(v)
            else:
                return self.unk("dict key")
        return self.newdict(d)

    def e_Lambda(self, e):
        return FuncVal(self.fstack[-1][0], e, self.st.env, "<lambda>")

    def e_IfExp(self, e):
        c = self.ctx(self.cond(e.test))
        if c is TRUE:
            return self.eval(e.body)
        if c is FALSE:
            return self.eval(e.orelse)
        return self.two(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        isor = isinstance(e.op, ast.Or)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.ctx(self.truthv(v))
            if isor:
                if c is TRUE:
                    return v
                if c is FALSE:
                    return go(vals[1:])
                return self.two(c, lambda: v, lambda: go(vals[1:]))
            if c is FALSE:
                return v
            if c is TRUE:
                return go(vals[1:])
            return self.two(c, lambda: go(vals[1:]), lambda: v)
        return go(e.values)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            return bnot(self.truthv(v))
        if op == "USub":
            return self.map1(neg, v)
        if op == "UAdd":
            return v
        if op == "Invert":
            return self.map1(lambda x: bnot(x) if tm.isbool(x) else sub(neg(x), ONE), v)
        return self.unk("unary")

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            v = self.compare(type(op).__name__, left, right)
            if out is None:
                out = v
            else:
                c = self.truthv(out)
                out = self.two(c, lambda: v, lambda: out)
            left = right
        return out

    CMP = {
        "Lt": lambda a, b: lt(a, b), "LtE": lambda a, b: le(a, b),
        "Gt": lambda a, b: lt(b, a), "GtE": lambda a, b: le(b, a),
        "Eq": lambda a, b: eq(a, b), "NotEq": lambda a, b: bnot(eq(a, b)),
    }

    def compare(self, op, a, b):
        if isinstance(a, Choice):
            return self.two(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Choice):
            return self.two(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        if op in ("Is", "IsNot", "In", "NotIn"):
            return self.compare1(op, a, b)
        if isinstance(a, T) and isinstance(b, T):
            return self.compare1(op, a, b)
        A, B = self.operand(a), self.operand(b)
        if A is None or B is None:
            if op in ("Eq", "NotEq"):
                if isinstance(a, T) and a.op in ("str", "none") or isinstance(b, T) and b.op in ("str", "none"):
                    return FALSE if op == "Eq" else TRUE
            return self.unk("comparison")
        return self.broadcast(self.CMP[op], A, B)

    def compare1(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else bnot(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else bnot(r)
        if isinstance(a, T) and isinstance(b, T):
            if op not in ("Eq", "NotEq"):
                for x in (a, b):
                    if x is NONE or (x.op == "ite" and _hasnone(x)):
                        c = lift(lambda y: TRUE if y is NONE else FALSE, x)
                        self.do_raise("TypeError", c)
                        if self.st.live is FALSE:
                            return unknown("raised")
            return self.CMP[op](a, b)
        return self.compare(op, a, b)

    def identical(self, a, b):
        if isinstance(a, Choice):
            return ite(a.c, self.identical(a.a, b), self.identical(a.b, b))
        if isinstance(b, Choice):
            return self.identical(b, a)
        if isinstance(a, T) and isinstance(b, T):
            def f(x, y):
                if x is y:
                    return TRUE
                for u, v in ((x, y), (y, x)):
                    if u is NONE:
                        if v.op == "unknown":
                            return tm.batom(unknown("is None"))
                        if v.op == "sym" and tm.ATTR[v.args[0]].kind == "obj":
                            return tm.batom(tm.mk("app", "eq", *sorted((u, v))))
                        return FALSE
                return tm._eq_leaf(x, y)
            return lift(f, a, b)
        if isinstance(a, Cell) and isinstance(b, Cell):
            return TRUE if a is b else FALSE
        return FALSE

    def contains(self, cont, x):
        if isinstance(cont, Cell) and cont.kind == "dict" and isinstance(x, T):
            r = FALSE
            for k in self.deref(cont):
                r = bor(r, eq(k, x))
            return r
        s = self.seq(cont)
        if s is not None and s[2] is not None and isinstance(x, T):
            r = FALSE
            for k in s[2]:
                if not isinstance(k, T):
                    return tm.batom(unknown("in"))
                r = bor(r, eq(k, x))
            return r
        if isinstance(cont, RangeVal) and isinstance(x, T) and cval(cont.step) == 1:
            return band(le(cont.lo, x), lt(x, add(cont.lo, cont.n)))
        return tm.batom(self.unk("in"))

    # ---- elementwise machinery
    def operand(self, v):
        """T or Arr operand for elementwise arithmetic"""
        if isinstance(v, T):
            return v
        if isinstance(v, (Cell, Arr, Tup, RangeVal, Seq)):
            return self.arr(v)
        return None

    def map1(self, f, v):
        if isinstance(v, Choice):
            return self.two(v.c, lambda: self.map1(f, v.a), lambda: self.map1(f, v.b))
        A = self.operand(v)
        if A is None:
            return self.unk("elementwise operand")
        if isinstance(A, T):
            if A is NONE:
                self.do_raise("TypeError")
                return unknown("raised")
            return self.guard_t(f, A)
        comp = None
        if A.comp:
            comp = (A.comp[0], lambda *i: f(A.comp[1](*i)))
        return self.new(Arr(A.shape, lambda *i: f(A.get(*i)), comp=comp, dt="sparse" if A.dt == "sparse" else None))

    def guard_t(self, f, *ts):
        try:
            return f(*ts)
        except tm.Blowup:
            return self.unk("decision diagram too large")

    def broadcast(self, f, *ops):
        """elementwise f over T/Arr operands with numpy broadcasting"""
        if all(isinstance(o, T) for o in ops):
            return self.guard_t(f, *ops)
        rank = max(o.rank for o in ops if isinstance(o, Arr))
        shape = []
        for d in range(rank):
            best = None
            for o in ops:
                if isinstance(o, Arr):
                    k = d - (rank - o.rank)
                    if k >= 0:
                        n = o.shape[k]
                        if cval(n) == 1:
                            continue
                        if best is None or best.unk:
                            best = n
                        elif best is not n and not n.unk:
                            cb, cn = cval(best), cval(n)
                            if cb is None and cn is not None:
                                best = n
                            elif cb is None and cn is None and n.key < best.key:
                                best = n
            shape.append(best if best is not None else ONE)

        def acc(o):
            if isinstance(o, T):
                return lambda idx: o
            off = rank - o.rank
            ones = [cval(n) == 1 for n in o.shape]
            def g(idx):
                return o.get(*[ZERO if ones[k] and cval(shape[off + k]) != 1 else idx[off + k] for k in range(o.rank)])
            return g
        gs = [acc(o) for o in ops]
        comp = None
        cs = [o for o in ops if isinstance(o, Arr)]
        if all(o.comp for o in cs) and all(o.comp[0] is cs[0].comp[0] or same_arr(o.comp[0], cs[0].comp[0]) for o in cs):
            fs = [(lambda *i, o=o: o) if isinstance(o, T) else o.comp[1] for o in ops]
            comp = (cs[0].comp[0], lambda *i: f(*[g(*i) for g in fs]))
        dt = "sparse" if len(cs) == 1 and cs[0].dt == "sparse" else None
        return self.new(Arr(shape, lambda *idx: f(*[g(idx) for g in gs]), comp=comp, dt=dt))

    OPS = {
        "Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": power,
        "FloorDiv": lambda a, b: func("floor", div(a, b)),
        "Mod": lambda a, b: sub(a, mul(b, func("floor", div(a, b)))),
        "BitAnd": lambda a, b: band(a, b) if tm.isbool(a) and tm.isbool(b) else tm.app("bitand", a, b),
        "BitOr": lambda a, b: bor(a, b) if tm.isbool(a) and tm.isbool(b) else tm.app("bitor", a, b),
        "BitXor": lambda a, b: bnot(tm.beq(a, b)) if tm.isbool(a) and tm.isbool(b) else tm.app("bitxor", a, b),
        "LShift": lambda a, b: mul(a, power(const(2), b)),
        "RShift": lambda a, b: func("floor", div(a, power(const(2), b))),
    }

    def binop(self, op, a, b):
        if isinstance(a, Choice):
            return self.two(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, Choice):
            return self.two(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        for x in (a, b):
            if isinstance(x, T) and x.op == "unknown":
                return x
        if op == "MatMult":
            return self.np.matmul(a, b)
        if op == "Mult" and (self.np.is_sparse(a) or self.np.is_sparse(b)):
            return self.np.matmul(a, b)
        la, lb = self.islist(a), self.islist(b)
        if op == "Add" and la and lb:
            return self.np.list_concat(a, b)
        if op == "Mult" and (la or lb) and (isinstance(a, T) or isinstance(b, T)):
            return self.np.list_repeat(a if la else b, b if la else a)
        if op == "Mod" and isinstance(a, T) and a.op == "str":
            return tm.app("format", a, self.np.reify(b))
        if op == "Add" and isinstance(a, T) and isinstance(b, T) and a.op == "str" and b.op == "str":
            return string(a.args[0] + b.args[0])
        if op == "Mult" and isinstance(a, T) and isinstance(b, T) and (a.op == "str" or b.op == "str"):
            return self.unk("string repetition")
        A, B = self.operand(a), self.operand(b)
        if A is None or B is None:
            return self.unk("operand of " + op)
        for x in (A, B):
            if isinstance(x, T) and (x is NONE or (x.op == "ite" and _hasnone(x))):
                c = lift(lambda y: TRUE if y is NONE else FALSE, x)
                self.do_raise("TypeError", c)
                if self.st.live is FALSE:
                    return unknown("raised")
                f0 = lambda y: ZERO if y is NONE else y
                A = lift(f0, A) if isinstance(A, T) else A
                B = lift(f0, B) if isinstance(B, T) else B
        for x in (A, B):
            if isinstance(x, T) and x.op == "str":
                self.do_raise("TypeError")
                return unknown("raised")
        return self.broadcast(self.OPS[op], A, B)

    def islist(self, v):
        if isinstance(v, Cell):
            if v.kind == "list":
                return True
            return False
        return isinstance(v, Tup)

    # ---- attributes / subscripts
    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Choice):
            return self.two(o.c, lambda: self.getattr(o.a, name), lambda: self.getattr(o.b, name))
        if isinstance(o, ModVal):
            r = self.prog.lookup(o.module.name, name)
            return self.resolved(r) if r is not None else self.unk("module attribute")
        if isinstance(o, ExtVal):
            p = o.path + "." + name
            v = self.np.extconst(p)
            return v if v is not None else ExtVal(p)
        if isinstance(o, Cell) and o.kind == "obj":
            d = self.deref(o)
            if name in d:
                return d[name]
            if o.cls is not None:
                for s in o.cls.node.body:
                    if isinstance(s, ast.FunctionDef) and s.name == name:
                        f = FuncVal(o.cls.module, s, {}, o.cls.name + "." + name)
                        decs = [dotted(x) for x in s.decorator_list]
                        if "property" in decs:
                            return self.call_func(FuncVal(o.cls.module, undecorated(s), {}, f.name), [o], {})
                        return Partial(f, [o], {})
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                        return self.eval_in(o.cls.module, s.value, {})
            self.do_raise("AttributeError")
            return unknown("raised")
        if isinstance(o, T) and o is NONE:
            self.do_raise("AttributeError")
            return unknown("raised")
        if isinstance(o, ClassVal):
            for s in o.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                    return self.eval_in(o.module, s.value, {})
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
                    return self.eval_in(o.module, s.value, {})
            return self.unk("class attribute")
        if isinstance(o, T) and o.op == "unknown":
            return o
        return self.np.attr(o, name)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        return self.getitem(b, self.index_items(e.slice))

    def index_items(self, s):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    sq = self.seq(self.eval(x.value))
                    out += sq[2] if sq and sq[2] is not None else [self.unk("starred index")]
                else:
                    out.append(self.index_item(x))
            return out
        v = self.index_item(s)
        if isinstance(v, Tup):
            return list(v.items)
        return [v]

    def index_item(self, x):
        if isinstance(x, ast.Slice):
            f = lambda y: self.eval(y) if y is not None else NONE
            return SliceVal(f(x.lower), f(x.upper), f(x.step))
        return self.eval(x)

    def e_Slice(self, e):
        return self.index_item(e)

    def getitem(self, b, items):
        if isinstance(b, Choice):
            return self.two(b.c, lambda: self.getitem(b.a, items), lambda: self.getitem(b.b, items))
        for k, x in enumerate(items):
            if isinstance(x, Choice):
                rep = lambda v: items[:k] + [v] + items[k + 1:]
                return self.two(x.c, lambda: self.getitem(b, rep(x.a)), lambda: self.getitem(b, rep(x.b)))
        if isinstance(b, T):
            if b.op == "unknown":
                return b
            if b is NONE:
                self.do_raise("TypeError")
                return unknown("raised")
            if all(isinstance(i, T) and i is NONE for i in items):
                return self.new(Arr((ONE,) * len(items), lambda *i: b))
            return self.unk("subscript of a scalar")
        if isinstance(b, Cell) and b.kind == "dict":
            d = self.deref(b)
            if not isinstance(d, dict):
                return self.unk("dict")
            return self.dict_get(d, items[0], None)
        if isinstance(b, Tup) or (isinstance(b, Cell) and b.kind == "list" and isinstance(self.deref(b), tuple)):
            its = b.items if isinstance(b, Tup) else self.deref(b)
            if len(items) == 1:
                i = items[0]
                if isinstance(i, T):
                    c = cval(i)
                    if c is not None:
                        c = int(c)
                        if -len(its) <= c < len(its):
                            return its[c]
                        self.do_raise("IndexError")
                        return unknown("raised")
                if isinstance(i, SliceVal):
                    bs = [None if x is NONE else (cval(x) if isinstance(x, T) else "x") for x in (i.lo, i.hi, i.step)]
                    if all(x is None or isinstance(x, Fr) for x in bs):
                        r = its[slice(*[None if x is None else int(x) for x in bs])]
                        return Tup(r) if isinstance(b, Tup) else self.newlist(r)
        if isinstance(b, ExtVal):
            return self.np.extindex(b.path, items)
        if isinstance(b, (ClassVal, FuncVal)):
            return b
        a = self.arr(b)
        if a is None:
            return self.unk("subscript")
        return self.index(b if isinstance(b, Cell) else self.new(a), items)

    def dict_get(self, d, key, default):
        if not isinstance(key, T):
            return self.unk("dict key")
        if key in d:
            return d[key]
        conds = []
        for k in d:
            c = eq(k, key)
            if c is TRUE:
                return d[k]
            if c is not FALSE:
                conds.append((c, d[k]))
        if default is None:
            rest = TRUE
            for c, _ in conds:
                rest = band(rest, bnot(c))
            self.do_raise("KeyError", rest)
            if not conds:
                return unknown("raised")
            v = conds[-1][1]
            conds = conds[:-1]
        else:
            v = default
        for c, x in reversed(conds):
            v = self.vmerge(c, x, v)
        return v

    def index(self, cell, items):
        return self.np.index(cell, items)

    def store(self, target, b, items, v):
        """target[items] = v; what cannot be tracked makes the container unknown"""
        if self.setitem(b, items, v) is not False:
            return
        new = self.unk("store not modelled")
        if isinstance(b, T) and not b.unk and len(items) == 1 and isinstance(v, T):      # a zero-dimensional array
            c = items[0]
            if isinstance(c, T) and tm.isbool(c):
                new = self.vmerge(c, v, b)
        if isinstance(target.value, ast.Name):
            self.st.env[target.value.id] = new
        elif isinstance(target.value, ast.Attribute):
            self.setattr(self.eval(target.value.value), target.value.attr, new)

    def setitem(self, b, items, v):
        if isinstance(b, Cell) and b.kind == "dict":
            d = dict(self.deref(b))
            if isinstance(items[0], T) and items[0].op in ("str", "poly", "none", "true", "false"):
                d[items[0]] = v
                self.write(b, d)
            else:
                self.note("dict store with a symbolic key")
                return False
            return
        if isinstance(b, Cell) and b.kind == "list":
            c = self.deref(b)
            if isinstance(c, tuple) and len(items) == 1 and isinstance(items[0], T):
                k = cval(items[0])
                if k is not None and -len(c) <= k < len(c):
                    l = list(c)
                    l[int(k)] = v
                    self.write(b, tuple(l))
                    return
        if isinstance(b, Cell) and isinstance(self.deref(b), (Arr, tuple)):
            return self.np.store(b, items, v)
        self.note("store not modelled")
        return False

    # ---- calls, comprehensions
    def e_Call(self, e):
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sq = self.seq(self.eval(a.value))
                if sq is None or sq[2] is None:
                    if sq is not None and cval(sq[0]) is not None and sq[1] is not None:
                        args += [sq[1](const(k)) for k in range(int(cval(sq[0])))]
                        continue
                    return self.unk("star argument")
                args += sq[2]
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                if isinstance(v, Cell) and v.kind == "dict":
                    for kk, vv in self.deref(v).items():
                        kwargs[kk.args[0] if isinstance(kk, T) else kk] = vv
                else:
                    return self.unk("** argument")
            else:
                kwargs[k.arg] = v
        if self.st.live is FALSE:
            return unknown("raised")
        loc = self.loc
        if self.fstack:
            self.loc = (self.fstack[-1][0].path, e.lineno, self.fstack[-1][1])
        r = self.call(f, args, kwargs, e)
        self.loc = loc
        return r

    def e_ListComp(self, e):
        r = self.comp(e.generators, lambda: self.eval(e.elt))
        if r is None:
            return self.unk("comprehension")
        if isinstance(r, list):
            return self.newlist(r)
        a = self.seq_arr_checked(r)
        if a is None:
            return r
        c = Cell("list")
        self.st.heap[c.id] = a
        return c

    def seq_arr_checked(self, r):
        a = r
        if isinstance(r, Seq):
            a = self.seq_arr(r)
        return a

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    def e_SetComp(self, e):
        return self.unk("set comprehension")

    def e_DictComp(self, e):
        r = self.comp(e.generators, lambda: Tup([self.eval(e.key), self.eval(e.value)]))
        if isinstance(r, list):
            d = {}
            for x in r:
                if not (isinstance(x.items[0], T) and x.items[0].op in ("str", "poly")):
                    return self.unk("dict comprehension key")
                d[x.items[0]] = x.items[1]
            return self.newdict(d)
        return self.unk("dict comprehension")

    def comp(self, gens, body):
        """list of values (static) or Seq"""
        saved = dict(self.st.env)
        try:
            return self._comp(gens, body)
        finally:
            env = self.st.env
            for k in list(env):
                if k in saved:
                    env[k] = saved[k]
                else:
                    # walrus targets would leak; generators' targets do not
                    del env[k]

    def _comp(self, gens, body):
        g = gens[0]
        sq = self.seq(self.eval(g.iter))
        if sq is None:
            return None
        n, item, static = sq
        cn = cval(n)
        if static is None and cn is not None and cn <= UNROLL:
            static = [item(const(k)) for k in range(int(max(cn, 0)))]
        if static is not None:
            out = []
            for v in static:
                self.assign(g.target, v)
                ok = TRUE
                for i in g.ifs:
                    ok = band(ok, self.cond(i))
                if ok is FALSE:
                    continue
                if ok is not TRUE:
                    return None
                if len(gens) > 1:
                    r = self._comp(gens[1:], body)
                    if not isinstance(r, list):
                        return None
                    out += r
                else:
                    out.append(body())
            return out
        if g.ifs:
            k = fresh("q", hi=sub(n, ONE))
            self.assign(g.target, item(k))
            ok = TRUE
            for i in g.ifs:
                ok = band(ok, self.cond(i))
            if len(gens) > 1:
                return None
            v = body()
            mask = Arr((n,), lambda i: subst(ok, {k: i}))
            a = self.value_arr(n, k, v)
            if a is None or a.rank != 1:
                return None
            r = self.np.compress(a, mask)
            c = Cell("list")
            self.st.heap[c.id] = r
            return r
        k = fresh("q", hi=sub(n, ONE))
        v0 = item(k)
        self.assign(g.target, v0)
        if len(gens) > 1:
            # nested generators: flattened index
            r = self._comp(gens[1:], body)
            if isinstance(r, list):
                m = const(len(r))
                inner = self.static_arr(r, True)
            elif isinstance(r, Seq):
                inner = self.seq_arr(r)
                m = r.n
            elif isinstance(r, Arr):
                inner, m = r, r.shape[0]
            else:
                return None
            if inner is None or any(k in tm.atoms_of(x, lambda y: y is k) for x in inner.shape):
                return None
            tot = mul(n, m)

            def get(t, *rest):
                q = func("floor", div(t, m))
                return subst(inner.get(sub(t, mul(m, q)), *rest), {k: q})
            return Arr((tot,) + inner.shape[1:], get, True)
        v = body()
        if isinstance(v, T) or self.arr(v) is not None:
            a = self.value_arr(n, k, v)
            if a is not None:
                return a
        env = dict(self.st.env)

        def it(i):
            save = self.st.env
            self.st.env = dict(env)
            try:
                self.assign(g.target, item(i))
                return body()
            finally:
                self.st.env = save
        return Seq(n, it)

    def e_JoinedStr(self, e):
        return unknown("formatted string")

    def e_Starred(self, e):
        return self.eval(e.value)


class ListAcc:
    """list being appended to inside a summarised loop"""

    def __init__(self, base, items=(), bad=False):
        self.base, self.items, self.bad = base, tuple(items), bad


def pick(k, items):
    c = cval(k)
    if c is not None:
        c = int(c)
        if -len(items) <= c < len(items):
            return items[c]
        return unknown("index out of range")
    if len(items) == 1:
        return items[0]
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = ite(eq(k, const(j)), items[j], r)
    return r


def same_arr(a, b):
    if a is b:
        return True
    if a.rank != b.rank:
        return False
    return a.as_lam() is b.as_lam()


def _hasnone(t):
    if t.op == "ite":
        return _hasnone(t.args[1]) or _hasnone(t.args[2])
    return t is NONE


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


def undecorated(s):
    n = ast.FunctionDef(name=s.name, args=s.args, body=s.body, decorator_list=[], returns=None)
    return ast.copy_location(n, s)


def own_nodes(fn):
    """nodes of a function excluding nested functions"""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            st.extend(ast.iter_child_nodes(n))


def has_ctl(stmts):
    """break/continue belonging to this loop level"""
    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if isinstance(n, (ast.For, ast.While)):
                st.extend(n.orelse)
            continue
        st.extend(ast.iter_child_nodes(n))
    return False
