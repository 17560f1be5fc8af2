"""Models of the NumPy / SciPy / builtin operations the library uses, in index
notation.  Every operation not listed becomes an `unknown` term."""
from fractions import Fraction as Fr
from . import terms as tm
from .terms import (T, const, add, sub, mul, div, neg, power, func, ite, lt, le, eq, truth, band, bor, bnot,
                    TRUE, FALSE, NONE, ZERO, ONE, TWO, cval, string, unknown, fresh, subst, lift, el)
from .interp import (Arr, Cell, Tup, Choice, FuncVal, ClassVal, ExtVal, ModVal, Method, Partial, RangeVal, SliceVal,
                     Seq, MaskIdx, ListAcc, ELLIPSIS, pick, same_arr, _hasnone)

tm.INTFUN |= {"nthtrue", "round_int", "hamming_len"}
tm.NONNEG |= {"nthtrue"}
tm.COMPLEX |= {"cinput"}

ALIASES = {
    "numpy.absolute": "numpy.abs", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.asfarray": "numpy.asarray", "numpy.conjugate": "numpy.conj",
    "numpy.fft.fft": "fft", "scipy.fft.fft": "fft", "scipy.fftpack.fft": "fft",
    "numpy.fft.rfft": "rfft", "scipy.fft.rfft": "rfft",
    "numpy.fft.ifft": "ifft", "scipy.fft.ifft": "ifft", "scipy.fftpack.ifft": "ifft",
    "numpy.fft.irfft": "irfft", "scipy.fft.irfft": "irfft",
    "scipy.fftpack.dct": "dct", "scipy.fft.dct": "dct",
    "scipy.linalg.inv": "inv", "numpy.linalg.inv": "inv",
    "scipy.linalg.solve": "solve", "numpy.linalg.solve": "solve",
    "numpy.linalg.norm": "norm", "scipy.linalg.norm": "norm",
    "numpy.fft.fftfreq": "fftfreq", "scipy.fft.fftfreq": "fftfreq", "scipy.fftpack.fftfreq": "fftfreq",
    "numpy.fft.rfftfreq": "rfftfreq", "scipy.fft.rfftfreq": "rfftfreq",
    "numpy.lib.stride_tricks.as_strided": "as_strided",
    "numpy.lib.stride_tricks.sliding_window_view": "sliding_window_view",
    "scipy.signal.lfilter": "lfilter", "scipy.signal.resample": "resample",
    "scipy.signal.lfilter_zi": "lfilter_zi", "scipy.signal.butter": "butter",
    "scipy.signal.fftconvolve": "convolve", "scipy.signal.convolve": "convolve",
    "scipy.signal.correlate": "correlate", "numpy.correlate": "correlate",
    "scipy.signal.oaconvolve": "convolve", "numpy.convolve": "convolve",
    "scipy.linalg.toeplitz": "toeplitz", "scipy.linalg.solve_toeplitz": "solve_toeplitz",
    "scipy.stats.mstats.gmean": "gmean", "scipy.stats.gmean": "gmean",
    "scipy.sparse.csr_matrix": "csr", "scipy.sparse.csc_matrix": "csr", "scipy.sparse.csr_array": "csr",
    "scipy.signal.windows.hann": "win.hanning", "scipy.signal.windows.hamming": "win.hamming",
    "scipy.signal.windows.blackman": "win.blackman", "scipy.signal.windows.bartlett": "win.bartlett",
    "scipy.signal.windows.kaiser": "win.kaiser",
    "numpy.hanning": "win.hanning", "numpy.hamming": "win.hamming", "numpy.blackman": "win.blackman",
    "numpy.bartlett": "win.bartlett", "numpy.kaiser": "win.kaiser",
    "math.log": "numpy.log", "math.log10": "numpy.log10", "math.exp": "numpy.exp", "math.sqrt": "numpy.sqrt",
    "math.floor": "numpy.floor", "math.ceil": "numpy.ceil", "math.sin": "numpy.sin", "math.cos": "numpy.cos",
    "math.log2": "numpy.log2", "math.pow": "numpy.power", "math.fabs": "numpy.abs", "math.trunc": "int",
    "numpy.multiply": "op.Mult", "numpy.add": "op.Add", "numpy.subtract": "op.Sub", "numpy.divide": "op.Div",
    "numpy.true_divide": "op.Div", "numpy.power": "op.Pow", "numpy.float_power": "op.Pow",
    "numpy.floor_divide": "op.FloorDiv", "numpy.mod": "op.Mod", "numpy.remainder": "op.Mod",
    "operator.mul": "op.Mult", "operator.add": "op.Add", "operator.sub": "op.Sub", "operator.truediv": "op.Div",
    "operator.matmul": "numpy.matmul", "operator.pow": "op.Pow", "operator.floordiv": "op.FloorDiv",
    "numpy.greater": "cmp.Gt", "numpy.less": "cmp.Lt", "numpy.greater_equal": "cmp.GtE",
    "numpy.less_equal": "cmp.LtE", "numpy.equal": "cmp.Eq", "numpy.not_equal": "cmp.NotEq",
    "numpy.logical_and": "op.BitAnd", "numpy.logical_or": "op.BitOr", "numpy.bitwise_and": "op.BitAnd",
    "numpy.bitwise_or": "op.BitOr", "numpy.logical_xor": "op.BitXor",
    "builtins.range": "range",
}

UNARY = {
    "numpy.abs": lambda x: func("abs", x),
    "numpy.fabs": lambda x: func("abs", x),
    "numpy.sqrt": lambda x: tm.powr(x, Fr(1, 2)),
    "numpy.cbrt": lambda x: tm.powr(x, Fr(1, 3)),
    "numpy.square": lambda x: tm.powr(x, Fr(2)),
    "numpy.reciprocal": lambda x: div(ONE, x),
    "numpy.exp": lambda x: func("exp", x),
    "numpy.expm1": lambda x: sub(func("exp", x), ONE),
    "numpy.exp2": lambda x: power(TWO, x),
    "numpy.log": lambda x: func("log", x),
    "numpy.log1p": lambda x: func("log", add(x, ONE)),
    "numpy.log10": lambda x: div(func("log", x), func("log", const(10))),
    "numpy.log2": lambda x: div(func("log", x), func("log", TWO)),
    "numpy.floor": lambda x: func("floor", x),
    "numpy.ceil": lambda x: func("ceil", x),
    "numpy.trunc": lambda x: func("trunc", x),
    "numpy.fix": lambda x: func("trunc", x),
    "numpy.rint": lambda x: func("rint", x),
    "numpy.conj": lambda x: func("conj", x),
    "numpy.real": lambda x: func("real", x),
    "numpy.imag": lambda x: func("imag", x),
    "numpy.sin": lambda x: func("sin", x), "numpy.cos": lambda x: func("cos", x),
    "numpy.tan": lambda x: func("tan", x), "numpy.arctan": lambda x: func("arctan", x),
    "numpy.sinh": lambda x: func("sinh", x), "numpy.arcsinh": lambda x: func("arcsinh", x),
    "numpy.tanh": lambda x: func("tanh", x),
    "numpy.cosh": lambda x: mul(tm.HALF, add(func("exp", x), func("exp", neg(x)))),
    "numpy.negative": neg,
    "numpy.positive": lambda x: x,
    "numpy.sign": lambda x: ite(lt(x, ZERO), const(-1), ite(eq(x, ZERO), ZERO, ONE)),
    "numpy.isnan": lambda x: lift(lambda y: TRUE if y is tm.BAD_NAN else FALSE, x) if not x.unk else tm.batom(x),
    "numpy.isinf": lambda x: lift(lambda y: TRUE if y in (tm.BAD_INF, tm.BAD_NINF) else FALSE, x) if not x.unk else tm.batom(x),
    "numpy.isfinite": lambda x: lift(lambda y: FALSE if y.op == "bad" else TRUE, x) if not x.unk else tm.batom(x),
    "numpy.logical_not": lambda x: bnot(truth(x)),
    "numpy.invert": lambda x: bnot(truth(x)),
    "numpy.deg2rad": lambda x: div(mul(x, tm.PI), const(180)),
    "numpy.float64": lambda x: x, "numpy.double": lambda x: x, "numpy.complex128": lambda x: x,
    "numpy.float32": lambda x: lossy(x, "f32"), "numpy.int64": lambda x: func("trunc", x),
    "numpy.int32": lambda x: func("trunc", x), "numpy.intp": lambda x: func("trunc", x),
    "math.isnan": lambda x: lift(lambda y: TRUE if y is tm.BAD_NAN else FALSE, x),
    "math.isinf": lambda x: lift(lambda y: TRUE if y in (tm.BAD_INF, tm.BAD_NINF) else FALSE, x),
    "math.isfinite": lambda x: lift(lambda y: FALSE if y.op == "bad" else TRUE, x),
    "numpy.sinc": lambda x: ite(eq(x, ZERO), ONE, div(func("sin", mul(tm.PI, x)), mul(tm.PI, x))),
}

BUILTINS = {"len", "range", "enumerate", "zip", "sum", "min", "max", "abs", "int", "float", "list", "tuple", "sorted",
            "isinstance", "map", "any", "all", "print", "str", "bool", "round", "reversed", "dict", "set", "type",
            "hasattr", "getattr", "complex", "filter", "pow", "divmod", "iter", "next", "callable", "repr", "super",
            "object", "frozenset", "id", "slice", "vars", "locals", "globals", "open", "format", "ord", "chr", "setattr"}


def lossy(x, how):
    return lift(lambda y: y if tm.isint(y) or y.op in ("bad", "unknown") else
                (y if y.op == "app" and y.args[0] == how else tm.mk("app", how, y)), tm.num(x))


def tmax(a, b):
    return ite(lt(a, b), b, a)


def tmin(a, b):
    return ite(lt(b, a), b, a)


class Model:
    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------- constants
    def extconst(self, p):
        if p in ("numpy.pi", "math.pi", "scipy.pi", "scipy.constants.pi"):
            return tm.PI
        if p in ("numpy.e", "math.e"):
            return func("exp", ONE)
        if p in ("numpy.newaxis",):
            return NONE
        if p in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.infty"):
            return tm.BAD_INF
        if p in ("numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN"):
            return tm.BAD_NAN
        if p == "sys.float_info.epsilon":
            return tm.EPS
        return None

    def builtin(self, n):
        if n in BUILTINS:
            return ExtVal(n)
        import builtins
        if hasattr(builtins, n):
            return ExtVal("builtins." + n)
        return self.I.unk("undefined name " + n)

    def dtype(self, v):
        """'f' | 'f32' | 'i' | 'c' | 'b' | 'in' | None"""
        if v is None or (isinstance(v, T) and v is NONE):
            return None
        if isinstance(v, ExtVal):
            n = v.path.split(".")[-1]
            if n.startswith("dtype:"):
                return n[6:] or None
        elif isinstance(v, T) and v.op == "str":
            n = v.args[0]
        else:
            return "?"
        n = n.lower()
        if n in ("float", "float64", "double", "f8", "float_", "longdouble", "d"):
            return "f"
        if n in ("float32", "float16", "single", "half", "f4", "f2", "f"):
            return "f32"
        if n.startswith("complex64") or n in ("csingle", "c8"):
            return "c64"
        if n.startswith("complex") or n in ("c16",):
            return "c"
        if n.startswith("int") or n.startswith("uint") or n in ("i8", "i4", "i2", "long", "intp", "i"):
            return "i"
        if n.startswith("bool"):
            return "b"
        if n == "object":
            return None
        return "?"

    def cast(self, x, dt, cur=None):
        """value x stored in / converted to dtype dt"""
        if dt in (None, "?", "c"):
            return x
        if dt == "f":
            return x if tm.isreal(x) else func("real", x)
        if dt == "f32":
            return lossy(x, "f32")
        if dt == "c64":
            return lossy(x, "f32")
        if dt == "i":
            return func("trunc", x)
        if dt == "b":
            return truth(x)
        if dt == "in":
            if cur == "in":
                return x
            return lossy(x, "castin")
        return x

    # ---------------------------------------------------------------- helpers
    def t(self, v):
        """scalar term of a value, or None"""
        if isinstance(v, T):
            return v
        a = self.I.arr(v)
        if a is not None and a.rank == 0:
            return a.get()
        if a is not None and all(cval(d) == 1 for d in a.shape):
            return a.get(*[ZERO] * a.rank)
        return None

    def new(self, shape, fn, **kw):
        return self.I.new(Arr(shape, fn, **kw))

    def A(self, v):
        """Arr of anything array-like (scalars become rank 0)"""
        if isinstance(v, T):
            if v.op == "unknown" or v is NONE or v.op == "str":
                return None
            return Arr((), lambda: v)
        return self.I.arr(v)

    def out(self, a):
        return a.get() if a.rank == 0 else self.I.new(a)

    def axis(self, v, rank):
        c = cval(v) if isinstance(v, T) else None
        if c is None:
            return None
        c = int(c)
        return c + rank if c < 0 else c

    def reify(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, Choice):
            return ite(v.c, self.reify(v.a), self.reify(v.b))
        if isinstance(v, Tup):
            return tm.app("tuple", *[self.reify(x) for x in v.items])
        if isinstance(v, Cell) and v.kind == "obj":
            d = self.I.deref(v)
            return tm.app("obj:" + (v.cls.name if v.cls else "?"), *[self.reify(d[k]) for k in sorted(d)])
        if isinstance(v, Cell) and v.kind == "dict":
            d = self.I.deref(v)
            if isinstance(d, dict):
                ks = sorted(d, key=lambda k: k.key)
                return tm.app("dict", *[x for k in ks for x in (k, self.reify(d[k]))])
        if isinstance(v, FuncVal):
            return tm.mk("obj", v.qual)
        if isinstance(v, (ExtVal,)):
            return tm.mk("obj", v.path)
        a = self.I.arr(v)
        if a is not None:
            if a.rank == 0:
                return a.get()
            return a.as_lam()
        if isinstance(v, Cell) and v.kind == "list":
            c = self.I.deref(v)
            if isinstance(c, tuple):
                return tm.app("list", *[self.reify(x) for x in c])
        return self.I.unk("value not representable")

    # ------------------------------------------------------------------ index
    def norm_items(self, items, rank):
        out = []
        nn = 0
        for i in items:
            if i is ELLIPSIS:
                continue
            if isinstance(i, T) and i is NONE:
                continue
            a = None if isinstance(i, T) or isinstance(i, SliceVal) else self.I.arr(i)
            if a is not None and a.rank > 1 and self.isboolarr(a):
                nn += a.rank
            else:
                nn += 1
        seen = False
        for i in items:
            if i is ELLIPSIS:
                seen = True
                out += [SliceVal(NONE, NONE, NONE)] * (rank - nn)
            else:
                out.append(i)
        if not seen:
            out += [SliceVal(NONE, NONE, NONE)] * (rank - nn)
        return out

    def isboolarr(self, a):
        idx = [fresh("b", hi=sub(d, ONE) if d.op != "ite" else None) for d in a.shape]
        try:
            return tm.isbool(a.get(*idx))
        except tm.Blowup:
            return False

    def slice(self, s, n):
        """(start, count, step) with python clamping"""
        st = ONE if s.step is NONE else s.step
        c = cval(st)
        if c is None:
            lo, hi = tm.bounds(st)
            if lo <= 0:
                return None
        if c == 0:
            return None
        if c is None or c > 0:
            lo = ZERO if s.lo is NONE else self.bnd(s.lo, n)
            hi = n if s.hi is NONE else self.bnd(s.hi, n)
            d = sub(hi, lo)
            cnt = d if c == 1 else func("ceil", div(d, st))
            cnt = ite(lt(cnt, ZERO), ZERO, cnt)
            return lo, cnt, st
        # negative step
        top = sub(n, ONE)
        lo = top if s.lo is NONE else self.bnd2(s.lo, n)
        hi = const(-1) if s.hi is NONE else self.bnd2(s.hi, n)
        d = sub(lo, hi)
        cnt = func("ceil", div(d, neg(st)))
        cnt = ite(lt(cnt, ZERO), ZERO, cnt)
        return lo, cnt, st

    def bnd(self, x, n):
        x = self.t(x)
        if x is None:
            return self.I.unk("slice bound")
        x = ite(lt(x, ZERO), add(x, n), x)
        x = ite(lt(x, ZERO), ZERO, x)
        return ite(lt(n, x), n, x)

    def bnd2(self, x, n):
        x = self.t(x)
        if x is None:
            return self.I.unk("slice bound")
        x = ite(lt(x, ZERO), add(x, n), x)
        x = ite(lt(x, const(-1)), const(-1), x)
        return ite(lt(sub(n, ONE), x), sub(n, ONE), x)

    def plan(self, arr, items):
        """list of per-base-dim specs and result layout, or None"""
        items = self.norm_items(items, arr.rank)
        specs = []   # ('int', t) ('sl', start, step, resdim) ('mask', Arr, resdim, nd) ('fancy', Arr, resdims)
        shape = []
        d = 0
        adv = None
        copy = False
        for i in items:
            if isinstance(i, T) and i is NONE:
                shape.append(ONE)
                continue
            if d >= arr.rank:
                return None
            n = arr.shape[d]
            if isinstance(i, SliceVal):
                r = self.slice(i, n)
                if r is None:
                    return None
                specs.append(("sl", r[0], r[2], len(shape), r[1]))
                shape.append(r[1])
                d += 1
                continue
            if isinstance(i, T):
                if i.op == "unknown" or i.op == "str" or (tm.isbool(i) and i.op != "poly"):
                    return None
                specs.append(("int", ite(lt(i, ZERO), add(i, n), i)))
                d += 1
                continue
            if isinstance(i, RangeVal):
                specs.append(("sl", i.lo, i.step, len(shape), i.n))
                shape.append(i.n)
                copy = True
                d += 1
                continue
            a = self.I.arr(i)
            if a is None:
                return None
            if a.rank == 0:
                specs.append(("int", a.get()))
                d += 1
                continue
            if self.isboolarr(a):
                cnt = self.count(a)
                specs.append(("mask", a, len(shape), cnt))
                shape.append(cnt)
                d += a.rank
                copy = True
                continue
            if adv is not None:
                # second fancy index: must broadcast elementwise with the first (same length)
                specs.append(("fancy", a, adv[0], adv[1]))
                d += 1
                copy = True
                continue
            adv = (len(shape), a.rank)
            specs.append(("fancy", a, len(shape), a.rank))
            shape += list(a.shape)
            d += 1
            copy = True
        return specs, shape, copy

    def count(self, mask):
        def go(ax, idx):
            if ax == mask.rank:
                return tm.num(mask.get(*idx))
            return tm.summ(mask.shape[ax], lambda k: go(ax + 1, idx + [k]))
        return go(0, [])

    def nth(self, mask, k):
        return tm.app("nthtrue", mask.as_lam(), k)

    def compress(self, arr, mask):
        return self.number(Arr((self.count(mask),), lambda k: arr.get(self.nth(mask, k)), comp=(mask, lambda *i: arr.get(*i)), dt=arr.dt), mask)

    def number(self, r, mask):
        """selection by a condition without closed form: number its count and its elements"""
        cnt = r.shape[0]
        if mask.rank == 1 and r.rank == 1 and cnt.op in ("poly", "sum") and tm.atoms_of(cnt, lambda x: x.op == "sum"):
            g = tm.cut_term(cnt, [], 3)
            if g is not None:
                cnt = g()
                room = tm.sub(mask.shape[0], cnt)
                if room not in tm.ASSUME and room.op != "ite":
                    tm.ASSUME.append(room)
                    tm.DERIVED.add(room)
                k = tm.fresh("c", hi=tm.sub(cnt, tm.ONE))
                g = tm.cut_term(r.get(k), [k], 3)
                if g is not None:
                    self.selected_bound(g(k).args[0], r, mask)
                return Arr((cnt,), g or r.get, comp=r.comp, dt=r.dt)
        return r

    def selected_bound(self, name, r, mask):
        """x[x <= c]: no selected element exceeds c"""
        j = tm.fresh("j", hi=tm.sub(mask.shape[0], tm.ONE) if mask.shape[0].op != "ite" else None)
        try:
            x, m = r.comp[1](j), mask.get(j)
            for c in tm.atoms_of(m, lambda t: t.op == "sym" and "~" not in t.args[0]):
                if tm.le(x, c) is m:
                    tm.EL_HI[name] = c
        except tm.Blowup:
            pass

    def index(self, cell, items):
        I = self.I
        try:
            return self._index(cell, items)
        except tm.Blowup:
            return I.unk("index too complex")

    def _index(self, cell, items):
        I = self.I
        arr = I.arr(cell)
        items = [Tup(()) if False else i for i in items]
        if arr is None:
            return I.unk("index")
        # x[np.where(m)] arrives as a Tup of one MaskIdx
        flat = []
        for i in items:
            if isinstance(i, MaskIdx):
                i = I.new(i.mask)
            if isinstance(i, Tup) and len(i.items) == 1 and isinstance(i.items[0], MaskIdx):
                i = I.new(i.items[0].mask)
            flat.append(i)
        # np.where(mask)[0] produces an index array with comp over the mask
        items = []
        for i in flat:
            a = None if isinstance(i, (T, SliceVal)) or i is ELLIPSIS else I.arr(i)
            if a is not None and a.comp is not None and getattr(a, "dt", None) == "nz":
                i = I.new(a.comp[0])
            items.append(i)
        p = self.plan(arr, items)
        if p is None:
            return I.unk("index form")
        specs, shape, copy = p

        def tobase(ridx):
            out = []
            for s in specs:
                if s[0] == "int":
                    out.append(s[1])
                elif s[0] == "sl":
                    out.append(add(s[1], mul(ridx[s[3]], s[2])))
                elif s[0] == "mask":
                    if s[1].rank == 1:
                        out.append(self.nth(s[1], ridx[s[2]]))
                    else:
                        f = self.nth(s[1], ridx[s[2]])
                        rest = f
                        idx = []
                        for q in range(s[1].rank - 1, 0, -1):
                            m = s[1].shape[q]
                            fl = func("floor", div(rest, m))
                            idx.insert(0, sub(rest, mul(m, fl)))
                            rest = fl
                        out += [rest] + idx
                else:
                    a, pos, r = s[1], s[2], s[3]
                    v = a.get(*ridx[pos:pos + a.rank])
                    n = arr.shape[len(out)]
                    out.append(ite(lt(v, ZERO), add(v, n), v))
            return out
        if not shape:
            if cell.kind == "list" and isinstance(I.deref(cell), tuple):
                pass
            v = arr.get(*tobase([]))
            return v
        masks = [s for s in specs if s[0] == "mask"]
        if copy or cell.kind == "list":
            comp = None
            if len(masks) == 1 and all(s[0] in ("int", "mask") for s in specs):
                m = masks[0]
                pre = []

                def cf(*i):
                    out = []
                    for s in specs:
                        if s[0] == "int":
                            out.append(s[1])
                        else:
                            out += list(i)
                    return arr.get(*out)
                comp = (m[1], cf)
            r = Arr(shape, lambda *i: arr.get(*tobase(list(i))), comp=comp, dt=arr.dt)
            if comp is not None and len(specs) == 1:
                r = self.number(r, comp[0])
            if cell.kind == "list":
                c = Cell("list")
                r.islist = True
                I.st.heap[c.id] = r
                return c
            return I.new(r)

        def read(base):
            return Arr(shape, lambda *i: base.get(*tobase(list(i))), dt=base.dt)

        def write(base, content):
            return self.scatter(base, specs, shape, content)
        return Cell("arr", view=(cell, (read, write)))

    def scatter(self, base, specs, shape, content):
        """base with the region described by specs replaced by content (Arr)"""
        if any(s[0] == "fancy" for s in specs):
            return self.scatter_fancy(base, specs, shape, content)

        def get(*b):
            conds = TRUE
            ridx = {}
            k = 0
            cmask = None
            for s in specs:
                if s[0] == "int":
                    conds = band(conds, eq(b[k], s[1]))
                    k += 1
                elif s[0] == "sl":
                    off = sub(b[k], s[1])
                    c = cval(s[2])
                    if c == 1:
                        q = off
                        conds = band(conds, band(le(ZERO, q), lt(q, s[4])))
                    elif c == -1:
                        q = neg(off)
                        conds = band(conds, band(le(ZERO, q), lt(q, s[4])))
                    else:
                        q = func("floor", div(off, s[2]))
                        conds = band(conds, band(band(le(ZERO, q), lt(q, s[4])), eq(mul(q, s[2]), off)))
                    ridx[s[3]] = q
                    k += 1
                else:
                    m = s[1]
                    conds = band(conds, truth(m.get(*b[k:k + m.rank])))
                    cmask = (s, b[k:k + m.rank])
                    k += m.rank
            old = base.get(*b)
            if conds is FALSE:
                return old
            if cmask is not None:
                if content.comp is not None and same_arr(content.comp[0], cmask[0][1]) and content.rank == 1:
                    v = content.comp[1](*cmask[1])
                elif content.rank == 0:
                    v = content.get()
                else:
                    full = [ridx.get(q, ZERO) for q in range(len(shape))]
                    # content broadcast along the mask axis only
                    if content.rank and cval(content.shape[-1]) == 1 and cmask[0][2] == len(shape) - 1:
                        v = content.get(*full[len(shape) - content.rank:])
                    elif content.rank < len(shape) and cmask[0][2] < len(shape) - content.rank:
                        v = content.get(*full[len(shape) - content.rank:])
                    else:
                        v = unknown("masked store of an unrelated array")
            else:
                full = [ridx.get(q, ZERO) for q in range(len(shape))]
                off = len(shape) - content.rank
                if off < 0:
                    full = [ZERO] * (-off) + full
                    off = 0
                v = content.get(*[ZERO if cval(content.shape[q]) == 1 else full[off + q] for q in range(content.rank)])
            return ite(conds, self.cast(v, base.dt, content.dt), old)
        return Arr(base.shape, get, base.islist, dt=base.dt)

    def scatter_fancy(self, base, specs, shape, content):
        """only affine fancy indices (k + c)"""
        ns = []
        for s in specs:
            if s[0] == "fancy":
                a = s[1]
                if a.rank != 1:
                    return None
                k = fresh("f")
                v = a.get(k)
                off = sub(v, k)
                if tm.has_sym(off, k.args[0]):
                    return None
                ns.append(("sl", off, ONE, s[2], a.shape[0]))
            else:
                ns.append(s)
        if sum(1 for s in specs if s[0] == "fancy") > 1:
            return None
        return self.scatter(base, ns, shape, content)

    def store(self, cell, items, v):
        I = self.I
        try:
            base = I.arr(cell)
            if isinstance(v, Choice):
                a, b = self.A(v.a), self.A(v.b)
                content = I.amerge(v.c, a, b) if a is not None and b is not None and a.rank == b.rank else None
            else:
                content = self.A(v)
            if base is None:
                I.note("store into unknown")
                return False
            if content is None:
                u = v if isinstance(v, T) and v.unk else unknown("stored value")
                if v is NONE:
                    u = unknown("None stored")
                content = Arr((), lambda: u)
            its = []
            for i in items:
                if isinstance(i, MaskIdx):
                    i = I.new(i.mask)
                if isinstance(i, Tup) and len(i.items) == 1 and isinstance(i.items[0], MaskIdx):
                    i = I.new(i.items[0].mask)
                a = None if isinstance(i, (T, SliceVal)) or i is ELLIPSIS else I.arr(i)
                if a is not None and a.comp is not None and a.dt == "nz":
                    i = I.new(a.comp[0])
                its.append(i)
            p = self.plan(base, its)
            r = self.scatter(base, p[0], p[1], content) if p is not None else None
        except tm.Blowup:
            r = None
        if r is None:
            r = I.unk_arr(I.arr(cell), "store form")
            I.note("store form")
        if cell.kind == "list":
            r.islist = True
        I.write(cell, r)

    # ------------------------------------------------------------ attributes
    def attr(self, o, name):
        I = self.I
        a = I.arr(o) if not isinstance(o, T) else None
        if isinstance(o, T):
            if o.unk and name in ("size", "ndim", "shape", "T"):
                return I.unk("shape of an unknown value")
            if name == "T":
                return o
            if name == "real":
                return func("real", o)
            if name == "imag":
                return func("imag", o)
            if name == "size":
                return ONE
            if name == "ndim":
                return ZERO
            if name == "shape":
                return Tup(())
            return Method(o, name)
        if isinstance(o, Cell) and o.kind == "arr" and a is not None:
            if name == "shape":
                return Tup(a.shape)
            if name == "size":
                r = ONE
                for d in a.shape:
                    r = mul(r, d)
                return r
            if name == "ndim":
                return const(a.rank)
            if name == "T":
                return self.transpose(o, list(range(a.rank))[::-1])
            if name == "strides":
                out = []
                st = tm.sym("itemsize", int=True, lo=1)
                for d in reversed(a.shape):
                    out.insert(0, st)
                    st = mul(st, d)
                return Tup(out)
            if name == "itemsize":
                return tm.sym("itemsize", int=True, lo=1)
            if name == "dtype":
                return ExtVal("dtype:" + (a.dt or ""))
            if name == "real":
                return I.map1(lambda x: func("real", x), o)
            if name == "imag":
                return I.map1(lambda x: func("imag", x), o)
            if name == "flat":
                return self.reshape(o, [const(-1)])
        if isinstance(o, FuncVal):
            if name in ("__name__",):
                return string(o.name)
            return I.unk("function attribute")
        return Method(o, name)

    def transpose(self, cell, perm):
        I = self.I

        def read(b):
            def get(*i):
                src = [None] * len(perm)
                for q, pq in enumerate(perm):
                    src[pq] = i[q]
                return b.get(*src)
            return Arr([b.shape[q] for q in perm], get, dt=b.dt)

        def write(b, content):
            return Arr(b.shape, lambda *i: content.get(*[i[q] for q in perm]), dt=b.dt)
        if cell.kind == "list":
            return I.new(read(I.arr(cell)))
        return Cell("arr", view=(cell, (read, write)))

    def reshape(self, o, dims):
        I = self.I
        a = I.arr(o)
        if a is None:
            return I.unk("reshape")
        size = ONE
        for d in a.shape:
            size = mul(size, d)
        ds = []
        neg1 = None
        for k, d in enumerate(dims):
            d = self.t(d)
            if d is None:
                return I.unk("reshape")
            if cval(d) == -1:
                neg1 = k
            ds.append(d)
        if neg1 is not None:
            r = size
            for k, d in enumerate(ds):
                if k != neg1:
                    r = div(r, d)
            ds[neg1] = r

        def flat_to_old(f):
            idx = []
            rest = f
            for q in range(a.rank - 1, 0, -1):
                m = a.shape[q]
                if cval(m) == 1:
                    idx.insert(0, ZERO)
                    continue
                if all(cval(x) == 1 for x in a.shape[:q]):
                    idx.insert(0, rest)
                    rest = ZERO
                    continue
                fl = func("floor", div(rest, m))
                idx.insert(0, sub(rest, mul(m, fl)))
                rest = fl
            return [rest] + idx if a.rank else []

        def get(*i):
            f = ZERO
            for q, x in enumerate(i):
                f = add(mul(f, ds[q]), x if cval(ds[q]) != 1 else ZERO)
            # matching non-unit dims: direct mapping
            nz_new = [q for q in range(len(ds)) if cval(ds[q]) != 1]
            nz_old = [q for q in range(a.rank) if cval(a.shape[q]) != 1]
            if len(nz_new) == len(nz_old) and all(ds[x] is a.shape[y] for x, y in zip(nz_new, nz_old)):
                src = [ZERO] * a.rank
                for x, y in zip(nz_new, nz_old):
                    src[y] = i[x]
                return a.get(*src)
            return a.get(*flat_to_old(f))
        if isinstance(o, Cell) and o.kind == "arr":
            base = o

            def read(b):
                return Arr(ds, get, dt=b.dt)
            # views of a reshape keep the content at creation; stores through them are not modelled
            snapshot = Cell("arr", view=None)
            I.st.heap[snapshot.id] = Arr(ds, get, dt=a.dt)
            snapshot.name = ("reshape-of", o)
            return snapshot
        return I.new(Arr(ds, get))

    # --------------------------------------------------------------- methods
    METH = {"sum": "numpy.sum", "mean": "numpy.mean", "std": "numpy.std", "var": "numpy.var", "max": "numpy.max",
            "min": "numpy.min", "argmax": "numpy.argmax", "argmin": "numpy.argmin", "cumsum": "numpy.cumsum",
            "dot": "numpy.dot", "conj": "numpy.conj", "conjugate": "numpy.conj", "round": "numpy.round",
            "clip": "numpy.clip", "any": "numpy.any", "all": "numpy.all", "prod": "numpy.prod", "ravel": "numpy.ravel",
            "flatten": "numpy.ravel", "squeeze": "numpy.squeeze", "repeat": "numpy.repeat", "nonzero": "numpy.nonzero",
            "transpose": "numpy.transpose", "swapaxes": "numpy.swapaxes", "take": "numpy.take", "diagonal": "numpy.diagonal",
            "cumprod": "numpy.cumprod", "trace": "numpy.trace", "ptp": "numpy.ptp"}

    def method(self, o, name, args, kwargs):
        I = self.I
        if isinstance(o, T) and o.op == "unknown":
            return o
        if isinstance(o, T) and o.op == "str":
            return self.str_method(o, name, args)
        if isinstance(o, Cell) and o.kind == "dict":
            return self.dict_method(o, name, args, kwargs)
        if isinstance(o, Cell) and o.kind == "list" and name in ("append", "extend", "insert", "pop", "reverse", "copy", "index", "count", "sort", "clear", "remove"):
            return self.list_method(o, name, args)
        if name == "copy":
            a = self.A(o)
            return self.out(Arr(a.shape, a.get, dt=a.dt)) if a is not None else I.unk("copy")
        if name == "astype":
            dt = self.dtype(args[0] if args else kwargs.get("dtype"))
            a = self.A(o)
            if dt == "?" or a is None:
                return I.unk("astype")
            return self.out(Arr(a.shape, lambda *i: self.cast(a.get(*i), dt, a.dt), dt=dt))
        if name == "reshape":
            dims = list(args)
            if len(dims) == 1 and not isinstance(dims[0], T):
                s = I.seq(dims[0])
                if s is None or s[2] is None:
                    return I.unk("reshape")
                dims = s[2]
            return self.reshape(o, dims)
        if name == "transpose" and args and isinstance(args[0], T):
            args = [Tup(args)]
        if name == "tolist":
            a = self.A(o)
            if a is None:
                return I.unk("tolist")
            if a.rank == 0:
                return a.get()
            c = Cell("list")
            I.st.heap[c.id] = Arr(a.shape, a.get, True)
            return c
        if name == "item":
            t = self.t(o)
            return t if t is not None and not args else I.unk("item")
        if name == "fill" and isinstance(o, Cell) and o.kind == "arr":
            a, t = I.arr(o), self.t(args[0])
            if a is not None and t is not None:
                I.write(o, Arr(a.shape, lambda *i: self.cast(t, a.dt), dt=a.dt))
            return NONE
        if name in ("toarray", "todense"):
            a = I.arr(o)
            return I.new(Arr(a.shape, a.get)) if a is not None else I.unk(name)
        if name in ("is_integer",):
            t = self.t(o)
            return eq(t, func("floor", t)) if t is not None else I.unk(name)
        if name in self.METH:
            return self.call(self.METH[name], [o] + list(args), kwargs)
        if isinstance(o, Cell) and o.kind == "arr" and name in ("sort", "partition", "resize", "put", "itemset"):
            I.write(o, I.unk_arr(I.deref(o), name))
            return NONE
        return I.unk("method " + name)

    def str_method(self, o, name, args):
        s = o.args[0]
        if name in ("lower", "upper", "strip", "title", "capitalize") and not args:
            return string(getattr(s, name)())
        if name in ("startswith", "endswith") and args and isinstance(args[0], T) and args[0].op == "str":
            return TRUE if getattr(s, name)(args[0].args[0]) else FALSE
        return unknown("string method")

    def dict_method(self, o, name, args, kwargs):
        I = self.I
        d = I.deref(o)
        if not isinstance(d, dict):
            return I.unk("dict")
        if name == "get":
            return I.dict_get(d, args[0], args[1] if len(args) > 1 else kwargs.get("default", NONE))
        if name == "items":
            return I.newlist([Tup([k, v]) for k, v in d.items()])
        if name == "keys":
            return I.newlist(list(d))
        if name == "values":
            return I.newlist(list(d.values()))
        if name == "copy":
            return I.newdict(d)
        if name == "update":
            nd = dict(d)
            if args and isinstance(args[0], Cell) and args[0].kind == "dict":
                nd.update(I.deref(args[0]))
            elif args:
                return I.unk("dict.update")
            for k, v in kwargs.items():
                nd[string(k)] = v
            I.write(o, nd)
            return NONE
        if name == "setdefault" and args[0] in d:
            return d[args[0]]
        if name == "setdefault":
            nd = dict(d)
            nd[args[0]] = args[1] if len(args) > 1 else NONE
            I.write(o, nd)
            return nd[args[0]]
        if name == "pop" and isinstance(args[0], T) and args[0] in d:
            nd = dict(d)
            v = nd.pop(args[0])
            I.write(o, nd)
            return v
        return I.unk("dict method " + name)

    def list_method(self, o, name, args):
        I = self.I
        c = I.deref(o)
        if isinstance(c, ListAcc):
            if name == "append":
                I.write(o, ListAcc(c.base, c.items + (self.frozen(args[0]),), c.bad))
                return NONE
            I.write(o, ListAcc(c.base, c.items, True))
            return I.unk("list method in a loop")
        if isinstance(c, tuple):
            if name == "append":
                I.write(o, c + (args[0],))
                return NONE
            if name == "extend":
                s = I.seq(args[0])
                if s is not None and s[2] is not None:
                    I.write(o, c + tuple(s[2]))
                    return NONE
            if name == "insert" and isinstance(args[0], T) and cval(args[0]) is not None:
                l = list(c)
                l.insert(int(cval(args[0])), args[1])
                I.write(o, tuple(l))
                return NONE
            if name == "pop":
                k = cval(args[0]) if args else Fr(-1)
                if k is not None and c:
                    l = list(c)
                    v = l.pop(int(k))
                    I.write(o, tuple(l))
                    return v
            if name == "reverse":
                I.write(o, tuple(reversed(c)))
                return NONE
            if name == "copy":
                return I.newlist(c)
        a = I.arr(o)
        if a is not None:
            if name == "append":
                x = self.A(args[0])
                if x is not None and x.rank == a.rank - 1:
                    n = a.shape[0]
                    I.write(o, Arr((add(n, ONE),) + a.shape[1:],
                                   lambda k, *r: ite(lt(k, n), a.get(k, *r), x.get(*r)), True))
                    return NONE
            if name == "extend":
                r = self.list_concat(o, args[0])
                b = I.arr(r)
                if b is not None:
                    I.write(o, b)
                    return NONE
            if name == "copy":
                return I.new(Arr(a.shape, a.get, True))
            if name == "reverse":
                n = a.shape[0]
                I.write(o, Arr(a.shape, lambda k, *r: a.get(sub(sub(n, ONE), k), *r), True))
                return NONE
        u = unknown("list method " + name)
        I.note("list method " + name)
        I.write(o, Arr((u,), lambda *i: u, True))
        return u

    def frozen(self, v):
        """value appended inside a loop: freeze arrays at their present content"""
        a = self.I.arr(v) if isinstance(v, Cell) and v.kind == "arr" else None
        if a is not None:
            c = Cell("arr")
            self.I.st.heap[c.id] = a
            return c
        return v

    def list_concat(self, a, b):
        I = self.I
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        ca = a.items if isinstance(a, Tup) else I.deref(a)
        cb = b.items if isinstance(b, Tup) else I.deref(b)
        if isinstance(ca, tuple) and isinstance(cb, tuple):
            return I.newlist(ca + cb)
        A, B = I.arr(a), I.arr(b)
        if A is None or B is None:
            return I.unk("list concatenation")
        if cval(A.shape[0]) == 0 and A.rank != B.rank:
            r = B
        elif cval(B.shape[0]) == 0 and A.rank != B.rank:
            r = A
        elif A.rank != B.rank:
            return I.unk("list concatenation")
        else:
            r = self.concat2(A, B, 0)
        c = Cell("list")
        r = Arr(r.shape, r.get, True)
        I.st.heap[c.id] = r
        return c

    def concat2(self, A, B, ax):
        n = A.shape[ax]
        shape = list(A.shape)
        shape[ax] = add(n, B.shape[ax])

        def get(*i):
            k = i[ax]
            j = list(i)
            j[ax] = sub(k, n)
            c = lt(k, n)
            if c is TRUE:
                return A.get(*i)
            if c is FALSE:
                return B.get(*j)
            return ite(c, A.get(*i), B.get(*j))
        return Arr(shape, get, dt=A.dt if A.dt == B.dt else None)

    def list_repeat(self, l, n):
        I = self.I
        c = l.items if isinstance(l, Tup) else I.deref(l)
        k = cval(n)
        if isinstance(c, tuple) and k is not None and k * len(c) <= 64:
            r = c * int(max(k, 0))
            return Tup(r) if isinstance(l, Tup) else I.newlist(r)
        a = I.arr(l)
        if a is None:
            return I.unk("list repetition")
        m = a.shape[0]
        cnt = ite(lt(n, ZERO), ZERO, mul(n, m))
        if cval(m) == 1:
            r = Arr((cnt,) + a.shape[1:], lambda i, *q: a.get(ZERO, *q), True)
        else:
            r = Arr((cnt,) + a.shape[1:], lambda i, *q: a.get(sub(i, mul(m, func("floor", div(i, m)))), *q), True)
        cc = Cell("list")
        I.st.heap[cc.id] = r
        return cc

    # ---------------------------------------------------------------- matmul
    def is_sparse(self, v):
        if isinstance(v, Cell):
            a = self.I.arr(v)
            return a is not None and a.dt == "sparse"
        return False

    def matmul(self, a, b):
        I = self.I
        A, B = self.A(a), self.A(b)
        if A is None or B is None:
            return I.unk("matrix product")
        if A.rank == 0 or B.rank == 0:
            dt = "sparse" if "sparse" in (A.dt, B.dt) else None
            X, Y = (A, B) if A.rank else (B, A)
            if X.rank == 0:
                return mul(A.get(), B.get())
            return I.new(Arr(X.shape, lambda *i: mul(X.get(*i), Y.get()), dt=dt))
        n = A.shape[-1]
        if n.unk:
            n = B.shape[0 if B.rank == 1 else -2]
        A, B = self.cut(A), self.cut(B)
        if A.rank == 1 and B.rank == 1:
            return self.dotsum(n, lambda k: (A.get(k), B.get(k)))
        if A.rank >= 2 and B.rank == 1:
            return I.new(Arr(A.shape[:-1], lambda *i: self.dotsum(n, lambda k: (A.get(*i, k), B.get(k)))))
        if A.rank == 1 and B.rank == 2:
            return I.new(Arr((B.shape[1],), lambda j: self.dotsum(n, lambda k: (A.get(k), B.get(k, j)))))
        if A.rank == 2 and B.rank == 2:
            return I.new(Arr((A.shape[0], B.shape[1]),
                             lambda i, j: self.dotsum(n, lambda k: (A.get(i, k), B.get(k, j)))))
        return I.unk("matrix product rank")

    def dotsum(self, n, f):
        return tm.summ(n, lambda k: mul(*f(k)))

    # ------------------------------------------------------------------ calls
    def call(self, path, args, kwargs):
        I = self.I
        p = ALIASES.get(path, path)
        try:
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, T) and a.op == "unknown" and p not in ("print", "isinstance"):
                    return a
            out_arg = kwargs.pop("out", None) if p != "dict" else None
            r = self._call(p, list(args), dict(kwargs))
            if out_arg is not None and isinstance(out_arg, Cell):
                a = self.A(r)
                if a is not None and I.arr(out_arg) is not None:
                    I.write(out_arg, a)
                return out_arg
            return r
        except tm.Blowup:
            return I.unk("decision diagram too large in " + p)

    def _call(self, p, args, kw):
        I = self.I
        if p in UNARY and not args:
            for nm in ("x", "a", "z", "val"):
                if nm in kw:
                    args = [kw.pop(nm)]
                    break
        if p in UNARY and args:
            if len(args) > 1 and isinstance(args[1], Cell):
                r = I.map1(UNARY[p], args[0])
                I.write(args[1], self.A(r))
                return args[1]
            where = kw.pop("where", None)
            if where is not None:
                return I.unk("where= argument")
            f = UNARY[p]
            r = I.map1(f, args[0])
            if self.is_sparse(args[0]) and isinstance(r, Cell):
                I.arr(r).dt = "sparse"
            elif isinstance(r, Cell) and p in ("numpy.isnan",):
                pass
            return r
        if p.startswith("op.") and len(args) >= 2:
            if kw.get("where") is not None:
                return I.unk("where= argument")
            if p in ("op.BitAnd", "op.BitOr", "op.BitXor"):
                args = [self.boolify(a) for a in args]
            r = I.binop(p[3:], args[0], args[1])
            if len(args) > 2 and isinstance(args[2], Cell):
                I.write(args[2], self.A(r))
                return args[2]
            return r
        if p.startswith("cmp.") and len(args) >= 2:
            return I.compare(p[4:], args[0], args[1])
        if p.startswith("numpy.errstate") or p in ("print", "warnings.warn", "logging.getLogger"):
            return NONE
        if p.startswith("win."):
            return self.window(p[4:], args, kw)
        h = getattr(self, "f_" + p.replace("numpy.", "np_").replace(".", "_"), None)
        if h is not None:
            try:
                return h(*args, **kw)
            except TypeError as e:
                if "positional argument" in str(e) or "keyword argument" in str(e) or "required" in str(e):
                    return I.unk("arguments of " + p)
                raise
        return I.unk("call of " + p)

    def boolify(self, a):
        return self.I.map1(lambda x: truth(x), a)

    def extindex(self, path, items):
        if path in ("numpy.r_",):
            parts = []
            for i in items:
                if isinstance(i, SliceVal):
                    i = self.f_np_arange(ZERO if i.lo is NONE else i.lo, i.hi, ONE if i.step is NONE else i.step)
                parts.append(i if not isinstance(i, T) else self.I.newlist([i]))
            return self.f_np_concatenate(self.I.newlist(parts))
        if path == "numpy.c_":
            return self.f_np_column_stack(self.I.newlist(list(items)))
        return ExtVal(path)

    # ---- builtins
    def f_len(self, x):
        I = self.I
        if isinstance(x, RangeVal):
            return x.n
        if isinstance(x, Tup):
            return const(len(x.items))
        if isinstance(x, Seq):
            return x.n
        if isinstance(x, T) and x.op == "str":
            return const(len(x.args[0]))
        if isinstance(x, Cell):
            c = I.deref(x)
            if isinstance(c, (tuple, dict)):
                return const(len(c))
            a = I.arr(x)
            if a is not None and a.rank > 0:
                return a.shape[0]
        return I.unk("len")

    def f_range(self, *a):
        a = [self.t(x) for x in a]
        if any(x is None for x in a):
            return self.I.unk("range")
        lo, hi, st = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
        d = sub(hi, lo)
        c = cval(st)
        n = d if c == 1 else (neg(d) if c == -1 else func("ceil", div(d, st)))
        n = ite(lt(n, ZERO), ZERO, n)
        return RangeVal(lo, n, st)

    def f_enumerate(self, x, start=ZERO):
        s = self.I.seq(x)
        if s is None:
            return self.I.unk("enumerate")
        n, item, st = s
        if st is not None:
            return self.I.newlist([Tup([add(const(k), start), v]) for k, v in enumerate(st)])
        return Seq(n, lambda k: Tup([add(k, start), item(k)]))

    def f_zip(self, *xs, **kw):
        I = self.I
        ss = [I.seq(x) for x in xs]
        if any(s is None for s in ss) or not ss:
            return I.unk("zip")
        if all(s[2] is not None for s in ss):
            return I.newlist([Tup(t) for t in zip(*[s[2] for s in ss])])
        n = None
        for s in ss:
            n = s[0] if n is None or n is s[0] else tmin(n, s[0])

        def it(s):
            if s[1] is not None:
                return s[1]
            st = s[2]
            return lambda k: pick(k, st) if all(isinstance(x, T) for x in st) else (
                st[int(cval(k))] if cval(k) is not None else I.unk("zip item"))
        its = [it(s) for s in ss]
        return Seq(n, lambda k: Tup([f(k) for f in its]))

    def f_reversed(self, x):
        s = self.I.seq(x)
        if s is None:
            return self.I.unk("reversed")
        if s[2] is not None:
            return self.I.newlist(list(reversed(s[2])))
        n = s[0]
        return Seq(n, lambda k: s[1](sub(sub(n, ONE), k)))

    def f_map(self, f, *xs):
        I = self.I
        z = self.f_zip(*xs)
        s = I.seq(z) if not isinstance(z, T) else None
        if s is None:
            return I.unk("map")
        if s[2] is not None:
            return I.newlist([I.call(f, list(t.items), {}) for t in s[2]])
        return Seq(s[0], lambda k: I.call(f, list(s[1](k).items), {}))

    def f_sum(self, x, start=ZERO):
        I = self.I
        s = I.seq(x)
        if s is None:
            return I.unk("sum")
        if s[2] is not None:
            r = start
            for v in s[2]:
                r = I.binop("Add", r, v)
            return r
        a = I.arr(x)
        if a is None:
            return I.unk("sum")
        r = self.f_np_sum(I.new(a), axis=ZERO)
        return I.binop("Add", start, r) if start is not ZERO else r

    def minmax(self, f, args, kw):
        I = self.I
        if kw:
            return I.unk("min/max options")
        if len(args) == 1:
            s = I.seq(args[0])
            if s is None:
                return I.unk("min/max")
            if s[2] is not None and len(s[2]) > 0 and all(isinstance(v, T) for v in s[2]):
                r = s[2][0]
                for v in s[2][1:]:
                    r = f(r, v)
                return r
            return self.reduce("max" if f is tmax else "min", args[0], NONE, FALSE)
        ts = [self.t(a) for a in args]
        if any(t is None for t in ts):
            return I.unk("min/max")
        r = ts[0]
        for v in ts[1:]:
            r = f(r, v)
        return r

    def f_min(self, *a, **k):
        return self.minmax(tmin, a, k)

    def f_max(self, *a, **k):
        return self.minmax(tmax, a, k)

    def f_abs(self, x):
        return self.I.map1(lambda v: func("abs", v), x)

    def f_int(self, x=ZERO, *a):
        t = self.t(x)
        if t is None or a:
            return self.I.unk("int")
        return func("trunc", t)

    def f_float(self, x=ZERO):
        t = self.t(x)
        if t is None:
            return self.I.unk("float")
        if t.op == "str":
            v = {"inf": tm.BAD_INF, "-inf": tm.BAD_NINF, "nan": tm.BAD_NAN}.get(t.args[0].lower())
            return v if v is not None else self.I.unk("float of string")
        return tm.num(t)

    def f_complex(self, a=ZERO, b=ZERO):
        return add(a, mul(b, tm.I))

    def f_bool(self, x=FALSE):
        return self.I.truthv(x)

    def f_round(self, x, nd=ZERO):
        return self.f_np_round(x, nd)

    def f_list(self, x=None):
        I = self.I
        if x is None:
            return I.newlist([])
        s = I.seq(x)
        if s is None:
            return I.unk("list")
        if s[2] is not None:
            return I.newlist(s[2])
        a = I.arr(x)
        if a is None:
            return x if isinstance(x, Seq) else I.unk("list")
        c = Cell("list")
        I.st.heap[c.id] = Arr(a.shape, a.get, True)
        return c

    def f_tuple(self, x=None):
        if x is None:
            return Tup(())
        s = self.I.seq(x)
        if s is not None and s[2] is not None:
            return Tup(s[2])
        return self.f_list(x)

    def f_iter(self, x):
        return x

    def f_dict(self, x=None, **kw):
        d = {}
        if x is not None:
            if isinstance(x, Cell) and x.kind == "dict":
                d.update(self.I.deref(x))
            else:
                s = self.I.seq(x)
                if s is None or s[2] is None:
                    return self.I.unk("dict")
                for it in s[2]:
                    ss = self.I.seq(it)
                    d[ss[2][0]] = ss[2][1]
        for k, v in kw.items():
            d[string(k)] = v
        return self.I.newdict(d)

    def f_set(self, x=None):
        return self.f_tuple(x) if x is not None else Tup(())

    f_frozenset = f_set

    def f_str(self, x=None):
        if isinstance(x, T) and x.op == "str":
            return x
        return unknown("str")

    def f_callable(self, x):
        return TRUE if isinstance(x, (FuncVal, Partial, ExtVal, ClassVal)) else FALSE

    def f_pow(self, a, b):
        return self.I.binop("Pow", a, b)

    def f_divmod(self, a, b):
        return Tup([self.I.binop("FloorDiv", a, b), self.I.binop("Mod", a, b)])

    def f_any(self, x):
        return self.f_np_any(x)

    def f_all(self, x):
        return self.f_np_all(x)

    def f_isinstance(self, x, c):
        I = self.I
        cs = c.items if isinstance(c, Tup) else [c]
        res = FALSE
        for k in cs:
            res = bor(res, self.isinst(x, k))
        return res

    def isinst(self, x, k):
        n = k.path.split(".")[-1] if isinstance(k, ExtVal) else (k.name if isinstance(k, ClassVal) else None)
        if n is None:
            return tm.batom(unknown("isinstance"))
        if isinstance(x, Choice):
            return ite(x.c, self.isinst(x.a, k), self.isinst(x.b, k))
        if isinstance(x, T):
            def f(t):
                if t is NONE:
                    return FALSE
                if t.op == "str":
                    return TRUE if n == "str" else FALSE
                if t in (TRUE, FALSE):
                    return TRUE if n in ("bool", "int") else FALSE
                if n in ("str", "ndarray", "list", "tuple", "dict", "bool", "ClassVal", "Sequence", "Iterable"):
                    return FALSE
                if n in ("int", "Integral", "integer") and tm.isint(t):
                    return TRUE
                if n in ("Number", "Real", "generic"):
                    return TRUE if n != "generic" else FALSE
                return tm.batom(unknown("isinstance"))
            return lift(f, x)
        if isinstance(x, Tup):
            return TRUE if n in ("tuple", "Sequence", "Iterable") else FALSE
        if isinstance(x, Cell):
            if x.kind == "arr":
                return TRUE if n in ("ndarray", "Iterable") else FALSE
            if x.kind == "list":
                return TRUE if n in ("list", "Sequence", "Iterable") else FALSE
            if x.kind == "dict":
                return TRUE if n in ("dict", "Mapping") else FALSE
            if x.kind == "obj":
                return TRUE if x.cls is not None and n == x.cls.name else FALSE
        return tm.batom(unknown("isinstance"))

    def f_sorted(self, x, key=None, reverse=FALSE):
        s = self.I.seq(x)
        if s is not None and s[2] is not None and all(isinstance(v, T) and cval(v) is not None for v in s[2]) and key is None:
            return self.I.newlist(sorted(s[2], key=lambda v: cval(v), reverse=reverse is TRUE))
        a = self.I.arr(x)
        if a is not None and a.rank == 1 and key is None and reverse is FALSE:
            l = a.as_lam()
            c = Cell("list")
            self.I.st.heap[c.id] = Arr(a.shape, lambda k: tm.app("sort", l, k), True)
            return c
        return self.I.unk("sorted")

    def f_slice(self, *a):
        if len(a) == 1:
            return SliceVal(NONE, a[0], NONE)
        return SliceVal(a[0], a[1], a[2] if len(a) > 2 else NONE)

    def f_type(self, x):
        return self.I.unk("type")

    def f_functools_partial(self, f, *args, **kw):
        return Partial(f, list(args), kw)

    def f_functools_reduce(self, f, xs, *init):
        s = self.I.seq(xs)
        if s is None or s[2] is None:
            return self.I.unk("reduce")
        l = list(init) + list(s[2])
        r = l[0]
        for v in l[1:]:
            r = self.I.call(f, [r, v], {})
        return r

    def f_copy_copy(self, x):
        if isinstance(x, Cell) and x.kind == "obj":
            return self.I.newobj(x.cls, self.I.deref(x))
        return self.method(x, "copy", [], {})

    f_copy_deepcopy = f_copy_copy

    def f_dataclasses_replace(self, x, **kw):
        d = dict(self.I.deref(x))
        d.update(kw)
        return self.I.newobj(x.cls, d)

    def f_itertools_product(self, *xs):
        I = self.I
        ss = [I.seq(x) for x in xs]
        if any(s is None for s in ss):
            return I.unk("product")
        if all(s[2] is not None or (cval(s[0]) is not None and cval(s[0]) < 40) for s in ss):
            import itertools
            ls = [s[2] if s[2] is not None else [s[1](const(k)) for k in range(int(cval(s[0])))] for s in ss]
            return I.newlist([Tup(t) for t in itertools.product(*ls)])
        if len(ss) == 2 and all(s[1] is not None for s in ss):
            m = ss[1][0]
            return Seq(mul(ss[0][0], m), lambda k: Tup([ss[0][1](func("floor", div(k, m))),
                                                        ss[1][1](sub(k, mul(m, func("floor", div(k, m)))))]))
        return I.unk("product")

    # ---- array creation
    def shape_of(self, s):
        I = self.I
        if isinstance(s, T):
            return [s]
        q = I.seq(s)
        if q is None:
            return None
        items = q[2]
        if items is None:
            if cval(q[0]) is None:
                return None
            items = [q[1](const(k)) for k in range(int(cval(q[0])))]
        out = [self.t(x) for x in items]
        return None if any(x is None for x in out) else out

    def filled(self, shape, v, dt):
        s = self.shape_of(shape)
        if s is None:
            return self.I.unk("array shape")
        return self.out(Arr(s, lambda *i: v, dt=dt)) if s else v

    def dt_or(self, dtype, default):
        d = self.dtype(dtype)
        return default if d is None and not isinstance(dtype, ExtVal) else d

    def f_np_zeros(self, shape, dtype=NONE, order=NONE):
        return self.filled(shape, ZERO, self.dt_or(dtype, "f"))

    def f_np_ones(self, shape, dtype=NONE, order=NONE):
        return self.filled(shape, ONE, self.dt_or(dtype, "f"))

    def f_np_empty(self, shape, dtype=NONE, order=NONE):
        return self.filled(shape, tm.mk("app", "uninit"), self.dt_or(dtype, "f"))

    def f_np_full(self, shape, fill_value, dtype=NONE, order=NONE):
        t = self.t(fill_value)
        return self.filled(shape, t, self.dtype(dtype)) if t is not None else self.I.unk("full")

    def like(self, x, v, dtype):
        a = self.I.arr(x)
        if a is None:
            return self.I.unk("like")
        dt = self.dtype(dtype)
        if dt is None:
            dt = a.dt
        return self.I.new(Arr(a.shape, lambda *i: v, dt=dt))

    def f_np_zeros_like(self, a, dtype=NONE, shape=None):
        return self.like(a, ZERO, dtype)

    def f_np_ones_like(self, a, dtype=NONE):
        return self.like(a, ONE, dtype)

    def f_np_empty_like(self, a, dtype=NONE):
        return self.like(a, tm.mk("app", "uninit"), dtype)

    def f_np_full_like(self, a, fill_value, dtype=NONE):
        return self.like(a, self.t(fill_value), dtype)

    def f_np_eye(self, n, m=None, dtype=NONE):
        m = n if m is None else m
        return self.new((n, m), lambda i, j: ite(eq(i, j), ONE, ZERO), dt="f")

    f_np_identity = f_np_eye

    def f_np_array(self, x, dtype=NONE, copy=TRUE, ndmin=None, order=NONE):
        I = self.I
        dt = self.dtype(dtype)
        if isinstance(x, T):
            return self.cast(x, dt) if x is not NONE else I.unk("array(None)")
        a = I.arr(x)
        if a is None:
            return I.unk("array of irregular values")
        src = a.dt
        if isinstance(x, Cell) and x.kind == "list" and dt is None:
            src = None
        ndt = dt if dt is not None else src
        r = Arr(a.shape, (lambda *i: self.cast(a.get(*i), dt, a.dt)) if dt else a.get, comp=a.comp, dt=ndt)
        if a.comp is not None and dt:
            r.comp = (a.comp[0], lambda *i: self.cast(a.comp[1](*i), dt, a.dt))
        return I.new(r)

    def f_np_asarray(self, x, dtype=NONE):
        dt = self.dtype(dtype)
        if isinstance(x, Cell) and x.kind == "arr":
            a = self.I.arr(x)
            if dt is None or a is not None and a.dt == dt:
                return x
            if dt in ("f", "c"):
                # may or may not copy: keep aliasing (worst case) by a pass-through view
                return Cell("arr", view=(x, (lambda b: Arr(b.shape, b.get, dt=dt), None)))
        return self.f_np_array(x, dtype)

    f_np_asanyarray = f_np_asarray
    f_np_ascontiguousarray = f_np_asarray

    def f_np_copy(self, x):
        return self.f_np_array(x)

    def f_np_atleast_1d(self, x):
        if isinstance(x, T):
            return self.new((ONE,), lambda i: x)
        return x

    def f_np_atleast_2d(self, x):
        a = self.A(x)
        if a is None:
            return self.I.unk("atleast_2d")
        if a.rank == 2:
            return x
        if a.rank == 1:
            return self.new((ONE,) + a.shape, lambda i, j: a.get(j))
        return self.new((ONE, ONE), lambda i, j: a.get())

    def f_np_arange(self, *a, dtype=NONE, start=None, stop=None, step=None):
        a = list(a)
        if stop is not None:
            a = [start if start is not None else ZERO, stop, step or ONE]
        if len(a) == 4:
            dtype = a.pop()
        ts = [self.t(x) for x in a if not (isinstance(x, T) and x is NONE)]
        if any(x is None for x in ts) or not ts:
            return self.I.unk("arange")
        lo, hi, st = (ZERO, ts[0], step or ONE) if len(ts) == 1 else (ts[0], ts[1], ts[2] if len(ts) > 2 else (step or ONE))
        d = div(sub(hi, lo), st)
        n = func("ceil", d)
        n = ite(lt(n, ZERO), ZERO, n)
        dt = self.dtype(dtype)
        if dt is None and all(tm.isint(x) for x in (lo, hi, st)):
            dt = "i"
        return self.new((n,), lambda k: self.cast(add(lo, mul(k, st)), dt), dt=dt)

    def f_np_linspace(self, start, stop, num=const(50), endpoint=TRUE, retstep=FALSE, dtype=NONE, axis=ZERO):
        I = self.I
        s, e, n = self.t(start), self.t(stop), self.t(num)
        if s is None or e is None or n is None or not isinstance(endpoint, T) or endpoint.unk:
            return I.unk("linspace")
        den = ite(truth(endpoint), sub(n, ONE), n)
        step = div(sub(e, s), den)
        dt = self.dtype(dtype)
        r = self.new((n,), lambda k: self.cast(add(s, mul(k, step)), dt), dt=dt or "f")
        return Tup([r, step]) if retstep is TRUE else r

    def f_np_logspace(self, start, stop, num=const(50), endpoint=TRUE, base=const(10)):
        r = self.f_np_linspace(start, stop, num, endpoint)
        return self.I.binop("Pow", base, r)

    def f_np_geomspace(self, start, stop, num=const(50), endpoint=TRUE):
        l = lambda x: func("log", self.t(x))
        return self.I.map1(lambda x: func("exp", x), self.f_np_linspace(l(start), l(stop), num, endpoint))

    def f_np_finfo(self, *a):
        return self.I.newobj(None, {"eps": tm.EPS, "tiny": tm.sym("tiny", lo=Fr(1, 10 ** 308)),
                                    "max": tm.sym("floatmax", lo=10 ** 300)})

    def window(self, name, args, kw):
        M = self.t(args[0]) if args else self.t(kw.get("M"))
        if M is None:
            return self.I.unk("window")
        s = kw.get("sym", TRUE)
        rest = list(args[1:])
        den = sub(M, ONE)
        if name == "kaiser":
            beta = kw.get("beta", rest.pop(0) if rest else None)
            beta = self.t(beta) if beta is not None else None
            if beta is None:
                return self.I.unk("kaiser")
        if rest:
            s = rest[0]
        if s is FALSE:
            den = M
        elif s is not TRUE:
            return self.I.unk("window symmetry")
        ph = lambda k: div(mul(mul(TWO, tm.PI), k), den)
        c = lambda q: const(Fr(q))
        if name == "hamming":
            f = lambda k: sub(c("0.54"), mul(c("0.46"), func("cos", ph(k))))
        elif name == "hanning":
            f = lambda k: sub(c("0.5"), mul(c("0.5"), func("cos", ph(k))))
        elif name == "blackman":
            f = lambda k: add(sub(c("0.42"), mul(c("0.5"), func("cos", ph(k)))),
                              mul(c("0.08"), func("cos", mul(TWO, ph(k)))))
        elif name == "bartlett":
            f = lambda k: ite(lt(mul(TWO, k), den), div(mul(TWO, k), den), sub(TWO, div(mul(TWO, k), den)))
        else:
            f = lambda k: tm.app("kaiser", den, beta, k)
        return self.new((M,), f, dt="f")

    def f_scipy_signal_get_window(self, w, Nx, fftbins=TRUE):
        nm = w.args[0] if isinstance(w, T) and w.op == "str" else None
        al = {"hann": "hanning", "hanning": "hanning", "hamming": "hamming", "blackman": "blackman", "bartlett": "bartlett"}
        if nm not in al:
            return self.I.unk("get_window")
        return self.window(al[nm], [Nx], {"sym": FALSE if fftbins is TRUE else TRUE})

    f_scipy_signal_windows_get_window = f_scipy_signal_get_window

    # ---- shape manipulation
    def f_np_reshape(self, a, newshape=None, shape=None, order=NONE):
        s = self.shape_of(newshape if newshape is not None else shape)
        return self.reshape(a, s) if s is not None else self.I.unk("reshape")

    def f_np_ravel(self, a, order=NONE):
        A = self.A(a)
        if A is None:
            return self.I.unk("ravel")
        if A.rank == 1:
            return a
        return self.reshape(a, [const(-1)])

    def f_np_squeeze(self, a, axis=NONE):
        A = self.A(a)
        if A is None:
            return self.I.unk("squeeze")
        return self.reshape(a, [d for d in A.shape if cval(d) != 1])

    def f_np_expand_dims(self, a, axis):
        A = self.A(a)
        k = self.axis(axis, (A.rank if A else 0) + 1)
        if A is None or k is None:
            return self.I.unk("expand_dims")
        items = [SliceVal(NONE, NONE, NONE)] * A.rank
        items.insert(k, NONE)
        return self.index(a if isinstance(a, Cell) else self.I.new(A), items)

    def f_np_transpose(self, a, axes=NONE):
        A = self.I.arr(a)
        if A is None:
            return self.I.unk("transpose")
        if axes is NONE:
            perm = list(range(A.rank))[::-1]
        else:
            s = self.shape_of(axes)
            perm = [int(cval(x)) for x in s]
        return self.transpose(a if isinstance(a, Cell) else self.I.new(A), perm)

    def f_np_swapaxes(self, a, i, j):
        A = self.I.arr(a)
        p = list(range(A.rank))
        i, j = self.axis(i, A.rank), self.axis(j, A.rank)
        p[i], p[j] = p[j], p[i]
        return self.transpose(a, p)

    def f_np_flip(self, a, axis=NONE):
        A = self.I.arr(a)
        if A is None:
            return self.I.unk("flip")
        axs = range(A.rank) if axis is NONE else [self.axis(axis, A.rank)]
        items = [SliceVal(NONE, NONE, const(-1)) if k in axs else SliceVal(NONE, NONE, NONE) for k in range(A.rank)]
        return self.index(a if isinstance(a, Cell) else self.I.new(A), items)

    def f_np_flipud(self, a):
        return self.f_np_flip(a, ZERO)

    def f_np_fliplr(self, a):
        return self.f_np_flip(a, ONE)

    def f_np_concatenate(self, xs, axis=ZERO, dtype=NONE):
        I = self.I
        s = I.seq(xs)
        if s is None:
            return I.unk("concatenate")
        if s[2] is None:
            a = I.arr(xs)
            if a is not None and a.rank >= 2 and self.axis(axis, a.rank - 1) == 0:
                return self.reshape(I.new(a), [mul(a.shape[0], a.shape[1])] + list(a.shape[2:]))
            return I.unk("concatenate")
        A = [self.A(x) for x in s[2]]
        if any(a is None for a in A) or not A:
            return I.unk("concatenate")
        if axis is NONE:
            A = [I.arr(self.f_np_ravel(I.new(a))) for a in A]
            axis = ZERO
        ax = self.axis(axis, A[0].rank)
        if ax is None or any(a.rank != A[0].rank for a in A) or A[0].rank == 0:
            return I.unk("concatenate")
        r = A[0]
        for b in A[1:]:
            r = self.concat2(r, b, ax)
        return I.new(r)

    def f_np_append(self, a, b, axis=NONE):
        I = self.I
        A, B = self.A(a), self.A(b)
        if A is None or B is None:
            return I.unk("append")
        if axis is NONE:
            f = lambda X: Arr((ONE,), lambda i: X.get()) if X.rank == 0 else I.arr(self.f_np_ravel(I.new(X)))
            return I.new(self.concat2(f(A), f(B), 0))
        ax = self.axis(axis, A.rank)
        if A.rank != B.rank:
            return I.unk("append")
        return I.new(self.concat2(A, B, ax))

    def f_np_insert(self, a, pos, v, axis=NONE):
        I = self.I
        A, p, V = self.I.arr(a), self.t(pos), self.t(v)
        if A is None or p is None or V is None or A.rank != 1:
            return I.unk("insert")
        n = A.shape[0]
        p = ite(lt(p, ZERO), add(p, n), p)

        def get(k):
            return ite(lt(k, p), A.get(k), ite(eq(k, p), V, A.get(sub(k, ONE))))
        return I.new(Arr((add(n, ONE),), get))

    def f_np_stack(self, xs, axis=ZERO):
        I = self.I
        a = I.arr(xs)
        if a is None:
            return I.unk("stack")
        ax = self.axis(axis, a.rank)
        if ax == 0:
            return I.new(Arr(a.shape, a.get))
        p = list(range(1, a.rank))
        p.insert(ax, 0)
        return self.transpose(I.new(Arr(a.shape, a.get)), p)

    def parts(self, xs):
        s = self.I.seq(xs)
        if s is None:
            return None
        if s[2] is None:
            return None
        A = [self.A(x) for x in s[2]]
        return None if any(a is None for a in A) else A

    def f_np_vstack(self, xs, dtype=NONE):
        I = self.I
        A = self.parts(xs)
        if A is None:
            a = I.arr(xs)
            if a is not None and a.rank == 2:
                return I.new(Arr(a.shape, a.get))
            return I.unk("vstack")
        A = [a if a.rank == 2 else Arr((ONE,) + a.shape, lambda i, j, a=a: a.get(j)) for a in A]
        r = A[0]
        for b in A[1:]:
            r = self.concat2(r, b, 0)
        return I.new(r)

    f_np_row_stack = f_np_vstack

    def f_np_hstack(self, xs, dtype=NONE):
        I = self.I
        A = self.parts(xs)
        if A is None:
            return self.f_np_concatenate(xs)
        A = [a if a.rank else Arr((ONE,), lambda i, a=a: a.get()) for a in A]
        ax = 0 if A[0].rank == 1 else 1
        if any(a.rank != A[0].rank for a in A):
            return I.unk("hstack")
        r = A[0]
        for b in A[1:]:
            r = self.concat2(r, b, ax)
        return I.new(r)

    def f_np_column_stack(self, xs):
        I = self.I
        A = self.parts(xs)
        if A is None:
            a = I.arr(xs)
            if a is not None and a.rank == 2:
                return self.transpose(I.new(Arr(a.shape, a.get)), [1, 0])
            return I.unk("column_stack")
        A = [a if a.rank == 2 else Arr(a.shape + (ONE,), lambda i, j, a=a: a.get(i)) for a in A]
        r = A[0]
        for b in A[1:]:
            r = self.concat2(r, b, 1)
        return I.new(r)

    def f_np_tile(self, a, reps):
        I = self.I
        A = self.A(a)
        r = self.shape_of(reps)
        if A is None or r is None:
            return I.unk("tile")
        rank = max(A.rank, len(r))
        sh = [ONE] * (rank - A.rank) + list(A.shape)
        r = [ONE] * (rank - len(r)) + list(r)

        def get(*i):
            out = []
            for q in range(rank - A.rank, rank):
                k = i[q]
                n = sh[q]
                if cval(n) == 1:
                    out.append(ZERO)
                elif cval(r[q]) == 1:
                    out.append(k)
                else:
                    out.append(sub(k, mul(n, func("floor", div(k, n)))))
            return A.get(*out)
        return I.new(Arr([mul(x, y) for x, y in zip(sh, r)], get, dt=A.dt))

    def f_np_repeat(self, a, repeats, axis=NONE):
        I = self.I
        A, r = self.A(a), self.t(repeats)
        if A is None or r is None:
            return I.unk("repeat")
        if A.rank == 0:
            return I.new(Arr((r,), lambda i: A.get()))
        if axis is NONE:
            if A.rank != 1:
                return I.unk("repeat")
            ax = 0
        else:
            ax = self.axis(axis, A.rank)
        sh = list(A.shape)
        one = cval(sh[ax]) == 1
        sh[ax] = mul(sh[ax], r)

        def get(*i):
            j = list(i)
            j[ax] = ZERO if one else func("floor", div(i[ax], r))
            return A.get(*j)
        return I.new(Arr(sh, get, dt=A.dt))

    def f_np_broadcast_to(self, a, shape):
        A, s = self.A(a), self.shape_of(shape)
        if A is None or s is None:
            return self.I.unk("broadcast_to")
        off = len(s) - A.rank
        return self.new(s, lambda *i: A.get(*[ZERO if cval(A.shape[q]) == 1 else i[off + q] for q in range(A.rank)]))

    def f_np_pad(self, a, pad_width, mode=string("constant"), constant_values=ZERO):
        I = self.I
        A = I.arr(a)
        if A is None or not isinstance(mode, T) or mode.op != "str":
            return I.unk("pad")
        pw = I.arr(pad_width) if not isinstance(pad_width, T) else None
        if isinstance(pad_width, T):
            prs = [(pad_width, pad_width)] * A.rank
        elif pw is not None and pw.rank == 1 and cval(pw.shape[0]) == 2 and (A.rank == 1 or True):
            prs = [(pw.get(ZERO), pw.get(ONE))] * A.rank
        elif pw is not None and pw.rank == 2 and cval(pw.shape[0]) == A.rank:
            prs = [(pw.get(const(q), ZERO), pw.get(const(q), ONE)) for q in range(A.rank)]
        else:
            return I.unk("pad")
        md = mode.args[0]
        cv = self.t(constant_values)
        if md not in ("constant", "edge") or cv is None:
            return I.unk("pad mode")
        sh = [add(n, add(x, y)) for n, (x, y) in zip(A.shape, prs)]

        def get(*i):
            j = [sub(k, x) for k, (x, y) in zip(i, prs)]
            if md == "edge":
                return A.get(*[tm.clamp(k, ZERO, sub(n, ONE)) for k, n in zip(j, A.shape)])
            c = TRUE
            for k, n, (x, y) in zip(j, A.shape, prs):
                if x is not ZERO:
                    c = band(c, le(ZERO, k))
                if y is not ZERO:
                    c = band(c, lt(k, n))
            return ite(c, A.get(*j), cv) if c is not FALSE else cv
        return I.new(Arr(sh, get, dt=A.dt))

    def f_np_diag(self, v, k=ZERO):
        A = self.I.arr(v)
        if A is None or k is not ZERO:
            return self.I.unk("diag")
        if A.rank == 1:
            n = A.shape[0]
            return self.new((n, n), lambda i, j: ite(eq(i, j), A.get(j), ZERO))
        return self.new((A.shape[0],), lambda i: A.get(i, i))

    def f_np_take(self, a, indices, axis=NONE):
        A = self.I.arr(a)
        if A is None:
            return self.I.unk("take")
        if axis is NONE:
            return self.index(a, [indices]) if A.rank == 1 else self.I.unk("take")
        ax = self.axis(axis, A.rank)
        return self.index(a, [SliceVal(NONE, NONE, NONE)] * ax + [indices])

    def f_np_roll(self, a, shift, axis=NONE):
        A, s = self.I.arr(a), self.t(shift)
        if A is None or s is None or (axis is NONE and A.rank != 1):
            return self.I.unk("roll")
        ax = 0 if axis is NONE else self.axis(axis, A.rank)
        n = A.shape[ax]

        def get(*i):
            j = list(i)
            q = sub(i[ax], s)
            j[ax] = sub(q, mul(n, func("floor", div(q, n))))
            return A.get(*j)
        return self.new(A.shape, get, dt=A.dt)

    def f_np_meshgrid(self, x, y, indexing=string("xy")):
        X, Y = self.I.arr(x), self.I.arr(y)
        if X is None or Y is None:
            return self.I.unk("meshgrid")
        if indexing.args[0] == "xy":
            sh = (Y.shape[0], X.shape[0])
            return Tup([self.new(sh, lambda i, j: X.get(j)), self.new(sh, lambda i, j: Y.get(i))])
        sh = (X.shape[0], Y.shape[0])
        return Tup([self.new(sh, lambda i, j: X.get(i)), self.new(sh, lambda i, j: Y.get(j))])

    def f_np_outer(self, a, b):
        A, B = self.I.arr(a), self.I.arr(b)
        if A is None or B is None:
            return self.I.unk("outer")
        return self.new((A.shape[0], B.shape[0]), lambda i, j: mul(A.get(i), B.get(j)))

    def f_np_shape(self, a):
        return self.attr(a, "shape")

    def f_np_size(self, a):
        return self.attr(a, "size")

    def f_np_ndim(self, a):
        A = self.A(a)
        return const(A.rank) if A is not None else self.I.unk("ndim")

    def f_np_isscalar(self, a):
        return TRUE if isinstance(a, T) and a is not NONE else FALSE

    def f_np_iscomplexobj(self, a):
        A = self.A(a)
        if A is None:
            return self.I.unk("iscomplexobj")
        v = A.get(*[fresh("i") for _ in A.shape])
        return FALSE if tm.isreal(v) else TRUE

    # ---- selection
    def f_np_where(self, c, a=None, b=None):
        I = self.I
        if a is None:
            C = I.arr(c)
            if C is None:
                return I.unk("where")
            m = Arr(C.shape, lambda *i: truth(C.get(*i)))
            if C.rank == 1:
                cnt = self.count(m)
                r = Arr((cnt,), lambda k: self.nth(m, k), comp=(m, lambda i: i), dt="nz")
                return Tup([I.new(r)])
            return Tup([MaskIdx(m)])
        A, B, C = I.operand(a), I.operand(b), I.operand(c)
        if A is None or B is None or C is None:
            return I.unk("where")
        return I.broadcast(lambda x, y, z: ite(truth(x), y, z), C, A, B)

    def f_np_nonzero(self, c):
        return self.f_np_where(c)

    def f_np_flatnonzero(self, c):
        r = self.f_np_where(c)
        return r.items[0] if isinstance(r, Tup) and isinstance(r.items[0], Cell) else self.I.unk("flatnonzero")

    def f_np_extract(self, c, a):
        return self.index(a, [c])

    def f_np_compress(self, c, a, axis=NONE):
        return self.index(a, [c]) if axis is NONE else self.I.unk("compress")

    def f_np_select(self, conds, choices, default=ZERO):
        I = self.I
        cs, vs = I.seq(conds), I.seq(choices)
        if cs is None or vs is None or cs[2] is None or vs[2] is None:
            return I.unk("select")
        r = default
        for c, v in reversed(list(zip(cs[2], vs[2]))):
            r = self.f_np_where(c, v, r)
        return r

    def f_np_piecewise(self, x, conds, funcs):
        I = self.I
        cs, fs = I.seq(conds), I.seq(funcs)
        if cs is None or fs is None or cs[2] is None or fs[2] is None:
            return I.unk("piecewise")
        ev = lambda f: f if isinstance(f, T) else I.call(f, [x], {})
        vals = [ev(f) for f in fs[2]]
        r = vals[len(cs[2])] if len(vals) > len(cs[2]) else ZERO
        for c, v in zip(cs[2], vals):
            r = self.f_np_where(c, v, r)
        return r

    def f_np_maximum(self, a, b):
        I = self.I
        A, B = I.operand(a), I.operand(b)
        if A is None or B is None:
            return I.unk("maximum")
        return I.broadcast(tmax, A, B)

    def f_np_isclose(self, a, b, rtol=None, atol=None, equal_nan=None):
        I = self.I
        A, B = I.operand(a), I.operand(b)
        r = const(Fr("0.00001")) if rtol is None else rtol
        t = const(Fr("0.00000001")) if atol is None else atol
        if A is None or B is None or not isinstance(r, T) or not isinstance(t, T):
            return I.unk("isclose")
        return I.broadcast(lambda x, y: le(func("abs", sub(x, y)), add(t, mul(r, func("abs", y)))), A, B)

    def f_np_minimum(self, a, b):
        I = self.I
        A, B = I.operand(a), I.operand(b)
        if A is None or B is None:
            return I.unk("minimum")
        return I.broadcast(tmin, A, B)

    f_np_fmax = f_np_maximum
    f_np_fmin = f_np_minimum

    def f_np_clip(self, a, lo=NONE, hi=NONE, a_min=None, a_max=None):
        lo = a_min if a_min is not None else lo
        hi = a_max if a_max is not None else hi
        r = a
        if lo is not NONE:
            r = self.f_np_maximum(r, lo)
        if hi is not NONE:
            r = self.f_np_minimum(r, hi)
        return r

    def f_np_nan_to_num(self, x, copy=TRUE, nan=ZERO, posinf=None, neginf=None):
        big = tm.sym("floatmax", lo=10 ** 300)

        def f(v):
            def g(y):
                if y is tm.BAD_NAN:
                    return nan
                if y is tm.BAD_INF:
                    return posinf if posinf is not None else big
                if y is tm.BAD_NINF:
                    return neginf if neginf is not None else neg(big)
                return tm.app("nan_to_num", y) if tm.cval(y) is None else y
            return lift(g, v)
        return self.I.map1(f, x)

    def f_np_round(self, a, decimals=ZERO):
        d = cval(self.t(decimals)) if self.t(decimals) is not None else None
        if d is None:
            return self.I.unk("round")
        s = const(Fr(10) ** int(d))
        return self.I.map1(lambda x: div(func("rint", mul(x, s)), s) if tm.isreal(x) else
                           add(div(func("rint", mul(func("real", x), s)), s), mul(tm.I, div(func("rint", mul(func("imag", x), s)), s))), a)

    f_np_around = f_np_round
    f_np_round_ = f_np_round

    def f_np_angle(self, z, deg=FALSE):
        f = lambda x: lift(lambda y: y if y.op == "bad" else (ZERO if y is ZERO else tm.app("angle", y)), x)
        r = self.I.map1(f, z)
        return self.I.map1(lambda x: ite(truth(deg), div(mul(x, const(180)), tm.PI), x), r)

    def f_np_degrees(self, x):
        return self.I.map1(lambda x: div(mul(x, const(180)), tm.PI), x)

    f_np_rad2deg = f_np_degrees

    def f_np_hypot(self, a, b):
        return self.I.map1(lambda x: tm.powr(x, Fr(1, 2)),
                           self.I.binop("Add", self.I.binop("Mult", a, a), self.I.binop("Mult", b, b)))

    def f_np_vectorize(self, f, *a, **k):
        return Partial(ExtVal("__vectorized__"), [f], {})

    def f___vectorized__(self, f, *xs):
        I = self.I
        A = [I.operand(x) for x in xs]
        if any(a is None for a in A):
            return I.unk("vectorize")

        def g(*ts):
            v = I.call(f, list(ts), {})
            return v if isinstance(v, T) else unknown("vectorized value")
        return I.broadcast(g, *A)

    def f_np_apply_along_axis(self, f, axis, a, *args, **kw):
        I = self.I
        A = I.arr(a)
        if A is None:
            return I.unk("apply_along_axis")
        ax = self.axis(axis, A.rank)
        if A.rank == 1:
            return I.call(f, [a] + list(args), kw)
        if A.rank != 2 or ax is None:
            return I.unk("apply_along_axis")
        n = A.shape[1 - ax]
        k = fresh("q", hi=sub(n, ONE))
        row = I.new(Arr((A.shape[ax],), (lambda j: A.get(k, j)) if ax == 1 else (lambda j: A.get(j, k))))
        v = I.call(f, [row] + list(args), kw)
        r = I.value_arr(n, k, v)
        if r is None:
            return I.unk("apply_along_axis")
        r = Arr(r.shape, r.get)
        if r.rank == 2 and ax == 0:
            return self.transpose(I.new(r), [1, 0])
        return I.new(r)

    # ---- reductions
    def reduce(self, kind, a, axis, keepdims, dtype=NONE, ddof=ZERO):
        I = self.I
        if isinstance(a, T):
            return a
        A = I.arr(a)
        if A is None:
            return I.unk(kind)
        if axis is NONE:
            axs = list(range(A.rank))
        elif isinstance(axis, T):
            k = self.axis(axis, A.rank)
            if k is None:
                return I.unk(kind)
            axs = [k]
        else:
            s = self.shape_of(axis)
            if s is None:
                return I.unk(kind)
            axs = [self.axis(x, A.rank) for x in s]
        keep = [q for q in range(A.rank) if q not in axs]
        dims = [A.shape[q] for q in axs]
        comp = A.comp if A.rank == 1 else None

        def cell_fn(rest):
            def el_at(*ks):
                idx = [None] * A.rank
                for q, x in zip(keep, rest):
                    idx[q] = x
                for q, x in zip(axs, ks):
                    idx[q] = x
                return A.get(*idx)
            return self.red(kind, dims, el_at, comp, ddof)
        if keepdims is TRUE:
            sh = [A.shape[q] if q in keep else ONE for q in range(A.rank)]
            return I.new(Arr(sh, lambda *i: cell_fn([i[q] for q in keep])))
        if not keep:
            return cell_fn([])
        return I.new(Arr([A.shape[q] for q in keep], lambda *i: cell_fn(list(i))))

    def nsum(self, dims, f):
        def go(k, ks):
            if k == len(dims):
                return f(*ks)
            return tm.summ(dims[k], lambda x: go(k + 1, ks + [x]))
        return go(0, [])

    def red(self, kind, dims, f, comp=None, ddof=ZERO):
        N = ONE
        for d in dims:
            N = mul(N, d)
        if kind == "sum":
            if comp is not None:
                m, g = comp
                return self.nsum(m.shape, lambda *i: ite(truth(m.get(*i)), g(*i), ZERO))
            return self.nsum(dims, f)
        if kind == "mean":
            return div(self.red("sum", dims, f, comp), N)
        if kind in ("var", "std"):
            mu = div(self.red("sum", dims, f, comp), N)
            probe = f(*[fresh("p") for _ in dims])
            if tm.isreal(probe):
                v = self.nsum(dims, lambda *k: tm.powr(sub(f(*k), mu), Fr(2)))
            else:
                v = self.nsum(dims, lambda *k: tm.powr(func("abs", sub(f(*k), mu)), Fr(2)))
            v = div(v, sub(N, ddof))
            return v if kind == "var" else tm.powr(v, Fr(1, 2))
        cs = [cval(d) for d in dims]
        if all(c is not None for c in cs) and len(cs) == 1 and 0 < cs[0] <= 12 and kind in ("max", "min", "prod", "any", "all"):
            vals = [f(const(k)) for k in range(int(cs[0]))]
            r = vals[0] if kind not in ("any", "all") else truth(vals[0])
            for v in vals[1:]:
                r = {"max": tmax, "min": tmin, "prod": mul, "any": lambda x, y: bor(x, truth(y)),
                     "all": lambda x, y: band(x, truth(y))}[kind](r, v)
            return r
        if kind in ("any", "all"):
            l = tm.lam(dims, lambda *k: tm.num(truth(f(*k))))
            return truth_all(l, kind)
        l = tm.lam(dims, f)
        if kind in ("max", "min") and l.op == "lam" and l.args[1].op in ("poly", "bad") and l.args[1].maxb == 0:
            return l.args[1]
        return redapp(kind, l)

    def f_np_sum(self, a, axis=NONE, dtype=NONE, keepdims=FALSE, initial=None, where=None):
        if where is not None:
            return self.I.unk("where=")
        r = self.reduce("sum", a, axis, keepdims)
        return r

    def f_np_mean(self, a, axis=NONE, dtype=NONE, keepdims=FALSE):
        return self.reduce("mean", a, axis, keepdims)

    def f_np_average(self, a, axis=NONE, weights=NONE):
        if weights is NONE:
            return self.reduce("mean", a, axis, FALSE)
        w = self.I.binop("Mult", a, weights)
        return self.I.binop("Div", self.reduce("sum", w, axis, FALSE), self.reduce("sum", weights, axis, FALSE))

    def f_np_std(self, a, axis=NONE, dtype=NONE, ddof=ZERO, keepdims=FALSE):
        return self.reduce("std", a, axis, keepdims, ddof=ddof)

    def f_np_var(self, a, axis=NONE, dtype=NONE, ddof=ZERO, keepdims=FALSE):
        return self.reduce("var", a, axis, keepdims, ddof=ddof)

    def f_np_max(self, a, axis=NONE, keepdims=FALSE, initial=None):
        return self.reduce("max", a, axis, keepdims)

    def f_np_min(self, a, axis=NONE, keepdims=FALSE, initial=None):
        return self.reduce("min", a, axis, keepdims)

    f_np_nanmax = f_np_max
    f_np_nanmin = f_np_min

    def f_np_ptp(self, a, axis=NONE, keepdims=FALSE):
        return self.I.binop("Sub", self.f_np_max(a, axis, keepdims), self.f_np_min(a, axis, keepdims))

    def f_np_prod(self, a, axis=NONE):
        return self.reduce("prod", a, axis, FALSE)

    def f_np_any(self, a, axis=NONE):
        if isinstance(a, T):
            return truth(a)
        return self.reduce("any", a, axis, FALSE)

    def f_np_all(self, a, axis=NONE):
        if isinstance(a, T):
            return truth(a)
        return self.reduce("all", a, axis, FALSE)

    def f_np_argmax(self, a, axis=NONE):
        return self.reduce("argmax", a, axis, FALSE)

    def f_np_argmin(self, a, axis=NONE):
        return self.reduce("argmin", a, axis, FALSE)

    def f_np_median(self, a, axis=NONE):
        return self.reduce("median", a, axis, FALSE)

    def f_np_count_nonzero(self, a):
        A = self.I.arr(a)
        return self.count(Arr(A.shape, lambda *i: truth(A.get(*i)))) if A is not None else self.I.unk("count_nonzero")

    def f_np_cumsum(self, a, axis=NONE, dtype=NONE):
        I = self.I
        A = I.arr(a)
        if A is None or (axis is NONE and A.rank != 1):
            return I.unk("cumsum")
        ax = 0 if axis is NONE else self.axis(axis, A.rank)

        def get(*i):
            def g(k):
                j = list(i)
                j[ax] = k
                return A.get(*j)
            return tm.summ(add(i[ax], ONE), g)
        return I.new(Arr(A.shape, get))

    def f_np_diff(self, a, n=ONE, axis=const(-1), prepend=None):
        A = self.I.arr(a)
        if A is None or n is not ONE or prepend is not None:
            return self.I.unk("diff")
        ax = self.axis(axis, A.rank)
        sh = list(A.shape)
        sh[ax] = sub(sh[ax], ONE)

        def get(*i):
            j = list(i)
            j[ax] = add(i[ax], ONE)
            return sub(A.get(*j), A.get(*i))
        return self.new(sh, get)

    def f_np_ediff1d(self, a):
        return self.f_np_diff(a)

    def f_np_dot(self, a, b):
        return self.matmul(a, b)

    f_np_matmul = f_np_dot
    f_np_inner_ = f_np_dot

    def f_np_inner(self, a, b):
        A, B = self.I.arr(a), self.I.arr(b)
        if A is not None and B is not None and A.rank == 2 and B.rank == 2:
            return self.matmul(a, self.transpose(b, [1, 0]))
        return self.matmul(a, b)

    def f_np_vdot(self, a, b):
        return self.matmul(self.I.map1(lambda x: func("conj", x), a), b)

    def f_np_linalg_multi_dot(self, xs):
        s = self.I.seq(xs)
        r = s[2][0]
        for x in s[2][1:]:
            r = self.matmul(r, x)
        return r

    def f_np_einsum(self, spec, *ops, **kw):
        I = self.I
        if not (isinstance(spec, T) and spec.op == "str"):
            return I.unk("einsum")
        s = spec.args[0].replace(" ", "")
        if "->" in s:
            ins, out = s.split("->")
        else:
            ins, out = s, "".join(sorted(c for c in set(s) if s.replace(",", "").count(c) == 1))
        ins = ins.split(",")
        A = [I.arr(o) for o in ops]
        if "." in s or any(a is None for a in A) or len(ins) != len(A) or any(a.rank != len(x) for a, x in zip(A, ins)):
            return I.unk("einsum")
        dim = {}
        for x, a in zip(ins, A):
            for c, d in zip(x, a.shape):
                if c not in dim or cval(dim[c]) == 1:
                    dim[c] = d
        red = [c for c in sorted(dim) if c not in out]

        def get(*i):
            env = dict(zip(out, i))

            def body(*ks):
                e = dict(env)
                e.update(zip(red, ks))
                r = ONE
                for x, a in zip(ins, A):
                    r = mul(r, a.get(*[e[c] for c in x]))
                return r
            return self.nsum([dim[c] for c in red], body)
        if not out:
            return get()
        return I.new(Arr([dim[c] for c in out], get))

    def f_np_trapz(self, y, *a, **k):
        return self.I.unk("trapz")

    def f_norm(self, x, ord=NONE, axis=NONE, keepdims=FALSE):
        if ord is not NONE and cval(ord) != 2:
            return self.I.unk("norm")
        sq = self.I.map1(lambda v: tm.powr(func("abs", v), Fr(2)), x)
        return self.I.map1(lambda v: tm.powr(v, Fr(1, 2)), self.reduce("sum", sq, axis, keepdims))

    def f_gmean(self, a, axis=ZERO):
        r = self.reduce("mean", self.I.map1(lambda v: func("log", v), a), axis, FALSE)
        return self.I.map1(lambda v: func("exp", v), r)

    def f_scipy_stats_skew(self, *a, **k):
        return self.I.unk("skew")

    # ---- transforms
    def xform(self, head, a, n, axis, outlen):
        I = self.I
        A = I.arr(a)
        if A is None:
            return I.unk(head)
        ax = self.axis(axis, A.rank)
        if ax is None:
            return I.unk(head)
        L = A.shape[ax]
        n = L if n is NONE else self.t(n)
        if n is None:
            return I.unk(head)
        sh = list(A.shape)
        sh[ax] = outlen(n)

        def get(*i):
            def x(k):
                j = list(i)
                j[ax] = k
                if n is L:
                    return A.get(*j)
                c = lt(k, L)
                if c is TRUE:
                    return A.get(*j)
                if c is FALSE:
                    return ZERO
                return ite(c, A.get(*j), ZERO)
            return dftapp(head, tm.lam((n,), x), i[ax])
        return I.new(Arr(sh, get))

    def f_fft(self, a=None, n=NONE, axis=const(-1), norm=NONE, x=None):
        if norm is not NONE:
            return self.I.unk("fft norm")
        return self.xform("dft", a if a is not None else x, n, axis, lambda m: m)

    def f_rfft(self, a=None, n=NONE, axis=const(-1), norm=NONE, x=None):
        if norm is not NONE:
            return self.I.unk("fft norm")
        return self.xform("dft", a if a is not None else x, n, axis, lambda m: add(func("floor", div(m, TWO)), ONE))

    def f_ifft(self, a=None, n=NONE, axis=const(-1), norm=NONE, x=None):
        if norm is not NONE:
            return self.I.unk("fft norm")
        return self.xform("idft", a if a is not None else x, n, axis, lambda m: m)

    def f_dct(self, x=None, type=TWO, n=NONE, axis=const(-1), norm=NONE, overwrite_x=FALSE, **kw):
        I = self.I
        A = I.arr(x)
        ax = self.axis(axis, A.rank) if A is not None else None
        if ax is None or kw:
            return I.unk("dct")
        ty = self.t(type)
        L = A.shape[ax]
        if n is not NONE and self.t(n) is not L:
            n = self.t(n)
            src = lambda k, g: ite(lt(k, L), g(k), ZERO)
        else:
            n = L
            src = lambda k, g: g(k)
        sh = list(A.shape)
        sh[ax] = n

        def get(*i):
            def g(k):
                j = list(i)
                j[ax] = k
                return A.get(*j)
            l = tm.lam((n,), lambda k: src(k, g))
            return dctapp(l, ty, norm, i[ax])
        return I.new(Arr(sh, get))

    def f_fftfreq(self, n, d=ONE):
        n, d = self.t(n), self.t(d)
        if n is None or d is None:
            return self.I.unk("fftfreq")
        h = add(func("floor", div(sub(n, ONE), TWO)), ONE)
        return self.new((n,), lambda k: div(ite(lt(k, h), k, sub(k, n)), mul(n, d)))

    def f_rfftfreq(self, n, d=ONE):
        n, d = self.t(n), self.t(d)
        if n is None or d is None:
            return self.I.unk("rfftfreq")
        return self.new((add(func("floor", div(n, TWO)), ONE),), lambda k: div(k, mul(n, d)))

    def f_lfilter(self, b, a, x, axis=const(-1), zi=NONE):
        I = self.I
        B, A, X = self.A(b), self.A(a), I.arr(x)
        if B is None or A is None or X is None:
            return I.unk("lfilter")
        if B.rank == 0:
            B = Arr((ONE,), lambda k, B=B: B.get())
        if A.rank == 0:
            A = Arr((ONE,), lambda k, A=A: A.get())
        ax = self.axis(axis, X.rank)
        n = X.shape[ax]

        def fiber(i):
            def g(k):
                j = list(i)
                j[ax] = k
                return X.get(*j)
            return g
        fir = cval(A.shape[0]) == 1
        if zi is NONE and fir:
            a0 = A.get(ZERO)
            nb = B.shape[0]
            c = cval(nb)

            def get(*i):
                g = fiber(i)
                t = i[ax]

                def term(k):
                    cnd = le(k, t)
                    if cnd is FALSE:
                        return ZERO
                    v = mul(B.get(k), g(sub(t, k)))
                    return v if cnd is TRUE else ite(cnd, v, ZERO)
                r = tm.summ(nb, term)
                return div(r, a0)
            return I.new(Arr(X.shape, get))
        lb, la = B.as_lam(), A.as_lam()
        if zi is NONE:
            def get(*i):
                return tm.app("lfilter", lb, la, tm.lam((n,), fiber(i)), i[ax])
            return I.new(Arr(X.shape, get))
        Z = self.A(zi)
        if Z is None or X.rank != 1:
            return I.unk("lfilter with state")
        lz = Z.as_lam()
        nb = cval(B.shape[0])
        if fir and nb is not None and nb <= 12:
            a0 = A.get(ZERO)
            nb = int(nb)

            def firget(t):
                acc = ite(lt(t, const(nb - 1)), Z.get(t), ZERO)
                for k in range(nb):
                    acc = add(acc, ite(le(const(k), t), div(mul(B.get(const(k)), X.get(sub(t, const(k)))), a0), ZERO))
                return acc

            def firzf(i):
                # state i after the last sample: what b[i+1:] still owes the next outputs
                acc = ite(lt(add(n, i), const(nb - 1)), Z.get(add(n, i)), ZERO)
                for j in range(nb - 1):
                    acc = add(acc, ite(band(le(add(i, const(1 + j)), const(nb - 1)), lt(const(j), n)),
                                       div(mul(B.get(add(i, const(1 + j))), X.get(sub(n, const(1 + j)))), a0), ZERO))
                return acc
            return Tup([I.new(Arr(X.shape, firget)), I.new(Arr((const(nb - 1),), firzf))])

        def get(t):
            return tm.app("lfilterz", lb, la, tm.lam((n,), lambda k: X.get(k)), lz, t)
        m = sub(tmax(B.shape[0], A.shape[0]), ONE)
        zf = Arr((m,), lambda k: tm.app("lfilterzf", lb, la, tm.lam((n,), lambda q: X.get(q)), lz, k))
        return Tup([I.new(Arr(X.shape, get)), I.new(zf)])

    def f_lfilter_zi(self, b, a):
        B, A = self.A(b), self.A(a)
        if B is None or A is None:
            return self.I.unk("lfilter_zi")
        if A.rank == 0:
            A = Arr((ONE,), lambda k, A=A: A.get())
        lb, la = B.as_lam(), A.as_lam()
        return self.new((sub(tmax(B.shape[0], A.shape[0]), ONE),), lambda k: tm.app("lfilter_zi", lb, la, k))

    def f_butter(self, N, Wn, btype=string("low"), analog=FALSE, output=string("ba"), fs=NONE):
        w = self.reify(Wn)
        if fs is not NONE:
            w = self.reify(self.I.binop("Div", self.I.binop("Mult", Wn, TWO), fs))
        bt = btype
        if isinstance(bt, T) and bt.op == "str":
            bt = string({"bandpass": "band", "pass": "band", "bp": "band"}.get(bt.args[0], bt.args[0]))
        if isinstance(output, T) and output.op == "str" and output.args[0] != "ba":
            return self.I.unk("butter output")
        c = cval(N)
        ln = const(2 * c + 1) if c is not None and bt.args[0] == "band" else (const(c + 1) if c is not None else unknown("butter"))
        return Tup([self.new((ln,), lambda k: tm.app("butter_b", N, w, bt, k)),
                    self.new((ln,), lambda k: tm.app("butter_a", N, w, bt, k))])

    def f_resample(self, x, num, t=NONE, axis=ZERO, window=NONE, domain=None):
        I = self.I
        A, m = I.arr(x), self.t(num)
        if A is None or m is None or t is not NONE or window is not NONE:
            return I.unk("resample")
        ax = self.axis(axis, A.rank)
        sh = list(A.shape)
        n = sh[ax]
        sh[ax] = m

        def get(*i):
            def g(k):
                j = list(i)
                j[ax] = k
                return A.get(*j)
            return resapp(tm.lam((n,), g), m, i[ax])
        return I.new(Arr(sh, get))

    def f_convolve(self, a, v, mode=string("full"), method=None, axes=None):
        I = self.I
        A, V = I.arr(a), I.arr(v)
        if A is None or V is None or A.rank != 1 or V.rank != 1 or not isinstance(mode, T):
            return I.unk("convolve")
        n, m = A.shape[0], V.shape[0]
        A, V = self.cut(A, 8), self.cut(V, 8)
        full = Arr((sub(add(n, m), ONE),), lambda k: tm.summ(n, lambda j: self.guarded(
            band(le(ZERO, sub(k, j)), lt(sub(k, j), m)), lambda: mul(A.get(j), V.get(sub(k, j))))))
        md = mode.args[0]
        if md == "full":
            return I.new(full)
        if md == "valid":
            return I.new(Arr((add(sub(n, m), ONE),), lambda k: full.get(add(k, sub(m, ONE)))))
        if md == "same":
            return I.new(Arr((n,), lambda k: full.get(add(k, func("floor", div(sub(m, ONE), TWO))))))
        return I.unk("convolve mode")

    def cut(self, A, lim=None):
        return self.I.cutarr(A, lim)

    def guarded(self, c, f):
        if c is FALSE:
            return ZERO
        v = f()
        return v if c is TRUE else ite(c, v, ZERO)

    def f_correlate(self, a, v, mode=string("valid"), method=None):
        I = self.I
        A, V = I.arr(a), I.arr(v)
        if A is None or V is None or A.rank != 1 or V.rank != 1:
            return I.unk("correlate")
        n, m = A.shape[0], V.shape[0]
        A, V = self.cut(A, 8), self.cut(V, 8)

        def fullget(k):
            off = sub(k, sub(m, ONE))
            return tm.summ(m, lambda j: self.guarded(
                band(le(ZERO, add(j, off)), lt(add(j, off), n)),
                lambda: mul(A.get(add(j, off)), func("conj", V.get(j)))))
        md = mode.args[0] if isinstance(mode, T) and mode.op == "str" else None
        if md == "full":
            return I.new(Arr((sub(add(n, m), ONE),), fullget))
        if md == "valid":
            return I.new(Arr((add(sub(n, m), ONE),), lambda k: fullget(add(k, sub(m, ONE)))))
        if md == "same":
            return I.new(Arr((n,), lambda k: fullget(add(k, func("floor", div(m, TWO))))))
        return I.unk("correlate mode")

    def f_toeplitz(self, c, r=NONE):
        C = self.I.arr(c)
        R = C if r is NONE else self.I.arr(r)
        if C is None or R is None or C.rank != 1:
            return self.I.unk("toeplitz")

        def get(i, j):
            return ite(lt(i, j), R.get(sub(j, i)), C.get(sub(i, j)))
        return self.new((C.shape[0], R.shape[0]), get)

    def f_inv(self, a, **kw):
        A = self.I.arr(a)
        if A is None:
            return self.I.unk("inv")
        l = self.cut(A).as_lam()
        self.singular(A.as_lam())
        return self.new((A.shape[1], A.shape[0]), lambda i, j: invapp(l, i, j))

    f_np_linalg_pinv_ = f_inv

    def singular(self, l):
        """an all-zero matrix has no inverse"""
        c = lift(lambda m: TRUE if m.op == "lam" and m.args[1] is ZERO else FALSE, l)
        if c is not FALSE:
            self.I.do_raise("LinAlgError", c)

    def f_solve(self, a, b, **kw):
        A, B = self.I.arr(a), self.I.arr(b)
        if A is None or B is None:
            return self.I.unk("solve")
        return self.matmul(self.f_inv(a), b)

    def f_solve_toeplitz(self, c, b, **kw):
        if isinstance(c, Tup):
            m = self.f_toeplitz(c.items[0], c.items[1])
        else:
            m = self.f_toeplitz(c)
        return self.f_solve(m, b)

    def f_csr(self, a, **kw):
        A = self.I.arr(a)
        return self.I.new(Arr(A.shape, A.get, dt="sparse")) if A is not None else self.I.unk("csr_matrix")

    # ---- strided views
    def f_as_strided(self, x, shape=None, strides=None, subok=FALSE, writeable=TRUE):
        I = self.I
        A = I.arr(x)
        s, st = self.shape_of(shape), self.shape_of(strides)
        if A is None or s is None or st is None or not isinstance(x, Cell):
            return I.unk("as_strided")
        isz = tm.sym("itemsize", int=True, lo=1)
        cf = [div(q, isz) for q in st]
        if any(tm.has_sym(c, "itemsize") for c in cf):
            return I.unk("as_strided strides")
        base = x

        def flat(b, f):
            if b.rank == 1:
                return b.get(f)
            idx, rest = [], f
            for q in range(b.rank - 1, 0, -1):
                fl = func("floor", div(rest, b.shape[q]))
                idx.insert(0, sub(rest, mul(b.shape[q], fl)))
                rest = fl
            return b.get(rest, *idx)

        def read(b):
            def get(*i):
                f = ZERO
                for k, c in zip(i, cf):
                    f = add(f, mul(k, c))
                return flat(b, f)
            return Arr(s, get, dt=b.dt)
        return Cell("arr", view=(base, (read, None)))

    def f_sliding_window_view(self, x, window_shape, axis=NONE, subok=FALSE, writeable=FALSE):
        I = self.I
        A = I.arr(x)
        w = self.shape_of(window_shape)
        if A is None or A.rank != 1 or w is None or len(w) != 1 or not isinstance(x, Cell):
            return I.unk("sliding_window_view")
        n = add(sub(A.shape[0], w[0]), ONE)
        return Cell("arr", view=(x, (lambda b: Arr((n, w[0]), lambda i, j: b.get(add(i, j)), dt=b.dt), None)))

    def f_np_random_default_rng(self, *a, **k):
        return self.I.unk("random")

    def f_np_seterr(self, *a, **k):
        return NONE

    def f_np_ix_(self, *a):
        return self.I.unk("ix_")

    def f_np_sort(self, a, axis=const(-1)):
        A = self.I.arr(a)
        if A is None or A.rank != 1:
            return self.I.unk("sort")
        l = A.as_lam()
        return self.new(A.shape, lambda k: tm.app("sort", l, k))

    def f_np_searchsorted(self, a, v, side=string("left")):
        A, V = self.I.arr(a), self.A(v)
        if A is None or V is None:
            return self.I.unk("searchsorted")
        sd = side.args[0]
        def f(x):
            return tm.summ(A.shape[0], lambda k: tm.num(lt(A.get(k), x) if sd == "left" else le(A.get(k), x)))
        return self.I.map1(f, v)

    def f_np_interp(self, *a, **k):
        return self.I.unk("interp")

    def f_np_array_equal(self, *a):
        return self.I.unk("array_equal")

    def f_np_issubdtype(self, *a):
        return tm.batom(unknown("dtype test"))

    def f_np_moveaxis(self, a, s, d):
        A = self.I.arr(a)
        if A is None or A.rank != 2:
            return self.I.unk("moveaxis")
        s, d = self.axis(s, 2), self.axis(d, 2)
        return a if s == d else self.transpose(a, [1, 0])


def truth_all(l, kind):
    return lift(lambda m: tm.batom(tm.mk("app", kind, m)) if not (m.op == "lam" and m.args[1].maxb == 0 and cval(m.args[1]) is not None)
                else (TRUE if cval(m.args[1]) != 0 else FALSE), l)


def redapp(kind, l):
    return lift(lambda m: m.args[1] if m.op == "lam" and m.args[1].maxb == 0 and kind in ("max", "min", "median")
                else (ZERO if kind in ("argmax", "argmin") and m.op == "lam" and m.args[1].maxb == 0
                      else mk_red(kind, m)), l)


def mk_red(kind, m):
    return tm.mk("app", kind, m)


def _zero_lam(m):
    return m.op == "lam" and m.args[1] is ZERO


def _bad_lam(m):
    if m.op != "lam":
        return None
    b = m.args[1]
    return b if b.op == "bad" else None


def dftapp(head, l, k):
    """linear transforms: pull constants out, vanish on zero"""
    def f(m, q):
        if _zero_lam(m):
            return ZERO
        b = _bad_lam(m)
        if b is not None:
            return tm.BAD_NAN
        if m.op == "lam" and m.args[1].op == "poly" and len(m.args[1].args[0]) == 1:
            (mono, c), = m.args[1].args[0]
            free = [(a, e) for a, e in mono if not tm.mentions(a, 0)]
            if (free or c != 1) and len(free) < len(mono):
                rest = tuple((a, e) for a, e in mono if tm.mentions(a, 0))
                co = const(c)
                for a, e in free:
                    co = mul(co, tm.powr(tm.shift_down(a), e))
                body = tm._mkpoly({rest: Fr(1)})
                return mul(co, tm.mk("app", head, tm.mk("lam", m.args[0], body), q))
        return tm.mk("app", head, m, q)
    return lift(f, l, k)


def dctapp(l, ty, norm, k):
    def f(m, t, q):
        if _zero_lam(m):
            return ZERO
        if _bad_lam(m) is not None:
            return tm.BAD_NAN
        return tm.mk("app", "dct", m, t, norm, q)
    return lift(f, l, ty, k)


def resapp(l, num, k):
    def f(m, n, q):
        if m.op == "lam" and m.args[0][0] is n:
            return tm.openb(m.args[1], [q])
        if _bad_lam(m) is not None:
            return tm.BAD_NAN
        return tm.mk("app", "resample", m, n, q)
    return lift(f, l, num, k)


def invapp(l, i, j):
    def f(m, p, q):
        if _zero_lam(m):
            return tm.BAD_NAN
        if _bad_lam(m) is not None:
            return tm.BAD_NAN
        return tm.mk("app", "inv", m, p, q)
    return lift(f, l, i, j)


tm.REAPP.update({
    "dft": lambda l, k: dftapp("dft", l, k),
    "idft": lambda l, k: dftapp("idft", l, k),
    "dct": dctapp,
    "resample": resapp,
    "inv": invapp,
    "max": lambda l: redapp("max", l), "min": lambda l: redapp("min", l),
    "argmax": lambda l: redapp("argmax", l), "argmin": lambda l: redapp("argmin", l),
    "median": lambda l: redapp("median", l),
    "f32": lambda x: lossy(x, "f32"), "castin": lambda x: lossy(x, "castin"),
})
