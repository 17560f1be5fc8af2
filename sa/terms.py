"""Value-number terms.

Hash-consed terms with an exact normal form:
  * arithmetic is kept as polynomials with rational coefficients and rational
    exponents over atoms,
  * case distinctions are ordered decision diagrams whose tests are
    `base < t` / `base <= t` on normalised linear bases, lifted to the top of
    every binder,
  * arrays that flow into library functions are binders (`lam`) in locally
    nameless form, reductions are `sum` binders.
Two expressions that compute the same value by the algebraic rules below are
the *same object*; nothing is executed and no solver is involved.
"""
from fractions import Fraction as Fr
from hashlib import blake2b
import time
import math

INF = float("inf")
_table = {}


class T:
    __slots__ = ("op", "args", "key", "maxb", "unk", "_memo", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.key < other.key


def _enc(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return b"(" + b",".join(_enc(x) for x in a) + b")"
    return repr(a).encode()


def _maxb(a, d=0):
    """1 + the largest dangling binder depth mentioned (0 = locally closed)."""
    if isinstance(a, T):
        return a.maxb
    if isinstance(a, tuple):
        m = 0
        for x in a:
            y = _maxb(x)
            if y > m:
                m = y
        return m
    return 0


def _unk(a):
    if isinstance(a, T):
        return a.unk
    if isinstance(a, tuple):
        return any(_unk(x) for x in a)
    return False


def mk(op, *args):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.key = blake2b(op.encode() + b"|" + b";".join(_enc(a) for a in args),
                        digest_size=12).digest()
        if op == "bound":
            t.maxb = args[0] + 1
        elif op == "lam" or op == "sum":
            m = _maxb(args[-1]) - 1
            t.maxb = max(m, _maxb(args[:-1]), 0)
        else:
            t.maxb = _maxb(args)
        t.unk = op == "unknown" or _unk(args)
        t._memo = None
        _table[k] = t
    return t


# ------------------------------------------------------------------ leaves
class Attr:
    __slots__ = ("int", "lo", "hi", "real", "truthy", "nonzero", "kind")

    def __init__(self, int=False, lo=None, hi=None, real=True, kind="num"):
        self.int = int
        self.lo = lo      # Fraction or None
        self.hi = hi      # term, inclusive upper bound, or None
        self.real = real
        self.kind = kind  # num | bool | obj


ATTR = {}
_fresh = [0]


def sym(name, int=False, lo=None, hi=None, real=True, kind="num"):
    t = mk("sym", name)
    if name not in ATTR:
        ATTR[name] = Attr(int, None if lo is None else Fr(lo), hi, real, kind)
    return t


def fresh(prefix="i", hi=None, lo=0):
    _fresh[0] += 1
    name = "%s~%d" % (prefix, _fresh[0])
    return sym(name, int=True, lo=lo, hi=hi)


def bound(d, k, kind=None):
    """bound position k of the d-th enclosing binder: an index (non-negative
    integer) unless marked "z" (integer) or "r" (any value: a loop state)"""
    return mk("bound", d, k) if kind is None else mk("bound", d, k, kind)


def kind_of(s):
    a = ATTR[s.args[0]]
    if not a.int:
        return "r"
    return None if a.lo is not None and a.lo >= 0 else "z"


def kinds(body, n):
    """kind of each position of the outermost binder of a body"""
    out = [None] * n
    seen = set()
    st = [(body, 0)]
    while st:
        t, d = st.pop()
        if isinstance(t, tuple):
            st += [(x, d) for x in t]
            continue
        if not isinstance(t, T) or t.maxb <= d or (t, d) in seen:
            continue
        seen.add((t, d))
        if t.op == "bound":
            if t.args[0] == d and len(t.args) > 2:
                out[t.args[1]] = t.args[2]
        elif t.op in ("lam", "sum"):
            st += [(t.args[0], d), (t.args[1], d + 1)]
        else:
            st += [(x, d) for x in t.args]
    return out


def poly(d):
    """d: dict mono -> Fraction (non-zero)."""
    return mk("poly", tuple(sorted(((m, Fr(c)) for m, c in d.items() if c != 0),
                                   key=lambda mc: _enc(mc[0]))))


def const(q):
    if isinstance(q, float):
        q = Fr(repr(q)) if math.isfinite(q) else q
    if isinstance(q, float):
        return BAD_NAN if math.isnan(q) else (BAD_INF if q > 0 else BAD_NINF)
    q = Fr(q)
    return poly({(): q} if q else {})


def string(s):
    return mk("str", s)


TRUE = mk("true")
FALSE = mk("false")
NONE = mk("none")
BAD_NAN = mk("bad", "nan")
BAD_INF = mk("bad", "inf")
BAD_NINF = mk("bad", "-inf")


def unknown(why, *deps):
    return mk("unknown", str(why), *deps)


def pydict(t):
    """polynomial view of a (non-ite) numeric term."""
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, Fr(1)),): Fr(1)}


def cval(t):
    """Fraction if t is a constant, else None."""
    if t.op == "poly":
        a = t.args[0]
        if not a:
            return Fr(0)
        if len(a) == 1 and a[0][0] == ():
            return a[0][1]
    return None


ZERO = const(0)
ONE = const(1)
TWO = const(2)
HALF = const(Fr(1, 2))
I = mk("sym", "1j")
ATTR["1j"] = Attr(real=False)
PI = sym("pi", lo=3)
EPS = sym("eps", lo=0)
ATTR["eps"].lo = Fr(1, 10 ** 30)


# --------------------------------------------------------------- decisions
def isbool(t):
    while t.op == "ite":
        t = t.args[1]
    return t.op in ("true", "false")


_order_memo = {}


def akey(atom):
    """order of decision atoms: by base, then threshold."""
    r = _order_memo.get(atom)
    if r is None:
        if atom.op == "thr":
            base, t, strict = atom.args
            r = (0, base.key, t, 0 if strict else 1)
        else:
            r = (1, atom.key, 0, 0)
        _order_memo[atom] = r
    return r


def node(atom, hi, lo):
    if hi is lo:
        return hi
    return mk("ite", atom, hi, lo)


def cof(t, atom, val):
    """cofactor of the diagram t (atom is <= every atom of t in the order)."""
    while t.op == "ite":
        a = t.args[0]
        if a is atom:
            t = t.args[1] if val else t.args[2]
            continue
        if val and atom.op == "thr" and a.op == "thr" and a.args[0] is atom.args[0]:
            # base<t true implies base<t' for every later t'
            t = t.args[1]
            continue
        break
    return t


_cofany = {}


def cof_any(t, atom, val):
    """cofactor for an atom anywhere in the diagram."""
    k = (t, atom, val)
    r = _cofany.get(k)
    if r is not None:
        return r
    if t.op != "ite":
        return t
    a, h, l = t.args
    if a is atom:
        r = cof_any(h if val else l, atom, val)
    else:
        imp = implied(atom, val, a)
        if imp is True:
            r = cof_any(h, atom, val)
        elif imp is False:
            r = cof_any(l, atom, val)
        else:
            r = node(a, cof_any(h, atom, val), cof_any(l, atom, val))
    _cofany[k] = r
    return r


def implied(atom, val, a):
    if atom.op != "thr" or a.op != "thr" or atom.args[0] is not a.args[0]:
        return None
    _, t, s = atom.args
    _, t2, s2 = a.args
    # strict rank: `base<t` is stronger than `base<=t`
    x, y = (t, 0 if s else 1), (t2, 0 if s2 else 1)
    if val and x <= y:
        return True
    if not val and y <= x:
        return False
    return None


LIMIT = 20000


class Blowup(Exception):
    pass


def lift(f, *args):
    """apply f to the leaves of decision diagrams."""
    if not any(a.op == "ite" for a in args):
        return f(*args)
    memo = {}
    cnt = [0]

    def go(args):
        r = memo.get(args)
        if r is not None:
            return r
        best = None
        bk = None
        for a in args:
            if a.op == "ite":
                k = akey(a.args[0])
                if bk is None or k < bk:
                    best, bk = a.args[0], k
        if best is None:
            r = f(*args)
            if r.op == "ite":      # f produced a decision itself
                pass
        else:
            cnt[0] += 1
            if cnt[0] > LIMIT:
                raise Blowup()
            hi = go(tuple(cof(a, best, True) for a in args))
            lo = go(tuple(cof(a, best, False) for a in args))
            r = ite_atom(best, hi, lo)
        memo[args] = r
        return r

    return go(tuple(args))


def top(t):
    return akey(t.args[0]) if t.op == "ite" else (9,)


def ite_atom(atom, hi, lo):
    """general node construction: hi/lo may contain atoms smaller than atom."""
    if hi is lo:
        return hi
    k = akey(atom)
    if (hi.op != "ite" or top(hi) > k) and (lo.op != "ite" or top(lo) > k):
        hi2 = cof(hi, atom, True)
        lo2 = cof(lo, atom, False)
        return node(atom, hi2, lo2)
    # re-sort
    memo = {}

    def go(a, h, l):
        key = (a, h, l)
        r = memo.get(key)
        if r is not None:
            return r
        # candidate minimal atom
        best, bk = (atom, akey(atom)) if a else (None, None)
        if a:
            for t in (h, l):
                if t.op == "ite" and akey(t.args[0]) < bk:
                    best, bk = t.args[0], akey(t.args[0])
        if best is atom:
            r = node(atom, cof(h, atom, True), cof(l, atom, False))
        else:
            res = []
            for v in (True, False):
                h2, l2 = cof(h, best, v), cof(l, best, v)
                imp = implied(best, v, atom)
                if imp is True:
                    res.append(h2)
                elif imp is False:
                    res.append(l2)
                elif h2 is l2:
                    res.append(h2)
                else:
                    res.append(go(True, h2, l2))
            r = node(best, res[0], res[1])
        memo[key] = r
        return r

    return go(True, hi, lo)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "unknown" or c.op not in ("ite", "true", "false"):
        c = truth(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
    cnt = [0]
    memo = {}

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        k = (c, a, b)
        r = memo.get(k)
        if r is not None:
            return r
        cnt[0] += 1
        if cnt[0] > LIMIT:
            raise Blowup()
        best, bk = None, None
        for t in (c, a, b):
            if t.op == "ite":
                kk = akey(t.args[0])
                if bk is None or kk < bk:
                    best, bk = t.args[0], kk
        r = node(best,
                 go(cof(c, best, True), cof(a, best, True), cof(b, best, True)),
                 go(cof(c, best, False), cof(a, best, False), cof(b, best, False)))
        memo[k] = r
        return r

    return go(c, a, b)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


def bnot(a):
    return ite(a, FALSE, TRUE)


def beq(a, b):
    return ite(a, b, bnot(b))


def batom(t):
    """opaque boolean atom"""
    return node(mk("batom", t), TRUE, FALSE)


# ------------------------------------------------------------- facts/bounds
def isint(t):
    if t.op == "poly":
        for m, c in t.args[0]:
            if c.denominator != 1:
                return False
            for a, e in m:
                if e.denominator != 1 or e < 0 or not isint(a):
                    return False
        return True
    if t.op == "sym":
        return ATTR[t.args[0]].int
    if t.op == "bound":
        return len(t.args) == 2 or t.args[2] == "z"
    if t.op == "app":
        return t.args[0] in INTFUN
    if t.op == "sum":
        return isint(t.args[1])
    if t.op == "el":
        return t.args[0] in INT_ARR
    if t.op == "ite":
        return all(isint(x) for x in ite_leaves(t))
    return False


INT_ARR = set()
INTFUN = {"floor", "argmax", "argmin", "len", "dim", "rint", "yin_lag"}
NONNEG = {"abs", "argmax", "argmin", "len", "dim", "yin_lag"}
COMPLEX = {"dft", "idft", "conj"}


def isreal(t):
    if t.op == "poly":
        return all(isreal(a) for m, c in t.args[0] for a, e in m)
    if t.op == "sym":
        return ATTR[t.args[0]].real
    if t.op == "app":
        f = t.args[0]
        if f in ("abs", "real", "imag", "angle", "floor"):
            return True
        if f in COMPLEX:
            return False
        return all(isreal(x) for x in t.args[1:] if isinstance(x, T))
    if t.op in ("lam", "sum"):
        return isreal(t.args[-1])
    if t.op == "el":
        return t.args[0] not in COMPLEX_ARR
    if t.op == "ite":
        return all(isreal(x) for x in ite_leaves(t))
    return True


COMPLEX_ARR = set()
NONNEG_ARR = set()
EL_LO = {}        # numbered arrays: lower bound of every element
EL_HI = {}        # numbered arrays: term that no element exceeds

# ------------------------------------------------------------------ cuts
# A cut gives a large array expression a value number: name -> (arity, closed
# body).  Equal bodies get equal names, so equality of terms over cuts is
# equality of the expressions they abbreviate.
CUT = {}
_cutid = {}
CUTSIZE = 40


def size_over(t, lim):
    n = [0]
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        n[0] += 1
        if n[0] > lim:
            return True
        st.extend(x.args)
    return False


def cut_term(t, idx, lim=None):
    """abbreviation of t (a function of the index symbols idx): returns a
    function index -> term, or None when t is small or not abbreviable."""
    lim = CUTSIZE if lim is None else lim
    if not size_over(t, lim // 3):
        return None
    free = []
    bad = []

    def f(x):
        if x.op == "sym" and "~" in x.args[0] and x not in idx and x not in free:
            free.append(x)
        if x.op == "el" and "~" in x.args[0]:
            bad.append(x)
        if x.op in ("unknown", "bound") and x.op == "unknown":
            bad.append(x)
    walk(t, f)
    if bad or t.unk or t.maxb > 0:
        return None
    free.sort(key=lambda x: int(x.args[0].rsplit("~", 1)[1].split(".")[0]) if x.args[0].rsplit("~", 1)[1].split(".")[0].isdigit() else 0)
    body = close(t, list(free) + list(idx))
    if not size_over(body, lim):          # measured on the closed form: independent of symbol numbering
        return None
    name = _cutid.get((body, len(free) + len(idx)))
    if name is None:
        name = _cutid[(body, len(free) + len(idx))] = "$%d" % len(_cutid)
        CUT[name] = (len(free) + len(idx), body)
        if not isreal(t):
            COMPLEX_ARR.add(name)
        lo = bounds(t)[0]
        if lo >= 0:
            NONNEG_ARR.add(name)
            if lo > 0:
                EL_LO[name] = lo
        if isint(t):
            INT_ARR.add(name)
    return lambda *i: el(name, *(tuple(free) + i))


def uncut(t):
    """all cut names reachable from t"""
    out = set()
    st = [t]
    while st:
        for a in atoms_of(st.pop(), lambda x: x.op == "el" and x.args[0] in CUT):
            n = a.args[0]
            if n not in out:
                out.add(n)
                st.append(CUT[n][1])
    return out


LOW = {}      # atom -> assumed lower bound


def atom_bounds(a, depth=0):
    """(lo, hi) rational bounds of an atom."""
    if a.op == "sym":
        at = ATTR[a.args[0]]
        lo = at.lo if at.lo is not None else -INF
        hi = INF
        if at.hi is not None and depth < 3:
            hi = bounds(at.hi, depth + 1)[1]
        return lo, hi
    if a.op == "bound":
        return (Fr(0) if len(a.args) == 2 else -INF), INF
    if a.op == "app":
        f = a.args[0]
        if f == "floor":
            lo, hi = bounds(a.args[1], depth + 1)
            if a in LOW:
                lo = max(lo, LOW[a])
            return (lo if lo == -INF else Fr(math.floor(lo)),
                    hi if hi == INF else Fr(math.floor(hi)))
        if f == "exp":
            return (Fr(1, 10 ** 300) if isreal(a.args[1]) else -INF), INF
        if f == "log" and cval(a.args[1]) is not None:
            c = cval(a.args[1])
            v = math.log(c) if c > 0 else 0
            e = Fr(1, 10 ** 9)
            return Fr(v) - e, Fr(v) + e
        if f == "log":
            lo, hi = bounds(a.args[1], depth + 1)
            if lo != -INF and lo >= 1:
                return (Fr(1, 10 ** 9) if lo > 1 else Fr(0)), INF
            return -INF, INF
        if f in NONNEG:
            return Fr(0), INF
        if f in ("sin", "cos", "tanh"):
            return Fr(-1), Fr(1)
        if f in ("max", "min"):
            return bounds(a.args[1].args[-1], depth + 1) if a.args[1].op == "lam" else (-INF, INF)
        return -INF, INF
    if a.op == "sum":
        lo, hi = bounds(a.args[1], depth + 1)
        return (Fr(0) if lo >= 0 else -INF), INF
    if a.op == "el":
        n = a.args[0]
        return EL_LO.get(n, Fr(0) if n in NONNEG_ARR else -INF), (bounds(EL_HI[n], depth + 1)[1] if n in EL_HI else INF)
    if a.op == "poly":
        return bounds(a, depth + 1)
    if a.op == "ite":
        return bounds(a, depth)
    return -INF, INF


def ite_leaves(t):
    """the different results of a decision diagram"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st.append(x.args[2])
            st.append(x.args[1])
        else:
            yield x


_bm = [0, {}]


def bounds(t, depth=0):
    if depth > 4:
        return -INF, INF
    if _bm[0] != len(LOW):
        _bm[0], _bm[1] = len(LOW), {}
    k = (t, depth)
    r = _bm[1].get(k)
    if r is None:
        r = _bm[1][k] = _bounds(t, depth)
    return r


def _bounds(t, depth):
    if t.op == "ite":
        lo, hi = INF, -INF
        for x in ite_leaves(t):
            l, h = bounds(x, depth)
            lo, hi = min(lo, l), max(hi, h)
            if lo == -INF and hi == INF:
                break
        return lo, hi
    if t.op != "poly":
        if t.op in ("true", "false"):
            return Fr(0), Fr(1)
        return atom_bounds(t, depth)
    lo = hi = Fr(0)
    for m, c in t.args[0]:
        ml, mh = Fr(1), Fr(1)
        for a, e in m:
            al, ah = atom_bounds(a, depth + 1)
            if e.denominator == 1 and e > 0 and e % 2 == 0 and isreal(a):
                if al >= 0:
                    l, h = al ** int(e), (ah if ah == INF else ah ** int(e))
                else:
                    l, h = Fr(0), INF
            elif al > 0 or (al >= 0 and e > 0):
                if e > 0:
                    if e.denominator == 1 and e < 50:
                        l = al ** int(e)
                        h = ah if ah == INF else ah ** int(e)
                    else:
                        l, h = Fr(0) if al < 1 else Fr(1), INF
                else:
                    l = Fr(0) if ah == INF or e.denominator != 1 else ah ** int(e)
                    h = al ** int(e) if e.denominator == 1 and al > Fr(1, 10**20) else INF
            elif e == 1:
                l, h = al, ah
            else:
                l, h = -INF, INF
            # interval product
            ps = []
            for x in (ml, mh):
                for y in (l, h):
                    ps.append(0 if (x == 0 or y == 0) else (x * y if abs(x) != INF and abs(y) != INF
                              else (INF if (x > 0) == (y > 0) else -INF)))
            ml, mh = min(ps), max(ps)
        if c < 0:
            ml, mh = mh, ml
        lo = -INF if (ml in (INF, -INF) or lo == -INF) else lo + c * ml
        hi = INF if (mh in (INF, -INF) or hi == INF) else hi + c * mh
        if lo == -INF and hi == INF:
            break
    return lo, hi


def subst_bound_hi(p, up):
    """replace index symbols with upper bounds by that bound where it increases
    (up) or decreases (not up) a linear p; returns new poly or None."""
    d = pydict(p)
    for m, c in d.items():
        for a, e in m:
            if a.op == "el" and e == 1 and a.args[0] in EL_HI:
                rest = poly({tuple(x for x in m if x[0] is not a): c})
                lo, hi = bounds(rest)
                if (lo >= 0) if up else (hi <= 0):
                    return add(sub(p, mul(rest, a)), mul(rest, EL_HI[a.args[0]]))
                continue
            if a.op == "sym" and e == 1 and ATTR[a.args[0]].hi is not None:
                # coefficient of a must have known sign
                rest = poly({tuple(x for x in m if x[0] is not a): c})
                lo, hi = bounds(rest)
                pos = lo >= 0
                neg = hi <= 0
                at = ATTR[a.args[0]]
                if pos:
                    b = at.hi if up else (const(at.lo) if at.lo is not None else None)
                elif neg:
                    b = (const(at.lo) if at.lo is not None else None) if up else at.hi
                else:
                    continue
                if b is None:
                    continue
                return add(sub(p, mul(rest, a)), mul(rest, b))
    for m, c in d.items():
        for a, e in m:
            if a.op == "app" and a.args[0] == "floor" and e == 1:
                x = a.args[1]
                L = 1
                for _, v in pydict(x).items():
                    L = L * v.denominator // math.gcd(L, v.denominator)
                slack = Fr(L - 1, L) if isint(mul(const(L), x)) else Fr(1)
                rest = poly({tuple(y for y in m if y[0] is not a): c})
                lo, hi = bounds(rest)
                if lo >= 0:
                    pos = True
                elif hi <= 0:
                    pos = False
                else:
                    continue
                b = x if pos == up else sub(x, const(slack))
                return add(sub(p, mul(rest, a)), mul(rest, b))
    return None


DERIVED = set()   # those among ASSUME that the analysis established itself
ASSUME = []   # list of polynomials known to be >= 0 (domain assumptions)


def decide(base, t, strict):
    """is base < t (or <= t)?  True / False / None."""
    key = (base, t, strict)
    g = tuple(ASSUME)
    if _dec[0] != g:
        m = _decs.get(g)
        if m is None:
            m = _decs[g] = ({}, [(a, monos(a), [mul(const(k), a) for k in (1, 2, Fr(1, 2))]) for a in ASSUME])
        _dec[0], _dec[1], _dec[2] = g, m[0], m[1]
    r = _dec[1].get(key, 0)
    if r == 0:
        if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
            raise Blowup("time limit")
        r = _dec[1][key] = _decide(base, t, strict)
    return r


_dec = [None, {}, []]
_decs = {}


def monos(p):
    return {m for m, _ in p.args[0] if m} if p.op == "poly" else {((p, Fr(1)),)}


def unbounded(q, up):
    """monomials of q that have no upper (lower) bound of their own"""
    if q.op != "poly":
        return set() if bounds(q)[1 if up else 0] not in (INF, -INF) else {((q, Fr(1)),)}
    return {m for m, c in q.args[0] if m and bounds(poly({m: c}))[1 if up else 0] in (INF, -INF)}


def _decide(base, t, strict):
    p = sub(base, const(t))
    for direction in (True, False):
        q = p
        for _ in range(6):
            lo, hi = bounds(q)
            if direction:      # q is an upper bound of p
                if hi < 0 or (hi == 0 and not strict):
                    return True
            else:              # q is a lower bound of p
                if lo > 0 or (lo == 0 and strict):
                    return False
            # domain assumptions: p + a <= bound
            qm = monos(q)
            open_ = None
            for a, am, mults in _dec[2]:
                if not (am & qm):
                    continue
                if open_ is None:
                    open_ = unbounded(q, direction)
                if not open_ <= am:     # a monomial of q stays without bound
                    continue
                for ma in mults:
                    if direction:
                        # p <= p + a*mult  (a >= 0)
                        if bounds(add(q, ma))[1] < (0 if strict else Fr(1, 10**40)):
                            return True
                    else:
                        lo2 = bounds(sub(q, ma))[0]
                        if lo2 > 0 or (lo2 == 0 and strict):
                            return False
            n = subst_bound_hi(q, direction)
            if n is None or n.op == "ite":
                break
            q = n
    return None


_cmp_memo = {}


def _lt_leaf(a, b, strict=True):
    if a.op == "bad" or b.op == "bad":
        return _bad_lt(a, b, strict)
    for x in (a, b):
        if x.op in ("none", "str"):
            return batom(mk("app", "cmp", a, b, string("<" if strict else "<=")))
    a, b = num(a), num(b)
    p = sub(a, b)
    if p.op == "ite":
        return lift(lambda q: _sgn(q, strict), p)
    return _sgn(p, strict)


def _bad_lt(a, b, strict):
    o = {"-inf": -1, "inf": 1}
    ka = o.get(a.args[0]) if a.op == "bad" else 0
    kb = o.get(b.args[0]) if b.op == "bad" else 0
    if ka is None or kb is None:
        return FALSE
    return TRUE if ka < kb or (ka == kb and not strict) else FALSE


MONOTONE = {"log", "exp", "arcsinh", "arctan", "sinh"}


def _sgn(p, strict):
    """p < 0 or p <= 0"""
    if p.op != "poly":
        p = poly(pydict(p)) if False else p
    d = pydict(p)
    c = d.pop((), Fr(0))
    if not d:
        return TRUE if (c < 0 or (c == 0 and not strict)) else FALSE
    items = sorted(d.items(), key=lambda mc: _enc(mc[0]))
    if c == 0 and len(items) == 2 and items[0][1] == -items[1][1]:
        # g(A) - g(B) with g strictly increasing has the sign of A - B
        (m1, c1), (m2, c2) = items
        if len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
            u, v = m1[0][0], m2[0][0]
            if u.op == v.op == "app" and u.args[0] == v.args[0] and u.args[0] in MONOTONE \
                    and isreal(u.args[1]) and isreal(v.args[1]):
                q = sub(u.args[1], v.args[1])
                if c1 < 0:
                    q = mul(const(-1), q)
                return lift(lambda x: _sgn(x, strict), q)
    lead = items[0][1]
    s = abs(lead)
    neg = lead < 0
    # factor a common positive monomial out (sign preserving)
    if c == 0:
        common = None
        for m, _ in items:
            dm = dict(m)
            if common is None:
                common = dict(dm)
            else:
                common = {a: min(e, dm[a]) for a, e in common.items() if a in dm and (e > 0) == (dm[a] > 0)}
        common = {a: e for a, e in (common or {}).items() if e != 0 and _positive(a)}
        if common:
            f = {}
            for m, v in items:
                dm = dict(m)
                for a, e in common.items():
                    dm[a] = dm[a] - e
                f[tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda ae: ae[0].key))] = v
            q = poly(f)
            return _sgn(q, strict)
        # clear positive denominators
        den = {}
        for m, _ in items:
            for a, e in m:
                if e < 0 and _positive(a):
                    den[a] = min(den.get(a, 0), e)
        if den:
            f = ONE
            for a, e in den.items():
                f = mul(f, powr(a, -e))
            q = mul(p, f)
            if q.op != "ite":
                return _sgn(q, strict)
            return lift(lambda x: _sgn(x, strict), q)
    else:
        den = {}
        for m, _ in items:
            for a, e in m:
                if e < 0 and _positive(a):
                    den[a] = min(den.get(a, 0), e)
        if den:
            f = ONE
            for a, e in den.items():
                f = mul(f, powr(a, -e))
            q = mul(p, f)
            if q.op != "ite":
                return _sgn(q, strict)
            return lift(lambda x: _sgn(x, strict), q)
    base = poly({m: (v / s if not neg else -v / s) for m, v in items})
    t = -c / s
    if not neg:
        return thr(base, t, strict)
    # -base < t  <=>  base > -t  <=> not (base <= -t)
    return bnot(thr(base, -t, not strict))


def thr(base, t, strict):
    # integers: clear denominators first
    L = 1
    for m, v in base.args[0]:
        L = L * v.denominator // math.gcd(L, v.denominator)
    ib = base if L == 1 else poly({m: v * L for m, v in base.args[0]})
    if isint(ib):
        tt = t * L
        if strict:
            n = Fr(math.ceil(tt))
        else:
            n = Fr(math.floor(tt)) + 1
        base, t, strict = ib, n, True
    # single non-negative-power atoms: x^q < t with x >= 0 -> x < t^(1/q) is not exact; skip
    r = decide(base, t, strict)
    if r is True:
        return TRUE
    if r is False:
        return FALSE
    return node(mk("thr", base, t, strict), TRUE, FALSE)


def _positive(a):
    lo, hi = atom_bounds(a)
    return lo > 0


def nonneg(t):
    lo, hi = bounds(t)
    return lo >= 0


def lt(a, b):
    return lift(lambda x, y: _lt_leaf(x, y, True), a, b)


def le(a, b):
    return lift(lambda x, y: _lt_leaf(x, y, False), a, b)


def _eq_leaf(a, b):
    if a is b:
        return TRUE
    if a.op == "bad" or b.op == "bad":
        return FALSE if not (a.unk or b.unk) else batom(mk("app", "eq", a, b))
    kinds = ("str", "none", "lam", "obj")
    if a.op in kinds or b.op in kinds:
        if a.op in ("str", "none") and b.op in ("str", "none"):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op in ("str", "none"):
                if y.op == "sym" and ATTR[y.args[0]].kind in ("obj",):
                    break
                if y.op in ("poly", "true", "false", "el", "sym", "lam"):
                    return FALSE
        a, b = sorted((a, b))
        return batom(mk("app", "eq", a, b))
    if isbool(a) and isbool(b):
        return beq(a, b)
    a, b = num(a), num(b)
    p = sub(a, b)

    def f(p):
        c = cval(p)
        if c is not None:
            return TRUE if c == 0 else FALSE
        if not isreal(p):
            return batom(mk("app", "eq0", p))
        if p.op == "poly" and len(p.args[0]) == 1:
            # c*a1^e1*..=0  <=> some ai = 0 (positive exponents)
            m, _ = p.args[0][0]
            r = FALSE
            for a, e in m:
                if e > 0:
                    r = bor(r, band(_sgn(a, False), bnot(_sgn(a, True))) if a.op != "poly"
                            else band(_sgn(a, False), bnot(_sgn(a, True))))
            return r
        return band(_sgn(p, False), bnot(_sgn(p, True)))

    return lift(f, p)


def eq(a, b):
    return lift(_eq_leaf, a, b)


def truth(t):
    """python truth value of a term as a decision diagram over TRUE/FALSE."""
    def f(x):
        if x in (TRUE, FALSE):
            return x
        if x is NONE:
            return FALSE
        if x.op == "str":
            return TRUE if x.args[0] else FALSE
        if x.op == "bad":
            return TRUE
        if x.op == "lam":
            return batom(mk("app", "truth", x))
        if x.op == "sym" and ATTR[x.args[0]].kind in ("obj", "bool"):
            return batom(x)
        if x.op == "obj":
            return TRUE
        return bnot(_eq_leaf(x, ZERO))
    return lift(f, t)


def num(t):
    """numeric view: booleans to 0/1."""
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if t.op == "ite" and isbool(t):
        return ite(t, ONE, ZERO)
    return t


# -------------------------------------------------------------- arithmetic
MAXTERMS = 400


def _badop(*ts):
    return any(t.op == "bad" for t in ts)


def add(a, b):
    if a.op == "ite" or b.op == "ite":
        return lift(_add, a, b)
    return _add(a, b)


def _add(a, b):
    a, b = num(a), num(b)
    if _badop(a, b):
        if a.op == "bad" and b.op == "bad":
            return a if a is b else BAD_NAN
        return a if a.op == "bad" else b
    d = pydict(a)
    for m, c in pydict(b).items():
        v = d.get(m, 0) + c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    # combine across sums with equal ranges
    d = _merge_sums(d)
    return _mkpoly(d)


def _merge_sums(d):
    sums = [(m, c) for m, c in d.items() if len(m) >= 1 and any(a.op == "sum" for a, e in m)]
    if len(sums) < 2:
        return d
    groups = {}
    for m, c in sums:
        s = [(a, e) for a, e in m if a.op == "sum" and e == 1]
        if len(s) != 1:
            continue
        # only merge when the cofactor is free of other sums; distribute it inside
        rest = tuple(x for x in m if x[0] is not s[0][0])
        groups.setdefault(s[0][0].args[0], []).append((m, c, s[0][0], rest))
    return d


def _mkpoly(d):
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return poly(d)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "ite" or b.op == "ite":
        return lift(_mul, a, b)
    return _mul(a, b)


def _mul(a, b):
    a, b = num(a), num(b)
    if _badop(a, b):
        return _badmul(a, b)
    ca, cb = cval(a), cval(b)
    if ca == 1:
        return b
    if cb == 1:
        return a
    if ca == 0 or cb == 0:
        return ZERO
    da, db = pydict(a), pydict(b)
    if len(da) * len(db) > MAXTERMS:
        # keep factored
        fs, k = [], Fr(1)
        for x, dx in ((a, da), (b, db)):
            if len(dx) == 1:
                (m, cc), = dx.items()
                k *= cc
                fs += list(m)
            else:
                fs.append((x, Fr(1)))
        return _monoprod(fs, k)
    # cancellation of sum factors: (x+y) * (x+y)^-1
    if len(da) > 1 or len(db) > 1:
        r = _cancel_sum(a, b, da, db)
        if r is not None:
            return r
    out = {}
    extra = None
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            t = _monomul(m1, m2, c1 * c2)
            if t.op == "poly":
                for m, c in t.args[0]:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
            elif t.op == "ite" or t.op == "bad":
                extra = t if extra is None else add(extra, t)
            else:
                m = ((t, Fr(1)),)
                v = out.get(m, 0) + 1
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
    r = _mkpoly(out)
    return r if extra is None else add(r, extra)


def _badmul(a, b):
    x, y = (a, b) if a.op == "bad" else (b, a)
    if x is BAD_NAN or y is BAD_NAN:
        return BAD_NAN
    if y.op == "bad":
        return BAD_INF if x is y else BAD_NINF
    c = cval(y)
    if c == 0:
        return BAD_NAN
    lo, hi = bounds(y)
    if lo > 0:
        return x
    if hi < 0:
        return BAD_INF if x is BAD_NINF else BAD_NINF
    return x if lo >= 0 else BAD_NAN


def _cancel_sum(a, b, da, db):
    """P * q where monomials of q contain P0^-k and P = c*P0*mono: cancel before distributing."""
    for p, dp, q, dq in ((a, da, b, db), (b, db, a, da)):
        if len(dp) < 2:
            continue
        if not any(e < 0 and x.op == "poly" for m in dq for x, e in m):
            continue
        co, mono, prim = content(p)
        hit, rest = [], {}
        for m, c in dq.items():
            for x, e in m:
                if e < 0 and x is prim:
                    r = dict(m)
                    ne = e + 1
                    if ne:
                        r[x] = ne
                    else:
                        del r[x]
                    hit.append(_monoprod(list(r.items()) + list(mono), c * co))
                    break
            else:
                rest[m] = c
        if not hit:
            continue
        acc = hit[0]
        for t in hit[1:]:
            acc = add(acc, t)
        if rest:
            acc = add(acc, mul(p, _mkpoly(rest)))
        return acc
    return None


def content(p):
    """p = coeff * mono * primitive  (primitive: leading coefficient 1)."""
    d = pydict(p)
    items = sorted(d.items(), key=lambda mc: _enc(mc[0]))
    common = dict(items[0][0])
    for m, _ in items[1:]:
        dm = dict(m)
        nc = {}
        for a, e in common.items():
            if a in dm:
                x = min(e, dm[a])
                if e > 0 and dm[a] > 0 or e < 0 and dm[a] < 0:
                    nc[a] = x if e > 0 else max(e, dm[a])
        common = nc
    # also clear denominators: most negative exponents
    den = {}
    for m, _ in items:
        for a, e in m:
            if e < 0:
                den[a] = min(den.get(a, e), e)
    for a, e in den.items():
        common[a] = e
    def div(m):
        dm = dict(m)
        for a, e in common.items():
            dm[a] = dm.get(a, Fr(0)) - e
        return tuple(sorted(((a, e) for a, e in dm.items() if e), key=lambda ae: ae[0].key))
    nd = {}
    for m, c in items:
        nd[div(m)] = c
    it = sorted(nd.items(), key=lambda mc: _enc(mc[0]))
    lead = it[0][1]
    prim = poly({m: c / lead for m, c in it})
    return lead, tuple(sorted(common.items(), key=lambda ae: ae[0].key)), prim


def _monomul(m1, m2, c):
    if not m1:
        return poly({m2: c}) if not (c == 1 and len(m2) == 1 and m2[0][1] == 1) else m2[0][0]
    if not m2:
        return poly({m1: c}) if not (c == 1 and len(m1) == 1 and m1[0][1] == 1) else m1[0][0]
    return _monoprod(list(m1) + list(m2), c)


def _monoprod(factors, c):
    """product of atom powers with normalisation of special atoms."""
    d = {}
    expo = None
    extra = []
    for a, e in factors:
        if a.op == "app" and a.args[0] == "exp":
            x = mul(a.args[1], const(e))
            expo = x if expo is None else add(expo, x)
            continue
        v = d.get(a, Fr(0)) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    if expo is not None:
        ex = func("exp", expo)
        if ex.op == "poly":
            if len(ex.args[0]) == 1:
                (m, cc), = ex.args[0]
                c *= cc
                for a, e in m:
                    v = d.get(a, Fr(0)) + e
                    if v:
                        d[a] = v
                    else:
                        d.pop(a, None)
            else:
                extra.append(ex)
        elif ex.op == "ite" or ex.op == "bad":
            extra.append(ex)
        else:
            d[ex] = d.get(ex, Fr(0)) + 1
    # imaginary unit
    if I in d:
        e = d.pop(I)
        if e.denominator == 1:
            k = int(e) % 4
            if k in (2, 3):
                c = -c
            if k in (1, 3):
                d[I] = Fr(1)
        else:
            d[I] = e
    # constants with fractional powers
    for a in [a for a in d if a.op == "poly" and cval(a) is not None]:
        e = d[a]
        q = math.floor(e)
        if q:
            c *= cval(a) ** q
            e -= q
            if e:
                d[a] = e
            else:
                del d[a]
    # (sum)^positive integer: expand
    sums = [a for a in d if a.op == "poly" and len(a.args[0]) > 1]
    room = 1
    for a in sums:
        if d[a] > 0 and d[a].denominator == 1 and d[a] <= 6:
            room *= len(a.args[0]) ** int(d[a])
    for a in sums:
        e = d[a]
        if e > 0 and e.denominator == 1 and e <= 6 and room <= MAXTERMS:
            del d[a]
            for _ in range(int(e)):
                extra.append(a)
        elif e > 1 and e.denominator != 1 and e <= 6:
            q = math.floor(e)
            d[a] = e - q
            for _ in range(q):
                extra.append(a)
    # |x|^2 of real x
    for a in [a for a in d if a.op == "app" and a.args[0] == "abs" and d[a] % 2 == 0 and isreal(a.args[1])]:
        e = d.pop(a)
        extra.append(powr(a.args[1], e))
    m = tuple(sorted(d.items(), key=lambda ae: ae[0].key))
    r = poly({m: Fr(c)}) if m or c != 0 else ZERO
    if r.op == "poly" and len(m) == 1 and c == 1 and m[0][1] == 1:
        r = m[0][0]
    for x in extra:
        r = mul(r, x)
    return r


def inv(a):
    return powr(a, Fr(-1))


def div(a, b):
    return mul(a, inv(b))


def powr(a, q):
    if a.op == "ite":
        return lift(lambda x: _powr(x, q), a)
    return _powr(a, q)


SQUARE = {}     # expanded square of a real sum -> the sum


def _powr(a, q):
    q = Fr(q)
    a = num(a)
    if q == 1:
        return a
    if q == 0:
        return ONE
    if a.op == "bad":
        if a is BAD_NAN:
            return a
        if q < 0:
            return ZERO
        if a is BAD_INF or q % 2 == 0:
            return BAD_INF
        return BAD_NINF if q.denominator == 1 else BAD_NAN
    c = cval(a)
    if c is not None:
        if c == 0:
            return ZERO if q > 0 else BAD_INF
        if q.denominator == 1 and abs(q) < 400:
            return const(c ** int(q))
        if c > 0:
            r = Fr(round(float(c) ** float(q))) if float(c) ** float(q) < 1e15 else None
            if r and r ** q.denominator == c ** q.numerator if q > 0 and r else False:
                return const(r)
            # split numerator/denominator into separate bases
            return _constpow(c, q)
        return mk("app", "powc", a, const(q))
    d = pydict(a)
    if len(d) == 1:
        (m, c), = d.items()
        if q.denominator == 1:
            return _monoprod([(x, e * q) for x, e in m], c ** int(q))
        # fractional power: distribute over factors known non-negative
        out = ONE
        rest = []
        for x, e in m:
            if nonneg(x):
                out = mul(out, _monoprod([(x, e * q)], Fr(1)))
            elif e % 2 == 0 and isreal(x):
                ax = func("abs", x)
                out = mul(out, _monoprod([(ax, e * q)], Fr(1)) if ax.op != "poly" else powr(ax, e * q))
            else:
                rest.append((x, e))
        sgn = 1
        if c < 0:
            sgn = -1
            c = -c
        if c != 1:
            out = mul(out, _powr(const(c), q))
        if rest or sgn < 0:
            if not rest:
                base = const(-1)
                return mul(out, mk("app", "powc", base, const(q)))
            if len(rest) == 1 and rest[0][1] == 1 and sgn > 0:
                out = mul(out, _raw(rest[0][0], q))
            else:
                bs = _monoprod(rest, Fr(sgn))
                out = mul(out, _raw(bs, q))
        return out
    # sum base
    if q.denominator == 1 and q > 0 and len(d) ** int(q) <= MAXTERMS and q <= 6:
        r = a
        for _ in range(int(q) - 1):
            r = mul(r, a)
        if q == 2 and isreal(a):
            SQUARE[r] = a
        return r
    if q.denominator == 2 and a in SQUARE:          # sqrt(x**2) is |x|
        return powr(func("abs", SQUARE[a]), q * 2)
    co, mono, prim = content(a)
    if q.denominator == 1:
        r = _monoprod([(x, e * q) for x, e in mono] + [(prim, q)], co ** int(q))
        return r
    if co > 0 and all(nonneg(x) for x, e in mono):
        r = _monoprod([(x, e * q) for x, e in mono] + [(prim, q)], Fr(1))
        return mul(r, _powr(const(co), q)) if co != 1 else r
    return _raw(a, q)


def _raw(a, q):
    return poly({((a, q),): Fr(1)})


def _constpow(c, q):
    r = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        if n == 1:
            continue
        for p, k in _factor(n):
            e = q * s * k
            fl = math.floor(e)
            r = mul(r, const(Fr(p) ** fl))
            fr = e - fl
            if fr:
                r = mul(r, poly({((const(p), fr),): Fr(1)}))
    return r


def _factor(n):
    out = []
    p = 2
    while p * p <= n and p < 1000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
    if n > 1:
        out.append((n, 1))
    return out


def power(a, b):
    """a ** b"""
    def f(x, y):
        x, y = num(x), num(y)
        q = cval(y)
        if q is not None and q.denominator <= 1000:
            return powr(x, q)
        if x.op == "bad" or y.op == "bad":
            return BAD_NAN
        cx = cval(x)
        if cx == 1:
            return ONE
        if cx == 0:
            lo, hi = bounds(y)
            if lo > 0:
                return ZERO
            if hi < 0:
                return BAD_INF
            return mk("app", "pow", x, y)
        lo, hi = bounds(x)
        if lo > 0 or (cx is not None and cx > 0):
            return func("exp", mul(y, func("log", x)))
        # split off known positive factors
        if x.op == "poly" and len(x.args[0]) == 1:
            m, c = x.args[0][0]
            if c > 0 and c != 1:
                return mul(func("exp", mul(y, func("log", const(c)))), power(poly({m: Fr(1)}) if not (len(m) == 1 and m[0][1] == 1) else m[0][0], y))
        return mk("app", "pow", x, y)
    return lift(f, a, b)


# -------------------------------------------------------------- functions
def func(name, *args):
    if any(a.op == "ite" for a in args):
        return lift(lambda *x: _func(name, *x), *args)
    return _func(name, *args)


def app(name, *args):
    """opaque application, lifted over decisions"""
    if any(a.op == "ite" for a in args):
        return lift(lambda *x: mk("app", name, *x), *args)
    return mk("app", name, *args)


def _func(name, *args):
    args = tuple(num(a) if a.op in ("true", "false", "ite") else a for a in args)
    if any(a.op == "bad" for a in args):
        return _badfunc(name, args)
    x = args[0]
    if name == "exp":
        c = cval(x)
        if c == 0:
            return ONE
        # exp(q*log(u) + rest)
        d = pydict(x)
        fac = []
        rest = {}
        for m, c in d.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "log":
                fac.append((m[0][0].args[1], c))
            else:
                rest[m] = c
        if fac:
            r = ONE
            for u, c in fac:
                r = mul(r, powr(u, c))
            if rest:
                r = mul(r, func("exp", _mkpoly(rest)))
            return r
        return mk("app", "exp", x)
    if name == "log":
        c = cval(x)
        if c is not None:
            if c == 1:
                return ZERO
            if c == 0:
                return BAD_NINF
            if c < 0:
                return BAD_NAN
            r = ZERO
            for n, sg in ((c.numerator, 1), (c.denominator, -1)):
                if n > 1:
                    for p, k in _factor(n):
                        # basis 2, 3, 7, 10, ...: log10 scales stay monomials
                        q = mk("app", "log", const(10 if p == 5 else p))
                        if p == 5:
                            q = sub(q, mk("app", "log", const(2)))
                        r = add(r, mul(const(sg * k), q))
            return r
        if x.op == "app" and x.args[0] == "exp":
            return x.args[1]
        d = pydict(x)
        if len(d) == 1:
            (m, c), = d.items()
            r = ZERO
            rest = []
            for a, e in m:
                if _positive(a):
                    if a.op == "app" and a.args[0] == "exp":
                        r = add(r, mul(const(e), a.args[1]))
                    else:
                        r = add(r, mul(const(e), mk("app", "log", a)))
                else:
                    rest.append((a, e))
            if c > 0 and (r is not ZERO or c != 1):
                r = add(r, func("log", const(c)))
                c = 1
            elif c > 0:
                c = 1
            if not rest and c == 1:
                return r
            if not rest:
                return mk("app", "log", x)
            y = _monoprod(rest, Fr(c))
            return add(r, mk("app", "log", y))
        co, mono, prim = content(x)
        if co > 0 and all(_positive(a) for a, e in mono) and (co != 1 or mono):
            r = func("log", const(co)) if co != 1 else ZERO
            for a, e in mono:
                r = add(r, mul(const(e), func("log", a)))
            return add(r, mk("app", "log", prim))
        return mk("app", "log", x)
    if name == "abs":
        c = cval(x)
        if c is not None:
            return const(abs(c))
        if x is I:
            return ONE
        if x.op == "app" and x.args[0] == "abs":
            return x
        if x.op == "app" and x.args[0] == "conj":
            return func("abs", x.args[1])
        if isreal(x):
            lo, hi = bounds(x)
            if lo >= 0:
                return x
            if hi <= 0:
                return neg(x)
            if x.op == "poly" and len(x.args[0]) > 1:
                if _sgn(x, False) is TRUE:
                    return neg(x)
                if _sgn(neg(x), False) is TRUE:
                    return x
                if len(x.args[0]) <= 3 and isint(x) and all(a.op in ("sym", "bound") for m, _ in x.args[0] for a, _ in m):
                    return ite(lt(x, ZERO), neg(x), x)      # distance of two indices
        d = pydict(x)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) > 1 or m[0][1] != 1 or c != 1:
                r = const(abs(c))
                for a, e in m:
                    b = func("abs", a)
                    r = mul(r, powr(b, e))
                return r
            a = m[0][0]
            if a.op == "app" and a.args[0] == "exp" and not isreal(a.args[1]):
                # |exp(z)| with z = re + I*im
                re = {}
                for mm, cc in pydict(a.args[1]).items():
                    if not any(u is I for u, e in mm):
                        if not isreal(poly({mm: cc})):
                            return mk("app", "abs", x)
                        re[mm] = cc
                    elif not all(u is I or isreal(u) for u, e in mm):
                        return mk("app", "abs", x)
                return func("exp", _mkpoly(re)) if re else ONE
            return mk("app", "abs", x)
        # sums: normalise sign and content
        co, mono, prim = content(x)
        if mono and len(d) > 1:
            r = const(abs(co))
            for a, e in mono:
                r = mul(r, powr(func("abs", a), e))
            return mul(r, mk("app", "abs", prim))
        return mul(const(abs(co)), mk("app", "abs", poly({m: c / co for m, c in d.items()})))
    if name in ("floor",):
        return _floor(x)
    if name == "ceil":
        return neg(func("floor", neg(x)))
    if name == "trunc":
        if isint(x):
            return x
        lo, hi = bounds(x)
        if lo >= 0:
            return func("floor", x)
        if hi <= 0:
            return neg(func("floor", neg(x)))
        return ite(lt(x, ZERO), neg(func("floor", neg(x))), func("floor", x))
    if name == "rint":
        if isint(x):
            return x
        return mk("app", "rint", x)
    if name == "conj":
        if isreal(x):
            return x
        if x is I:
            return neg(I)
        if x.op == "app" and x.args[0] == "conj":
            return x.args[1]
        if x.op == "app" and x.args[0] == "exp":
            return func("exp", func("conj", x.args[1]))
        d = pydict(x)
        if len(d) > 1 or (len(d) == 1 and (len(list(d)[0]) > 1 or list(d.values())[0] != 1 or list(d)[0][0][1] != 1)):
            r = ZERO
            for m, c in d.items():
                t = const(c)
                for a, e in m:
                    t = mul(t, powr(func("conj", a), e))
                r = add(r, t)
            return r
        return mk("app", "conj", x)
    if name == "real":
        if isreal(x):
            return x
        return mk("app", "real", x)
    if name == "imag":
        if isreal(x):
            return ZERO
        return mk("app", "imag", x)
    if name in ("sin", "tan", "arctan", "sinh", "arcsinh", "tanh"):
        if x.op == "app" and (name, x.args[0]) in (("tan", "arctan"), ("sinh", "arcsinh"), ("arcsinh", "sinh")):
            return x.args[1]
        c = cval(x)
        if c == 0:
            return ZERO
        d = pydict(x)
        items = sorted(d.items(), key=lambda mc: _enc(mc[0]))
        if items[0][1] < 0:
            return neg(func(name, neg(x)))
        return mk("app", name, x)
    if name == "cos":
        c = cval(x)
        if c == 0:
            return ONE
        d = pydict(x)
        items = sorted(d.items(), key=lambda mc: _enc(mc[0]))
        if items[0][1] < 0:
            x = neg(x)
        return mk("app", name, x)
    return mk("app", name, *args)


def _badfunc(name, args):
    x = args[0]
    if x.op == "bad":
        k = x.args[0]
        if name == "abs":
            return BAD_NAN if k == "nan" else BAD_INF
        if name == "exp":
            return {"nan": BAD_NAN, "inf": BAD_INF, "-inf": ZERO}[k]
        if name == "log":
            return BAD_INF if k == "inf" else BAD_NAN
    return BAD_NAN


def _floor(x):
    if isint(x):
        return x
    d = pydict(x)
    ip = {}
    rest = {}
    for m, c in d.items():
        if m == ():
            f = math.floor(c)
            if f:
                ip[()] = Fr(f)
            if c - f:
                rest[()] = c - f
        elif all(e.denominator == 1 and e > 0 and isint(a) for a, e in m):
            f = math.floor(c) if c > 0 else -math.floor(-c)
            if c.denominator == 1:
                ip[m] = c
            else:
                rest[m] = c
        else:
            rest[m] = c
    if not rest:
        return _mkpoly(ip)
    r = _mkpoly(rest)
    c = cval(r)
    if c is not None:
        return add(_mkpoly(ip), const(math.floor(c)))
    lo, hi = bounds(r)
    if lo != -INF and hi != INF and math.floor(lo) == math.floor(hi):
        return add(_mkpoly(ip), const(math.floor(lo)))
    # normal form for integer ratios with negative leading coefficient
    co, mono, prim = content(r)
    if all(e < 0 and e.denominator == 1 and isint(a) and _positive(a) for a, e in mono) and isint_scaled(prim):
        # r = co * prim / D
        D = ONE
        for a, e in mono:
            D = mul(D, powr(a, -e))
        P = mul(const(co), prim)
        L = 1
        for m, v in pydict(P).items():
            L = L * v.denominator // math.gcd(L, v.denominator)
        P = mul(const(L), P)
        D = mul(const(L), D)
        if isint(P) and (D.op == "poly" or True):
            items = sorted(((m, v) for m, v in pydict(P).items() if m != ()), key=lambda mc: _enc(mc[0]))
            if items and items[0][1] < 0:
                # floor(-p/D) = -floor((p-1)/D) - 1
                q = func("floor", div(sub(neg(P), ONE), D))
                return add(_mkpoly(ip), sub(neg(q), ONE))
            return add(_mkpoly(ip), mk("app", "floor", r))
    return add(_mkpoly(ip), mk("app", "floor", r))


def isint_scaled(p):
    return all(e.denominator == 1 and e > 0 and isint(a) for m, c in pydict(p).items() for a, e in m)


# ------------------------------------------------------------------ binders
def close(body, syms):
    """abstract the given fresh symbols: locally nameless body."""
    mp = {s: k for k, s in enumerate(syms)}
    memo = {}

    def go(t, d):
        if isinstance(t, tuple):
            return tuple(go(x, d) for x in t)
        if not isinstance(t, T):
            return t
        k = (t, d)
        r = memo.get(k)
        if r is None:
            if t.op == "sym":
                r = bound(d, mp[t], kind_of(t)) if t in mp else t
            elif t.op == "bound":        # loose: one more binder now encloses it
                r = bound(t.args[0] + 1, *t.args[1:]) if t.args[0] >= d else t
            else:
                r = rebuild(t, d, go)
            memo[k] = r
        return r

    return go(body, 0)


DEADLINE = [None]      # wall-clock limit of an optional normalisation


def rebuild(t, d, go):
    op = t.op
    if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
        raise Blowup("time limit of the second normal form")
    if op in ("bound", "sym", "str", "true", "false", "none", "bad", "obj"):
        return t
    if op == "poly":
        r = ZERO
        ch = False
        parts = []
        for m, c in t.args[0]:
            nm = []
            for a, e in m:
                b = go(a, d)
                if b is not a:
                    ch = True
                nm.append((b, e))
            parts.append((nm, c))
        if not ch:
            return t
        acc = {}
        extra = None
        for nm, c in parts:
            if all(b.op in ("sym", "bound") for b, e in nm):
                dd = {}
                for b, e in nm:
                    v = dd.get(b, 0) + e
                    if v:
                        dd[b] = v
                    else:
                        dd.pop(b, None)
                k = tuple(sorted(dd.items(), key=lambda ae: ae[0].key))
                v = acc.get(k, 0) + c
                if v:
                    acc[k] = v
                else:
                    acc.pop(k, None)
                continue
            x = const(c)
            for b, e in nm:
                x = mul(x, powr(b, e))
            extra = x if extra is None else add(extra, x)
        r = _mkpoly(acc)
        return r if extra is None else add(r, extra)
    if op == "ite":
        a, h, l = t.args
        h2, l2 = go(h, d), go(l, d)
        if a.op == "thr":
            b2 = go(a.args[0], d)
            if b2 is a.args[0]:
                return ite_atom(a, h2, l2)
            c = lt(b2, const(a.args[1])) if a.args[2] else le(b2, const(a.args[1]))
        else:
            x = go(a.args[0], d)
            if x is a.args[0]:
                return ite_atom(a, h2, l2)
            c = rebatom(x)
        return ite(c, h2, l2)
    if op == "lam":
        dims = tuple(go(x, d) for x in t.args[0])
        body = go(t.args[1], d + 1)
        if body is t.args[1] and all(x is y for x, y in zip(dims, t.args[0])):
            return t
        return mklam(dims, body)
    if op == "sum":
        n = go(t.args[0], d)
        body = go(t.args[1], d + 1)
        if body is t.args[1] and n is t.args[0]:
            return t
        return mksum(n, body)
    if op == "app":
        args = tuple(go(x, d) for x in t.args[1:])
        if all(x is y for x, y in zip(args, t.args[1:])):
            return t
        f = t.args[0]
        return reapp(f, args)
    if op == "el":
        args = tuple(go(x, d) for x in t.args[1:])
        if all(x is y for x, y in zip(args, t.args[1:])):
            return t
        return el(t.args[0], *args)
    if op == "unknown":
        return mk("unknown", t.args[0], *[go(x, d) for x in t.args[1:]])
    return mk(op, *[go(x, d) for x in t.args])


def rebatom(x):
    if x.op == "app" and x.args[0] == "eq":
        return eq(x.args[1], x.args[2])
    if x.op == "app" and x.args[0] == "eq0":
        return eq(x.args[1], ZERO)
    if x.op == "ite" or x.op in ("true", "false"):
        return truth(x)
    return batom(x)


REAPP = {}


def reapp(f, args):
    if f in REAPP:
        return REAPP[f](*args)
    if f in SMART:
        return func(f, *args)
    if f == "pow":
        return power(*args)
    return app(f, *args)


SMART = {"exp", "log", "abs", "floor", "conj", "real", "imag", "sin", "cos", "tan",
         "arctan", "sinh", "arcsinh", "tanh", "rint"}


def el(name, *idx):
    if any(i.op == "ite" for i in idx):
        return lift(lambda *x: mk("el", name, *x), *idx)
    return mk("el", name, *idx)


def mentions(t, d):
    """does t mention bound variables of the binder d levels up?"""
    memo = {}

    def go(t, d):
        if isinstance(t, tuple):
            return any(go(x, d) for x in t)
        if not isinstance(t, T) or t.maxb <= d:
            return False
        k = (t, d)
        r = memo.get(k)
        if r is None:
            if t.op == "bound":
                r = t.args[0] == d
            elif t.op in ("lam", "sum"):
                r = go(t.args[0], d) or go(t.args[1], d + 1)
            else:
                r = any(go(x, d) for x in t.args)
            memo[k] = r
        return r
    return go(t, d)


def shift_down(t):
    """remove one (unused) enclosing binder level."""
    if t.maxb == 0:
        return t
    memo = {}

    def go(t, d):
        if isinstance(t, tuple):
            return tuple(go(x, d) for x in t)
        if not isinstance(t, T) or t.maxb <= d:
            return t
        k = (t, d)
        r = memo.get(k)
        if r is None:
            if t.op == "bound":
                r = bound(t.args[0] - 1, *t.args[1:]) if t.args[0] > d else t
            else:
                r = rebuild(t, d, go)
            memo[k] = r
        return r
    return go(t, 0)


def shift_up(t):
    if t.maxb == 0:
        return t
    memo = {}

    def go(t, d):
        if isinstance(t, tuple):
            return tuple(go(x, d) for x in t)
        if not isinstance(t, T) or t.maxb <= d:
            return t
        k = (t, d)
        r = memo.get(k)
        if r is None:
            if t.op == "bound":
                r = bound(t.args[0] + 1, *t.args[1:]) if t.args[0] >= d else t
            else:
                r = rebuild(t, d, go)
            memo[k] = r
        return r
    return go(t, 0)


def free_atom(body):
    """a decision atom at the top diagram of body that does not use the binder."""
    seen = set()
    st = [body]
    best = None
    while st:
        t = st.pop()
        if t.op != "ite" or t in seen:
            continue
        seen.add(t)
        if not mentions(t.args[0], 0):
            if best is None or akey(t.args[0]) < akey(best):
                best = t.args[0]
        st.append(t.args[1])
        st.append(t.args[2])
    return best


def mklam(dims, body):
    if any(x.op == "ite" for x in dims):
        return lift(lambda *ds: mklam(tuple(ds), body), *dims)
    a = free_atom(body)
    if a is not None:
        h = mklam(dims, cof_any(body, a, True))
        l = mklam(dims, cof_any(body, a, False))
        at = a
        if at.maxb:
            at2 = shift_down(node(at, TRUE, FALSE))
            return ite(at2, h, l)
        return ite_atom(at, h, l)
    return mk("lam", tuple(dims), body)


def lam(dims, fn):
    """dims: terms; fn(*index syms) -> term"""
    syms = [fresh("l", hi=sub(n, ONE) if n.op != "ite" else None) for n in dims]
    body = fn(*syms)
    return mklam(tuple(dims), close(body, syms))


def _on_data(x):
    """does a case distinction of x test an array element?"""
    st = [x]
    seen = set()
    while st:
        y = st.pop()
        if y.op != "ite" or y in seen:
            continue
        seen.add(y)
        if atoms_of(y.args[0], lambda t: t.op == "el"):
            return True
        st.extend(y.args[1:])
    return False


def mksum(n, body):
    """sum_{k=0}^{n-1} body, body in locally nameless form"""
    if n.op == "ite":
        return lift(lambda m: mksum(m, body), n)
    c = cval(n)
    if c is not None and c <= 0:
        return ZERO
    if body is ZERO:
        return ZERO
    a = free_atom(body)
    if a is not None:
        h = mksum(n, cof_any(body, a, True))
        l = mksum(n, cof_any(body, a, False))
        return ite(shift_down(node(a, TRUE, FALSE)), h, l)
    if body.op == "bad":
        return body
    if c is not None and c <= 24:
        r = ZERO
        xs = [openb(body, [const(k)]) for k in range(int(c))]
        if body.op == "ite" and len({x for x in xs if x.op == "ite" and _on_data(x)}) > 3:
            return mk("sum", n, body)        # one case distinction per summand: left as a sum
        for x in xs:
            r = add(r, x)
        return r
    if body.op == "ite":
        # split range on a test  (k < t)
        a0 = body.args[0]
        r = _split_sum(n, body)
        if r is not None:
            return r
        return mk("sum", n, body)
    if body.op in ("true", "false"):
        body = num(body)
    d = pydict(body)
    r = ZERO
    inside = {}
    for m, c in d.items():
        free = [(x, e) for x, e in m if not mentions(x, 0)]
        bnd = tuple((x, e) for x, e in m if mentions(x, 0))
        if not bnd:
            t = const(c)
            for x, e in free:
                t = mul(t, powr(shift_down(x), e))
            r = add(r, mul(n, t))
            continue
        fm = tuple(free)
        inside.setdefault(bnd, {})
        inside[bnd][fm] = inside[bnd].get(fm, 0) + c
    for bnd, fr in inside.items():
        co = ZERO
        for fm, c in fr.items():
            t = const(c)
            for x, e in fm:
                t = mul(t, powr(shift_down(x), e))
            co = add(co, t)
        r = add(r, mul(co, _sum_mono(n, bnd)))
    return r


def _sum_mono(n, bnd):
    body = _mkpoly({bnd: Fr(1)})
    # sum of k, k^2 closed forms
    if len(bnd) == 1 and bnd[0][0].op == "bound" and bnd[0][0].args[0] == 0 and len(bnd[0][0].args) == 2:
        if bnd[0][1] == 1:
            return mul(HALF, mul(n, sub(n, ONE)))
        if bnd[0][1] == 2:
            return mul(const(Fr(1, 6)), mul(mul(n, sub(n, ONE)), sub(mul(TWO, n), ONE)))
    return mk("sum", n, body)


def _split_sum(n, body):
    a = body.args[0]
    if a.op != "thr":
        return None
    base, t, strict = a.args
    k = bound(0, 0)
    d = pydict(base)
    km = ((k, Fr(1)),)
    if km not in d or any(mentions(x, 0) for m in d if m != km for x, e in m):
        return None
    if not strict or not isint(base):
        return None
    c = d[km]
    if abs(c) != 1:
        return None
    rest = shift_down(_mkpoly({m: v for m, v in d.items() if m != km})) if len(d) > 1 else ZERO
    # c*k + rest < t
    if c == 1:
        cut = sub(const(t), rest)          # k < cut
        hi, lo = body.args[1], body.args[2]
    else:
        cut = sub(add(rest, ONE), const(t))  # k > rest - t  <=> not k < rest-t+1
        hi, lo = body.args[2], body.args[1]
    cut = clamp(cut, ZERO, n)
    s = fresh("s")
    fhi = openb(hi, [s])
    flo = openb(lo, [add(s, cut)]) if cut.op != "ite" else None

    def f(cu):
        x = mksum(cu, hi)
        y = mksum(sub(n, cu), close(openb(lo, [add(s, cu)]), [s]))
        return add(x, y)
    return lift(f, cut)


def clamp(x, lo, hi):
    return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))


def summ(n, fn):
    s = fresh("s", hi=sub(n, ONE) if n.op != "ite" else None)
    return mksum(n, close(fn(s), [s]))


def openb(body, terms):
    """instantiate the outermost binder of a locally nameless body."""
    memo = {}

    def go(t, d):
        if isinstance(t, tuple):
            return tuple(go(x, d) for x in t)
        if not isinstance(t, T) or t.maxb <= d:
            return t
        k = (t, d)
        r = memo.get(k)
        if r is None:
            if t.op == "bound":
                if t.args[0] == d:
                    r = terms[t.args[1]]
                    for _ in range(d if r.maxb else 0):
                        r = shift_up(r)
                elif t.args[0] > d:
                    r = bound(t.args[0] - 1, *t.args[1:])
                else:
                    r = t
            else:
                r = rebuild(t, d, go)
            memo[k] = r
        return r
    return go(body, 0)


def subst(t, mp):
    """replace closed terms (symbols / el atoms) by terms."""
    memo = {}

    def go(t, d):
        if isinstance(t, tuple):
            return tuple(go(x, d) for x in t)
        if not isinstance(t, T):
            return t
        if t in mp:
            return mp[t]
        r = memo.get(t)
        if r is None:
            r = rebuild(t, d, go)
            memo[t] = r
        return r
    return go(t, 0)


def walk(t, f, seen=None):
    """call f on every subterm once"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        f(x)
        st.extend(x.args)


def atoms_of(t, pred):
    out = []
    walk(t, lambda x: out.append(x) if pred(x) else None)
    return out


def deep(t):
    """t together with the bodies of every cut it uses"""
    return [t] + [CUT[n][1] for n in sorted(uncut(t))]


def has_sym(t, name):
    s = mk("sym", name)
    found = []
    for u in deep(t):
        walk(u, lambda x: found.append(1) if x is s else None)
    return bool(found)


# ------------------------------------------------------------------ display
def show(t, depth=0, lim=14):
    if not isinstance(t, T):
        return str(t)
    if depth > lim:
        return "…"
    s = lambda x: show(x, depth + 1, lim)
    op = t.op
    if op == "poly":
        if not t.args[0]:
            return "0"
        out = []
        for m, c in t.args[0]:
            fs = []
            for a, e in m:
                x = s(a)
                if a.op == "poly":
                    x = "(" + x + ")"
                fs.append(x if e == 1 else "%s^%s" % (x, e if e.denominator == 1 and e > 0 else "(%s)" % e))
            mono = "*".join(fs)
            if not mono:
                out.append(_shc(c))
            elif c == 1:
                out.append(mono)
            elif c == -1:
                out.append("-" + mono)
            else:
                out.append(_shc(c) + "*" + mono)
        return " + ".join(out)
    if op == "sym":
        return t.args[0]
    if op == "bound":
        return "#%d.%d" % t.args[:2]
    if op == "str":
        return repr(t.args[0])
    if op in ("true", "false", "none"):
        return op.capitalize()
    if op == "ite":
        a = t.args[0]
        if a.op == "thr":
            c = "%s %s %s" % (s(a.args[0]), "<" if a.args[2] else "<=", _shc(a.args[1]))
        else:
            c = s(a.args[0])
        return "(%s if %s else %s)" % (s(t.args[1]), c, s(t.args[2]))
    if op == "lam":
        return "[%s: %s]" % (",".join(s(x) for x in t.args[0]), s(t.args[1]))
    if op == "sum":
        return "Σ<%s>(%s)" % (s(t.args[0]), s(t.args[1]))
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) for x in t.args[1:]))
    if op == "el":
        return "%s[%s]" % (t.args[0], ",".join(s(x) for x in t.args[1:]))
    if op == "bad":
        return t.args[0].upper()
    if op == "unknown":
        return "?<%s>" % t.args[0]
    return "%s(%s)" % (op, ", ".join(s(x) for x in t.args))


def _shc(c):
    if c.denominator == 1:
        return str(c)
    f = float(c)
    return repr(f) if Fr(repr(f)) == c else "%s" % c
