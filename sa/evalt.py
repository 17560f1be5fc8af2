"""Veto for value-number mismatches ("random interpretation").

Two different normal forms may still denote the same function.  Before a
mismatch is reported, both *terms* are interpreted at random points of their
small-dimension domain; only terms that a point separates are reported.  The
program is never run: what is interpreted is the abstract value (a closed
expression over the option symbols)."""
import cmath
import hashlib
import math
import random
from fractions import Fraction as Fr
from . import terms as tm
from .terms import T

EPS = Fr(1, 2 ** 52)


class Discard(Exception):
    """this point says nothing (ambiguous comparison, pole, too large)"""


class Ambiguous(Discard):
    pass


class Small(Discard):
    """a small inexact number decides: worth another look with perturbed rounding"""


def h01(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big") / 2.0 ** 64


def isnum(x):
    return isinstance(x, (int, float, complex, Fr))


def asint(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fr):
        if x.denominator == 1:
            return int(x)
        raise Discard("non-integer index")
    if isinstance(x, complex):
        if abs(x.imag) > 1e-9:
            raise Discard("complex index")
        x = x.real
    r = round(x)
    if abs(x - r) > 1e-9:
        raise Discard("non-integer index")
    return int(r)


class Singular(Discard):
    """an exact zero under a logarithm or a negative power, or an infinite constant"""


def fl(x):
    if isinstance(x, complex):
        return x
    return float(x)


def real(x):
    if isinstance(x, complex):
        if abs(x.imag) > 1e-9 * (1 + abs(x.real)):
            raise Discard("complex where a real is needed")
        return x.real
    return x


def fin(x):
    if isinstance(x, Fr):
        return x
    if isinstance(x, complex):
        if math.isnan(x.real) or math.isnan(x.imag) or math.isinf(x.real) or math.isinf(x.imag):
            raise Discard("not finite")
        return x
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        raise Discard("not finite")
    return x


def turn(m, n):
    """exp(2 pi i m / n), exact at quarter turns"""
    m %= n
    if 4 * m % n == 0:
        return (1, 1j, -1, -1j)[4 * m // n]
    return cmath.exp(2j * math.pi * m / n)


ILL = 1e-11      # an inexact value this small may be all rounding
ROBUST = False   # evaluations are repeated with perturbed rounding (Search.robust): small values are told from noise that way


def noise(x):
    return not ROBUST and not isinstance(x, (int, Fr)) and abs(x) < ILL


def pw(x, e):
    """x ** e for rational e"""
    if e < 1 and e != 0 and isnum(x) and noise(x):
        raise Small("ill-conditioned")
    try:
        if e.denominator == 1:
            n = int(e)
            if isinstance(x, (int, Fr)):
                if n < 0 and x == 0:
                    raise Singular("pole")
                return Fr(x) ** n if abs(n) < 400 else float(x) ** n
            if n < 0 and abs(x) < 1e-200:
                raise Discard("pole")
            return x ** n
        if isinstance(x, complex):
            if x == 0:
                raise Discard("pole")
            return x ** float(e)
        xf = float(x)
        if xf == 0:
            if e < 0:
                raise (Singular if isinstance(x, (int, Fr)) else Discard)("pole")
            return 0.0
        if xf < 0:
            return complex(xf) ** float(e)
        return xf ** float(e)
    except (OverflowError, ZeroDivisionError):
        raise Discard("overflow")


class Ev:
    def __init__(self, syms, tables=None, seed=0, budget=400000):
        self.syms = syms        # name -> value
        self.tables = tables or {}
        self.seed = seed
        self.memo = {}
        self.budget = budget
        self.big = False
        self.rng = None         # perturbs every inexact operation
        self.tiny = []          # small inexact values that were tested for zero

    def j(self, x):
        """the float of x, in a perturbed run with another rounding"""
        x = fl(x)
        return x if self.rng is None else x * (1 + 4e-13 * (self.rng.random() - .5))

    def small(self, x, what):
        """a small inexact value is about to be tested for zero"""
        if not ROBUST:
            raise Small(what)
        self.tiny.append(abs(x))

    # ---------------------------------------------------------------- core
    def ev(self, t, env=()):
        env = env[:t.maxb]
        k = (t, env)
        r = self.memo.get(k)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                raise Discard("budget")
            try:
                r = self._ev(t, env)
            except (OverflowError, ZeroDivisionError, ValueError):
                raise Discard("arithmetic")
            self.memo[k] = r
        return r

    def _ev(self, t, env):
        op = t.op
        if op == "poly":
            acc = Fr(0)
            big = 0.0
            for m, c in t.args[0]:
                v = c
                for a, e in m:
                    x = self.ev(a, env)
                    if x is True or x is False:
                        x = int(x)
                    if not isnum(x):
                        raise Discard("not a number")
                    y = x if e == 1 else pw(x, e)
                    if isinstance(v, Fr) and isinstance(y, (int, Fr)):
                        v = v * y
                    else:
                        v = fl(v) * self.j(y)
                if isinstance(acc, Fr) and isinstance(v, (int, Fr)):
                    acc = acc + v
                else:
                    acc = fl(acc) + self.j(v)
                    big = max(big, abs(v))
            if isinstance(acc, Fr) and acc.denominator.bit_length() > 4000:
                acc = float(acc)
            if not isinstance(acc, Fr) and big and abs(acc) < 1e-12 * big:
                acc = 0.0 if not isinstance(acc, complex) else 0j
            return fin(acc)
        if op == "sym":
            n = t.args[0]
            if n in self.syms:
                return self.syms[n]
            if t is tm.EPS:
                return EPS
            if t is tm.PI:
                return math.pi
            if t is tm.I:
                return 1j
            raise Discard("free symbol " + n)
        if op == "bound":
            d, k = t.args[:2]
            return env[d][k]
        if op == "ite":
            try:
                c = self.cond(t.args[0], env)
            except Ambiguous:
                a, b = self.ev(t.args[1], env), self.ev(t.args[2], env)
                if isnum(a) and isnum(b) and not isinstance(a, bool) and abs(fl(a) - fl(b)) <= 1e-8 * (
                        1e-3 + abs(fl(a)) + abs(fl(b))):
                    return a         # continuous at the threshold: either side will do
                raise
            return self.ev(t.args[1] if c else t.args[2], env)
        if op in ("true", "false"):
            return op == "true"
        if op in ("str", "none"):
            return t
        if op == "bad":
            raise Singular("not finite")
        if op == "el":
            n = t.args[0]
            idx = [self.ev(i, env) for i in t.args[1:]]
            if n in tm.CUT:
                return self.ev(tm.CUT[n][1], (tuple(idx),))
            return self.table(n, tuple(asint(i) for i in idx))
        if op == "sum":
            n = asint(real(self.ev(t.args[0], env)))
            acc = Fr(0)
            if n > 5000:
                raise Discard("sum too long")
            for k in range(n):
                v = self.ev(t.args[1], ((Fr(k),),) + env)
                if v is True or v is False:
                    v = int(v)
                if isinstance(acc, Fr) and isinstance(v, (int, Fr)):
                    acc += v
                else:
                    acc = fl(acc) + self.j(v)
            return acc
        if op == "lam":
            return self.lamval(t, env)
        if op == "app":
            return self.app(t, env)
        raise Discard("term " + op)

    def cond(self, a, env):
        if a.op == "thr":
            v = self.ev(a.args[0], env)
            v = real(v)
            th = a.args[1]
            if not isinstance(v, (int, Fr)):
                d = v - float(th)
                sc = self.scale(a.args[0], env) + abs(float(th))
                if abs(d) <= 1e-9 * (sc or 1.0):
                    if d == 0 and sc == 0:
                        pass
                    else:
                        raise Ambiguous("ambiguous comparison")
                v = d
                th = 0
            return v < th if a.args[2] else v <= th
        if a.op == "batom":
            v = self.ev(a.args[0], env)
            if isinstance(v, bool):
                return v
            if isnum(v):
                if not isinstance(v, (int, Fr)) and 0 < abs(v) < 1e-12:
                    self.small(v, "ambiguous truth")
                return v != 0
            raise Discard("truth value")
        raise Discard("condition")

    def scale(self, p, env):
        s = 0.0
        if p.op != "poly":
            return abs(fl(self.ev(p, env)))
        for m, c in p.args[0]:
            v = abs(float(c))
            for a, e in m:
                v *= abs(fl(pw(self.ev(a, env), e)))
            s = max(s, v)
        return s

    def lamval(self, t, env):
        """nested tuple of values"""
        dims = t.args[0]
        ns = []
        for d in dims:
            if d.op == "str":
                raise Discard("step function")
            ns.append(asint(real(self.ev(d, env))))
        tot = 1
        for n in ns:
            tot *= max(n, 0)
        if tot > 20000:
            raise Discard("array too large")

        def go(pre):
            if len(pre) == len(ns):
                return self.ev(t.args[1], (tuple(pre),) + env)
            return tuple(go(pre + [Fr(k)]) for k in range(ns[len(pre)]))
        return go([])

    def table(self, n, idx):
        f = self.tables.get(n)
        if f is not None:
            return f(*idx)
        u = h01(self.seed, n, idx)
        kind = self.seed % 8
        if n == "sig" and self.seed % 4 == 1 and "ext" in self.syms and idx[0] >= self.syms.get("N", 0):
            return Fr(int(u * 1994) - 997, 500) * 10 ** 8       # the continuation is much louder
        if kind == 5:                   # few levels: equal values occur
            q = Fr(int(u * 4) + 1, 4)
            if n in tm.COMPLEX_ARR or n == "spectrum":
                return complex(q, Fr(int(h01(self.seed, n, idx, 1) * 5) - 2, 2))
            return q if n in tm.NONNEG_ARR or n in ("fbanks",) else q - Fr(5, 8)
        if kind == 6 and n != "spectrum" and h01(self.seed, n, idx, 2) < .35:
            return Fr(0)
        if kind == 7 and n == "sig":    # another amplitude
            return Fr(int(u * 1994) - 997, 500) * (10 ** 4 if self.seed % 16 == 7 else Fr(1, 10 ** 10))
        if self.seed % 16 == 2 and n == "sig" and len(idx) == 1 and idx[0] < 7:       # a quiet start
            return Fr(int(u * 1994) - 997, 500) / 10 ** 8
        if self.seed % 16 == 12 and n not in tm.COMPLEX_ARR and n not in ("spectrum", "fbanks") and h01(self.seed, n, idx, 3) < .3:
            return Fr(int(u * 1994) + 1, 1000) / 10 ** 9
        if kind == 3 and n == "sig":
            return Fr(int(u * 1994) - 997, 500) * (32 if self.seed % 16 == 3 else 500)
        if n in tm.COMPLEX_ARR or n == "spectrum":
            return complex(Fr(int(u * 2000) - 1000, 500), Fr(int(h01(self.seed, n, idx, 1) * 2000) - 1000, 500))
        if n in tm.NONNEG_ARR or n in ("fbanks",):
            return Fr(int(u * 997) + 1, 1000)
        return Fr(int(u * 1994) - 997, 500)

    # ---------------------------------------------------------------- heads
    def app(self, t, env):
        f = t.args[0]
        m = getattr(self, "a_" + f, None)
        if m is not None:
            return m(t, env)
        vs = [self.ev(x, env) if isinstance(x, T) and x.op != "lam" else (self.lamsafe(x, env) if isinstance(x, T) else x)
              for x in t.args[1:]]
        g = FUN.get(f)
        if g is not None:
            return fin(g(*vs))
        return self.mix(f, vs)

    def lamsafe(self, x, env):
        return self.lamval(x, env)

    def mix(self, f, vs):
        acc = 0.0
        for j, v in enumerate(vs):
            acc += (0.5 + h01(f, j)) * self.flat(v, (f, j))
        return acc

    def flat(self, v, key):
        if isinstance(v, tuple):
            acc = 0.0
            for i, x in enumerate(v):
                acc += (0.3 + h01(key, i)) * self.flat(x, key + (i,))
            return acc + 0.1 * len(v)
        if isinstance(v, bool):
            return 1.0 if v else -0.7
        if isinstance(v, T):
            return h01(v.op, v.args)
        if isnum(v):
            z = fl(v)
            return z * (1 + 0.03 * z)
        raise Discard("value")

    def a_scan(self, t, env):
        lam, init, n = t.args[1:]
        n = asint(real(self.ev(n, env)))
        if n > 3000:
            raise Discard("scan too long")
        s = self.ev(init, env)
        for k in range(n):
            s = self.ev(lam.args[1], ((Fr(k), s),) + env)
        return s

    def a_while(self, t, env):
        out, ns = t.args[1], asint(self.ev(t.args[2], env))
        kind = t.args[3]
        nxt = t.args[4:4 + ns]
        st = tuple(self.ev(x, env) for x in t.args[4 + ns:])
        for _ in range(3000):
            if asint(self.ev(kind.args[1], (st,) + env)) != 0:
                return self.ev(out.args[1], (st,) + env)
            st = tuple(self.ev(x.args[1], (st,) + env) for x in nxt)
        raise Discard("loop too long")

    def a_dft(self, t, env, sgn=-1, norm=False):
        x = self.lamval(t.args[1], env)
        k = asint(self.ev(t.args[2], env))
        n = len(x)
        acc = 0j
        for i, v in enumerate(x):
            acc += self.j(v) * turn(sgn * i * k, n)
        return acc / n if norm else acc

    def a_idft(self, t, env):
        return self.a_dft(t, env, 1, True)

    def a_dct(self, t, env):
        x = self.lamval(t.args[1], env)
        ty = asint(self.ev(t.args[2], env))
        norm = t.args[3]
        k = asint(self.ev(t.args[4], env))
        n = len(x)
        nm = norm.args[0] if norm.op == "str" else None
        if not 0 <= k < n:
            raise Discard("dct index")
        if ty == 2:
            s = sum(2 * self.j(v) * math.cos(math.pi * k * (2 * i + 1) / (2 * n)) for i, v in enumerate(x))
            if nm == "ortho":
                s *= math.sqrt(1 / (4 * n)) if k == 0 else math.sqrt(1 / (2 * n))
            return s
        if ty == 3 and nm == "ortho":
            return fl(x[0]) / math.sqrt(n) + math.sqrt(2 / n) * sum(
                self.j(v) * math.cos(math.pi * (2 * k + 1) * i / (2 * n)) for i, v in enumerate(x) if i)
        return self.mix("dct%d%s" % (ty, nm), [x, k])

    def red(self, t, env):
        v = self.lamval(t.args[1], env)
        out = []

        def go(x):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
            else:
                out.append(x)
        go(v)
        if not out:
            raise Discard("empty reduction")
        return out

    def a_max(self, t, env):
        return max((real(x) for x in self.red(t, env)), key=float)

    def a_min(self, t, env):
        return min((real(x) for x in self.red(t, env)), key=float)

    def a_argmax(self, t, env, sg=1):
        o = [sg * float(real(x)) for x in self.red(t, env)]
        m = max(o)
        near = [i for i, x in enumerate(o) if x >= m - 1e-9 * (1 + abs(m))]
        if len(near) > 1 and any(o[i] != m for i in near):
            raise Discard("ambiguous argmax")
        return o.index(m)

    def a_argmin(self, t, env):
        return self.a_argmax(t, env, -1)

    def a_exp(self, t, env):
        """c ** n, kept exact where n is an integer"""
        x = t.args[1]
        if x.op == "poly" and len(x.args[0]) <= 3:
            acc = Fr(1)
            for m, c in x.args[0]:
                ls = [a for a, e in m if e == 1 and a.op == "app" and a.args[0] == "log" and tm.cval(a.args[1]) is not None]
                if len(ls) != 1:
                    break
                n = c
                for a, e in m:
                    if a is not ls[0]:
                        v = self.ev(a, env)
                        if not isinstance(v, (int, Fr)) or Fr(e).denominator != 1 or (v == 0 and e < 0):
                            break
                        n *= Fr(v) ** int(e)
                else:
                    if n.denominator == 1 and abs(n) < 60:
                        acc *= Fr(tm.cval(ls[0].args[1])) ** int(n)
                        continue
                break
            else:
                return acc
        return fin(_exp(self.ev(x, env)))

    def a_yin_c(self, t, env):
        a, n, i = self.lamval(t.args[1], env), self.ev(t.args[2], env), self.ev(t.args[3], env)
        return 1.05 + math.cos(fl(self.mix("yin_c", [a, n])) + 2.3 * fl(i))

    def a_yin_lag(self, t, env):
        """uninterpreted: 0 or some lag of the range"""
        c, lo, hi, th = (self.lamval(t.args[1], env),) + tuple(self.ev(x, env) for x in t.args[2:])
        lo, hi = asint(real(lo)), asint(real(hi))
        u = abs(fl(self.mix("yin_lag", [c, Fr(lo), Fr(hi), th]))) * 977
        k = int(u) % (max(hi - lo, 0) + 2)
        if abs(u - round(u)) < 1e-6:
            raise Discard("near an integer")
        return Fr(0) if k < 2 else Fr(lo + k - 2)

    def a_median(self, t, env):
        o = sorted(float(real(x)) for x in self.red(t, env))
        n = len(o)
        return o[n // 2] if n % 2 else (o[n // 2 - 1] + o[n // 2]) / 2

    def a_any(self, t, env):
        return any(self.tv(x) for x in self.red(t, env))

    def a_all(self, t, env):
        return all(self.tv(x) for x in self.red(t, env))

    def tv(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, Fr)):
            return x != 0
        if 0 < abs(x) < 1e-12:
            self.small(x, "ambiguous truth")
        return x != 0

    def a_nthtrue(self, t, env):
        m = self.lamval(t.args[1], env)
        k = asint(self.ev(t.args[2], env))
        pos = [i for i, v in enumerate(m) if self.tv(v)]
        if not 0 <= k < len(pos):
            raise Discard("nthtrue out of range")
        return Fr(pos[k])

    def a_inv(self, t, env):
        m = self.lamval(t.args[1], env)
        i, j = asint(self.ev(t.args[2], env)), asint(self.ev(t.args[3], env))
        key = ("inv", m)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = inverse([[self.j(x) for x in row] for row in m])
        if not (0 <= i < len(r) and 0 <= j < len(r)):
            raise Discard("inv index")
        return r[i][j]

    def lf(self, t, env):
        b = [fl(x) for x in self.lamval(t.args[1], env)]
        a = [fl(x) for x in self.lamval(t.args[2], env)]
        x = [self.j(v) for v in self.lamval(t.args[3], env)]
        n = max(len(a), len(b))
        b = [v / a[0] for v in b] + [0] * (n - len(b))
        a = [v / a[0] for v in a] + [0] * (n - len(a))
        return b, a, x, n

    def run_lf(self, b, a, x, n, z):
        y = []
        for v in x:
            o = b[0] * v + (z[0] if z else 0)
            z = [b[i + 1] * v + (z[i + 1] if i + 1 < len(z) else 0) - a[i + 1] * o for i in range(len(z))]
            y.append(o)
        return y, z

    def pick(self, y, k):
        if not 0 <= k < len(y):
            raise Discard("index")
        return y[k]

    def a_lfilter(self, t, env):
        b, a, x, n = self.lf(t, env)
        y, _ = self.run_lf(b, a, x, n, [0.0] * (n - 1))
        return self.pick(y, asint(self.ev(t.args[4], env)))

    def a_lfilterz(self, t, env):
        b, a, x, n = self.lf(t, env)
        z = [fl(v) for v in self.lamval(t.args[4], env)]
        y, _ = self.run_lf(b, a, x, n, z)
        return self.pick(y, asint(self.ev(t.args[5], env)))

    def a_lfilterzf(self, t, env):
        b, a, x, n = self.lf(t, env)
        z = [fl(v) for v in self.lamval(t.args[4], env)]
        _, z = self.run_lf(b, a, x, n, z)
        return self.pick(z, asint(self.ev(t.args[5], env)))

    def a_sort(self, t, env):
        v = sorted(self.lamval(t.args[1], env), key=lambda x: float(real(x)))
        return self.pick(v, asint(self.ev(t.args[2], env)))

    def a_eq(self, t, env):
        a, b = self.ev(t.args[1], env), self.ev(t.args[2], env)
        if isnum(a) and isnum(b):
            return self.eqn(a, b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Discard("array equality")
        return a is b

    def eqn(self, a, b):
        if isinstance(a, (int, Fr)) and isinstance(b, (int, Fr)):
            return a == b
        d = abs(a - b)
        if d == 0:
            return True
        if d < 1e-9 * (abs(a) + abs(b)):
            raise Discard("ambiguous equality")
        return False

    def a_eq0(self, t, env):
        v = self.ev(t.args[1], env)
        if isinstance(v, (int, Fr)):
            return v == 0
        if v == 0:
            return True
        if abs(v) < 1e-12:
            self.small(v, "ambiguous zero")
        return False

    def a_truth(self, t, env):
        v = self.ev(t.args[1], env)
        return self.tv(v)

    def a_uninit(self, t, env):
        return h01(self.seed, "uninit", t.key)


def inverse(m):
    n = len(m)
    a = [list(map(complex, row)) + [1.0 if i == j else 0.0 for j in range(n)] for i, row in enumerate(m)]
    big = max([abs(complex(x)) for row in m for x in row] or [1.0])
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < 1e-13 * big:
            raise Discard("singular")
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    out = [row[n:] for row in a]
    return [[z.real if abs(z.imag) < 1e-12 * (1 + abs(z.real)) else z for z in row] for row in out]


def _exp(x):
    return cmath.exp(x) if isinstance(x, complex) else math.exp(x)


def _log(x):
    if noise(x):
        raise Small("ill-conditioned")
    if isinstance(x, complex):
        return cmath.log(x)
    if x == 0:
        raise (Singular if isinstance(x, (int, Fr)) else Discard)("log 0")
    return math.log(x) if x > 0 else cmath.log(complex(float(x)))


def _floor(x):
    x = real(x)
    if isinstance(x, (int, Fr)):
        return Fr(math.floor(x))
    if abs(x - round(x)) < 1e-9 * (1 + abs(x)):
        raise Discard("ambiguous floor")
    return Fr(math.floor(x))


def _ceil(x):
    x = real(x)
    if isinstance(x, (int, Fr)):
        return Fr(math.ceil(x))
    if abs(x - round(x)) < 1e-9 * (1 + abs(x)):
        raise Discard("ambiguous ceil")
    return Fr(math.ceil(x))


def _trunc(x):
    x = real(x)
    return _floor(x) if x >= 0 else _ceil(x)


def _rint(x, *r):
    x = real(x)
    if r:
        q = 10 ** asint(r[0])
        return Fr(round(float(x) * q), q)
    return Fr(round(x))


def _abs(x):
    return abs(x)


def _pow(a, b):
    if isinstance(b, (int, Fr)):
        return pw(a, Fr(b))
    if isinstance(a, complex) or isinstance(b, complex):
        return complex(a) ** complex(b)
    if noise(a) and b < 1:
        raise Discard("ill-conditioned")
    exact = isinstance(a, (int, Fr))
    a, b = float(a), float(b)
    if a == 0:
        if b <= 0:
            raise (Singular if exact else Discard)("pole")
        return 0.0
    return a ** b if a > 0 else complex(a) ** b


def _angle(x, *r):
    if isinstance(x, complex):
        return cmath.phase(x)
    return 0.0 if x >= 0 else math.pi


def _i0(x):
    s = t = 1.0
    k = 1
    while t > 1e-17 * s:
        t *= (x / 2 / k) ** 2
        s += t
        k += 1
    return s


def _kaiser(den, beta, k):
    den, beta, k = float(den), float(beta), float(k)
    if den == 0:
        return 1.0
    a = den / 2
    r = 1 - ((k - a) / a) ** 2
    return _i0(beta * math.sqrt(max(r, 0.0))) / _i0(beta)


def _lossy(x, *r):
    x2 = x.real if isinstance(x, complex) else x
    if float(x2) == round(float(x2)) and not isinstance(x, complex):
        return x
    return fl(x) * 1.001


def _castin(x, *r):
    if isinstance(x, complex):
        return fl(x) * 1.001
    return Fr(math.trunc(x))


def _conj(x):
    return x.conjugate() if isinstance(x, complex) else x


def _c(f, cf):
    return lambda x: cf(x) if isinstance(x, complex) else f(float(x))


FUN = {
    "exp": _exp, "log": _log, "abs": _abs, "floor": _floor, "ceil": _ceil, "trunc": _trunc, "rint": _rint,
    "pow": _pow, "powc": _pow, "angle": _angle, "kaiser": _kaiser, "f32": _lossy, "castin": _castin,
    "conj": _conj, "real": lambda x: x.real if isinstance(x, complex) else x,
    "imag": lambda x: x.imag if isinstance(x, complex) else Fr(0),
    "sin": _c(math.sin, cmath.sin), "cos": _c(math.cos, cmath.cos), "tan": _c(math.tan, cmath.tan),
    "sinh": _c(math.sinh, cmath.sinh), "cosh": _c(math.cosh, cmath.cosh), "tanh": _c(math.tanh, cmath.tanh),
    "arcsinh": _c(math.asinh, cmath.asinh), "arctan": _c(math.atan, cmath.atan),
    "arcsin": _c(math.asin, cmath.asin), "arccos": _c(math.acos, cmath.acos),
    "arctanh": _c(math.atanh, cmath.atanh), "arccosh": _c(math.acosh, cmath.acosh),
    "sign": lambda x: Fr(0) if x == 0 else Fr(1 if real(x) > 0 else -1),
    "nan_to_num": lambda x, *r: x,
}


def close_enough(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        a, b = (int(x) if isinstance(x, bool) else x for x in (a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(
            close_enough(x, y) for x, y in zip(a, b))
    if not isnum(a) or not isnum(b):
        return a is b
    if isinstance(a, (int, Fr)) and isinstance(b, (int, Fr)):
        return a == b
    a, b = fl(a), fl(b)
    return abs(a - b) <= 1e-5 * max(abs(a), abs(b)) + 1e-7
