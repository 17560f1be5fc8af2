"""Second normalisation, used when two value numbers differ in form.

Binders are opened with index symbols that know their range, tests already
decided on the path to a node are dropped, and facts of the form "this
non-negative integer is 0" are substituted.  Every step is an equality under
the domain assumptions."""
import time
from fractions import Fraction as Fr
from . import terms as tm
from .terms import T, ONE, ZERO, TRUE, FALSE, sub, add, mul, const, bounds, isint

_sym = {}


def index(depth, q, hi, lo=0):
    k = (depth, q, hi)
    s = _sym.get(k)
    if s is None:
        s = _sym[k] = tm.sym("b~%d" % len(_sym), int=True, lo=lo, hi=hi, real=True)
    return s


def state(depth, q, kind):
    k = (depth, q, "kind", kind)
    s = _sym.get(k)
    if s is None:
        s = _sym[k] = tm.sym("b~%d" % len(_sym), int=kind != "r", lo=0 if kind is None else None, real=True)
    return s


class Budget(Exception):
    pass


class Canon:
    def __init__(self, seconds=20):
        self.memo = {}
        self.cuts = {}
        self.t_end = time.time() + seconds
        self.base = list(tm.ASSUME)

    def __call__(self, t, facts=()):
        old = list(tm.ASSUME)
        try:
            prev = t
            for _ in range(3):
                self.memo = {}
                n = self.go(prev, tuple(facts), 0)
                if n is prev:
                    break
                prev = n
            return prev
        except (Budget, tm.Blowup):
            return None
        finally:
            tm.ASSUME[:] = old

    def with_facts(self, facts):
        tm.ASSUME[:] = self.base + list(facts)

    def go(self, t, facts, depth):
        if isinstance(t, tuple):
            return tuple(self.go(x, facts, depth) for x in t)
        if not isinstance(t, T) or t.op in ("sym", "str", "true", "false", "none", "bad", "obj", "bound"):
            return t
        if t.op == "poly" and not t.args[0]:
            return t
        k = (t, facts, depth)
        r = self.memo.get(k)
        if r is not None:
            return r
        if time.time() > self.t_end:
            raise Budget()
        r = self.step(t, facts, depth)
        self.memo[k] = r
        return r

    def step(self, t, facts, depth):
        op = t.op
        if op == "lam":
            dims = tuple(self.go(x, facts, depth) for x in t.args[0])
            if any(d.op == "ite" for d in dims):
                return tm.mklam(dims, t.args[1])
            if any(d.op == "str" for d in dims):      # step of a loop: positions are its state
                ss = [state(depth, q, kd) for q, kd in enumerate(tm.kinds(t.args[1], len(dims)))]
            else:
                ss = [index(depth, q, sub(d, ONE)) for q, d in enumerate(dims)]
            body = self.go(tm.openb(t.args[1], ss), facts, depth + 1)
            return tm.mklam(dims, tm.close(body, ss))
        if op == "sum":
            n = self.go(t.args[0], facts, depth)
            if n.op == "ite":
                return tm.mksum(n, t.args[1])
            s = index(depth, 0, sub(n, ONE))
            body = self.go(tm.openb(t.args[1], [s]), facts, depth + 1)
            return tm.mksum(n, tm.close(body, [s]))
        if op == "ite":
            return self.ite(t, facts, depth)
        if op == "app" and t.args[0] in ("scan",):
            return t
        if op == "el" and t.args[0] in tm.CUT:
            args = tuple(self.go(x, facts, depth) for x in t.args[1:])
            return tm.el(self.cut(t.args[0]), *args)
        return tm.rebuild(t, 0, lambda x, d: self.go(x, facts, depth))

    def cut(self, name):
        r = self.cuts.get(name)
        if r is None:
            self.cuts[name] = name
            n, body = tm.CUT[name]
            ss = [state(-1, q, kd or "z") for q, kd in enumerate(tm.kinds(body, n))]
            b = self.go(tm.openb(body, ss), (), 0)
            c = tm.close(b, ss)
            r = tm._cutid.get((c, n))
            if r is None:
                r = tm._cutid[(c, n)] = "$%d" % len(tm._cutid)
                tm.CUT[r] = (n, c)
                if name in tm.COMPLEX_ARR:
                    tm.COMPLEX_ARR.add(r)
                if name in tm.NONNEG_ARR:
                    tm.NONNEG_ARR.add(r)
                if name in tm.INT_ARR:
                    tm.INT_ARR.add(r)
            self.cuts[name] = r
        return r

    def ite(self, t, facts, depth):
        a, h, l = t.args
        if a.op != "thr":
            x = self.go(a.args[0], facts, depth)
            c = tm.rebatom(x)
            return tm.ite(c, self.go(h, facts, depth), self.go(l, facts, depth))
        base = self.go(a.args[0], facts, depth)
        th, strict = a.args[1], a.args[2]
        self.with_facts(facts)
        try:
            c = tm.lt(base, const(th)) if strict else tm.le(base, const(th))
        finally:
            self.with_facts(())
        if c is TRUE:
            return self.go(h, facts, depth)
        if c is FALSE:
            return self.go(l, facts, depth)
        if c.op != "ite" or c.args[0].op != "thr" or c.args[1:] not in ((TRUE, FALSE), (FALSE, TRUE)) or len(facts) > 6:
            return tm.ite(c, self.go(h, facts, depth), self.go(l, facts, depth))
        b, th, strict = c.args[0].args
        hi, lo = (h, l) if c.args[1] is TRUE else (l, h)
        integer = isint(b)
        # b < th   /   b >= th
        f_hi = sub(const(th), b)
        if strict and integer:
            f_hi = sub(f_hi, ONE)
        f_lo = sub(b, const(th))
        zero = self.zeros(b, th, strict and integer)
        hs = hi
        if not zero and (f_lo in facts or bounds(f_lo)[0] >= 0):      # b == th
            if len(b.args[0]) == 1 and len(b.args[0][0][0]) == 1 and b.args[0][0][0][0][1] == 1:
                zero = {b.args[0][0][0][0][0]: const(th / b.args[0][0][1])}
        if zero:
            hs = tm.subst(hs, zero)
        hs = self.go(hs, add_fact(facts, f_hi), depth)
        ls = self.go(lo, add_fact(facts, f_lo), depth)
        if zero and hs.op != "ite" and tm.subst(ls, zero) is hs:
            return ls                    # the special case is an instance of the general one
        c = tm.node(c.args[0], TRUE, FALSE)
        return tm.ite(c, hs, ls)

    def zeros(self, b, th, exact):
        """symbols that must be 0 when b < th"""
        if not exact or th != 1:
            return {}
        z = {}
        for m, c in b.args[0]:
            if not m or c < 0:
                return {}
            free = None
            for x, e in m:
                lo = tm.atom_bounds(x)[0]
                if lo < 0 or e < 0:
                    return {}
                if lo > 0 or self.pos(x):
                    continue
                if x.op == "sym" and free is None:
                    free = x
                else:
                    return {}
            if free is None:
                return {}
            z[free] = ZERO
        return z

    def pos(self, x):
        return tm.decide(x if x.op == "poly" else tm._mkpoly({((x, Fr(1)),): Fr(1)}), Fr(0), False) is False


def add_fact(facts, f):
    if f.op == "ite" or f in facts:
        return facts
    return facts + (f,)


def expand(t, limit=4000, keep=()):
    """t with its abbreviations (except `keep`) written out; None when that is too large"""
    memo = {}

    def body(x):
        n, b = tm.CUT[x.args[0]]
        return x, n, b

    for _ in range(12):
        cuts = tm.atoms_of(t, lambda x: x.op == "el" and x.args[0] in tm.CUT and x.args[0] not in keep)
        if not cuts:
            return t
        if tm.size_over(t, limit):
            return None
        mp = memo

        def go(x, d):
            if isinstance(x, tuple):
                return tuple(go(y, d) for y in x)
            if not isinstance(x, T):
                return x
            k = (x, d)
            r = mp.get(k)
            if r is None:
                if x.op == "el" and x.args[0] in tm.CUT and x.args[0] not in keep:
                    args = [go(y, d) for y in x.args[1:]]
                    r = tm.openb(tm.CUT[x.args[0]][1], args) if all(not y.maxb for y in args) else None
                    if r is None:
                        r = inst(tm.CUT[x.args[0]][1], args)
                else:
                    r = tm.rebuild(x, d, go)
                mp[k] = r
            return r
        try:
            n = go(t, 0)
        except tm.Blowup:
            return None
        if n is t:
            return t
        t = n
    return t


def inst(body, args):
    """instantiate with arguments that mention enclosing binders"""
    ss = [tm.fresh("e") if kd is None else tm.sym(tm.fresh("e").args[0] + kd, int=kd == "z") for kd in tm.kinds(body, len(args))]
    b = tm.openb(body, ss)
    mp = dict(zip(ss, args))
    memo = {}

    def go(x, d):
        if isinstance(x, tuple):
            return tuple(go(y, d) for y in x)
        if not isinstance(x, T):
            return x
        if x in mp:
            r = mp[x]
            for _ in range(d):
                r = tm.shift_up(r)
            return r
        k = (x, d)
        r = memo.get(k)
        if r is None:
            r = memo[k] = tm.rebuild(x, d, go)
        return r
    return go(b, 0)


def shape_facts(idx, shape):
    """index < dimension, for dimensions of the form min(a, b)"""
    out = []
    for i, d in zip(idx, shape):
        if d.op != "ite" or d.args[1].op == "ite" or d.args[2].op == "ite":
            continue
        a, b = d.args[1:]
        for x, y in ((a, b), (b, a)):
            if tm.ite(tm.lt(x, y), x, y) is d or tm.ite(tm.le(x, y), x, y) is d:
                out += [sub(sub(a, ONE), i), sub(sub(b, ONE), i)]
                break
    return out
