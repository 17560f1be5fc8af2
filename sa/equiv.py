"""Comparison of two abstract values (implementation against reference).

PROVED    both normalise to the same term (structure, shapes, elements, raises)
REFUTED   the terms are different, contain no unknown part, and are separated
          by interpreting both *terms* at points of the option domain
UNDECIDED anything else: recorded, never reported as a violation"""
import itertools
import random
from math import prod
import time
from fractions import Fraction as Fr
from . import terms as tm, ctx as cx, evalt, canon
from .terms import T, ZERO, ONE, TRUE, FALSE, add, sub, mul, const
from .interp import Arr, Cell, Tup, Choice, Seq, RangeVal, ListAcc, FuncVal, ClassVal, ExtVal, ModVal


class Verdict(dict):
    pass


def proved(**k):
    return Verdict(status="proved", **k)


def undecided(why, **k):
    return Verdict(status="undecided", why=why, **k)


def refuted(why, **k):
    return Verdict(status="refuted", why=why, **k)


class Flat:
    """value flattened to named scalar slots: path -> (index syms, shape, term)"""

    def __init__(self):
        self.slots = {}
        self.kind = {}
        self.bad = None


_idx = {}


def index_sym(path, q, hi):
    key = (path, q, hi)
    s = _idx.get(key)
    if s is None:
        s = _idx[key] = tm.fresh("x", hi=hi)
    return s


def flatten(I, v, path="", out=None, listlike=True):
    out = out or Flat()
    if isinstance(v, Choice):
        out.bad = "%s: value of varying type" % (path or "result")
        return out
    if isinstance(v, T):
        out.kind[path] = "none" if v is tm.NONE else "scalar"
        out.slots[path] = ((), (), v)
        return out
    if isinstance(v, Tup):
        out.kind[path] = "tuple%d" % len(v.items)
        for k, x in enumerate(v.items):
            flatten(I, x, "%s[%d]" % (path, k), out)
        return out
    if isinstance(v, Cell) and v.kind == "dict":
        d = I.deref(v)
        if not isinstance(d, dict):
            out.bad = "dictionary not tracked"
            return out
        out.kind[path] = "dict"
        for k, x in d.items():
            flatten(I, x, "%s[%s]" % (path, k), out)
        return out
    if isinstance(v, Cell) and v.kind == "obj":
        d = I.deref(v)
        out.kind[path] = "obj"
        for k, x in (d.items() if isinstance(d, dict) else ()):
            flatten(I, x, "%s.%s" % (path, k), out)
        return out
    a = I.arr(v)
    if a is None:
        if isinstance(v, Cell):
            d = I.deref(v)
            if isinstance(d, T):
                out.bad = "%s: %s" % (path or "result", tm.show(d)[:200])
                return out
        out.bad = "%s: value of kind %s" % (path or "result", type(v).__name__)
        return out
    out.kind[path] = "array%d" % a.rank
    if any(d.op == "unknown" or d.unk for d in a.shape):
        out.bad = "%s: shape not tracked" % (path or "result")
        return out
    idx = []
    for q, d in enumerate(a.shape):
        hi = sub(d, ONE)
        idx.append(index_sym(path, q, hi if hi.op != "ite" else None))
    out.slots[path] = (tuple(idx), tuple(a.shape), a.get(*idx))
    return out


# ------------------------------------------------------------------ points
SAMPLE = {}


def sampler(rng, syms):
    """a point of the option domain, small dimensions"""
    p = {}
    r = rng.random
    fs = rng.choice([20, 24, 31, 40, 44, 57, 60, 80])
    wl = rng.randint(3, 8)
    hop = rng.randint(1, wl)
    rows = rng.randint(1, 6)
    if rng.random() < .15:
        rows = 1
    p["fs"] = Fr(fs)
    p["win_len"] = Fr(wl * 10 + rng.randint(1, 9), 10 * fs)
    p["win_hop"] = Fr(hop * 10 + rng.randint(1, 9), 10 * fs)
    if p["win_hop"] > p["win_len"]:
        p["win_hop"] = p["win_len"]
    if rng.random() < .1:
        p["win_hop"] = p["win_len"] = Fr(wl, fs)
        hop = wl
    p["N"] = Fr(wl + hop * (rows - 1) + rng.randint(0, hop - 1))
    p["nfft"] = Fr(rng.choice([4, 5, 6, 7, 8, 9, 11, 12]))
    p["nfilts"] = Fr(rng.randint(2, 7))
    p["nbank"] = Fr(rng.randint(5, 7))
    p["num_ceps"] = Fr(rng.randint(1, int(p["nfilts"])))
    p["order"] = Fr(rng.randint(2, max(2, min(int(p["nfilts"]), wl, int(p["nfft"]) - 1))))
    p["low_freq"] = Fr(rng.choice([0, Fr(fs * rng.randint(1, 9), 80)]))
    p["high_freq"] = Fr(fs, 2) * rng.choice([1, Fr(rng.randint(60, 99), 100)])
    p["rows"] = Fr(rng.randint(1, 6))
    p["cols"] = Fr(rng.randint(5, 7))
    p["frame_len"] = Fr(rng.randint(2, 7))
    p["pre_emph_coeff"] = Fr(rng.choice([97, 95, 50, 13, -20, 130]), 100)
    p["gamma"] = Fr(rng.choice([-1, -7, -3, 2, 5]), rng.choice([3, 4, 7, 9]))
    p["power"] = Fr(rng.randint(1, 30), 10)
    p["number_of_octaves"] = Fr(rng.randint(1, 4))
    p["number_of_bins_per_octave"] = Fr(rng.randint(1, 5))
    p["spectral_threshold"] = Fr(rng.randint(0, 50), 1000)
    p["f0"] = Fr(rng.randint(1, 30), 3)
    p["q_rate"] = Fr(rng.randint(2, 20), 10)
    p["resampling_ratio"] = Fr(rng.choice([1, 2, 1, 3]), rng.choice([1, 2]))
    p["lifter"] = p["lift"] = Fr(rng.choice([-6, -3, -1, 0, 1, 2, 3, 5, 7, 10, 11, 22]))
    p["dct_type"] = Fr(2)
    p["w"] = Fr(rng.choice([3, 5, 7, 4, 9]))
    p["tau_max"] = Fr(rng.randint(2, 7))
    p["tau"] = Fr(rng.randint(2, 7))
    p["tau_min"] = Fr(rng.randint(1, 4))
    p["M"] = Fr(rng.randint(0, 4))
    p["i"] = Fr(rng.randint(1, 9))
    p["stride_length"] = Fr(rng.randint(1, 6))
    p["stride_step"] = Fr(rng.randint(1, 6))
    p["nceps"] = Fr(rng.randint(1, 9))
    lc = rng.randint(2, 60)
    p["lower_cutoff"] = Fr(fs, 2) * Fr(lc, 100)
    p["upper_cutoff"] = Fr(fs, 2) * Fr(rng.randint(lc + 1, 98), 100)
    if rng.random() < .2:       # a band edge that is one of the bins
        p["f0"] = p["high_freq"] / 2 ** rng.randint(0, 2) if rng.random() < .5 or not p["low_freq"] else p["low_freq"] / 2 ** rng.randint(0, 1)
    p["harmonic_threshold"] = Fr(rng.choice([1, 1, 3, -1, 2, 5]), rng.choice([8, 8, 10]))
    for n in syms:
        if n in p:
            continue
        at = tm.ATTR.get(n)
        if at is None:
            continue
        lo = at.lo
        if at.int:
            p[n] = Fr((int(lo) if lo is not None else -3) + rng.randint(0, 6))
        else:
            x = Fr(rng.randint(1, 400), 100)
            p[n] = x + lo if lo is not None else rng.choice([1, -1]) * x
    return p


def tests(t):
    """the comparisons a term makes on options and dimensions"""
    out = set()
    for u in tm.deep(t):
        for a in tm.atoms_of(u, lambda x: x.op == "thr"):
            if not a.maxb and a not in out and not tm.atoms_of(a.args[0], lambda x: x.op in ("el", "lam", "sum")):
                out.add(a)
    return out


def consts_of(a):
    out = {a.args[1]}

    def f(x):
        if x.op == "poly":
            for m, c in x.args[0]:
                out.add(c if not m else a.args[1] / c)
    tm.walk(a.args[0], f)
    return sorted(c for c in out if abs(c) < 10 ** 6)


def free_syms(ts):
    out = set()
    seen = set()

    def f(x):
        if x.op == "sym":
            out.add(x.args[0])
    st = list(ts)
    names = set()
    while st:
        t = st.pop()
        tm.walk(t, f, seen)
        for a in tm.atoms_of(t, lambda x: x.op == "el" and x.args[0] in tm.CUT):
            n = a.args[0]
            if n not in names:
                names.add(n)
                st.append(tm.CUT[n][1])
    return out - {"pi", "eps", "1j"}


_dv = {}


def derived(a):
    """facts about bound positions, established by the analysis itself"""
    r = _dv.get(a)
    if r is None:
        r = _dv[a] = any("~" in n for n in free_syms([a]))
    return r


def holds(ev, p):
    """domain assumptions at the point"""
    for a in tm.ASSUME:
        if derived(a):
            continue
        try:
            if float(evalt.real(ev.ev(a))) < 0:
                return False
        except evalt.Discard:
            return False
    for n, v in p.items():
        at = tm.ATTR.get(n)
        if at is not None and at.lo is not None and "~" not in n and v < at.lo:
            return False
    return True


RATES = ("low_freq", "high_freq", "f0", "lower_cutoff", "upper_cutoff", "pitch_lo", "pitch_hi")


def move(p, s, v, rng):
    """set one option; another sampling rate usually keeps the counts in samples"""
    old = p[s]
    p[s] = v
    if s == "fs" and old and v and rng.random() < .8:
        for n in RATES:
            if n in p:
                p[n] = p[n] * v / old
        for n in ("win_len", "win_hop"):
            if n in p:
                p[n] = p[n] * old / v


def repair(p, fixed, rng):
    """enlarge other options until the domain assumptions hold"""
    def val(a, q):
        try:
            return float(evalt.real(evalt.Ev(q).ev(a)))
        except evalt.Discard:
            return None
    for _ in range(24):
        bad = next((a for a in tm.ASSUME if not derived(a) and (val(a, p) or 0) < 0), None)
        if bad is None:
            return True
        v = val(bad, p)
        ns = [n for n in sorted(free_syms([bad])) if n not in fixed and n in p]
        rng.shuffle(ns)
        for n in ns:
            for f in (rng.choice([2, 3, 4]), Fr(1, 4)):
                q = dict(p)
                q[n] = q[n] * f
                if tm.ATTR[n].int:
                    q[n] = Fr(int(q[n]))
                w = val(bad, q)
                if w is not None and w > v:
                    p.update(q)
                    break
            else:
                continue
            break
        else:
            return False
    return False


class Search:
    """looks for points that separate two terms"""

    def __init__(self, seed, budget_s, tries, need=2, tune=None, tables=None):
        self.seed, self.budget, self.tries, self.need = seed, budget_s, tries, need
        self.tune = tune
        self.tables = tables
        self.stats = {"points": 0, "agree": 0, "discard": 0}

    def points(self, terms):
        syms = sorted(free_syms(terms))
        t0 = time.time()
        for k in range(self.tries):
            if time.time() - t0 > self.budget:
                return
            rng = random.Random("%s/%d" % (self.seed, k))
            p = sampler(rng, syms)
            if self.tune:
                self.tune(p, rng)
            ev = evalt.Ev(p, self.tables, seed=k + 1000 * self.seed)
            if not holds(ev, p):
                continue
            yield k, rng, p, ev

    def directed(self, terms):
        """points at which a test that only one side makes comes out the way it rarely does at the usual points"""
        A, B = tests(terms[0]), tests(terms[1])
        for x in terms[2:]:
            B |= tests(x)
        new = sorted(A ^ B)[:24]
        if not new:
            return
        syms = sorted(free_syms(terms))
        t0 = time.time()
        rng = random.Random("%s/directed" % self.seed)
        base = []
        for k in range(40):
            p = sampler(rng, syms)
            if self.tune:
                self.tune(p, rng)
            base.append(p)
        for at in new:
            ns = sorted(n for n in free_syms([at]) if "~" not in n and n in base[0])
            if not ns:
                continue

            def val(p):
                try:
                    return evalt.Ev(p, self.tables, seed=1).ev(tm.node(at, TRUE, FALSE))
                except (evalt.Discard, RecursionError):
                    return None
            vs = [val(p) for p in base]
            want = [v for v in (True, False) if sum(1 for x in vs if x is v) < 5]
            cs = consts_of(at)
            n = 0
            for k in range(800):
                if not want or n >= 12 or time.time() - t0 > self.budget:
                    break
                p = dict(rng.choice(base))
                for s in rng.sample(ns, rng.choice([1, 1, min(2, len(ns))])):
                    c = rng.choice(cs) if cs and rng.random() < .7 else p[s] * Fr(rng.choice([1, 3, 7, 10, 30, 100, 300]), rng.choice([1, 2, 10]))
                    c = c * rng.choice([1, 1, 1, 2, 3, 5, Fr(1, 2), Fr(1, 3)]) + rng.choice([0, 0, 1, -1])
                    if tm.ATTR[s].int:
                        c = Fr(int(c))
                    move(p, s, Fr(c), rng)
                for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                    s = rng.choice(syms)
                    if s in p and s not in ns and "~" not in s:
                        move(p, s, p[s] * rng.choice([3, 9, 30]), rng)
                if val(p) not in want:
                    continue
                if not repair(p, ns, rng):
                    continue
                ev = evalt.Ev(p, self.tables, seed=k + 1000 * self.seed)
                if val(p) not in want or not holds(ev, p):
                    continue
                try:
                    if any(evalt.asint(evalt.real(ev.ev(d))) <= 0 for d in terms[3:]):
                        continue
                except (evalt.Discard, RecursionError):
                    continue
                n += 1
                ev.big = True
                yield -1 - k, rng, p, ev

    def robust(self, a, b, p, ev):
        """values of a and b that do not depend on rounding (repeated with perturbed arithmetic), or None"""
        runs = []
        evalt.ROBUST = True
        try:
            for s in range(3):
                e = evalt.Ev(p, self.tables, seed=ev.seed)
                e.rng = random.Random(s)
                e.budget = 4000000 if ev.big else 400000
                runs.append((e.ev(a), e.ev(b), e.tiny))
        except (evalt.Discard, RecursionError):
            return None
        finally:
            evalt.ROBUST = False

        def near(x, y):
            if isinstance(x, (bool, tuple)) or not evalt.isnum(x) or not evalt.isnum(y):
                return False
            x, y = evalt.fl(x), evalt.fl(y)
            return abs(x - y) <= 1e-7 * max(abs(x), abs(y))
        va, vb, tiny = runs[0]
        for wa, wb, t in runs[1:]:
            if not near(va, wa) or not near(vb, wb) or len(t) != len(tiny) or not all(near(x, y) for x, y in zip(t, tiny)):
                return None
        va, vb = evalt.fl(va), evalt.fl(vb)
        if max(abs(va), abs(vb)) < 1e-250:
            return None
        return va, vb, abs(va - vb) > 1e-5 * max(abs(va), abs(vb))

    def separate(self, a, b, idx=(), shape=(), live=TRUE):
        """list of (point, va, vb)"""
        found, kept = [], []
        terms = [a, b, live] + list(shape)
        last = {}
        t0 = time.time()
        for k, rng, p, ev in itertools.chain(self.directed(terms), self.points(terms)):
            if k < 0 and time.time() - t0 > self.budget:
                continue
            try:
                if live is not TRUE and ev.ev(live) is not True:
                    continue
                dims = [evalt.asint(evalt.real(ev.ev(d))) for d in shape]
            except (evalt.Discard, RecursionError):
                self.stats["discard"] += 1
                continue
            if any(d <= 0 for d in dims):
                continue
            for rep in range(1 if not dims else 4 if k >= 0 else min(600, 4 * prod(dims))):
                ii = [rng.randrange(d) for d in dims]
                if rep == 1:
                    ii = [0] * len(dims)
                if rep == 2:
                    ii = [d - 1 for d in dims]
                if k < 0 and rep > 4 and time.time() - t0 > self.budget:
                    break
                for s, v in zip(idx, ii):
                    p[s.args[0]] = Fr(v)
                ev.memo = {}
                ev.budget = 4000000 if ev.big else 400000
                try:
                    va = ev.ev(a)
                    vb = ev.ev(b)
                    self.stats["points"] += 1
                    if evalt.close_enough(va, vb):
                        self.stats["agree"] += 1
                        if not (evalt.isnum(va) and 0 < max(abs(va), abs(vb)) < 1e-6 and abs(va - vb) > 1e-5 * abs(va)):
                            continue
                        w = self.robust(a, b, p, ev)
                        if not w or not w[2]:
                            continue
                        va, vb = w[:2]
                except evalt.Small as e:
                    w = self.robust(a, b, p, ev)
                    self.stats["points" if w else "discard"] += 1
                    if w and not w[2]:
                        self.stats["agree"] += 1
                    if not w or not w[2]:
                        if not w:
                            last[str(e)] = last.get(str(e), 0) + 1
                        continue
                    va, vb = w[:2]
                except (evalt.Discard, RecursionError) as e:
                    self.stats["discard"] += 1
                    last[str(e)] = last.get(str(e), 0) + 1
                    continue
                found.append(({n: str(v) for n, v in p.items() if n in syms_used(terms) or "~" in n}, ii, short(va), short(vb)))
                kept.append((dict(p), ev))
                break
            if len(found) >= self.need:
                return found
        self.stats["why"] = last
        if len(found) < self.need and kept:     # fewer points than wanted fitted the budget: each must be immune to rounding
            w = self.robust(a, b, *kept[0])
            return found[:1] if w and w[2] else []
        return found if len(found) >= self.need else []


_su = {}


def syms_used(terms):
    k = tuple(terms)
    r = _su.get(k)
    if r is None:
        r = _su[k] = free_syms(terms)
    return r


def short(v):
    if isinstance(v, Fr):
        v = float(v)
    if isinstance(v, float):
        return "%.8g" % v
    return str(v)[:60]


def compare(I1, v1, I2, v2, search, what="result", cond=None):
    """implementation value v1 against reference v2"""
    live = tm.band(I1.st.live, I2.st.live)
    if cond is not None:
        live = tm.band(live, cond)
    if I1.st.live is not I2.st.live:
        r = compare_cond(I1, I2, search, cond)
        if r is not None:
            return r
    if live is FALSE:
        return proved(slots=0)
    return compare_flat(flatten(I1, v1), flatten(I2, v2), search, what, live)


def compare_cond(I1, I2, search, cond=None):
    l1, l2 = I1.st.live, I2.st.live
    if cond is not None:
        l1, l2 = tm.band(l1, cond), tm.band(l2, cond)
    if l1 is l2:
        return None
    if l1.unk or l2.unk:
        return undecided("condition for returning a result is not fully tracked")
    f = search.separate(l1, l2)
    if not f:
        return undecided("conditions for returning a result differ in form, no separating point", stats=search.stats)
    exc = sorted({"%s at %s:%s" % (r.exc, r.loc[0], r.loc[1]) for r in I1.raises if r.cond is not FALSE})
    p, _, a, b = f[0]
    return refuted("the implementation %s where the reference %s; raising sites: %s" % (
        "returns" if a == "True" else "raises", "returns" if b == "True" else "raises", ", ".join(exc) or "none"), point=p)


def compare_flat(f1, f2, search, what, live=TRUE):
    if f1.bad:
        return undecided(f1.bad)
    if f2.bad:
        return undecided("reference: " + f2.bad)
    k1, k2 = dict(f1.kind), dict(f2.kind)
    n = 0
    und = None
    for path in k2:
        if path not in k1:
            return refuted("%s%s is missing from the result" % (what, path))
    for path in k1:
        if path not in k2:
            return refuted("%s%s is not part of the documented result" % (what, path))
    for path, (idx2, shp2, t2) in f2.slots.items():
        if path not in f1.slots:
            if f2.slots and k1[path] != k2[path]:
                return refuted("%s%s is a %s, expected %s" % (what, path, k1[path], k2[path]))
            continue
        idx1, shp1, t1 = f1.slots[path]
        if len(shp1) != len(shp2):
            if t1.unk:
                und = und or undecided("%s%s: %s" % (what, path, tm.show(t1)[:200]))
                continue
            return refuted("%s%s has %d dimensions, expected %d" % (what, path, len(shp1), len(shp2)))
        if (t1 is tm.NONE) != (t2 is tm.NONE) and not t1.unk and t1.op != "ite" and t2.op != "ite":
            return refuted("%s%s is %s, expected %s" % (what, path, tm.show(t1)[:60], tm.show(t2)[:60]))
        same_shape = True
        for q, (d1, d2) in enumerate(zip(shp1, shp2)):
            n += 1
            if d1 is d2 and not d1.unk:
                continue
            same_shape = False
            if d1.unk or d2.unk:
                und = und or undecided("%s%s: dimension %d not tracked" % (what, path, q))
                continue
            f = search.separate(d1, d2, live=live)
            if f and t1.op == "unknown":
                und = und or undecided("%s%s: dimension %d of an unknown value" % (what, path, q))
                continue
            if f:
                return refuted("%s%s: dimension %d is %s, expected %s" % (
                    what, path, q, tm.show(d1)[:300], tm.show(d2)[:300]), point=f[0])
        n += 1
        if not same_shape:      # shapes agree pointwise but not in form: compare elements on reference indices
            t1 = tm.subst(t1, dict(zip(idx1, idx2)))
        if t1 is t2 and not t1.unk:
            continue
        if t1.unk or t2.unk:
            und = und or undecided("%s%s: %s" % (what, path, first_unknown(t1 if t1.unk else t2)))
            continue
        stray = [x for x in free_syms([t1, t2]) if "~" in x and all(x != i.args[0] for i in idx2)]
        if stray:
            und = und or undecided("%s%s: bound position %s left in the result" % (what, path, stray[0]))
            continue
        try:
            c1, c2 = canonical(t1, t2, idx=idx2, shape=shp2)
        except (RecursionError, IndexError, tm.Blowup, MemoryError):
            c1, c2 = t1, t2
        if c1 is c2:
            continue
        f = search.separate(t1, t2, idx2, shp2, live=live)
        if f:
            return refuted("%s%s differs from the reference" % (what, path), point=f[0],
                           got=tm.show(t1)[:600], expected=tm.show(t2)[:600])
        und = und or undecided("%s%s: different normal forms, no separating point" % (what, path), stats=dict(search.stats), got=tm.show(c1)[:1500], expected=tm.show(c2)[:1500])
    return und or proved(slots=n)


CANON_S = [20]


def canonical(t1, t2, idx=(), shape=()):
    """both terms in the second normal form (unchanged when out of budget)"""
    tm.DEADLINE[0] = time.monotonic() + CANON_S[0]
    try:
        return _canonical(t1, t2, CANON_S[0], idx, shape)
    finally:
        tm.DEADLINE[0] = None


def _canonical(t1, t2, seconds, idx, shape):
    facts = canon.shape_facts(idx, shape)
    c = canon.Canon(seconds)
    a = c(t1, facts)
    b = c(t2, facts) if a is not None else None
    if a is None or b is None:
        return t1, t2
    if a is not b and tm.uncut(a) != tm.uncut(b):
        ca, cb = tm.uncut(a), tm.uncut(b)
        for keep in ((ca & cb, ()) if ca & cb else ((),)):
            try:
                x, y = canon.expand(a, keep=keep), canon.expand(b, keep=keep)
                if x is None or y is None:
                    continue
                if x is y:
                    return x, y
                c = canon.Canon(seconds)
                x = c(x, facts)
                y = c(y, facts) if x is not None else None
            except (RecursionError, tm.Blowup, MemoryError):
                continue
            if x is not None and x is y:
                return x, y
    return a, b


def first_unknown(t):
    r = []
    tm.walk(t, lambda x: r.append(x) if x.op == "unknown" else None)
    return "not tracked: " + (tm.show(r[0])[:200] if r else "?")
