"""C04: where the library raises ParameterError, and nowhere else."""
from fractions import Fraction as Fr
from . import FLOOR, EXPLAIN
from .base import *
from .extractors import (F, B, SPECTRO, CEPS, PLPS, PNCC, LPCS, CQ, BANKS, BANKED, WINDOWED, ctx_of, short, params, uniq, weight)
from .primitives import PRE
from sa import terms as tm, ctx as cx
from sa.terms import ZERO, ONE, TRUE, FALSE, sub, add, mul, div, const, func, lt, bor, band, bnot

LOW = tm.sym("low_any", real=True)
HIGH = tm.sym("high_any", real=True)
ORDERED = set(PLPS)
COUNTED = set(CEPS) | set(PLPS) | set(PNCC)

EXPLAIN["C04"] = ("The condition under which each entry point reaches `raise ParameterError` is collected along every path (calls inlined, "
                  "handlers applied) with band edges, counts, window length and hop free real/integer symbols, and compared as a boolean "
                  "function with the documented guard; terms that differ are evaluated at in-range, boundary and out-of-range points.")
FLOOR["C04"] = 40

# the transform itself has no guard: any matrix stands for its result
CQT = {"spafe.utils.spectral.compute_constant_qtransform": lambda I, f, env: cx.matrix(I, "cqt", tm.sym("pitches", int=True, lo=1), cx.ROWS)}


def tune(p, rng):
    fs = p["fs"]
    h = fs / 2
    tiny = Fr(1, 1000)
    p["high_any"] = rng.choice([h, h, h + tiny, h - tiny, h + Fr(1, 2), h - Fr(1, 2), h + 1, fs, Fr(0), h * Fr(3, 4), tiny])
    p["low_any"] = rng.choice([Fr(0), Fr(0), -tiny, tiny, Fr(-5), Fr(3), Fr(-1), Fr(1), -h])
    p["num_ceps"] = max(Fr(1), p["nfilts"] + rng.choice([-2, -1, 0, 0, 1, 1, 2, 9]))
    p["order"] = max(Fr(2), p["nfilts"] + rng.choice([-2, -1, 0, 0, 1, 1, 2]))
    r = rng.random()
    if r < .25:
        p["win_hop"] = p["win_len"]
    elif r < .5:
        p["win_hop"] = p["win_len"] + Fr(rng.choice([1, 2, 5]), rng.choice([10, 1000]))
    elif r < .6:
        p["win_hop"] = p["win_len"] * Fr(999, 1000)
    p["N"] = (p["win_len"] + 3 * p["win_hop"]) * fs // 1 + 2


def guard(q, ctx, banked, falsy=False):
    """the documented condition for ParameterError"""
    S = cx.SYMS
    g = FALSE
    if q in BANKS or banked:
        g = bor(g, lt(LOW, ZERO))
    if (q in BANKS or banked or q in CQ) and ctx.get("high_freq") is not None:
        h = div(S["fs"], const(2))
        g = bor(g, lt(h, tm.ite(tm.eq(HIGH, ZERO), h, HIGH) if falsy else HIGH))    # 0 stands for the default
    if q in COUNTED:
        g = bor(g, lt(S["nfilts"], S["order" if q in ORDERED else "num_ceps"]))
    if q not in BANKS and ctx.get("window", 1) is not None:
        g = bor(g, lt(S["win_len"], S["win_hop"]))
    return g


def parameter_error(env):
    r = env.prog.lookup("spafe.utils.exceptions", "ParameterError")
    if r is None or r[0] != "class":
        raise Broken("class ParameterError not found")
    return r[1].name + "." + r[2].name


def is_param(I, exc, pe):
    return exc == pe or pe.split(".")[-1] in I.ancestors(exc)


def run(env, q, ctx, banked):
    S = cx.SYMS
    fs = S["fs"]
    tm.ASSUME[:] = [sub(func("floor", mul(S["win_len"], fs)), ONE), sub(func("floor", mul(S["win_hop"], fs)), ONE),
                    sub(cx.N, func("floor", mul(S["win_len"], fs)))]
    tm.LOW.clear()
    tm._bm[1].clear()
    pe = parameter_error(env)
    I, v = env.call(q, ctx, cut=BLOCKS, opaque=CQT if q in CQ else None)
    P, U = FALSE, FALSE
    sites = []
    for r in I.raises:
        if is_param(I, r.exc, pe):
            P = bor(P, r.cond)
            sites.append("%s:%s" % (r.loc[0], r.loc[1]))
        else:
            U = bor(U, r.cond)
    G = guard(q, ctx, banked)
    info = {"funcs": sorted(I.funcs), "calls": len(I.calls), "notes": I.notes[:5], "sites": sites}
    s = env.search(tune, need=1)
    if P is not G and P is not guard(q, ctx, banked, True):
        if P.unk or [x for x in equiv.free_syms([P]) if "~" in x]:
            return undecided("raise condition not fully tracked: %s" % tm.show(P)[:200], **info)
        f = s.separate(P, G)
        if f:
            p, _, a, b = f[0]
            return refuted("%s where the documented guard says %s; sites raising ParameterError: %s" % (
                "raises ParameterError" if a == "True" else "does not raise ParameterError",
                "raise" if b == "True" else "accept", ", ".join(sites) or "none"), point=p, **info)
        return undecided("raise condition differs in form, no separating point", stats=s.stats, got=tm.show(P)[:300], **info)
    other = band(U, bnot(G))
    if other is FALSE:
        return proved(slots=1, **info)
    if other.unk or [x for x in equiv.free_syms([other]) if "~" in x]:
        return undecided("condition of another exception not tracked", **info)
    f = s.separate(other, FALSE)
    if f:
        bad = sorted({"%s at %s:%s" % (r.exc, r.loc[0], r.loc[1]) for r in I.raises if not is_param(I, r.exc, pe)})
        return refuted("raises %s for a valid configuration" % ", ".join(bad), point=f[0][0], **info)
    return undecided("another exception may be raised: no point found", stats=s.stats, **info)


def ob(env, q, name, banked, **k):
    c = ctx_of(env, q, **k)
    ps = params(env, q)
    if "low_freq" in ps and q not in CQ:
        c["low_freq"] = lambda I: LOW
    if "high_freq" in ps and "high_freq" not in k:
        c["high_freq"] = lambda I: HIGH
    elif "high_freq" in ps:
        c["high_freq"] = k["high_freq"]
    o = Ob("%s: ParameterError exactly for %s" % (short(q), name), q, lambda env: run(env, q, c, banked))
    o.weight = weight(q)
    return o


@prop("C04")
def c04(env):
    out = []
    for q, appr in BANKS.items():
        for a in appr or (None,):
            out.append(ob(env, q, "a bad band edge [%s]" % a, False, conversion_approach=a))
        out.append(ob(env, q, "a bad low edge [high edge omitted]", False, high_freq=None))
    for q in BANKED:
        out.append(ob(env, q, "bad edges, counts, hop", True))
        out.append(ob(env, q, "bad low edge, counts [high edge omitted, default window]", True, high_freq=None, window=None))
        out.append(ob(env, q, "bad counts, hop [bank supplied, all options]", False, fbanks="given", use_energy=True, lifter="SYM", normalize="mvn", pre_emph=False))
    for q in list(LPCS) + list(CQ):
        out.append(ob(env, q, "bad hop or high edge", False))
        out.append(ob(env, q, "bad high edge [default window]", False, window=None))
    q = PRE + "framing"
    out.append(Ob("framing: ParameterError exactly for a window shorter than the hop", q, lambda env: run(env, q, {}, False)))
    return uniq(out)


# ------------------------------------------------------------------ C06
from sa import evalt

EXPLAIN["C06"] = ("Every extractor is interpreted on the all-zero signal with its options symbolic; in the resulting closed form no logarithm, "
                  "negative power or inverse may have an argument that vanishes (shown from the form, or evaluated over the option domain), "
                  "no infinite or undefined constant may remain, and no path may raise.")
FLOOR["C06"] = 40


def tidy(t):
    """no subterm that can be infinite or undefined"""
    ok = [True]
    seen, names, st = set(), set(), [t]

    def f(x):
        if x.op in ("bad", "unknown"):
            ok[0] = False
        elif x.op == "poly":
            for m, c in tm.pydict(x).items():
                for a, e in m:
                    if e < 0 and tm.bounds(tm.poly({((a, Fr(1)),): Fr(1)}))[0] <= 0:
                        ok[0] = False
        elif x.op == "app":
            n = x.args[0]
            if n == "log":
                ok[0] = ok[0] and tm.bounds(x.args[1])[0] > 0
            elif n not in FINITE:
                ok[0] = False
        elif x.op == "el" and x.args[0] in tm.CUT and x.args[0] not in names:
            names.add(x.args[0])
            st.append(tm.CUT[x.args[0]][1])
    while st and ok[0]:
        tm.walk(st.pop(), f, seen)
    return ok[0]


FINITE = {"abs", "floor", "ceil", "trunc", "rint", "real", "imag", "angle", "cos", "sin", "exp", "dct", "resample", "max", "min"}


def finite(env, q, ctx):
    assume(ctx)
    I, v = env.call(q, ctx)
    info = {"funcs": sorted(I.funcs), "calls": len(I.calls), "notes": I.notes[:5]}
    tune_ = tune_for(ctx)
    R = FALSE
    for r in I.raises:
        R = bor(R, r.cond)
    if R is not FALSE and not R.unk:
        f = env.search(tune_, need=1).separate(R, FALSE)
        if f:
            return refuted("raises on silence: %s" % ", ".join(sorted({"%s at %s:%s" % (r.exc, r.loc[0], r.loc[1]) for r in I.raises})),
                           point=f[0][0], **info)
    fl = equiv.flatten(I, v)
    if fl.bad:
        return undecided(fl.bad, **info)
    other = []

    def ordinary(path, ii, p, ev):
        """is the result at this point finite for a signal that is not silent?"""
        if not other:
            try:
                J, w = env.call(q, {n: x for n, x in ctx.items() if n != "sig"})
                other.append(equiv.flatten(J, w))
            except tm.Blowup:
                other.append(None)
        g = other[0]
        if g is None or g.bad or path not in g.slots:
            return True
        idx, shape, t = g.slots[path]
        e = evalt.Ev(dict(p), ev.tables, seed=8)
        for y, k in zip(idx, ii):
            e.syms[y.args[0]] = Fr(k)
        try:
            e.ev(t)
        except evalt.Singular:
            return False
        except (evalt.Discard, RecursionError):
            pass
        return True

    open_ = []
    if R is not FALSE:
        open_.append("a raise condition is not excluded by form")
    for path, (idx, shape, t) in fl.slots.items():
        if t.unk:
            open_.append("%s not tracked: %s" % (path or "result", equiv.first_unknown(t)))
            continue
        if tidy(t):
            continue
        s = env.search(tune_)
        bad, good = [], 0
        for k, rng, p, ev in s.points([t, I.st.live] + list(shape)):
            try:
                if I.st.live is not TRUE and ev.ev(I.st.live) is not True:
                    continue
                dims = [evalt.asint(evalt.real(ev.ev(d))) for d in shape]
            except (evalt.Discard, RecursionError):
                continue
            if any(d <= 0 for d in dims):
                continue
            for rep in range(4 if dims else 1):
                ii = [rng.randrange(d) for d in dims] if rep > 1 else [0 if rep == 0 else d - 1 for d in dims]
                for y, w in zip(idx, ii):
                    p[y.args[0]] = Fr(w)
                ev.memo = {}
                ev.budget = 400000
                try:
                    ev.ev(t)
                    good += 1
                except evalt.Singular as e:
                    if not ordinary(path, ii, p, ev):      # not finite on other signals either: the options are at fault
                        continue
                    bad.append(({n: str(w) for n, w in p.items() if n in equiv.syms_used([t])}, ii, str(e)))
                    break
                except (evalt.Discard, RecursionError):
                    continue
            if len(bad) >= 2 or good > 300:
                break
        if len(bad) >= 2:
            return refuted("%s%s is not finite on silence (%s)" % (path or "result", bad[0][1], bad[0][2]), point=bad[0][0],
                           got=tm.show(t)[:300], **info)
        open_.append("%s: finite at %d points, not by form" % (path or "result", good))
    if open_:
        return undecided("; ".join(open_), **info)
    return proved(slots=len(fl.slots), **info)


@prop("C06")
def c06(env):
    out = []

    def ob(q, **k):
        c = ctx_of(env, q, **k)
        c["sig"] = silence
        o = Ob("%s finite on silence [%s]" % (short(q), label({n: w for n, w in c.items() if n != "sig"})), q, lambda env: finite(env, q, c))
        o.weight = weight(q)
        out.append(o)

    for q, appr in WINDOWED.items():
        ob(q)
        ob(q, use_energy=True, lifter="SYM", pre_emph=False, window="kaiser")
        ob(q, window=None, scale="ascendant")
        ob(q, window="hanning", scale="descendant", lifter="SYM")
        if "fbanks" in params(env, q):
            ob(q, fbanks="given", window="blackman")
        for a in appr[1:]:
            ob(q, conversion_approach=a)
    return uniq(out)


def silence(I):
    return cx.signal(I, zero=True)
