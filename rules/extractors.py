"""Extractors, filter banks and the relations between them."""
from . import FLOOR, EXPLAIN
from .base import *
from .primitives import PRE, CONV, CEP, FIL, WINDOWS, BARK, MEL, SCALES, NORMS, root
from sa import evalt, terms as tm
from sa.interp import Arr, Cell, Tup
from sa.terms import ZERO, ONE, sub, add, mul, div, el, string, const, func

F = "spafe.features."
B = "spafe.fbanks."
GLAS = ("Glasberg",)
SPECTRO = {F + "mfcc.mel_spectrogram": MEL, F + "bfcc.bark_spectrogram": BARK,
           F + "gfcc.erb_spectrogram": GLAS, F + "lfcc.linear_spectrogram": ()}
CEPS = {F + "mfcc.mfcc": MEL, F + "mfcc.imfcc": MEL, F + "bfcc.bfcc": BARK, F + "gfcc.gfcc": GLAS,
        F + "ngcc.ngcc": GLAS, F + "lfcc.lfcc": (), F + "msrcc.msrcc": MEL, F + "psrcc.psrcc": MEL}
PLPS = {F + "rplp.plp": BARK, F + "rplp.rplp": BARK}
PNCC = {F + "pncc.pncc": GLAS}
LPCS = {F + "lpc.lpc": (), F + "lpc.lpcc": ()}
CQ = {F + "cqcc.cqt_spectrogram": (), F + "cqcc.cqcc": ()}
BANKS = {B + "mel_fbanks.mel_filter_banks": MEL, B + "mel_fbanks.inverse_mel_filter_banks": MEL,
         B + "linear_fbanks.linear_filter_banks": (), B + "bark_fbanks.bark_filter_banks": BARK,
         B + "gammatone_fbanks.gammatone_filter_banks": GLAS}
BANKED = {**SPECTRO, **CEPS, **PLPS, **PNCC}          # take fbanks
LIFTED = {**CEPS, **PLPS, **PNCC, F + "lpc.lpcc": (), F + "cqcc.cqcc": ()}   # take lifter and normalize
WINDOWED = {**BANKED, **LPCS, **CQ}
HEAVY = set(PLPS) | set(PNCC) | set(CQ) | {F + "lpc.lpcc"}


def short(q):
    return q.rsplit(".", 1)[1]


def ref(q):
    return "vref.ref." + short(q)


def params(env, q):
    mod, fn = q.rsplit(".", 1)
    r = env.prog.lookup(mod, fn)
    if r is None or r[0] != "func":
        raise Broken("function %s not found" % q)
    a = r[2].args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def has(env, q, name):
    return name in params(env, q)


def ctx_of(env, q, **k):
    """context restricted to the options the function has"""
    ps = params(env, q)
    c = {"window": "hamming", "pre_emph": True, "conversion_approach": default_approach(q), "order": "SYM", "lifter": None, "normalize": None,
         "use_energy": False, "fbanks": None, "scale": "constant"}
    if q == B + "gammatone_fbanks.gammatone_filter_banks":
        c["order"] = 4
    c.update(k)
    return {n: v for n, v in c.items() if n in ps}


def default_approach(q):
    t = (BANKED.get(q) or BANKS.get(q) or (None,))
    return t[0]


def dom(q):
    return {}


def weight(q):
    return 5 if q in HEAVY else 1


def comp(q, ctx, name=None, refctx=None, **kw):
    """compositional: modulo the library's own building blocks"""
    o = same("", q, "vref.comp." + short(q), ctx, refctx, name=name, blocks=True, **kw)
    o.weight = weight(q)
    return o


def eq(q, ctx, name=None, refctx=None, **kw):
    o = same("", q, ref(q), ctx, refctx, name=name, **kw)
    o.weight = weight(q)
    return o


# ------------------------------------------------------------------ C03
EXPLAIN["C03"] = "Value number of every extractor's result with every option symbolic (or one context per option name), compared with the reference data flow: an option dropped, swapped or fixed anywhere along the call chain changes the term."
FLOOR["C03"] = 40


@prop("C03")
def c03(env):
    out = []
    for q, appr in WINDOWED.items():
        out.append(comp(q, ctx_of(env, q)))
        out.append(comp(q, ctx_of(env, q, window="kaiser", pre_emph=False, use_energy=True, lifter="SYM", normalize="mvn", scale="ascendant", dct_type=3)))
        out.append(comp(q, ctx_of(env, q, window="blackman", normalize="ms", scale="descendant", dct_type=1)))
        if has(env, q, "fbanks"):
            out.append(comp(q, ctx_of(env, q, window="hanning", fbanks="given", lifter="SYM")))
        if q in PLPS:
            out.append(comp(q, ctx_of(env, q, scale="ascendant")))
            out.append(comp(q, ctx_of(env, q, normalize="ms", lifter=22)))
        for a in appr[1:]:
            out.append(comp(q, ctx_of(env, q, conversion_approach=a)))
    for q, appr in BANKS.items():
        for a in appr or (None,):
            out.append(eq(q, ctx_of(env, q, conversion_approach=a, scale="ascendant")))
    out.append(same("C03", "spafe.frequencies.dominant_frequencies.get_dominant_frequencies", "vref.ref.get_dominant_frequencies", {"win_type": "hamming"}))
    out.append(same("C03", "spafe.frequencies.dominant_frequencies.get_dominant_frequencies", "vref.ref.get_dominant_frequencies", {"win_type": "kaiser", "only_positive": True}))
    out.append(same("C03", "spafe.frequencies.dominant_frequencies.get_dominant_frequencies", "vref.ref.get_dominant_frequencies", {"win_type": "hanning", "butter_filter": True}))
    return uniq(out)


def uniq(obs):
    seen, out = set(), []
    for o in obs:
        if o.name not in seen:
            seen.add(o.name)
            out.append(o)
    return out


# ------------------------------------------------------------------ C05
def relation(q, ctx, q2, ctx2, extra_dom=None, post=None, tune=None, cond=None):
    """obligation body: q under ctx has the same value as q2 under ctx2 (both library functions)"""
    def run(env):
        assume(ctx, **dom(q))
        I1, v1 = env.call(q, ctx, cut=True)
        I2, v2 = env.call(q2, ctx2, cut=True)
        if post:
            v2 = post(I2, v2)
        r = equiv.compare(I1, v1, I2, v2, env.search(tune or tune_for(ctx)), cond=cond)
        r["funcs"] = sorted(I1.funcs)
        r["calls"] = len(I1.calls) + len(I2.calls)
        r["notes"] = I1.notes[:5]
        return r
    return run


EXPLAIN["C05"] = "Each optional band edge, window or filter bank: the value number with the argument omitted (or None) is compared with the one for the explicit documented default."
FLOOR["C05"] = 30

BANK_OF = {F + "mfcc.mel_spectrogram": "mel_fbanks.mel_filter_banks", F + "mfcc.mfcc": "mel_fbanks.mel_filter_banks",
           F + "mfcc.imfcc": "mel_fbanks.inverse_mel_filter_banks", F + "bfcc.bark_spectrogram": "bark_fbanks.bark_filter_banks",
           F + "bfcc.bfcc": "bark_fbanks.bark_filter_banks", F + "gfcc.erb_spectrogram": "gammatone_fbanks.gammatone_filter_banks",
           F + "gfcc.gfcc": "gammatone_fbanks.gammatone_filter_banks", F + "ngcc.ngcc": "gammatone_fbanks.gammatone_filter_banks",
           F + "lfcc.linear_spectrogram": "linear_fbanks.linear_filter_banks", F + "lfcc.lfcc": "linear_fbanks.linear_filter_banks",
           F + "msrcc.msrcc": "mel_fbanks.mel_filter_banks", F + "psrcc.psrcc": "mel_fbanks.mel_filter_banks",
           F + "rplp.plp": "bark_fbanks.bark_filter_banks", F + "rplp.rplp": "bark_fbanks.bark_filter_banks",
           F + "pncc.pncc": "gammatone_fbanks.gammatone_filter_banks"}


def half(I):
    return div(cx.SYMS["fs"], const(2))


def default_win(I):
    return cx.window(I, "hamming", wl=const(0.025), wh=const(0.01))


def own_bank(q, scale="constant", approach=None):
    bq = B + BANK_OF[q]

    def f(I):
        mod, fn = bq.rsplit(".", 1)
        g = I.function(mod, fn)
        if g is None:
            raise Broken("function %s not found" % bq)
        ps = [x.arg for x in g.node.args.args]
        kw = {n: cx.SYMS[n] for n in ("nfilts", "nfft", "fs", "low_freq", "high_freq")}
        kw["scale"] = string(scale)
        if "conversion_approach" in ps and approach:
            kw["conversion_approach"] = string(approach)
        v = I.call(g, [], kw)
        return v.items[0] if isinstance(v, Tup) else v
    f.__name__ = "own bank"
    return f


def R(name, q, run, w=None):
    return Ob(name, q, run, weight=w if w is not None else weight(q))


@prop("C05")
def c05(env):
    out = []
    for q in list(WINDOWED) + list(BANKS):
        ps = params(env, q)
        s = short(q)
        if "high_freq" in ps:
            c = ctx_of(env, q, high_freq=half)
            for how, val in (("None", None), ("omitted", cx.OMIT)):
                out.append(R("%s: high_freq %s == fs/2" % (s, how), q, relation(q, ctx_of(env, q, high_freq=val), q, c)))
        if "window" in ps:
            c = ctx_of(env, q, window=default_win)
            for how, val in (("None", None), ("omitted", cx.OMIT)):
                out.append(R("%s: window %s == 25 ms / 10 ms Hamming" % (s, how), q, relation_dw(q, ctx_of(env, q, window=val), c)))
        if "fbanks" in ps:
            for sc, ap in [("constant", default_approach(q))] + [("ascendant", a) for a in (BANKED[q] or (None,))[-1:]] + ([("descendant", None)] if not BANKED[q] else []):
                c1 = ctx_of(env, q, scale=sc, conversion_approach=ap)
                c2 = ctx_of(env, q, scale=sc, conversion_approach=ap, fbanks=own_bank(q, sc, ap))
                out.append(R("%s: fbanks None == the library's own bank [%s, %s]" % (s, sc, ap), q, relation(q, c1, q, c2)))
    return uniq(out)


def relation_dw(q, c1, c2):
    def run(env):
        cc = dict(c1)
        cc["window"] = None
        assume(cc)
        I1, v1 = env.call(q, c1, cut=True)
        I2, v2 = env.call(q, c2, cut=True)
        r = equiv.compare(I1, v1, I2, v2, env.search(tune_for(cc)))
        r["funcs"] = sorted(I1.funcs)
        r["calls"] = len(I1.calls) + len(I2.calls)
        r["notes"] = I1.notes[:5]
        return r
    return run


# ------------------------------------------------------------------ C16
EXPLAIN["C16"] = "With a symbolic matrix passed as filter bank, the result term must equal the reference term over that matrix, and must not contain any symbol of the bank-building options."
FLOOR["C16"] = 30


@prop("C16")
def c16(env):
    out = []

    def weights(j, k):          # any sign, any zeros: no bank the library would build
        u = tm.Fr(int(evalt.h01("bank", j, k) * 1000), 1000)
        return -u / 1000 if u < .2 else tm.Fr(0) if u < .3 else u
    for q, appr in BANKED.items():
        c = ctx_of(env, q, fbanks="given", use_energy=False)
        out.append(eq(q, c, tables={"fbanks": weights}))
        for sc in SCALES[1:]:
            ex = {"use_energy": True, "lifter": "SYM", "pre_emph": False} if sc == "descendant" and q not in HEAVY else {}
            for ap in (appr or (None,))[-1:]:
                out.append(R("%s: scale and approach are inert with a supplied bank [%s, %s]" % (short(q), sc, ap), q,
                             relation(q, ctx_of(env, q, fbanks="given", scale=sc, conversion_approach=ap, **ex), q, ctx_of(env, q, **dict({"fbanks": "given"}, **ex)))))
        out.append(R("%s: band edges are inert with a supplied bank" % short(q), q, inert(q, c, ("low_freq", "high_freq", "nfilts"))))
    return uniq(out)


def inert(q, c, names):
    """renaming the symbols of these options leaves the value number unchanged"""
    def run(env):
        assume(c)
        I1, v1 = env.call(q, c)
        f = equiv.flatten(I1, v1)
        if f.bad:
            return undecided(f.bad, funcs=sorted(I1.funcs))
        terms = [t for _, _, t in f.slots.values()] + [d for _, s, _ in f.slots.values() for d in s]
        fs = equiv.free_syms(terms)
        hit = sorted(set(names) & fs)
        if not hit:
            return proved(slots=len(terms), funcs=sorted(I1.funcs), calls=len(I1.calls))
        # the symbol occurs: does it matter?
        prime = {}
        for n in hit:
            s = cx.SYMS[n]
            prime[n] = s
        c2 = dict(c)
        for n in hit:
            c2[n] = renamed(n)
        I2, v2 = env.call(q, c2)
        r = equiv.compare(I1, v1, I2, v2, env.search(two_values(hit)))
        if r["status"] == "refuted":
            r["why"] = "the result depends on %s although the filter bank is supplied" % ", ".join(hit)
        r["funcs"] = sorted(I1.funcs)
        return r
    return run


def renamed(n):
    s = cx.SYMS[n]
    at = tm.ATTR[n]

    def f(I):
        return tm.sym(n + "_other", int=at.int, lo=at.lo, real=True)
    f.__name__ = n + "_other"
    return f


def two_values(names):
    def tune(p, rng):
        from fractions import Fraction as Fr
        for n in names:
            if n == "nfilts":
                p["nfilts_other"] = p["nfilts"] + rng.randint(1, 4)
            else:
                p[n + "_other"] = Fr(p["fs"], 2) * Fr(rng.randint(1, 99), 100)
    return tune


# ------------------------------------------------------------------ C17
EXPLAIN["C17"] = "Value number with use_energy on compared with: the one with it off, column 0 replaced by the log frame power computed from the library's own frames and spectrum."
FLOOR["C17"] = 14


def with_spec(q, ctx, spec, args):
    """q under ctx == vref.rel.<spec>(library value, ...)"""
    def run(env):
        assume(ctx)
        I1, v1 = env.call(q, ctx, cut=True)
        I2 = env.interp(cut=True)
        a = args(env, I2)
        g = I2.function("vref.rel", spec)
        if g is None:
            raise Broken("reference relation %s not found" % spec)
        v2 = I2.call(g, a, {})
        r = equiv.compare(I1, v1, I2, v2, env.search(tune_for(ctx)))
        r["funcs"] = sorted(I1.funcs)
        r["calls"] = len(I1.calls) + len(I2.calls)
        r["notes"] = I1.notes[:5]
        return r
    return run


def value(env, I, q, ctx):
    mod, fn = q.rsplit(".", 1)
    f = I.function(mod, fn)
    if f is None:
        raise Broken("function %s not found" % q)
    return I.call(f, [], cx.arguments(I, f, ctx))


SPEC_OF = {F + "mfcc.mfcc": F + "mfcc.mel_spectrogram", F + "bfcc.bfcc": F + "bfcc.bark_spectrogram",
           F + "gfcc.gfcc": F + "gfcc.erb_spectrogram", F + "ngcc.ngcc": F + "gfcc.erb_spectrogram",
           F + "lfcc.lfcc": F + "lfcc.linear_spectrogram", F + "msrcc.msrcc": F + "mfcc.mel_spectrogram",
           F + "mfcc.imfcc": F + "mfcc.mel_spectrogram", F + "psrcc.psrcc": F + "mfcc.mel_spectrogram"}


@prop("C17")
def c17(env):
    out = []
    for q in CEPS:
        for extra in ({}, {"fbanks": "given", "pre_emph": False, "window": "bartlet"}, {"lifter": "SYM", "normalize": "mn"},
                      {"scale": "descendant", "dct_type": 3, "window": "blackman"}):
            c = ctx_of(env, q, use_energy=True, **extra)
            sc = {k: v for k, v in c.items() if k not in ("use_energy", "lifter", "normalize")}
            sc["fbanks"] = "given"
            plain = dict(c, use_energy=False)
            if "lifter" in extra:
                plain = dict(plain, lifter=None, normalize=None)

            def args(env, I, q=q, plain=plain, sc=sc, c=c):
                v = value(env, I, q, plain)
                s = value(env, I, SPEC_OF[q], ctx_of(env, SPEC_OF[q], **{k: x for k, x in sc.items()}))
                return [v, s.items[1], cx.SYMS["nfft"], cx.lit(cx.SYMS["lifter"] if c.get("lifter") == "SYM" else None), cx.lit(c.get("normalize"))]
            out.append(R("%s: use_energy replaces column 0 only [%s]" % (short(q), label(extra)), q, with_spec(q, c, "energy", args)))
    return out


# ------------------------------------------------------------------ C18
EXPLAIN["C18"] = "Value number with lifter and normalize given, compared with lifter-then-normalise applied to the value number with both off (same function, other options equal and symbolic)."
FLOOR["C18"] = 40


@prop("C18")
def c18(env):
    out = []
    for q in LIFTED:
        on = {"use_energy": True}
        given = {"fbanks": "given", "pre_emph": False}
        other = {"scale": "ascendant", "dct_type": 3, "window": "kaiser"}
        for lift, norm, extra in (("SYM", None, {}), (None, "mvn", {}), ("SYM", "mvn", on), (None, "ms", given), (None, "vn", on), (None, "mn", {}),
                                  ("SYM", "ms", {}), ("SYM", "vn", dict(on, **given)), ("SYM", "mn", dict(other, pre_emph=False))):
            if q in HEAVY and (lift, norm) not in (("SYM", None), (None, "mvn"), ("SYM", "ms"), (None, "mn")):
                continue
            if q in PLPS:
                extra = dict(extra, fbanks="given")
            base_ = ctx_of(env, q, **extra)
            c = ctx_of(env, q, lifter=lift, normalize=norm, **extra)

            def args(env, I, q=q, b=base_, lift=lift, norm=norm):
                return [value(env, I, q, b), cx.SYMS["lifter"] if lift else tm.NONE, cx.lit(norm)]
            out.append(R("%s: normalize(lifter(c)) [lifter=%s, normalize=%s%s]" % (short(q), lift, norm, "".join(", " + k for k in extra)), q, with_spec(q, c, "finish", args)))
    return out


# ------------------------------------------------------------------ C19
EXPLAIN["C19"] = "Value number of each cepstral extractor compared with the documented compression and DCT applied to the value number of the library's own spectrogram under the same symbolic options."
FLOOR["C19"] = 20


@prop("C19")
def c19(env):
    out = []
    comp = {F + "mfcc.mfcc": "log", F + "mfcc.imfcc": "log", F + "lfcc.lfcc": "log", F + "bfcc.bfcc": "law",
            F + "gfcc.gfcc": "cube", F + "ngcc.ngcc": "log", F + "msrcc.msrcc": "root", F + "psrcc.psrcc": "phase"}
    for q, kind in comp.items():
        if kind in ("phase",):
            continue
        for extra in ({}, {"pre_emph": False, "window": "kaiser", "scale": "descendant"}, {"fbanks": "given", "window": "blackman"}):
            c = ctx_of(env, q, **extra)
            sc = dict(c)
            if short(q) == "imfcc" and c["fbanks"] is None:
                sc["fbanks"] = own_bank(q, c["scale"], c["conversion_approach"])

            def args(env, I, q=q, sc=sc, kind=kind):
                s = value(env, I, SPEC_OF[q], ctx_of(env, SPEC_OF[q], **sc))
                return [s.items[0], string(kind), cx.SYMS["gamma"], const(2), cx.SYMS["num_ceps"]]
            out.append(R("%s == dct(%s(%s)) [%s]" % (short(q), kind, short(SPEC_OF[q]), label(extra)), q, with_spec(q, c, "from_spectrogram", args)))
    q = F + "psrcc.psrcc"
    for extra in ({}, {"pre_emph": False, "window": "kaiser", "fbanks": "given"}):
        out.append(eq(q, ctx_of(env, q, **extra)))
    return out


# ------------------------------------------------------------------ C29
EXPLAIN["C29"] = "The extractor is interpreted on a signal of N samples and on a continuation of N+ext samples sharing the first N; the terms of row i (i below the smaller frame count) must be equal."
FLOOR["C29"] = 14


@prop("C29")
def c29(env):
    out = []
    for q in list(SPECTRO) + list(CEPS) + [F + "rplp.plp"] + list(LPCS) + [F + "cqcc.cqt_spectrogram"]:
        for extra in ({}, {"pre_emph": False, "window": "kaiser", "use_energy": True, "lifter": "SYM"}):
            c = ctx_of(env, q, **extra)
            out.append(R("%s: earlier rows do not see a continuation of the signal [%s]" % (short(q), label(extra)), q, continuation(q, c)))
    return out


def continuation(q, c):
    ext = tm.sym("ext", int=True, lo=0, real=True)

    def longer(I):
        return I.new(Arr((add(cx.N, ext),), lambda i: el("sig", i), dt="in"))

    def run(env):
        assume(c)
        I1, v1 = env.call(q, c, cut=True)
        I2, v2 = env.call(q, dict(c, sig=longer), cut=True)
        f1, f2 = equiv.flatten(I1, v1), equiv.flatten(I2, v2)
        funcs = sorted(I1.funcs)
        if f1.bad or f2.bad:
            return undecided(f1.bad or f2.bad, funcs=funcs)

        def tune(p, rng):
            p["ext"] = tm.Fr(rng.randint(0, 9))
        s = env.search(tune)
        und = None
        for path, (ix, shp, t) in f1.slots.items():
            if len(shp) < 2:
                continue
            if path not in f2.slots:
                return undecided("result structure differs", funcs=funcs)
            ix2, shp2, t2 = f2.slots[path]
            t2 = tm.subst(t2, dict(zip(ix2, ix)))
            if t is t2:
                continue
            if t.unk or t2.unk:
                und = undecided(equiv.first_unknown(t if t.unk else t2))
                continue
            f = s.separate(t, t2, ix, shp)
            if f:
                return refuted("row of result%s changes when the signal is continued after the frame's samples" % path, point=f[0], funcs=funcs)
            und = undecided("different normal forms, no separating point", stats=dict(s.stats), got=tm.show(t)[:600], expected=tm.show(t2)[:600])
        r = und or proved(slots=len(f1.slots), calls=len(I1.calls))
        r["funcs"] = funcs
        r["notes"] = I1.notes[:4]
        return r
    return run
