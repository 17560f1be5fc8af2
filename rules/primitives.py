"""Value equality of the primitives with their reference (C07 C08 C10 C11 C20 C21 C22 C23)."""
from . import FLOOR, EXPLAIN
from .base import *
from sa import terms as tm
from sa.interp import Arr, Cell, Tup
from sa.terms import ZERO, ONE, sub, el, string

PRE = "spafe.utils.preprocessing."
CONV = "spafe.utils.converters."
CEP = "spafe.utils.cepstral."
FIL = "spafe.utils.filters."
WINDOWS = ("hanning", "bartlet", "kaiser", "blackman", "hamming")
BARK = ("Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller")
MEL = ("Oshaghnessy", "Beranek", "Lindsay")
SCALES = ("constant", "ascendant", "descendant")
NORMS = ("mvn", "ms", "vn", "mn")


def root(c):
    while isinstance(c, Cell) and c.view is not None:
        c = c.view[0]
    return c


def no_alias(env, qual, ctx, params):
    """no array reachable from the result shares storage with an argument"""
    assume(ctx)
    I = env.interp()
    mod, fn = qual.rsplit(".", 1)
    f = I.function(mod, fn)
    if f is None:
        raise Broken("function %s not found" % qual)
    args = cx.arguments(I, f, ctx)
    mine = {p: root(args[p]).id for p in params if isinstance(args.get(p), Cell)}
    v = I.call(f, [], args)
    seen = []

    def go(x):
        if isinstance(x, Tup):
            for y in x.items:
                go(y)
        elif isinstance(x, Cell):
            seen.append(root(x).id)
    go(v)
    if not seen:
        return undecided("no array value tracked in the result", notes=I.notes[:5], funcs=sorted(I.funcs))
    for p, c in mine.items():
        if c in seen:
            return refuted("the result of %s shares storage with the argument '%s': writing to it changes the caller's data" % (fn, p), funcs=sorted(I.funcs))
    return proved(funcs=sorted(I.funcs), slots=len(seen), calls=len(I.calls))


EXPLAIN["C07"] = "Frame matrix, frame count and frame length as terms over signal length, sampling rate, window length and hop, compared with the reference index map; storage sharing between frames and signal from the tracked views."
FLOOR["C07"] = 4


@prop("C07")
def c07(env):
    out = [same("C07", PRE + "framing", "vref.ref.framing"),
           same("C07", PRE + "stride_trick", "vref.more.stride_trick", {"a": lambda I: cx.signal(I)}, dom={"stride": True}),
           Ob("framing returns storage of its own", PRE + "framing", lambda env: no_alias(env, PRE + "framing", {}, ["sig"])),
           Ob("stride_trick returns storage of its own", PRE + "stride_trick",
              lambda env: no_alias(env, PRE + "stride_trick", {"a": lambda I: cx.signal(I)}, ["a"]))]
    return out


EXPLAIN["C08"] = "Pre-emphasis, every advertised window and the zero substitution as terms, compared with the reference formulas."
FLOOR["C08"] = 8


@prop("C08")
def c08(env):
    out = [same("C08", PRE + "pre_emphasis", "vref.ref.pre_emphasis"),
           same("C08", PRE + "pre_emphasis", "vref.ref.pre_emphasis", {"pre_emph_coeff": cx.OMIT},
                {"pre_emph_coeff": 0.97}),
           same("C08", PRE + "zero_handling", "vref.ref.zero_handling"),
           same("C08", PRE + "zero_handling", "vref.ref.zero_handling", {"x": lambda I: cx.signal(I)})]
    for w in WINDOWS:
        out.append(same("C08", PRE + "windowing", "vref.ref.windowing", {"win_type": w}))
    out.append(same("C08", PRE + "windowing", "vref.ref.windowing", {"win_type": cx.OMIT}, {"win_type": "hamming"}))
    return out


EXPLAIN["C10"] = "The term of x2hz(hz2x(f)) is normalised; it must reduce to f (exactly, or at every point of the scale's domain)."
FLOOR["C10"] = 20


@prop("C10")
def c10(env):
    out = []
    for scale, names, v in (("erb", ("Glasberg",), "fe"), ("bark", BARK, "fb"), ("mel", MEL, "fm")):
        for a in names:
            out.append(Ob("%s2hz(hz2%s(f)) == f [%s]" % (scale, scale, a), CONV + "hz2" + scale,
                          lambda env, s=scale, a=a, v=v: roundtrip(env, s, a, v, False)))
            out.append(Ob("%s2hz(hz2%s(f)) == f for arrays [%s]" % (scale, scale, a), CONV + "hz2" + scale,
                          lambda env, s=scale, a=a, v=v: roundtrip(env, s, a, v, True)))
    return out


def roundtrip(env, scale, approach, v, array):
    assume({})
    I = env.interp()
    f = I.function("spafe.utils.converters", "hz2" + scale)
    g = I.function("spafe.utils.converters", scale + "2hz")
    if f is None or g is None:
        raise Broken("converters for %s not found" % scale)
    F = cx.SYMS["f"]
    hi = 20000
    x = tm.sym("f", real=True, lo=0) if not array else I.new(Arr((cx.N,), lambda i: el("freqs", i), dt="f"))
    y = I.call(f, [x], {"approach": string(approach)})
    z = I.call(g, [y], {"approach": string(approach)})
    J = env.interp()
    xx = x if not array else J.new(Arr((cx.N,), lambda i: el("freqs", i), dt="f"))

    def tune(p, rng):
        from fractions import Fraction as Fr
        p["f"] = Fr(rng.choice([rng.randint(1, 200), rng.randint(1, 4000), rng.randint(1, 20000)]))
    s = env.search(tune)
    s.tables = {"freqs": lambda i: tm.Fr(1 + (i * 7919 + 13 * (i % 5) * 97) % 20000)}
    r = equiv.compare(I, z, J, xx, s)
    r["funcs"] = sorted(I.funcs)
    r["calls"] = len(I.calls)
    r["notes"] = I.notes[:4]
    return r


EXPLAIN["C20"] = "Normalisation, liftering and delta terms for a symbolic matrix, parameter and width, compared with the reference formulas."
FLOOR["C20"] = 10


@prop("C20")
def c20(env):
    out = [same("C20", CEP + "normalize_ceps", "vref.ref.normalize_ceps", {"normalization_type": n}) for n in NORMS]
    out += [same("C20", CEP + "normalize_ceps", "vref.ref.normalize_ceps", {"normalization_type": cx.OMIT}, {"normalization_type": "mvn"}),
            same("C20", CEP + "lifter_ceps", "vref.ref.lifter_ceps"),
            same("C20", CEP + "lifter_ceps", "vref.ref.lifter_ceps", {"lift": cx.OMIT}, {"lift": 3}),
            same("C20", CEP + "deltas", "vref.ref.deltas"),
            same("C20", CEP + "deltas", "vref.ref.deltas", {"w": cx.OMIT}, {"w": 9})]
    out += [same("C20", CEP + "lifter_ceps", "vref.ref.lifter_ceps", {"lift": k}) for k in (0, 3, 10, 11, -3, -22)]
    return out
