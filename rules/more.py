"""Option values, dimensions, banks, descriptors, pitch, constant-Q, prediction, PNCC."""
from . import FLOOR, EXPLAIN
from .base import *
from .extractors import *
from .extractors import SPECTRO, CEPS, PLPS, PNCC, LPCS, CQ, BANKS, BANKED, LIFTED, WINDOWED, HEAVY, F, B
from sa import terms as tm
from sa.terms import ZERO, ONE, sub, add, mul, div, el, string, const, func

SP = "spafe.features.spfeats."
FF = "spafe.frequencies.fundamental_frequencies."
PN = "spafe.features.pncc."
DOM = "spafe.frequencies.dominant_frequencies.get_dominant_frequencies"
CQT = "spafe.utils.spectral.compute_constant_qtransform"


def thorough(env):
    return env.tier == "thorough"


# ------------------------------------------------------------------ C09
EXPLAIN["C09"] = "With the filter bank a symbolic matrix, the value number of every extractor is compared with the reference in which the frame of the (pre-emphasised) signal is multiplied by the named window once before the transform."
FLOOR["C09"] = 30


@prop("C09")
def c09(env):
    out = []
    for q in WINDOWED:
        fb = {"fbanks": "given"} if has(env, q, "fbanks") else {}
        out.append(eq(q, ctx_of(env, q, window="bartlet", pre_emph=True, **fb)))
        out.append(comp(q, ctx_of(env, q, window="kaiser", pre_emph=False, **fb)))
        for w in WINDOWS if thorough(env) else ("hanning",):
            out.append(comp(q, ctx_of(env, q, window=w, pre_emph=True, **fb)))
    for w in WINDOWS:
        out.append(same("C09", DOM, "vref.ref.get_dominant_frequencies", {"win_type": w}))
    return uniq(out)


# ------------------------------------------------------------------ C11
EXPLAIN["C11"] = "For every option with a closed list of advertised names (the Literal types of the signatures), one value number per name, compared with the formula documented for that name; a name that raises, or that selects another branch, differs."
FLOOR["C11"] = 60


def advertised(env):
    """the names the library's Literal types list, read from the source"""
    import ast
    out = {}
    for mod, name in (("spafe.utils.filters", "ScaleType"), ("spafe.utils.converters", "ErbConversionApproach"),
                      ("spafe.utils.converters", "BarkConversionApproach"), ("spafe.utils.converters", "MelConversionApproach"),
                      ("spafe.utils.cepstral", "NormalizationType"), ("spafe.utils.preprocessing", "WindowType")):
        m = env.prog.modules.get(mod)
        for s in (m.tree.body if m else ()):
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                out[name] = [c.value for c in ast.walk(s.value) if isinstance(c, ast.Constant) and isinstance(c.value, str)]
    return out


@prop("C11")
def c11(env):
    out = [Ob("the advertised names are the documented ones", "spafe/utils", lambda env: names_kept(env))]
    for a, ns in (("erb", GLAS), ("bark", BARK), ("mel", MEL)):
        for d in ("hz2" + a, a + "2hz"):
            for n in ns:
                out.append(same("C11", CONV + d, "vref.ref." + d, {"approach": n}))
    for w in WINDOWS:
        out.append(same("C11", PRE + "windowing", "vref.ref.windowing", {"win_type": w}))
        out.append(same("C11", DOM, "vref.ref.get_dominant_frequencies", {"win_type": w}))
        out.append(comp(F + "mfcc.mel_spectrogram", ctx_of(env, F + "mfcc.mel_spectrogram", window=w, fbanks="given")))
        out.append(comp(F + "cqcc.cqt_spectrogram", ctx_of(env, F + "cqcc.cqt_spectrogram", window=w)))
    for n in NORMS:
        out.append(same("C11", CEP + "normalize_ceps", "vref.ref.normalize_ceps", {"normalization_type": n}))
        for q in LIFTED:
            if q in PLPS:
                continue
            fb = {"fbanks": "given"} if has(env, q, "fbanks") else {}
            out.append(comp(q, ctx_of(env, q, normalize=n, **fb)))
    for sc in SCALES:
        out.append(same("C11", FIL + "scale_fbank", "vref.ref.scale_fbank", {"scale": sc}))
    for q, appr in BANKS.items():
        for a in appr or (None,):
            out.append(eq(q, ctx_of(env, q, conversion_approach=a)))
        for sc in SCALES:
            out.append(eq(q, ctx_of(env, q, scale=sc)))
    for q, appr in {**SPECTRO, **CEPS, **PLPS, **PNCC}.items():
        for a in appr[1:]:
            if q not in HEAVY or thorough(env):
                out.append(comp(q, ctx_of(env, q, conversion_approach=a)))
        for sc in SCALES[1:]:
            if q not in HEAVY or thorough(env):
                out.append(comp(q, ctx_of(env, q, scale=sc)))
    return uniq(out)


def names_kept(env):
    want = {"ScaleType": SCALES, "ErbConversionApproach": GLAS, "BarkConversionApproach": BARK, "MelConversionApproach": MEL,
            "NormalizationType": NORMS, "WindowType": WINDOWS}
    got = advertised(env)
    for k, names in want.items():
        if k not in got:
            return undecided("type %s not found" % k)
        extra = sorted(set(got[k]) - set(names))
        if extra:
            return undecided("%s advertises %s, which has no reference formula" % (k, extra))
    return proved(slots=len(want))


# ------------------------------------------------------------------ C12
EXPLAIN["C12"] = "Array shapes propagate symbolically; every dimension of every result must normalise to the documented expression (or agree with it over the domain)."
FLOOR["C12"] = 40


def shapes(q, ctx, refq, refctx=None, dom=None, extra=()):
    def run(env):
        assume(ctx, **(dom or {}))
        tm.ASSUME.extend(extra)
        I1, v1 = env.call(q, ctx, cut=BLOCKS)
        I2, v2 = env.call(refq, refctx if refctx is not None else ctx, cut=BLOCKS)
        f1, f2 = equiv.flatten(I1, v1), equiv.flatten(I2, v2)
        for f in (f1, f2):
            f.slots = {p: ((), s, t if t.unk else ZERO) for p, (i, s, t) in f.slots.items()}
        if I1.st.live is not I2.st.live:
            r = equiv.compare_cond(I1, I2, env.search(tune_for(ctx)))
        else:
            r = None
        r = r or equiv.compare_flat(f1, f2, env.search(tune_for(ctx)), "result")
        r["funcs"] = sorted(I1.funcs)
        r["calls"] = len(I1.calls)
        r["notes"] = I1.notes[:5]
        return r
    return run


def S(q, ctx, refq=None, refctx=None, name=None, **kw):
    return Ob("dimensions of %s [%s]" % (name or short(q), label(ctx)), q, shapes(q, ctx, refq or "vref.shape." + short(q), refctx, **kw), weight=weight(q))


@prop("C12")
def c12(env):
    out = []
    for q in BANKS:
        for sc in SCALES:
            out.append(S(q, ctx_of(env, q, scale=sc)))
        for a in (BANKS[q] or ())[1:]:
            out.append(S(q, ctx_of(env, q, conversion_approach=a)))
    for q in WINDOWED:
        for x in ({}, {"use_energy": True, "lifter": "SYM", "normalize": "mvn", "pre_emph": False},
                  {"fbanks": "given", "normalize": "mn"}, {"window": None}):
            if x.get("fbanks") and not has(env, q, "fbanks"):
                continue
            out.append(S(q, ctx_of(env, q, **x), "vref.comp." + short(q) if q in CQ else None))
    for n in NORMS:
        out.append(S(CEP + "normalize_ceps", {"normalization_type": n}))
    for k in (cx.OMIT, "SYM", 0, 5, 12, -7):
        out.append(S(CEP + "lifter_ceps", {"lift": k}, refctx={"lift": 1} if k is cx.OMIT else None))
    for k in (cx.OMIT, "SYM", 4, 5):
        out.append(S(CEP + "deltas", {"w": k}, refctx={"w": 9} if k is cx.OMIT else None))
    out.append(S(FIL + "rasta_filter", {}))
    for sc in SCALES:
        out.append(S(FIL + "scale_fbank", {"scale": sc}))
    out.append(S(DOM, {"win_type": "hamming"}))
    out.append(S(PRE + "framing", {}))
    out.append(S(PRE + "pre_emphasis", {}))
    for w in WINDOWS:
        out.append(S(PRE + "windowing", {"win_type": w}))
    return uniq(out)


# ------------------------------------------------------------------ C13, C14, C15
EXPLAIN["C13"] = "Bank matrix and centre frequencies as terms over (filter, column, nfilts, nfft, fs, edges), compared with the triangle formula; weights of the formula lie in [0, 1] by construction (max(0, min(rise, fall)))."
FLOOR["C13"] = 7


@prop("C13")
def c13(env):
    out = []
    for q in list(BANKS)[:3]:
        for a in BANKS[q] or (None,):
            out.append(eq(q, ctx_of(env, q, conversion_approach=a)))
            out.append(eq(q, ctx_of(env, q, conversion_approach=a, scale="descendant")))
        out.append(eq(q, ctx_of(env, q, high_freq=None), refctx=ctx_of(env, q, high_freq=half)))
        out.append(eq(q, ctx_of(env, q, low_freq=cx.OMIT), refctx=ctx_of(env, q, low_freq=0)))
    return uniq(out)


EXPLAIN["C14"] = "Bark and gammatone bank terms compared with the documented curves."
FLOOR["C14"] = 8


@prop("C14")
def c14(env):
    out = [same("C14", B + "bark_fbanks.Fm", "vref.ref.Fm", {"fb": "SYM", "fc": "SYM"}),
           same("C14", B + "gammatone_fbanks.generate_center_frequencies", "vref.ref.generate_center_frequencies", {}, tune=edges)]
    for q in list(BANKS)[3:]:
        for a in BANKS[q] or (None,):
            for sc in SCALES if thorough(env) else SCALES[:2]:
                out.append(eq(q, ctx_of(env, q, conversion_approach=a, scale=sc)))
        out.append(eq(q, ctx_of(env, q, high_freq=None), refctx=ctx_of(env, q, high_freq=half)))
    g = B + "gammatone_fbanks.gammatone_filter_banks"
    for o in (2, 3, "SYM"):
        out.append(eq(g, ctx_of(env, g, order=o)))
    out.append(eq(g, ctx_of(env, g, order=cx.OMIT), refctx=ctx_of(env, g, order=4)))
    return uniq(out)


def edges(p, rng):
    from fractions import Fraction as Fr
    p["min_freq"] = Fr(rng.randint(0, 300))
    p["max_freq"] = p["min_freq"] + Fr(rng.randint(100, 8000))


EXPLAIN["C15"] = "The value number of the bank under each scale is compared with the documented weight times the value number of the same library function under 'constant'; centre frequencies must be identical."
FLOOR["C15"] = 15


@prop("C15")
def c15(env):
    out = [same("C15", FIL + "scale_fbank", "vref.ref.scale_fbank", {"scale": sc}) for sc in SCALES]
    for q in BANKS:
        appr = BANKS[q] or (None,)
        for a in appr if thorough(env) else appr[:1] + appr[-1:]:
            for sc in SCALES:
                c = ctx_of(env, q, conversion_approach=a, scale=sc)
                mirrored = "inverse" in q

                def args(env, I, q=q, a=a, sc=sc, mirrored=mirrored):
                    return [value(env, I, q, ctx_of(env, q, conversion_approach=a, scale="constant")), string(sc), cx.lit(mirrored)]
                out.append(R("%s: scale %s weights the constant bank [%s]" % (short(q), sc, a), q, with_spec(q, c, "scaled", args)))
    return uniq(out)


# ------------------------------------------------------------------ C21
EXPLAIN["C21"] = "Each descriptor's term over a symbolic complex spectrum is compared with its formula; the extractor's dictionary is compared entry by entry with the descriptor functions applied to the signal's spectrum."
FLOOR["C21"] = 9


@prop("C21")
def c21(env):
    out = []
    for f in ("spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_entropy", "spectral_spread",
              "spectral_flatness", "spectral_rolloff", "spectral_flux"):
        out.append(same("C21", SP + f, "vref.ref." + f, {"sig": lambda I: cx.signal(I)} if False else {}))
    out.append(same("C21", SP + "spectral_centroid", "vref.ref.spectral_centroid", {"i": cx.OMIT}, {"i": 1}))
    out.append(same("C21", SP + "spectral_rolloff", "vref.ref.spectral_rolloff", {"k": cx.OMIT}, {"k": 0.85}))
    out.append(same("C21", SP + "spectral_flux", "vref.ref.spectral_flux", {"p": cx.OMIT}, {"p": 2}))
    out.append(same("C21", SP + "extract_feats", "vref.rel.extract_feats", {}, blocks=True, name="spfeats.extract_feats: every entry is its own descriptor of rfft(sig, nfft)"))
    out.append(same("C21", SP + "extract_feats", "vref.rel.extract_feats", {"nfft": cx.OMIT}, {"nfft": 512}, blocks=True, name="spfeats.extract_feats: default nfft is 512"))
    return out


# ------------------------------------------------------------------ C22
EXPLAIN["C22"] = "The difference function, its normalisation and the dip search are compared with their definitions; the frame loop is compared with the reference loop over the library's own helpers."
FLOOR["C22"] = 4


YIN = {"low_freq": cx.SYMS["pitch_lo"], "high_freq": cx.SYMS["pitch_hi"]}


def yin_domain():
    """lags between one sample and one frame, at least two of them"""
    s = cx.SYMS
    wl = func("floor", mul(s["win_len"], s["fs"]))
    hi, lo = func("floor", div(s["fs"], s["pitch_lo"])), func("floor", div(s["fs"], s["pitch_hi"]))
    return [sub(wl, hi), sub(lo, ONE), sub(hi, const(2)), sub(sub(hi, lo), ONE)]


@prop("C22")
def c22(env):
    t = cx.SYMS["tau"]
    return [same("C22", FF + "compute_difference", "vref.ref.compute_difference", {"x": lambda I: cx.signal(I)}),
            same("C22", FF + "compute_cmnd", "vref.ref.compute_cmnd", {}),
            same("C22", FF + "get_pitch", "vref.ref.get_pitch", {"cmdf": lambda I: cx.vector(I, "cmdf", cx.SYMS["tau_max"])}),
            same("C22", FF + "get_pitch", "vref.ref.get_pitch", {"cmdf": lambda I: cx.vector(I, "cmdf", cx.SYMS["tau_max"]), "harmonic_threshold": cx.OMIT},
                 {"cmdf": lambda I: cx.vector(I, "cmdf", cx.SYMS["tau_max"]), "harmonic_threshold": 0.1}),
            Ob("compute_yin == the reference frame loop over the library's helpers", FF + "compute_yin", yin())]


def yin_helper(x, n, name):
    """the helper as an uninterpreted function of its arguments (its own obligation decides what it computes)"""
    def call(I, f, env):
        a = I.arr(env.get(x))
        m = env.get(n)
        if a is None or not isinstance(m, tm.T):
            return I.unk("argument of " + name)
        l = a.as_lam()
        return I.new(Arr((m,), lambda i: tm.app(name, l, m, i)))
    return call


def yin_lag(I, f, env):
    a = I.arr(env.get("cmdf"))
    rest = [env.get(k) for k in ("tau_min", "tau_max", "harmonic_threshold")]
    if a is None or not all(isinstance(r, tm.T) for r in rest):
        return I.unk("argument of get_pitch")
    return tm.app("yin_lag", a.as_lam(), *rest)


def yin(ctx=None, rctx=None):
    def run(env):
        assume({})
        tm.ASSUME.extend(yin_domain())

        def tune(p, rng):
            fs = p["fs"]
            wl = int(p["win_len"] * fs)
            hi = rng.randint(3, max(3, wl))
            p["pitch_lo"] = tm.Fr(fs) / (hi + tm.Fr(rng.choice([0, 3, 7]), 10))
            p["pitch_hi"] = tm.Fr(fs) / (rng.randint(1, hi - 1) + tm.Fr(rng.choice([0, 3, 7]), 10))
            p["harmonic_threshold"] = tm.Fr(rng.randint(1, 30), 10)
        hs = {FF + "compute_difference": yin_helper("x", "tau_max", "yin_d"), FF + "compute_cmnd": yin_helper("d_t", "tau", "yin_c"),
              FF + "get_pitch": yin_lag}
        I1, v1 = env.call(FF + "compute_yin", dict(YIN, **(ctx or {})), opaque=hs)
        I2, v2 = env.call("vref.rel.compute_yin", dict(YIN, **(rctx or ctx or {})), opaque=hs)
        r = equiv.compare(I1, v1, I2, v2, env.search(tune))
        r["funcs"] = sorted(I1.funcs)
        r["calls"] = len(I1.calls)
        r["notes"] = I1.notes[:5]
        return r
    return run


# ------------------------------------------------------------------ C23
EXPLAIN["C23"] = "Terms of the dominant-frequency extractor under every window, filter and output option, compared with round(argmax * fs / nfft, 3) of the reference spectrum."
FLOOR["C23"] = 8


@prop("C23")
def c23(env):
    r = "vref.ref.get_dominant_frequencies"
    out = []
    for w in WINDOWS:
        for bf in (False, True):
            for op in (False, True):
                out.append(same("C23", DOM, r, {"win_type": w, "butter_filter": bf, "only_positive": op}))
    return out


# ------------------------------------------------------------------ C24
EXPLAIN["C24"] = "The transform's term over symbolic frames and settings is compared with the reference kernel construction; spectrogram and cepstrum compared modulo the transform."
FLOOR["C24"] = 8


@prop("C24")
def c24(env):
    out = []
    Fr = tm.Fr

    def tune(p, rng):           # kernels that fit the transform; a band edge that is one of the bins
        if rng.random() < .7:
            p["nfft"] = Fr(rng.choice([8, 9, 12, 15]))
            p["q_rate"] = Fr(rng.randint(1, 9), 10)
            p["number_of_octaves"] = Fr(rng.randint(1, 3))
            p["low_freq"] = Fr(rng.choice([0, p["high_freq"] / rng.choice([2, 4, 5])]))
            e = rng.choice([p["high_freq"], p["low_freq"] or p["high_freq"], None, None])
            p["f0"] = e / 2 ** rng.randint(0, int(p["number_of_octaves"]) - 1) if e else p["high_freq"] * Fr(rng.randint(10, 90), 100)
    for w in WINDOWS:
        out.append(same("C24", CQT, "vref.ref.compute_constant_qtransform", {"win_type": w}, tune=tune))
    for q in CQ:
        for x in ({}, {"pre_emph": False, "window": "kaiser", "lifter": "SYM", "normalize": "mvn"}, {"window": "blackman", "normalize": "ms"}):
            out.append(comp(q, ctx_of(env, q, **x)))
    return uniq(out)


# ------------------------------------------------------------------ C25
EXPLAIN["C25"] = "Autocorrelation, Toeplitz solve, error term, cepstral recursion, RASTA filter and power law as terms, compared with the reference; LPC/LPCC/PLP compared modulo these."
FLOOR["C25"] = 8


@prop("C25")
def c25(env):
    out = [same("C25", F + "lpc.lpc2lpcc", "vref.ref.lpc2lpcc", {"a": lambda I: cx.vector(I, "a", cx.SYMS["order"]), "e": "SYM", "nceps": "SYM"}),
           same("C25", FIL + "rasta_filter", "vref.ref.rasta_filter", {}),
           same("C25", F + "bfcc.intensity_power_law", "vref.ref.intensity_power_law", {"w": lambda I: cx.matrix(I, "w", cx.ROWS, cx.COLS)})]
    for q in list(LPCS) + list(PLPS):
        fb = {"fbanks": "given"} if has(env, q, "fbanks") else {}
        out.append(eq(q, ctx_of(env, q, **fb)))
        out.append(comp(q, ctx_of(env, q, pre_emph=False, window="kaiser", **fb)))
        out.append(comp(q, ctx_of(env, q, lifter="SYM", window="hanning")))
    return uniq(out)


# ------------------------------------------------------------------ C26
EXPLAIN["C26"] = "Every PNCC stage as a term (loop recurrences over the frame index) compared with its documented recurrence; the extractor compared modulo the stages."
FLOOR["C26"] = 6


@prop("C26")
def c26(env):
    m = lambda n: (lambda I: cx.matrix(I, n, cx.ROWS, cx.COLS))
    P = {"P": m("P")}
    out = [same("C26", PN + "medium_time_power_calculation", "vref.ref.medium_time_power_calculation", {"P": m("P"), "M": "SYM"}),
           same("C26", PN + "medium_time_power_calculation", "vref.ref.medium_time_power_calculation", {"P": m("P"), "M": cx.OMIT}, {"P": m("P"), "M": 2}),
           same("C26", PN + "asymmetric_lowpass_filtering", "vref.ref.asymmetric_lowpass_filtering", {"Q_tilde_in": m("Q")}),
           same("C26", PN + "temporal_masking", "vref.ref.temporal_masking", {"Q_tilde_0": m("Q")}),
           same("C26", PN + "weight_smoothing", "vref.ref.weight_smoothing", {"R_tilde": m("R"), "Q_tilde": m("Q"), "nfilts": lambda I: cx.COLS, "N": 4}),
           same("C26", PN + "weight_smoothing", "vref.ref.weight_smoothing", {"R_tilde": m("R"), "Q_tilde": m("Q"), "nfilts": lambda I: cx.COLS, "N": 1}),
           same("C26", PN + "mean_power_normalization", "vref.ref.mean_power_normalization", {"T": m("T"), "nfilts": lambda I: cx.COLS}),
           same("C26", PN + "asymmetric_noise_suppression_with_temporal_masking", "vref.ref.asymmetric_noise_suppression_with_temporal_masking", {"Q_tilde": m("Q")})]
    q = F + "pncc.pncc"
    for x in ({"fbanks": "given"}, {"fbanks": "given", "pre_emph": False, "window": "kaiser", "lifter": "SYM"}, {}):
        out.append(comp(q, ctx_of(env, q, **x)))
    return uniq(out)
