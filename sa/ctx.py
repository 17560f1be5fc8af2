"""Abstract argument values: one symbol per option, with its documented domain.

A *context* fixes which of the finitely many named options are selected (string
options, None/given, boolean switches); every numeric option stays a symbol."""
from fractions import Fraction as Fr
from . import terms as tm
from .terms import sym, el, const, string, NONE, ONE, ZERO, TRUE, FALSE, add, sub, div, mul
from .interp import Arr, FuncVal

TINY = Fr(1, 10**9)


def I_(name, lo=1):
    return sym(name, int=True, lo=lo, real=True)


def R_(name, lo=None, hi=None):
    return sym(name, real=True, lo=lo, hi=hi)


SYMS = {
    "fs": I_("fs"), "nfft": I_("nfft", 2), "nfilts": I_("nfilts", 2), "num_ceps": I_("num_ceps"),
    "order": I_("order", 2), "low_freq": R_("low_freq", 0), "high_freq": R_("high_freq", TINY),
    "pre_emph_coeff": R_("pre_emph_coeff"), "gamma": R_("gamma"), "power": R_("power", TINY),
    "win_len": R_("win_len", TINY), "win_hop": R_("win_hop", TINY),
    "number_of_octaves": I_("number_of_octaves"), "number_of_bins_per_octave": I_("number_of_bins_per_octave"),
    "spectral_threshold": R_("spectral_threshold", 0), "f0": R_("f0", TINY), "q_rate": R_("q_rate", TINY),
    "resampling_ratio": R_("resampling_ratio", TINY), "lifter": I_("lifter", None), "lift": I_("lift", None),
    "lower_cutoff": R_("lower_cutoff", TINY), "upper_cutoff": R_("upper_cutoff", TINY),
    "harmonic_threshold": R_("harmonic_threshold"), "w": I_("w", 3), "frame_len": I_("frame_len"),
    "tau": I_("tau", 2), "tau_max": I_("tau_max", 2), "tau_min": I_("tau_min"),
    "k": R_("k"), "p": R_("p", TINY), "i": I_("i"), "f": R_("f", 0), "fe": R_("fe"), "fb": R_("fb"),
    "fm": R_("fm"), "fc": R_("fc"), "dct_type": I_("dct_type"), "stride_length": I_("stride_length"),
    "stride_step": I_("stride_step"), "nceps": I_("nceps"), "e": R_("e", 0), "M": I_("M", 0),
    "lm_a": R_("lm_a"), "lm_b": R_("lm_b"), "lam_t": R_("lam_t"), "myu_t": R_("myu_t"), "lam_myu": R_("lam_myu"),
    "threshold": R_("threshold"), "min_freq": R_("min_freq", 0), "max_freq": R_("max_freq", TINY), "T": R_("T", TINY),
    "pitch_lo": R_("pitch_lo", TINY), "pitch_hi": R_("pitch_hi", TINY),
}
N = I_("N")
ROWS, COLS = I_("rows"), I_("cols", 5)
NB = I_("nbank")        # rows of a caller-supplied filter bank
BINS = tm.add(tm.func("floor", div(SYMS["nfft"], const(2))), ONE)

DEFAULT = {"scale": "constant", "win_type": "hamming", "normalize": None, "lifter": None, "pre_emph": True,
           "use_energy": False, "fbanks": None, "window": None, "dct_type": 2, "butter_filter": False,
           "only_positive": False, "normalization_type": "mvn", "fb_type": "mel"}


def signal(I, zero=False):
    return I.new(Arr((N,), (lambda i: ZERO) if zero else (lambda i: el("sig", i)), dt="in"))


def matrix(I, name, rows, cols, real=True):
    return I.new(Arr((rows, cols), lambda i, j: el(name, i, j), dt="f"))


def vector(I, name, n):
    return I.new(Arr((n,), lambda i: el(name, i), dt="f"))


def window(I, kind="hamming", wl=None, wh=None):
    m = I.prog.lookup("spafe.utils.preprocessing", "SlidingWindow")
    cls = I.resolved(m)
    return I.construct(cls, [], {"win_len": wl or SYMS["win_len"], "win_hop": wh or SYMS["win_hop"],
                                 "win_type": string(kind)})


def lit(v):
    if v is None:
        return NONE
    if v is True or v is False:
        return TRUE if v else FALSE
    if isinstance(v, str):
        return string(v)
    if isinstance(v, (int, float, Fr)):
        return const(v)
    return v


OMIT = object()


def arguments(I, f, ctx):
    """abstract arguments for function value f under a context"""
    node = f.node
    names = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
    out = {}
    for n in names:
        v = ctx.get(n, DEFAULT.get(n, "SYM" if n in SYMS else "AUTO"))
        if v is OMIT:
            continue
        if v == "SYM":
            if n in SYMS:
                out[n] = SYMS[n]
            continue
        if callable(v):
            out[n] = v(I)
            continue
        if v == "AUTO":
            if n == "sig":
                out[n] = signal(I)
            elif n in ("x", "ceps", "P", "R_tilde", "Q_tilde", "Q_tilde_in", "Q_tilde_0"):
                out[n] = matrix(I, n, ROWS, COLS)
            elif n == "spectrum":
                out[n] = I.new(Arr((COLS,), lambda i: el("spectrum", i), dt="c"))
            elif n == "frames":
                out[n] = matrix(I, "frames", ROWS, SYMS["frame_len"])
            elif n in ("cmdf", "d_t"):
                out[n] = vector(I, n, SYMS["tau"])
            continue                     # leave to the default
        if n == "window" and isinstance(v, str):
            out[n] = window(I, v)
            continue
        if n == "fbanks" and v == "given":
            out[n] = matrix(I, "fbanks", NB, BINS)
            continue
        out[n] = lit(v)
    return out
