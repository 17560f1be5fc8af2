"""Obligation kinds shared by the property rules."""
import os
import sys
from sa import terms as tm, ctx as cx, domain, equiv
from sa.interp import Interp, FuncVal
from sa.equiv import proved, refuted, undecided

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
OBS = {}          # property -> list of builders (tier -> obligations)


def add_specs(prog):
    for f in sorted(os.listdir(SPEC)):
        if f.endswith(".py"):
            prog.add_file(os.path.join(SPEC, f), "vref." + f[:-3])
    prog.overlay("vref.comp", "vref.ref", "vref.comp_over")


# building blocks whose arguments and results are value-numbered in compositional comparisons
BLOCKS = {"spafe.utils.preprocessing." + x for x in ("pre_emphasis", "framing", "windowing")} \
    | {"spafe.utils.cepstral." + x for x in ("normalize_ceps", "lifter_ceps")} \
    | {"spafe.utils.filters.rasta_filter", "spafe.utils.spectral.compute_constant_qtransform",
       "spafe.features.lpc.lpc2lpcc", "spafe.features.lpc.__lpc_helper", "vref.comp.lpc_frame"} \
    | {"spafe.fbanks." + x for x in ("mel_fbanks.mel_filter_banks", "mel_fbanks.inverse_mel_filter_banks",
                                    "linear_fbanks.linear_filter_banks", "bark_fbanks.bark_filter_banks",
                                    "gammatone_fbanks.gammatone_filter_banks")} \
    | {"spafe.features.pncc." + x for x in ("medium_time_power_calculation", "weight_smoothing", "mean_power_normalization",
                                           "asymmetric_noise_suppression_with_temporal_masking")}


# converters: results defined by cases are value-numbered
CASES = {p + x for p in ("spafe.utils.converters.", "vref.ref.", "vref.comp.")
         for x in ("hz2bark", "bark2hz", "hz2mel", "mel2hz", "hz2erb", "erb2hz")}


class Broken(Exception):
    """the analysis lost its anchor: an error of the check, not a verdict"""


class Ob:
    def __init__(self, name, where, run, group="", weight=1):
        self.name, self.where, self.run, self.group, self.weight = name, where, run, group, weight


def prop(pid):
    def deco(f):
        OBS.setdefault(pid, []).append(f)
        return f
    return deco


class Env:
    """what an obligation gets: the parsed program and the search settings"""

    def __init__(self, prog, tier, seed):
        self.prog, self.tier, self.seed = prog, tier, seed
        equiv.CANON_S[0] = 12 if tier == "quick" else 120

    def search(self, tune=None, need=2):
        q = self.tier == "quick"
        return equiv.Search(self.seed, 8 if q else 150, 500 if q else 3000, need, tune)

    def interp(self, opaque=None, cut=False):
        I = Interp(self.prog, opaque=opaque or {})
        I.cutret = cut
        I.cutite = CASES
        return I

    def where(self, qual):
        mod, fn = qual.rsplit(".", 1)
        r = self.prog.lookup(mod, fn)
        if r is None or r[0] != "func":
            raise Broken("function %s not found" % qual)
        return "%s:%d %s" % (os.path.relpath(r[1].path, self.prog.root), r[2].lineno, fn)

    def call(self, qual, ctx, I=None, opaque=None, cut=False):
        I = I or self.interp(opaque, cut)
        tm.ASSUME[:] = [a for a in tm.ASSUME if a not in tm.DERIVED]    # every run starts from the same facts
        mod, fn = qual.rsplit(".", 1)
        f = I.function(mod, fn)
        if f is None:
            raise Broken("function %s not found" % qual)
        args = cx.arguments(I, f, ctx)
        v = I.call(f, [], args)
        return I, v


def assume(ctx, **k):
    """domain assumptions for a context"""
    dw = "window" in ctx and ctx["window"] is None
    domain.base(default_window=dw, **k)


def tune_for(ctx):
    dw = "window" in ctx and ctx["window"] is None

    def tune(p, rng):
        if dw:
            from fractions import Fraction as Fr
            fs = p["fs"] = Fr(rng.choice([120, 160, 200, 240]))
            wl, hop = int(fs / 40), int(fs / 100)
            rows = rng.randint(1, 4)
            p["N"] = Fr(wl + hop * (rows - 1) + rng.randint(0, hop - 1))
            p["order"] = Fr(rng.randint(2, min(wl, max(2, int(p["nfilts"])))))
            p["low_freq"] = Fr(rng.choice([0, fs * rng.randint(1, 9) / 80]))
            p["high_freq"] = Fr(fs, 2) * rng.choice([1, Fr(rng.randint(60, 99), 100)])
    return tune if dw else None


def label(ctx):
    out = []
    for k, v in sorted(ctx.items()):
        if v is cx.OMIT:
            v = "omitted"
        out.append("%s=%s" % (k, v if not callable(v) else getattr(v, "__name__", "value")))
    return ", ".join(out)


def same(pid, qual, ref, ctx=None, refctx=None, name=None, **kw):
    """obligation: qual(args) has the same abstract value as ref(args)"""
    ctx = dict(ctx or {})
    return Ob(name or "%s == %s [%s]" % (qual.split(".", 1)[1], ref, label(ctx)), qual,
              lambda env: run_same(env, qual, ref, ctx, refctx, **kw))


def run_same(env, qual, ref, ctx, refctx=None, extra=(), tune=None, cond=None, dom=None, blocks=False, tables=None):
    assume(ctx, **(dom or {}))
    tm.ASSUME.extend(extra)
    cut = BLOCKS if blocks else False
    I1, v1 = env.call(qual, ctx, cut=cut)
    I2, v2 = env.call(ref, refctx if refctx is not None else ctx, cut=cut)
    search = env.search(tune or tune_for(ctx))
    search.tables = tables
    r = equiv.compare(I1, v1, I2, v2, search, cond=cond)
    r["funcs"] = sorted(I1.funcs)
    r["calls"] = len(I1.calls)
    r["notes"] = I1.notes[:5] + ["reference: " + n for n in I2.notes[:3]]
    return r
