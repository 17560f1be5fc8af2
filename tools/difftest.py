"""Development aid (not a check): validates the analyser's value model.
Interprets a function abstractly, evaluates the resulting terms at random small
points and compares with the real function.  Run with /opt/venv/bin/python."""
import sys, os, random, math, time, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter("ignore")
import importlib
import numpy as np
from fractions import Fraction as Fr
from sa import terms as tm, program, ctx, evalt, equiv
from sa.interp import *

def tables(seed):
    return evalt.Ev({}, seed=seed)

def real_args(f, c, p, ev):
    out = {}
    names = [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    from spafe.utils.preprocessing import SlidingWindow
    for n in names:
        v = c.get(n, ctx.DEFAULT.get(n, "SYM" if n in ctx.SYMS else "AUTO"))
        if v is ctx.OMIT: continue
        if v == "SYM":
            if n in ctx.SYMS:
                x = p[n]
                at = tm.ATTR[n]
                out[n] = int(x) if at.int else float(x)
            continue
        if callable(v): raise Exception("callable ctx")
        tab = lambda nm, *d: np.array([ev.table(nm, i) for i in np.ndindex(*d)]).reshape(d)
        if v == "AUTO":
            if n == "sig": out[n] = tab("sig", int(p["N"])).astype(float)
            elif n in ("x", "ceps", "P", "R_tilde", "Q_tilde", "Q_tilde_in", "Q_tilde_0"):
                out[n] = tab(n, int(p["rows"]), int(p["cols"])).astype(float)
            elif n == "spectrum": out[n] = tab(n, int(p["cols"])).astype(complex)
            elif n == "frames": out[n] = tab(n, int(p["rows"]), int(p["frame_len"])).astype(float)
            elif n in ("cmdf", "d_t"): out[n] = tab(n, int(p["tau"])).astype(float)
            continue
        if n == "window" and isinstance(v, str):
            out[n] = SlidingWindow(float(p["win_len"]), float(p["win_hop"]), v); continue
        if n == "fbanks" and v == "given":
            out[n] = tab("fbanks", int(p["nbank"]), int(p["nfft"]) // 2 + 1).astype(float); continue
        out[n] = v
    return out

def main(spec, c, tries=25, assume=None):
    mod, fn = spec.rsplit(".", 1)
    prog = program.Program("/repo")
    I = Interp(prog)
    f = I.function("spafe." + mod, fn)
    t0 = time.time()
    r = I.call(f, [], ctx.arguments(I, f, c))
    fl = equiv.flatten(I, r)
    t1 = time.time() - t0
    if fl.bad: print(spec, "BAD", fl.bad, I.notes[:3]); return
    stats = {"ok": 0, "bad": 0, "disc": 0, "realexc": 0, "shape": 0}
    why = {}
    impl = getattr(importlib.import_module("spafe." + mod), fn)
    for k in range(tries):
        rng = random.Random(k)
        p = equiv.sampler(rng, sorted(ctx.SYMS))
        ev = evalt.Ev(p, seed=k)
        if not equiv.holds(ev, p): continue
        try: live = ev.ev(I.st.live)
        except evalt.Discard as e: why[str(e)] = why.get(str(e), 0) + 1; continue
        a = real_args(f, c, p, ev)
        try: res = impl(**a); ok = True
        except Exception as e: ok = False; exc = e
        if ok != bool(live):
            stats["realexc"] += 1; print("  live", live, "real", ok, None if ok else repr(exc), {x: str(p[x]) for x in ("fs","N","win_len","win_hop","nfft","nfilts","num_ceps","order","low_freq","high_freq")}); continue
        if not ok: stats["ok"] += 1; continue
        for path, (idx, shp, t) in fl.slots.items():
            v = eval("res" + path if "]" in path else "res", {"res": res}) if path == "" or not any(ch.isalpha() for ch in path) else res[path[1:-1].strip("'")]
            try:
                dims = tuple(evalt.asint(evalt.real(ev.ev(d))) for d in shp)
            except evalt.Discard as e:
                stats["disc"] += 1; why["dim " + str(e)] = why.get("dim " + str(e), 0) + 1; continue
            v = np.asarray(v)
            if dims != v.shape:
                stats["shape"] += 1; print("  SHAPE", path, dims, v.shape, {x: str(p[x]) for x in ("fs","N","win_len","win_hop","nfft","nfilts")}); continue
            pos = list(np.ndindex(*dims)); rng.shuffle(pos)
            for ii in pos[:5]:
                for s, x in zip(idx, ii): p[s.args[0]] = Fr(x)
                ev.memo = {}; ev.budget = 400000
                try: w = ev.ev(t)
                except evalt.Discard as e:
                    stats["disc"] += 1; why[str(e)] = why.get(str(e), 0) + 1; continue
                x = v[ii] if dims else v.item()
                w = complex(w) if not isinstance(w, tm.T) else w
                if abs(complex(x) - w) <= 1e-7 * (abs(x) + abs(w)) + 1e-9: stats["ok"] += 1
                else:
                    stats["bad"] += 1
                    if stats["bad"] < 6: print("  DIFF", path, ii, dims, "real", x, "term", w, {q: str(p[q]) for q in ("fs","N","win_len","win_hop","nfft","nfilts","num_ceps","order")})
    print("%-60s %s %.1fs %s %s" % (spec + " " + str(c), stats, t1, why or "", I.notes[:2] or ""), flush=True)

if __name__ == "__main__":
    from sa import domain
    c = {"window": "hamming"}
    c.update(eval(sys.argv[2]) if len(sys.argv) > 2 else {})
    domain.base()
    for s in sys.argv[1].split(","): main(s, c)
