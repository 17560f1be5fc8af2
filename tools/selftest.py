#!/usr/bin/env python3
"""Development aid: validates the analyser's model of NumPy/Python against the
real library.  Run with an interpreter that can import spafe; never part of a
check.  Every library call the obligations of a property analyse is also
executed on concrete arguments, and the analyser's terms are evaluated there.

  PYTHONPATH=/repo /opt/venv/bin/python -B tools/selftest.py C14 [substr]"""
import sys, os, time, random, threading, importlib, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(40000)
threading.stack_size(512 << 20)
import numpy as np
from fractions import Fraction as Fr
from sa import program, terms as tm, equiv, evalt, ctx as cx
from sa.interp import Arr, Cell, Tup, Choice
from rules import base
import rules
rules.load()
warnings.simplefilter("ignore")
SEEN = set()
STAT = {"ok": 0, "bad": 0, "skip": 0, "none": 0}


def conc(I, v, ev):
    """concrete Python value of an abstract argument"""
    if isinstance(v, tm.T):
        if v.op == "str":
            return v.args[0]
        if v is tm.NONE:
            return None
        if v is tm.TRUE:
            return True
        if v is tm.FALSE:
            return False
        x = evalt.real(ev.ev(v))
        if isinstance(x, Fr):
            return int(x) if tm.isint(v) else float(x)
        return x
    if isinstance(v, Tup):
        return tuple(conc(I, x, ev) for x in v.items)
    if isinstance(v, Cell) and v.kind == "obj":
        from spafe.utils.preprocessing import SlidingWindow
        d = I.deref(v)
        return SlidingWindow(**{k: conc(I, x, ev) for k, x in d.items()})
    a = I.arr(v)
    if a is None:
        raise KeyError("argument")
    dims = [int(ev.ev(d)) for d in a.shape]
    cplx = a.dt == "c"
    out = np.zeros(dims, dtype=complex if cplx else float)
    for ix in np.ndindex(*dims):
        x = ev.ev(a.get(*[tm.const(int(k)) for k in ix]))
        out[ix] = complex(x) if cplx else float(evalt.real(x))
    return out


def leafs(r, path="", out=None):
    out = {} if out is None else out
    if isinstance(r, tuple):
        for k, x in enumerate(r):
            leafs(x, "%s[%d]" % (path, k), out)
    elif isinstance(r, dict):
        for k, x in r.items():
            leafs(x, "%s[%s]" % (path, k), out)
    else:
        out[path] = r
    return out


def trial(qual, args, I, v, fl, search, want=6, secs=20):
    mod, fn = qual.rsplit(".", 1)
    m = importlib.import_module(mod)
    f = getattr(m, fn)
    n = bad = 0
    t0 = time.time()
    ts = [t for _, s, t in fl.slots.values()] + [d for _, s, t in fl.slots.values() for d in s] + [I.st.live]
    ts = [t for t in ts if not t.unk]
    for k, rng, p, ev in search.points(ts):
        if n >= want or time.time() - t0 > secs:
            break
        try:
            if I.st.live is not tm.TRUE and ev.ev(I.st.live) is not True:
                continue
            kw = {a: conc(I, x, ev) for a, x in args.items()}
        except (evalt.Discard, KeyError):
            continue
        try:
            r = f(**{k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in kw.items()})
        except Exception as e:
            print("   real code raises %r at %s" % (e, {a: b for a, b in kw.items() if not isinstance(b, np.ndarray)}))
            bad += 1
            n += 1
            continue
        real = leafs(r)
        for path, (idx, shp, t) in fl.slots.items():
            if path not in real:
                print("   slot %s missing in reality (%s)" % (path, list(real)[:5]))
                bad += 1
                continue
            x = real[path]
            if t is tm.NONE or x is None:
                if not (t is tm.NONE and x is None):
                    bad += 1
                continue
            if t.unk or t.op == "str":
                continue
            x = np.asarray(x)
            try:
                dims = [int(evalt.real(ev.ev(d))) for d in shp]
            except evalt.Discard:
                continue
            if list(x.shape) != dims:
                print("   shape %s model %s real %s" % (path, dims, x.shape))
                bad += 1
                continue
            if 0 in dims:
                continue
            ixs = [tuple(rng.randrange(d) for d in dims) for _ in range(4)] + [tuple(d - 1 for d in dims), tuple(0 for d in dims)]
            for ix in (set(ixs) if dims else [()]):
                for s, q in zip(idx, ix):
                    p[s.args[0]] = Fr(q)
                ev.memo = {}
                ev.budget = 400000
                try:
                    y = ev.ev(t)
                except (evalt.Discard, RecursionError):
                    continue
                n += 1
                z = x[ix] if dims else x[()]
                yy = complex(y) if not isinstance(y, (bool, str)) else y
                if isinstance(z, (np.bool_, bool)) or isinstance(yy, bool):
                    ok = bool(z) == bool(yy)
                else:
                    ok = abs(complex(z) - yy) <= 1e-6 * (1 + abs(yy)) or (np.isnan(z) and yy != yy)
                if not ok:
                    bad += 1
                    print("   %s%s%s: model %s real %s at %s" % (fn, path, ix, y if isinstance(y, (bool, str)) else complex(yy), z,
                          {a: b for a, b in kw.items() if not isinstance(b, np.ndarray)}))
                    if bad > 3:
                        return n, bad
    return n, bad


def main():
    pid = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    prog = program.Program(os.environ.get("SPAFE_ROOT", "/repo"))
    base.add_specs(prog)
    env = base.Env(prog, "quick", 1)
    cur = [None]
    orig = base.Env.call

    def call(self, qual, ctx, I=None, opaque=None, cut=False):
        if not qual.startswith("spafe."):
            raise Stop()
        I = I or self.interp(opaque, cut)
        tm.ASSUME[:] = [a for a in tm.ASSUME if a not in tm.DERIVED]
        mod, fn = qual.rsplit(".", 1)
        f = I.function(mod, fn)
        args = cx.arguments(I, f, ctx)
        h0 = dict(I.st.heap)
        v = I.call(f, [], args)
        key = (qual, base.label(ctx), bool(cut))
        if key in SEEN or opaque:
            return I, v
        SEEN.add(key)
        fl = equiv.flatten(I, v)
        if fl.bad or any(t.unk for _, _, t in fl.slots.values()):
            STAT["none"] += 1
            print("untracked", key, fl.bad or "", I.notes[:2])
            return I, v
        heap = I.st.heap
        I.st.heap = h0
        try:
            n, bad = trial(qual, args, I, v, fl, cur[0])
        finally:
            I.st.heap = heap
        STAT["bad" if bad else "ok" if n else "skip"] += 1
        if bad or not n:
            print("BAD" if bad else "nopoints", key, n, bad, flush=True)
        return I, v
    base.Env.call = call
    os_ = base.Env.search

    def search(self, tune=None, need=2):
        s = os_(self, tune, need)
        cur[0] = s
        return s
    base.Env.search = search
    for b in base.OBS.get(pid, []):
        for o in b(env):
            if sub and sub not in o.name:
                continue
            cur[0] = equiv.Search(1, 30, 400)
            try:
                o.run(env)
            except Stop:
                pass
            except Exception as e:
                print("error", o.name, repr(e)[:200])
    print(pid, STAT)


class Stop(Exception):
    pass


t = threading.Thread(target=main)
t.start()
t.join()
