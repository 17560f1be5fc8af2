"""Domain assumptions (the documented domain of the options)."""
from . import terms as tm, ctx
from .terms import sub, add, mul, div, const, ONE, func
S = ctx.SYMS


def base(lpc=False, rows=True, default_window=False, stride=False):
    fs = S["fs"]
    wl = func("floor", mul(S["win_len"], fs))
    hop = func("floor", mul(S["win_hop"], fs))
    dl = func("floor", mul(const(0.025), fs))
    dh = func("floor", mul(const(0.01), fs))
    if default_window:
        wl, hop = dl, dh
    a = [sub(S["nfilts"], S["num_ceps"]), sub(S["nfilts"], S["order"]),
         sub(S["high_freq"], S["low_freq"]), sub(div(fs, const(2)), S["high_freq"]),
         sub(S["win_len"], S["win_hop"]), sub(hop, ONE), sub(wl, ONE),
         sub(S["nfft"], add(S["order"], ONE)), sub(wl, S["order"])]
    if rows:
        a.append(sub(ctx.N, wl))
        a.append(func("floor", div(sub(ctx.N, wl), hop)))
    if stride:
        sl, ss = S["stride_length"], S["stride_step"]
        a += [sub(ctx.N, sl), func("floor", div(sub(ctx.N, sl), ss))]
    tm.ASSUME[:] = a
    tm.LOW.clear()
    tm._bm[1].clear()
    for x in (wl, hop):
        for y in tm.pydict(x):
            if len(y) == 1 and y[0][1] == 1:
                tm.LOW[y[0][0]] = tm.Fr(1)
