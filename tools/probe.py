"""probe.py OUT : results of many library calls, pickled (development aid: are two trees equivalent?)"""
import sys, pickle, itertools, inspect, warnings
import numpy as np
warnings.simplefilter("ignore")
import importlib
R = np.random.RandomState(3)
sig = R.randn(3000)
out = {}
def put(k, f):
    try:
        out[k] = f()
    except Exception as e:
        out[k] = type(e).__name__
from spafe.utils.preprocessing import SlidingWindow
import spafe.utils.preprocessing as pp, spafe.utils.cepstral as ce, spafe.utils.filters as fi, spafe.utils.converters as co
EX = dict(mfcc=["mel_spectrogram", "mfcc", "imfcc"], bfcc=["bark_spectrogram", "bfcc"], gfcc=["erb_spectrogram", "gfcc"], lfcc=["linear_spectrogram", "lfcc"],
          msrcc=["msrcc"], psrcc=["psrcc"], ngcc=["ngcc"], pncc=["pncc"], rplp=["plp", "rplp"], lpc=["lpc", "lpcc"], cqcc=["cqt_spectrogram", "cqcc"])
OPTS = [dict(), dict(window=SlidingWindow(0.02, 0.013, "kaiser"), nfft=257, low_freq=60, high_freq=3100, scale="ascendant", lifter=4, normalize="mvn", pre_emph=False, use_energy=True, num_ceps=7, order=7, nfilts=9),
        dict(window=SlidingWindow(0.02, 0.02, "blackman"), nfft=512, scale="descendant", lifter=-5, normalize="mn", pre_emph_coeff=.5, num_ceps=5, nfilts=11, resampling_ratio=.5, gamma=.3, power=1.5, order=5),
        dict(low_freq=-1), dict(high_freq=9000), dict(num_ceps=50, order=50), dict(window=SlidingWindow(0.01, 0.02)), dict(lifter=0), dict(lifter=12, normalize="ms"), dict(normalize="vn", high_freq=8000/2)]
for m, fs_ in EX.items():
    mod = importlib.import_module("spafe.features." + m)
    for fn in fs_:
        f = getattr(mod, fn)
        ps = inspect.signature(f).parameters
        for k, o in enumerate(OPTS):
            kw = {a: b for a, b in o.items() if a in ps}
            put((fn, k), lambda: f(sig, fs=8000, **kw))
            put((fn, k, "silence"), lambda: f(np.zeros(2000), fs=8000, **kw))
        if "fbanks" in ps:
            put((fn, "bank"), lambda: f(sig, fs=8000, nfft=512, nfilts=20, fbanks=np.abs(R.RandomState(1).randn(20, 257)) if hasattr(R, "RandomState") else np.ones((20, 257))))
        if "conversion_approach" in ps:
            for a in ("Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller", "Oshaghnessy", "Beranek", "Lindsay", "Glasberg"):
                put((fn, a), lambda: f(sig, fs=8000, low_freq=50, conversion_approach=a))
for m, fn in (("mel", "mel_filter_banks"), ("mel", "inverse_mel_filter_banks"), ("linear", "linear_filter_banks"), ("bark", "bark_filter_banks"), ("gammatone", "gammatone_filter_banks")):
    f = getattr(importlib.import_module("spafe.fbanks.%s_fbanks" % m), fn)
    for n, nfft, lo, hi, sc in itertools.product((3, 24), (512, 301), (0, 100), (None, 3000), ("constant", "ascendant", "descendant")):
        put((fn, n, nfft, lo, hi, sc), lambda: f(nfilts=n, nfft=nfft, fs=8000, low_freq=lo, high_freq=hi, scale=sc))
for c in ("hz2erb", "erb2hz", "hz2bark", "bark2hz", "hz2mel", "mel2hz"):
    for a in ("Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller", "Oshaghnessy", "Beranek", "Lindsay", "Glasberg"):
        for x in (0.5, 3.0, 15.0, 22.0, 1000.0, np.array([1., 5., 19.])):
            put((c, a, str(x)), lambda: getattr(co, c)(x, a))
x = R.randn(7, 12)
for n in ("mvn", "ms", "vn", "mn"):
    put(("norm", n), lambda: ce.normalize_ceps(x, n))
for l in (-9, -1, 0, 1, 3, 10, 11):
    put(("lift", l), lambda: ce.lifter_ceps(x, l))
for w in (3, 4, 5, 9):
    put(("delta", w), lambda: ce.deltas(x, w))
put("rasta", lambda: fi.rasta_filter(x))
put("zero", lambda: pp.zero_handling(np.array([0, 1., 0, -2])))
for n in (10, 37, 100, 101):
    put(("frm", n), lambda: pp.framing(np.arange(n), 100, .1, .03))
import spafe.frequencies.dominant_frequencies as df, spafe.frequencies.fundamental_frequencies as ff, spafe.features.spfeats as sp
for kw in (dict(), dict(butter_filter=True, lower_cutoff=100, upper_cutoff=2000), dict(nfft=301, win_len=.03, win_hop=.01, win_type="kaiser", only_positive=False)):
    put(("dom", str(kw)), lambda: df.get_dominant_frequencies(sig, 8000, **kw))
t = np.arange(4000) / 8000
per = np.sin(2 * np.pi * 137 * t) + .3 * np.sin(2 * np.pi * 274 * t)
for s in (per, sig):
    for kw in (dict(), dict(low_freq=80, high_freq=900, harmonic_threshold=.3, win_len=.05, win_hop=.02)):
        put(("yin", len(s), str(kw)), lambda: ff.compute_yin(s, 8000, **kw))
for nfft in (512, 301):
    put(("sp", nfft), lambda: sp.extract_feats(sig, 8000, nfft))
pickle.dump(out, open(sys.argv[1], "wb"))
