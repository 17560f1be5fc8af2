U = "spafe/utils/"
X = "spafe/features/"
B = "spafe/fbanks/"
F = "spafe/frequencies/fundamental_frequencies.py"
D = "spafe/frequencies/dominant_frequencies.py"
# guards moved to helpers
add(U + "exceptions.py", "") if False else None
sub(U + "exceptions.py", "class ParameterError", '''def require(condition, key):
    """raise the ParameterError for key unless the condition holds."""
    if condition:
        return
    raise ParameterError(ErrorMsgs[key])


class ParameterError''')
for f in ("mel_fbanks.py", "bark_fbanks.py", "gammatone_fbanks.py"):
    sub(B + f, "import ParameterError, ErrorMsgs", "import require")
    sub(B + f, '''    if low_freq < 0:
        raise ParameterError(ErrorMsgs["low_freq"])
''', '''    require(not low_freq < 0, "low_freq")
''')
    sub(B + f, '''    if high_freq > (fs / 2):
        raise ParameterError(ErrorMsgs["high_freq"])
''', '''    nyquist = fs / 2
    require(high_freq <= nyquist, "high_freq")
''')
for f in ("mfcc", "gfcc", "lfcc", "msrcc", "ngcc", "psrcc", "pncc", "bfcc"):
    p = X + f + ".py"
    sub(p, "import ParameterError, ErrorMsgs", "import require")
    sub(p, '''    if nfilts < num_ceps:
        raise ParameterError(ErrorMsgs["nfilts"])
''', '''    require(nfilts >= num_ceps, "nfilts")
''', 0)
# converters as dictionaries of functions
body(U + "converters.py", "hz2bark", '''
forward = {
    "Tjomov": lambda v: 6.7 * np.arcsinh((v + 20) / 600),
    "Schroeder": lambda v: 7 * np.arcsinh(v / 650),
    "Terhardt": lambda v: 13.3 * np.arctan((0.75 * v) / 1000),
    "Zwicker": lambda v: 8.7 + 14.2 * np.log10(v / 1000),
    "Traunmueller": _traunmueller_forward,
}
default = lambda v: 6 * np.arcsinh(v / 600)
return forward.get(approach, default)(f)
''')
body(U + "converters.py", "hz2mel", '''
factor, log, corner = {
    "Oshaghnessy": (2595, np.log10, 700.0),
    "Beranek": (1127, np.log, 700.0),
    "Lindsay": (2410, np.log10, 625),
}[approach]
return factor * log(1 + f / corner)
''')
body(U + "converters.py", "mel2hz", '''
if approach == "Oshaghnessy":
    return 700 * (10 ** (fm / 2595.0) - 1)
if approach == "Beranek":
    return 700 * np.expm1(fm / 1127.0)
if approach == "Lindsay":
    return 625 * (10 ** (fm / 2410) - 1)
raise KeyError(approach)
''')
add(U + "converters.py", '''
def _traunmueller_forward(f):
    fb = (26.81 * f) / (1960 + f) - 0.53
    fb_low = 0.15 * (2 - fb) + fb
    fb_high = fb + 0.22 * (fb - 20.1)
    return np.where(fb < 2, fb_low, np.where(fb > 20.1, fb_high, fb))
''')
# framing by comprehension
body(U + "preprocessing.py", "framing", '''
if not win_len >= win_hop:
    raise ParameterError(ErrorMsgs["win_len_win_hop_comparison"])

frame_length, frame_step = int(win_len * fs), int(win_hop * fs)
nrows = 1 + (len(sig) - frame_length) // frame_step
frames = np.array([sig[k * frame_step : k * frame_step + frame_length] for k in range(nrows)])
return frames, frame_length
''')
body(U + "preprocessing.py", "windowing", '''
makers = {
    "hanning": np.hanning,
    "bartlet": np.bartlett,
    "kaiser": lambda n: np.kaiser(n, beta=14),
    "blackman": np.blackman,
    "hamming": np.hamming,
}
taper = makers[win_type](frame_len)
return frames * taper
''')
body(U + "preprocessing.py", "pre_emphasis", '''
sig = np.asarray(sig)
out = np.empty(len(sig), dtype=float)
out[0] = sig[0]
out[1:] = sig[1:] - pre_emph_coeff * sig[:-1]
return out
''')
body(U + "cepstral.py", "normalize_ceps", '''
def spread():
    return np.max(x) - np.min(x)

centred = x - x.mean(axis=0)
options = {
    "mvn": lambda: centred / x.std(),
    "ms": lambda: centred,
    "vn": lambda: x / x.std(),
    "mn": lambda: (x - x.mean()) / spread(),
}
return options[normalization_type]()
''')
body(U + "cepstral.py", "lifter_ceps", '''
if lift > 10 or lift == 0:
    return ceps
n = ceps.shape[1]
if lift > 0:
    weights = np.ones(n)
    for i in range(1, n):
        weights[i] = i**lift
else:
    period = abs(int(lift))
    weights = np.array([1 + (period / 2.0) * np.sin(np.pi * (i + 1) / period) for i in range(n)])
return ceps * weights[np.newaxis, :]
''')
body(U + "cepstral.py", "deltas", '''
rows, cols = x.shape
half = int(w // 2)
padded = np.pad(x, ((0, 0), (half, half)), mode="edge")
out = np.zeros((rows, cols))
for k in range(-half, half + 1):
    out = out + k * padded[:, half + k : half + k + cols]
return out
''')
body(U + "filters.py", "scale_fbank", '''
ramp = np.arange(1, nfilts + 1) / nfilts
if scale == "ascendant":
    gains = ramp
elif scale == "descendant":
    gains = ramp[::-1]
elif scale == "constant":
    gains = np.ones(nfilts)
else:
    raise KeyError(scale)
return gains[:, None]
''')
# banks
body(B + "bark_fbanks.py", "Fm", '''
diff = fb - fc
if diff < -1.3 or diff > 2.5:
    return 0
if diff <= -0.5:
    return 10 ** (2.5 * (diff + 0.5))
if diff < 0.5:
    return 1
return 10 ** (0.5 - diff)
''')
body(X + "pncc.py", "medium_time_power_calculation", '''
n_frames = P.shape[0]
out = np.zeros(P.shape)
for m in range(n_frames):
    first, last = max(0, m - M), min(n_frames - 1, m + M)
    out[m] = P[first : last + 1].sum(axis=0) / (2 * M + 1)
return out
''')
body(X + "pncc.py", "asymmetric_lowpass_filtering", '''
out = np.zeros_like(Q_tilde_in)
previous = 0.9 * Q_tilde_in[0]
out[0] = previous
m = 1
while m < len(out):
    rate = np.where(Q_tilde_in[m] >= previous, lm_a, lm_b)
    previous = rate * previous + (1 - rate) * Q_tilde_in[m]
    out[m] = previous
    m += 1
return out
''')
body(X + "pncc.py", "temporal_masking", '''
masked = [Q_tilde_0[0]]
peak = Q_tilde_0[0]
for row in Q_tilde_0[1:]:
    masked.append(np.where(row >= lam_t * peak, row, myu_t * peak))
    peak = np.maximum(lam_t * peak, row)
return np.array(masked)
''')
body(X + "pncc.py", "mean_power_normalization", '''
n_frames = T.shape[0]
myu = np.zeros(n_frames)
current = 0.0001
for m in range(n_frames):
    if m > 0:
        current = lam_myu * current + (1 - lam_myu) * np.sum(T[m, :nfilts]) / nfilts
    myu[m] = current
return k * T / myu.reshape(-1, 1)
''')
body(X + "pncc.py", "asymmetric_noise_suppression_with_temporal_masking", '''
lower = asymmetric_lowpass_filtering(Q_tilde, 0.999, 0.5)
rectified = Q_tilde - lower
rectified[rectified < threshold] = 0
floor_level = asymmetric_lowpass_filtering(rectified)
masked = temporal_masking(rectified)
excitation = Q_tilde >= 2 * lower
result = np.where(excitation, masked, floor_level)
return result
''')
# energies through a helper, lifter and normalisation through a loop
add(X + "mfcc.py", '''
def _log_energy(spectrum, nfft):
    power = (1.0 / nfft) * np.absolute(spectrum) ** 2
    return np.log(zero_handling(power.sum(axis=1)))


def _cepstrum(values, dct_type, num_ceps):
    return dct(x=values, type=dct_type, axis=-1, norm="ortho")[:, :num_ceps]
''')
body(X + "mfcc.py", "mfcc", '''
if num_ceps > nfilts:
    require(False, "nfilts")

options = dict(fs=fs, pre_emph=pre_emph, pre_emph_coeff=pre_emph_coeff, window=window)
bank = dict(nfilts=nfilts, nfft=nfft, low_freq=low_freq, high_freq=high_freq, scale=scale, fbanks=fbanks)
features, spectrum = mel_spectrogram(sig, conversion_approach=conversion_approach, **options, **bank)
mfccs = _cepstrum(np.log(zero_handling(features)), dct_type, num_ceps)
if use_energy:
    mfccs[:, 0] = _log_energy(spectrum, nfft)
for step, option in ((lifter_ceps, lifter), (normalize_ceps, normalize)):
    if option:
        mfccs = step(mfccs, option)
return mfccs
''')
body(X + "gfcc.py", "gfcc", '''
require(nfilts >= num_ceps, "nfilts")
features, magnitudes = erb_spectrogram(
    sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, fbanks, conversion_approach
)
gfccs = dct(np.cbrt(features), type=dct_type, axis=1, norm="ortho")
gfccs = gfccs[:, :num_ceps]
if use_energy:
    energy = np.log(zero_handling((magnitudes**2 / nfft).sum(axis=1)))
    gfccs = np.concatenate((energy.reshape(-1, 1), gfccs[:, 1:]), axis=1)
if lifter:
    gfccs = lifter_ceps(gfccs, lifter)
return normalize_ceps(gfccs, normalize) if normalize else gfccs
''')
body(X + "lpc.py", "lpc2lpcc", '''
p = len(a)
c = np.ones(nceps)
c[0] = np.log(zero_handling(e))
for m in range(1, nceps):
    first = 1 if m < p else m - p + 1
    total = a[m] if m < p else 0
    for k in range(first, m):
        total += (k / m) * a[m - k]
    c[m] = total
return list(c)
''')
body(X + "lpc.py", "lpcc", '''
if window is None:
    window = SlidingWindow()
source = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff) if pre_emph else sig
frames, frame_length = framing(source, fs, window.win_len, window.win_hop)
windows = windowing(frames, frame_length, window.win_type)
rows = []
for frame in windows:
    coefficients, error = __lpc_helper(frame, order - 1)
    rows.append(lpc2lpcc(coefficients, error, order))
lpccs = np.array(rows)
lpccs = lifter_ceps(lpccs, lifter) if lifter else lpccs
lpccs = normalize_ceps(lpccs, normalize) if normalize else lpccs
return lpccs
''')
# frequencies
body(D, "get_dominant_frequencies", '''
filtered = sig
if butter_filter:
    band = [2 * cutoff / fs for cutoff in (lower_cutoff, upper_cutoff)]
    b, a = signal.butter(6, band, btype="band")
    filtered = signal.lfilter(b, a, sig)
frames, frame_length = framing(filtered, fs, win_len, win_hop)
spectra = np.abs(np.fft.rfft(windowing(frames, frame_length, win_type), nfft))
bins = np.argmax(spectra, axis=1)
found = np.round(bins * fs / nfft, 3)
return found[found >= 0] if only_positive else found
''')
body(F, "get_pitch", '''
for tau in range(tau_min, tau_max):
    if cmdf[tau] >= harmonic_threshold:
        continue
    best = tau
    while best + 1 < tau_max and cmdf[best + 1] < cmdf[best]:
        best = best + 1
    return best
return 0
''')
body(F, "compute_yin", '''
shortest, longest = int(fs / high_freq), int(fs / low_freq)
length, step = int(win_len * fs), int(win_hop * fs)
pitches, harmonic_rates, argmins, times = [], [], [], []
for start in range(0, len(sig) - length, step):
    cmdf = compute_cmnd(compute_difference(sig[start : start + length], longest), longest)
    best = np.argmin(cmdf)
    p = get_pitch(cmdf, shortest, longest, harmonic_threshold)
    times.append(start / fs)
    argmins.append(float(fs / best) if best > shortest else 0.0)
    pitches.append(float(fs / p) if p != 0 else 0.0)
    harmonic_rates.append(cmdf[p] if p != 0 else cmdf[best])
return np.array(pitches), np.array(harmonic_rates), np.array(argmins), np.array(times)
''')
body(X + "spfeats.py", "spectral_entropy", '''
m = np.abs(spectrum)
return -(m * np.log(m)).sum() / np.log(m.size)
''')
body(X + "spfeats.py", "spectral_flux", '''
m = np.abs(spectrum)
steps = np.abs(m[1:] - m[:-1])
return (steps**p).sum() ** (1 / p)
''')
body(X + "spfeats.py", "spectral_flatness", '''
m = np.abs(spectrum)
return np.exp(np.mean(np.log(m))) / np.mean(m)
''')
