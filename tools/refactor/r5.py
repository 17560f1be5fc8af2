U = "spafe/utils/"
X = "spafe/features/"
B = "spafe/fbanks/"
F = "spafe/frequencies/fundamental_frequencies.py"
D = "spafe/frequencies/dominant_frequencies.py"
# one front end shared by the extractors, in its own module
write(U + "frontend.py", '''"""shared steps of the extractors"""
from typing import NamedTuple, Optional

import numpy as np
from scipy.fftpack import dct

from .cepstral import lifter_ceps, normalize_ceps
from .preprocessing import SlidingWindow, framing, pre_emphasis, windowing, zero_handling


class Spectrum(NamedTuple):
    magnitude: np.ndarray
    power: np.ndarray


def short_time_frames(sig, fs, window: Optional[SlidingWindow], coeff=None):
    """windowed frames of the (pre-emphasised) signal"""
    window = SlidingWindow() if window is None else window
    if coeff is not None:
        sig = pre_emphasis(sig, coeff)
    frames, length = framing(sig=sig, fs=fs, win_len=window.win_len, win_hop=window.win_hop)
    return windowing(frames, length, window.win_type)


def spectrum_of(frames, nfft) -> Spectrum:
    half = nfft // 2 + 1
    magnitude = np.abs(np.fft.fft(frames, nfft)[:, :half])
    return Spectrum(magnitude=magnitude, power=magnitude**2 / nfft)


def log_energy(magnitude, nfft):
    total = np.einsum("ij,ij->i", magnitude, magnitude) / nfft
    return np.log(zero_handling(total))


def cepstrum(values, num_ceps, dct_type):
    return dct(values, type=dct_type, norm="ortho")[:, :num_ceps]


def finish(ceps, lifter, normalize):
    """the last two steps"""
    if lifter:
        ceps = lifter_ceps(ceps, lifter)
    if not normalize:
        return ceps
    return normalize_ceps(ceps, normalize)
''')
IMP = "from ..utils.frontend import cepstrum, finish, log_energy, short_time_frames, spectrum_of\n"
for f in ("mfcc", "gfcc", "lfcc", "bfcc", "msrcc", "ngcc", "psrcc", "pncc", "lpc", "rplp", "cqcc"):
    add(X + f + ".py", IMP)
SPEC = '''
if fbanks is None:
    fbanks = %s(
        nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq, scale=scale%s
    )[0]
windows = short_time_frames(sig, fs, window, pre_emph_coeff if pre_emph else None)
spectrum = spectrum_of(windows, nfft)
return spectrum.power @ fbanks.T, spectrum.magnitude
'''
CA = ", conversion_approach=conversion_approach"
body(X + "mfcc.py", "mel_spectrogram", SPEC % ("mel_filter_banks", CA))
body(X + "gfcc.py", "erb_spectrogram", SPEC % ("gammatone_filter_banks", CA))
body(X + "lfcc.py", "linear_spectrogram", SPEC % ("linear_filter_banks", ""))
body(X + "bfcc.py", "bark_spectrogram", SPEC % ("bark_filter_banks", CA))
body(X + "mfcc.py", "mfcc", '''
if nfilts < num_ceps:
    raise ParameterError(ErrorMsgs["nfilts"])
features, magnitude = mel_spectrogram(
    sig=sig,
    fs=fs,
    pre_emph=pre_emph,
    pre_emph_coeff=pre_emph_coeff,
    window=window,
    nfilts=nfilts,
    nfft=nfft,
    low_freq=low_freq,
    high_freq=high_freq,
    scale=scale,
    fbanks=fbanks,
    conversion_approach=conversion_approach,
)
ceps = cepstrum(np.log(zero_handling(features)), num_ceps, dct_type)
if use_energy:
    ceps[:, 0] = log_energy(magnitude, nfft)
return finish(ceps, lifter, normalize)
''')
body(X + "bfcc.py", "intensity_power_law", '''
squared = w * w
numerator = (squared + 56.8e6) * squared**2
denominator = (squared + 6.3e6) * (squared + 0.38e9)
denominator = denominator * (squared**3 + 9.58e26)
return np.power(numerator / denominator, 1.0 / 3)
''')
for f, v in (("bfcc", "bfccs"), ("gfcc", "gfccs"), ("msrcc", "msrccs")):
    t = read(X + f + ".py")
    k = t.rindex("    if lifter:")
    write(X + f + ".py", t[:k] + "    return finish(%s, lifter=lifter, normalize=normalize)\n" % v)
body(X + "psrcc.py", "psrcc", '''
if num_ceps > nfilts:
    raise ParameterError(ErrorMsgs["nfilts"])
if fbanks is None:
    fbanks, _ = mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)
windows = short_time_frames(sig, fs, window, coeff=pre_emph_coeff if pre_emph else None)
transform = np.fft.rfft(windows, nfft)
phases = np.degrees(np.angle(transform))
phases = np.where(phases < 0, phases + 360, phases)
features = zero_handling(phases.dot(fbanks.T)) ** gamma
features[np.isnan(features)] = 0
features[np.isinf(features)] = features.max()
psrccs = cepstrum(features, num_ceps, dct_type)
if use_energy:
    psrccs[:, 0] = log_energy(np.abs(transform), nfft)
return finish(psrccs, lifter, normalize)
''')
body(X + "pncc.py", "pncc", '''
if nfilts < num_ceps:
    raise ParameterError(ErrorMsgs["nfilts"])
bank = fbanks
if bank is None:
    bank, _ = gammatone_filter_banks(
        nfilts=nfilts,
        nfft=nfft,
        fs=fs,
        low_freq=low_freq,
        high_freq=high_freq,
        scale=scale,
        conversion_approach=conversion_approach,
    )
windows = short_time_frames(sig, fs, window, pre_emph_coeff if pre_emph else None)
magnitude = spectrum_of(windows, nfft).magnitude
P = np.matmul(magnitude**power / nfft, np.transpose(bank))
bands = P.shape[1]
Q_tilde = medium_time_power_calculation(P)
R_tilde = asymmetric_noise_suppression_with_temporal_masking(Q_tilde)
T = weight_smoothing(R_tilde, Q_tilde, nfilts=bands) * P
U = mean_power_normalization(T, nfilts=bands)
return finish(cepstrum(np.power(U, 1 / 15), num_ceps, dct_type), lifter, normalize)
''')
body(X + "pncc.py", "weight_smoothing", '''
ratio = R_tilde / zero_handling(Q_tilde)
smoothed = []
for row in ratio:
    smoothed.append([np.mean(row[max(l - N, 0) : min(l + N, nfilts - 1) + 1]) for l in range(ratio.shape[1])])
return np.array(smoothed)
''')
body(X + "pncc.py", "mean_power_normalization", '''
level = [0.0001]
for row in T[1:]:
    level.append(lam_myu * level[-1] + (1 - lam_myu) * row[:nfilts].mean())
return k * (T / np.array(level)[:, np.newaxis])
''')
body(X + "pncc.py", "asymmetric_lowpass_filtering", '''
n_frames, n_bands = Q_tilde_in.shape
out = [0.9 * Q_tilde_in[0]]
for current in Q_tilde_in[1:]:
    last = out[-1]
    rising = current >= last
    slow = lm_a * last + (1 - lm_a) * current
    fast = lm_b * last + (1 - lm_b) * current
    out.append(np.where(rising, slow, fast))
return np.stack(out)
''')
# linear prediction
body(X + "lpc.py", "__lpc_helper", '''
n = frame.size
r = np.zeros(order + 1, frame.dtype)
for lag in range(min(order + 1, n)):
    r[lag] = np.dot(frame[: n - lag], frame[lag:])
r[0] = zero_handling(r[0])
inverse = linalg.inv(linalg.toeplitz(r[:order]))
phi = -inverse @ r[1:]
a = np.hstack((1.0, phi))
return a, np.abs(np.sum(r * a))
''')
body(X + "lpc.py", "lpc", '''
windows = short_time_frames(sig, fs, window, pre_emph_coeff if pre_emph else None)
n_frames = len(windows)
coefficients = np.empty((n_frames, order))
errors = np.empty((n_frames, 1))
for i in range(n_frames):
    coefficients[i], errors[i, 0] = __lpc_helper(windows[i], order - 1)
return coefficients, errors
''')
body(X + "lpc.py", "lpcc", '''
windows = short_time_frames(sig, fs, window, pre_emph_coeff if pre_emph else None)
results = (__lpc_helper(frame, order - 1) for frame in windows)
lpccs = np.array([lpc2lpcc(a, e, order) for a, e in results])
return finish(lpccs, lifter, normalize)
''')
# preprocessing
body(U + "preprocessing.py", "zero_handling", '''
x = np.asarray(x)
out = np.array(x, dtype=float)
out[x == 0] = np.finfo(float).eps
return out
''')
body(U + "preprocessing.py", "pre_emphasis", '''
sig = np.asarray(sig)
return np.append(sig[0], sig[1:] - pre_emph_coeff * sig[:-1])
''')
body(U + "preprocessing.py", "stride_trick", '''
a = np.array(a)
count = 1 + (len(a) - stride_length) // stride_step
index = stride_step * np.arange(count)[:, None] + np.arange(stride_length)[None, :]
return a[index]
''')
body(U + "preprocessing.py", "windowing", '''
if win_type == "kaiser":
    weights = np.kaiser(frame_len, 14)
else:
    weights = {
        "hanning": np.hanning,
        "bartlet": np.bartlett,
        "blackman": np.blackman,
        "hamming": np.hamming,
    }[win_type](frame_len)
return np.multiply(frames, weights)
''')
# cepstral helpers
body(U + "cepstral.py", "deltas", '''
half = w // 2
left = np.repeat(x[:, :1], half, axis=1)
right = np.repeat(x[:, -1:], half, axis=1)
padded = np.concatenate((left, x, right), axis=1)
n = x.shape[1]
return sum(k * padded[:, half + k : half + k + n] for k in range(-half, half + 1)) + np.zeros(x.shape)
''')
body(U + "cepstral.py", "lifter_ceps", '''
if not lift or lift > 10:
    return ceps
count = ceps.shape[1]
positions = np.arange(count)
if lift < 0:
    length = int(-lift)
    return ceps * (1 + length / 2.0 * np.sin(np.pi * (positions + 1) / length))
weights = np.where(positions == 0, 1, positions**lift)
return ceps * weights
''')
body(U + "cepstral.py", "normalize_ceps", '''
if normalization_type not in ("mvn", "ms", "vn", "mn"):
    raise KeyError(normalization_type)
if normalization_type == "mn":
    lowest, highest = x.min(), x.max()
    return (x - np.mean(x)) / (highest - lowest)
if normalization_type in ("mvn", "ms"):
    centred = x - np.mean(x, axis=0, keepdims=True)
else:
    centred = x
return centred if normalization_type == "ms" else centred / np.std(x)
''')
# filters
body(U + "filters.py", "scale_fbank", '''
step = 1 / nfilts
gains = {
    "ascendant": lambda: np.linspace(step, 1, nfilts),
    "descendant": lambda: np.linspace(1, step, nfilts),
    "constant": lambda: np.ones(nfilts),
}[scale]()
return gains.reshape((-1, 1))
''')
# banks
body(B + "mel_fbanks.py", "mel_filter_banks_helper", '''
top = fs / 2
high_freq = high_freq if high_freq else top
for bad, key in ((low_freq < 0, "low_freq"), (high_freq > top, "high_freq")):
    if bad:
        raise ParameterError(ErrorMsgs[key])

mel = fb_type == "mel"
first = hz2mel(low_freq, conversion_approach) if mel else low_freq
last = hz2mel(high_freq, conversion_approach) if mel else high_freq
points = np.linspace(first, last, nfilts + 2)
edges = mel2hz(points, conversion_approach) if mel else points

freqs = np.linspace(low_freq, high_freq, nfft // 2 + 1)
fbank = np.zeros((nfilts, nfft // 2 + 1))
for j in range(nfilts):
    lower, center, upper = edges[j : j + 3]
    rising = (freqs - lower) / (center - lower)
    falling = (upper - freqs) / (upper - center)
    fbank[j] = np.clip(np.minimum(rising, falling), 0, None)
return fbank * scale_fbank(scale=scale, nfilts=nfilts), points[1:-1]
''')
body(B + "mel_fbanks.py", "inverse_mel_filter_banks", '''
high_freq = high_freq or fs / 2
mirrored = {"ascendant": "descendant", "descendant": "ascendant"}.get(scale, scale)
bank, freqs = mel_filter_banks_helper(
    nfilts, nfft, fs, low_freq, high_freq, mirrored, conversion_approach=conversion_approach
)
reflected = low_freq + high_freq - mel2hz(freqs, conversion_approach)
return np.abs(np.fliplr(bank)), [hz2mel(freq, conversion_approach) for freq in reflected]
''')
body(B + "bark_fbanks.py", "bark_filter_banks", '''
high_freq = high_freq or fs / 2
if low_freq < 0:
    raise ParameterError(ErrorMsgs["low_freq"])
if high_freq > fs / 2:
    raise ParameterError(ErrorMsgs["high_freq"])

edges = [hz2bark(edge, conversion_approach) for edge in (low_freq, high_freq)]
centers = np.linspace(edges[0], edges[1], nfilts)
to_bin = lambda bark: int(np.floor((nfft + 1) * (bark2hz(bark, conversion_approach) / fs)))
first, last = to_bin(centers[0]), to_bin(centers[nfilts - 1])
positions = {i: hz2bark(i * fs / (nfft + 1), conversion_approach) for i in range(first, last)}
fbank = np.zeros((nfilts, nfft // 2 + 1))
for i in range(first, last):
    for j, center in enumerate(centers):
        fbank[j, i] = Fm(positions[i], center)
return fbank * scale_fbank(scale, nfilts), centers
''') if False else body(B + "bark_fbanks.py", "bark_filter_banks", '''
high_freq = high_freq or fs / 2
if low_freq < 0:
    raise ParameterError(ErrorMsgs["low_freq"])
if high_freq > fs / 2:
    raise ParameterError(ErrorMsgs["high_freq"])

edges = [hz2bark(edge, conversion_approach) for edge in (low_freq, high_freq)]
centers = np.linspace(edges[0], edges[1], nfilts)


def to_bin(bark):
    return int(np.floor((nfft + 1) * (bark2hz(bark, conversion_approach) / fs)))


first, last = to_bin(centers[0]), to_bin(centers[nfilts - 1])
fbank = np.zeros((nfilts, nfft // 2 + 1))
for i in range(first, last):
    position = hz2bark(i * fs / (nfft + 1), conversion_approach)
    for j, center in enumerate(centers):
        fbank[j, i] = Fm(position, center)
return fbank * scale_fbank(scale, nfilts), centers
''')
body(B + "gammatone_fbanks.py", "generate_center_frequencies", '''
offset = EarQ * minBW
low, high = np.log(min_freq + offset), np.log(max_freq + offset)
steps = np.arange(nfilts, 0, -1) / nfilts
return np.exp(high + steps * (low - high)) - offset
''')
# frequencies
body(D, "get_dominant_frequencies", '''
if butter_filter:
    nyquist = fs / 2
    numer, denom = signal.butter(6, [lower_cutoff / nyquist, upper_cutoff / nyquist], btype="bandpass")
    sig = signal.lfilter(numer, denom, sig)

frames, frame_length = framing(sig=sig, fs=fs, win_len=win_len, win_hop=win_hop)
bin_freqs = np.fft.rfftfreq(nfft, 1 / fs)


def strongest(frame):
    power = np.abs(np.fft.rfft(frame, nfft)) ** 2
    return bin_freqs[np.argmax(power)]


found = np.array([strongest(frame) for frame in windowing(frames, frame_length, win_type)]).round(3)
if only_positive:
    found = found[found >= 0]
return found
''')
body(F, "compute_difference", '''
x = np.array(x, np.float64)
n = len(x)
energy = np.cumsum(np.concatenate(([0.0], x**2)))
correlation = signal.fftconvolve(x, x[::-1])[n - 1 :]
head = energy[n:0:-1]
tail = energy[-1] - energy[:n]
return (head + tail - 2 * correlation)[:tau_max]
''')
body(F, "compute_cmnd", '''
later = d_t[1:]
lags = np.arange(1, tau)
return np.concatenate(([1], later * lags / np.cumsum(later)))
''')
body(F, "get_pitch", '''
tau = tau_min
while tau < tau_max and not cmdf[tau] < harmonic_threshold:
    tau += 1
if tau >= tau_max:
    return 0
while tau + 1 < tau_max:
    if cmdf[tau + 1] >= cmdf[tau]:
        break
    tau += 1
return tau
''')
# spectral descriptors
body(X + "spfeats.py", "spectral_centroid", '''
weights = np.abs(spectrum)
n = len(spectrum)
freqs = np.abs(np.fft.fftfreq(n, d=1.0 / fs))
return np.average(freqs**i, weights=weights)
''')
body(X + "spfeats.py", "extract_feats", '''
spectrum = np.fft.rfft(sig, nfft)
feats = {
    "spectral_" + name: value
    for name, value in (
        ("centroid", spectral_centroid(fs, spectrum)),
        ("skewness", spectral_skewness(sig, fs, spectrum)),
        ("kurtosis", spectral_kurtosis(sig, fs, spectrum)),
        ("entropy", spectral_entropy(spectrum)),
        ("spread", spectral_spread(sig, fs, spectrum)),
        ("flatness", spectral_flatness(spectrum)),
        ("rolloff", spectral_rolloff(spectrum)),
        ("flux", spectral_flux(spectrum)),
        ("mean", spectrum.mean()),
        ("rms", np.sqrt(np.mean(spectrum**2))),
        ("std", spectrum.std()),
        ("variance", spectrum.var()),
    )
}
return feats
''')
# constant-Q
sub(U + "spectral.py", "    kernel[np.abs(kernel) <= spectral_threshold] = 0.0\n", "    kernel = np.where(np.abs(kernel) > spectral_threshold, kernel, 0.0)\n")
body(X + "cqcc.py", "cqcc", '''
transform = cqt_spectrogram(
    sig,
    fs=fs,
    pre_emph=pre_emph,
    pre_emph_coeff=pre_emph_coeff,
    window=window,
    nfft=nfft,
    low_freq=low_freq,
    high_freq=high_freq,
    number_of_octaves=number_of_octaves,
    number_of_bins_per_octave=number_of_bins_per_octave,
    spectral_threshold=spectral_threshold,
    f0=f0,
    q_rate=q_rate,
)
log_power = np.log(zero_handling(np.abs(transform.T) ** 2))
count = int(len(log_power) * resampling_ratio)
return finish(cepstrum(resample(log_power, count), num_ceps, dct_type), lifter, normalize)
''')
