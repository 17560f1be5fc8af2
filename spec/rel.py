"""Relations between library results, written as the documentation states them."""
import numpy as np
import scipy.fftpack
from spafe.utils.cepstral import lifter_ceps, normalize_ceps
from spafe.features import spfeats
from spafe.frequencies.fundamental_frequencies import compute_difference, compute_cmnd, get_pitch
from vref.ref import log_energy, zero_handling, dct_rows, intensity_power_law


def finish(ceps, lifter, normalize):
    if lifter is not None:
        ceps = lifter_ceps(ceps, lifter)
    if normalize is not None:
        ceps = normalize_ceps(ceps, normalize)
    return ceps


def energy(ceps, mag, nfft, lifter, normalize):
    out = ceps.copy()
    out[:, 0] = log_energy(mag, nfft)
    return finish(out, lifter, normalize)


def from_spectrogram(spec, kind, gamma, dct_type, num_ceps):
    if kind == "log":
        x = np.log(zero_handling(spec))
    elif kind == "law":
        x = np.log(zero_handling(intensity_power_law(spec)))
    elif kind == "cube":
        x = np.power(spec, 1 / 3)
    elif kind == "root":
        x = np.power(zero_handling(spec), gamma)
    return dct_rows(x, dct_type, num_ceps)


def scaled(bank, scale, mirrored):
    fb, centers = bank
    n = fb.shape[0]
    w = np.ones(n)
    for i in range(n):
        if scale == "constant":
            w[i] = 1
        elif (scale == "ascendant") != mirrored:
            w[i] = (i + 1) / n
        else:
            w[i] = (n - i) / n
    return fb * w[:, None], centers


def extract_feats(sig, fs, nfft):
    s = np.fft.rfft(sig, nfft)
    return {
        "spectral_centroid": spfeats.spectral_centroid(fs, s),
        "spectral_skewness": spfeats.spectral_skewness(sig, fs, s),
        "spectral_kurtosis": spfeats.spectral_kurtosis(sig, fs, s),
        "spectral_entropy": spfeats.spectral_entropy(s),
        "spectral_spread": spfeats.spectral_spread(sig, fs, s),
        "spectral_flatness": spfeats.spectral_flatness(s),
        "spectral_rolloff": spfeats.spectral_rolloff(s),
        "spectral_flux": spfeats.spectral_flux(s),
        "spectral_mean": np.mean(s),
        "spectral_rms": np.sqrt(np.mean(s ** 2)),
        "spectral_std": np.std(s),
        "spectral_variance": np.var(s),
    }


def compute_yin(sig, fs, win_len, win_hop, low_freq, high_freq, harmonic_threshold):
    """frames of win_len seconds every win_hop seconds, lags between fs/high_freq and fs/low_freq"""
    tau_min = int(fs / high_freq)
    tau_max = int(fs / low_freq)
    n = int(win_len * fs)
    step = int(win_hop * fs)
    rows = len(range(0, len(sig) - n, step))
    pitches = np.zeros(rows)
    rates = np.zeros(rows)
    dips = np.zeros(rows)
    times = np.zeros(rows)
    for i in range(rows):
        t = i * step
        d = compute_cmnd(compute_difference(sig[t: t + n], tau_max), tau_max)
        p = get_pitch(d, tau_min, tau_max, harmonic_threshold)
        times[i] = t / fs
        pitches[i] = 0 if p == 0 else fs / p
        rates[i] = np.min(d) if p == 0 else d[p]
        k = np.argmin(d)
        dips[i] = fs / k if k > tau_min else 0
    return pitches, rates, dips, times
