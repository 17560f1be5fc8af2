"""Reference semantics, read by the analyser (never executed).

Each function states the documented behaviour of the library function of the
same name, in the same argument names."""
import numpy as np
import scipy.signal
import scipy.fftpack
import scipy.linalg

EPS = np.finfo(float).eps


# ----------------------------------------------------------- preprocessing
def zero_handling(x):
    return np.where(x == 0, EPS, x)


def pre_emphasis(sig, pre_emph_coeff):
    n = len(sig)
    y = np.zeros(n)
    y[0] = sig[0]
    for t in range(1, n):
        y[t] = sig[t] - pre_emph_coeff * sig[t - 1]
    return y


def framing(sig, fs, win_len, win_hop):
    frame_length = int(win_len * fs)
    hop = int(win_hop * fs)
    nrows = (len(sig) - frame_length) // hop + 1
    frames = np.zeros((nrows, frame_length))
    for k in range(nrows):
        for j in range(frame_length):
            frames[k, j] = sig[k * hop + j]
    return frames, frame_length


def window_vector(frame_len, win_type):
    if win_type == "hanning":
        return np.hanning(frame_len)
    if win_type == "bartlet":
        return np.bartlett(frame_len)
    if win_type == "kaiser":
        return np.kaiser(frame_len, 14)
    if win_type == "blackman":
        return np.blackman(frame_len)
    return np.hamming(frame_len)


def windowing(frames, frame_len, win_type):
    return frames * window_vector(frame_len, win_type)


def windowed_frames(sig, fs, pre_emph, pre_emph_coeff, win_len, win_hop, win_type):
    if pre_emph:
        sig = pre_emphasis(sig, pre_emph_coeff)
    frames, frame_length = framing(sig, fs, win_len, win_hop)
    return windowing(frames, frame_length, win_type)


# -------------------------------------------------------------- converters
def hz2erb(f, approach="Glasberg"):
    return (1000 * np.log(10)) / (24.7 * 4.37) * np.log10(1 + f * 0.00437)


def erb2hz(fe, approach="Glasberg"):
    return (10 ** (fe / ((1000 * np.log(10)) / (24.7 * 4.37))) - 1) / 0.00437


def hz2bark(f, approach="Wang"):
    if approach == "Tjomov":
        return 6.7 * np.arcsinh((f + 20) / 600)
    if approach == "Schroeder":
        return 7 * np.arcsinh(f / 650)
    if approach == "Terhardt":
        return 13.3 * np.arctan((f * 0.75) / 1000)
    if approach == "Zwicker":
        return 8.7 + 14.2 * np.log10(f / 1000)
    if approach == "Traunmueller":
        fb = 26.81 * f / (1960 + f) - 0.53
        return np.where(fb < 2, 0.85 * fb + 0.3, np.where(fb > 20.1, 1.22 * fb - 4.422, fb))
    return 6 * np.arcsinh(f / 600)


def bark2hz(fb, approach="Wang"):
    if approach == "Tjomov":
        return 600 * np.sinh(fb / 6.7) - 20
    if approach == "Schroeder":
        return 650 * np.sinh(fb / 7)
    if approach == "Terhardt":
        return 1000 / 0.75 * np.tan(fb / 13.3)
    if approach == "Zwicker":
        return 10 ** ((fb - 8.7) / 14.2 + 3)
    if approach == "Traunmueller":
        z = np.where(fb < 2, (fb - 0.3) / 0.85, np.where(fb > 20.1, (fb + 4.422) / 1.22, fb))
        return 1960 * ((z + 0.53) / (26.28 - z))
    return 600 * np.sinh(fb / 6)


def hz2mel(f, approach="Oshaghnessy"):
    if approach == "Beranek":
        return 1127 * np.log(1 + f / 700.0)
    if approach == "Lindsay":
        return 2410 * np.log10(1 + f / 625)
    return 2595 * np.log10(1 + f / 700.0)


def mel2hz(fm, approach="Oshaghnessy"):
    if approach == "Beranek":
        return 700 * (np.exp(fm / 1127.0) - 1)
    if approach == "Lindsay":
        return 625 * (10 ** (fm / 2410) - 1)
    return 700 * (10 ** (fm / 2595.0) - 1)


# ---------------------------------------------------------------- cepstral
def normalize_ceps(x, normalization_type):
    if normalization_type == "mvn":
        return (x - np.mean(x, axis=0)) / np.std(x)
    if normalization_type == "ms":
        return x - np.mean(x, axis=0)
    if normalization_type == "vn":
        return x / np.std(x)
    return (x - np.mean(x)) / (np.max(x) - np.min(x))


def lifter_ceps(ceps, lift):
    n = ceps.shape[1]
    if lift == 0 or lift > 10:
        return ceps
    if lift > 0:
        w = np.arange(n) ** lift
        w[0] = 1
        return ceps * w
    L = -lift
    return ceps * (1 + L / 2.0 * np.sin(np.pi * np.arange(1, n + 1) / L))


def deltas(x, w):
    rows, cols = x.shape
    h = w // 2
    out = np.zeros((rows, cols))
    for i in range(rows):
        for j in range(cols):
            s = 0
            for k in range(-h, h + 1):
                s = s + k * x[i, min(max(j + k, 0), cols - 1)]
            out[i, j] = s
    return out


def finish(ceps, lifter, normalize):
    if lifter:
        ceps = lifter_ceps(ceps, lifter)
    if normalize:
        ceps = normalize_ceps(ceps, normalize)
    return ceps


# ----------------------------------------------------------------- filters
def scale_fbank(scale, nfilts):
    out = np.ones((nfilts, 1))
    for i in range(nfilts):
        if scale == "ascendant":
            out[i, 0] = (i + 1) / nfilts
        elif scale == "descendant":
            out[i, 0] = (nfilts - i) / nfilts
    return out


def triangles(lower, center, upper, freqs):
    rise = (freqs[None, :] - lower[:, None]) / (center - lower)[:, None]
    fall = (upper[:, None] - freqs[None, :]) / (upper - center)[:, None]
    return np.maximum(0, np.minimum(rise, fall))


def mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    lo = hz2mel(low_freq, conversion_approach)
    hi = hz2mel(high_freq, conversion_approach)
    edges = lo + (hi - lo) / (nfilts + 1) * np.arange(nfilts + 2)
    hz = mel2hz(edges, conversion_approach)
    freqs = low_freq + (high_freq - low_freq) / (nfft // 2) * np.arange(nfft // 2 + 1)
    fb = triangles(hz[:-2], hz[1:-1], hz[2:], freqs)
    return fb * scale_fbank(scale, nfilts), edges[1:-1]


def linear_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale):
    hz = low_freq + (high_freq - low_freq) / (nfilts + 1) * np.arange(nfilts + 2)
    freqs = low_freq + (high_freq - low_freq) / (nfft // 2) * np.arange(nfft // 2 + 1)
    fb = triangles(hz[:-2], hz[1:-1], hz[2:], freqs)
    return fb * scale_fbank(scale, nfilts), hz[1:-1]


def inverse_mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    mirrored = scale
    if scale == "ascendant":
        mirrored = "descendant"
    if scale == "descendant":
        mirrored = "ascendant"
    fb, mels = mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, mirrored, conversion_approach)
    return fb[:, ::-1], hz2mel(low_freq + high_freq - mel2hz(mels, conversion_approach), conversion_approach)


def Fm(fb, fc):
    d = fb - fc
    if d < -1.3 or d > 2.5:
        return 0
    if d <= -0.5:
        return 10 ** (2.5 * (d + 0.5))
    if d < 0.5:
        return 1
    return 10 ** (0.5 - d)


def bark_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    lo = hz2bark(low_freq, conversion_approach)
    hi = hz2bark(high_freq, conversion_approach)
    centers = np.linspace(lo, hi, nfilts)
    first = int(np.floor((nfft + 1) * (bark2hz(centers[0], conversion_approach) / fs)))
    last = int(np.floor((nfft + 1) * (bark2hz(centers[nfilts - 1], conversion_approach) / fs)))
    fb = np.zeros((nfilts, nfft // 2 + 1))
    for j in range(nfilts):
        for i in range(first, last):
            fb[j, i] = Fm(hz2bark(i * fs / (nfft + 1), conversion_approach), centers[j])
    return fb * scale_fbank(scale, nfilts), centers


def generate_center_frequencies(min_freq, max_freq, nfilts):
    c = 9.26449 * 24.7
    m = np.arange(1, nfilts + 1)
    f = (max_freq + c) * np.exp(m / nfilts * (np.log(min_freq + c) - np.log(max_freq + c))) - c
    return f[::-1]


def gammatone_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach="Glasberg", order=4):
    T = 1 / fs
    fcs = generate_center_frequencies(low_freq, high_freq, nfilts)
    erb = ((fcs / 9.26449) ** order + 24.7 ** order) ** (1 / order)
    B = 1.019 * 2 * np.pi * erb
    K = np.exp(B * T)
    w = 2 * fcs * np.pi * T
    c = np.cos(w)
    s = np.sin(w)
    p = np.sqrt(3 + 2 ** (3 / 2))
    q = np.sqrt(3 - 2 ** (3 / 2))
    z1 = (c + p * s) / K
    z2 = (c - p * s) / K
    z3 = (c + q * s) / K
    z4 = (c - q * s) / K
    e = np.exp(1j * w)
    g = 2 * T * e
    coe = -2 / K ** 2 - 2 * e ** 2 + 2 * (1 + e ** 2) / K
    gain = np.abs(g * (z1 - e) * (g * (z2 - e)) * (g * (z3 - e)) * (g * (z4 - e)) * coe ** (-4))
    u = np.exp(1j * 2 * np.pi * np.arange(nfft // 2 + 1) / nfft)
    pole = e / K
    mag = T ** 4 / gain[:, None] * np.abs(
        (u[None, :] - z1[:, None]) * (u[None, :] - z2[:, None])
        * (u[None, :] - z3[:, None]) * (u[None, :] - z4[:, None])
    ) * np.abs((u[None, :] - pole[:, None]) * (u[None, :] - np.conj(pole)[:, None])) ** (-4)
    fb = mag / np.max(mag, axis=1)[:, None]
    return fb * scale_fbank(scale, nfilts), hz2erb(fcs, conversion_approach)


def rasta_filter(x):
    b = np.array([2, 1, 0, -1, -2]) / 10
    rows, cols = x.shape
    y = np.zeros((rows, cols))
    z = scipy.signal.lfilter_zi(b, 1)
    for i in range(rows):
        _, z = scipy.signal.lfilter(b, 1, x[i, :4], zi=z * x[i, 0])
        y2, _ = scipy.signal.lfilter(b, np.array([1, -0.94]), x[i, 4:], zi=z)
        y[i, 4:] = y2
    return y


# ------------------------------------------------------------ spectrograms
def magnitude(windows, nfft):
    return np.abs(np.fft.rfft(windows, nfft))


def power(mag, nfft):
    return 1.0 / nfft * mag ** 2


def spectrogram(sig, fs, pre_emph, pre_emph_coeff, win, nfft, fbanks):
    w = windowed_frames(sig, fs, pre_emph, pre_emph_coeff, win[0], win[1], win[2])
    mag = magnitude(w, nfft)
    return np.dot(power(mag, nfft), fbanks.T), mag


def win_of(window):
    if window is None:
        return 0.025, 0.01, "hamming"
    return window.win_len, window.win_hop, window.win_type


def mel_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    if fbanks is None:
        return mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)[0]
    return fbanks


def imel_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    if fbanks is None:
        return inverse_mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)[0]
    return fbanks


def bark_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    if fbanks is None:
        return bark_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)[0]
    return fbanks


def erb_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    if fbanks is None:
        return gammatone_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)[0]
    return fbanks


def lin_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale):
    if fbanks is None:
        return linear_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale)[0]
    return fbanks


def mel_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, fbanks,
                    conversion_approach="Oshaghnessy"):
    fb = mel_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)
    return spectrogram(sig, fs, pre_emph, pre_emph_coeff, win_of(window), nfft, fb)


def bark_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, fbanks,
                     conversion_approach="Wang"):
    fb = bark_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)
    return spectrogram(sig, fs, pre_emph, pre_emph_coeff, win_of(window), nfft, fb)


def erb_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, fbanks,
                    conversion_approach="Glasberg"):
    fb = erb_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)
    return spectrogram(sig, fs, pre_emph, pre_emph_coeff, win_of(window), nfft, fb)


def linear_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, fbanks):
    fb = lin_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale)
    return spectrogram(sig, fs, pre_emph, pre_emph_coeff, win_of(window), nfft, fb)


# ----------------------------------------------------------------- cepstra
def dct_rows(x, dct_type, num_ceps):
    return scipy.fftpack.dct(x, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]


def log_energy(mag, nfft):
    return np.log(zero_handling(np.sum(power(mag, nfft), axis=1)))


def cepstra(compressed, mag, num_ceps, nfft, dct_type, use_energy, lifter, normalize):
    c = dct_rows(compressed, dct_type, num_ceps)
    if use_energy:
        c[:, 0] = log_energy(mag, nfft)
    return finish(c, lifter, normalize)


def mfcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, dct_type,
         use_energy, lifter, normalize, fbanks, conversion_approach="Oshaghnessy"):
    s, mag = mel_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                             fbanks, conversion_approach)
    return cepstra(np.log(zero_handling(s)), mag, num_ceps, nfft, dct_type, use_energy, lifter, normalize)


def imfcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, dct_type,
          use_energy, lifter, normalize, fbanks, conversion_approach="Oshaghnessy"):
    fb = imel_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)
    return mfcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                dct_type, use_energy, lifter, normalize, fb, conversion_approach)


def intensity_power_law(w):
    E = ((w ** 2 + 56.8 * 10 ** 6) * w ** 4) / (
        (w ** 2 + 6.3 * 10 ** 6) * (w ** 2 + 0.38 * 10 ** 9) * (w ** 6 + 9.58 * 10 ** 26))
    return E ** (1 / 3)


def bfcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, dct_type,
         use_energy, lifter, normalize, fbanks, conversion_approach="Wang"):
    s, mag = bark_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                              fbanks, conversion_approach)
    return cepstra(np.log(zero_handling(intensity_power_law(s))), mag, num_ceps, nfft, dct_type, use_energy, lifter,
                   normalize)


def gfcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, dct_type,
         use_energy, lifter, normalize, fbanks, conversion_approach="Glasberg"):
    s, mag = erb_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                             fbanks, conversion_approach)
    return cepstra(s ** (1 / 3), mag, num_ceps, nfft, dct_type, use_energy, lifter, normalize)


def ngcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, dct_type,
         use_energy, lifter, normalize, fbanks, conversion_approach="Glasberg"):
    s, mag = erb_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                             fbanks, conversion_approach)
    return cepstra(np.log(zero_handling(s)), mag, num_ceps, nfft, dct_type, use_energy, lifter, normalize)


def lfcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, dct_type,
         use_energy, lifter, normalize, fbanks):
    s, mag = linear_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                                fbanks)
    return cepstra(np.log(zero_handling(s)), mag, num_ceps, nfft, dct_type, use_energy, lifter, normalize)


def msrcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, gamma,
          dct_type, use_energy, lifter, normalize, fbanks, conversion_approach="Oshaghnessy"):
    s, mag = mel_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                             fbanks, conversion_approach)
    return cepstra(zero_handling(s) ** gamma, mag, num_ceps, nfft, dct_type, use_energy, lifter, normalize)


def psrcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, gamma,
          dct_type, use_energy, lifter, normalize, fbanks, conversion_approach="Oshaghnessy"):
    fb = mel_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)
    win = win_of(window)
    spec = np.fft.rfft(windowed_frames(sig, fs, pre_emph, pre_emph_coeff, win[0], win[1], win[2]), nfft)
    ang = np.angle(spec) * 180 / np.pi
    ang = np.where(ang < 0, ang + 360, ang)
    s = np.dot(ang, fb.T)
    return cepstra(zero_handling(s) ** gamma, np.abs(spec), num_ceps, nfft, dct_type, use_energy, lifter, normalize)


# --------------------------------------------------------- linear prediction
def lpc_frame(frame, p):
    """order-p predictor of one frame: (1, a_1 .. a_p) and the error term"""
    n = len(frame)
    r = np.zeros(p + 1)
    for k in range(p + 1):
        r[k] = np.sum(frame[: n - k] * frame[k:])
    r[0] = np.where(r[0] == 0, EPS, r[0])
    R = np.zeros((p, p))
    for i in range(p):
        for j in range(p):
            R[i, j] = r[abs(i - j)]
    phi = np.dot(scipy.linalg.inv(R), -r[1:])
    a = np.concatenate((np.ones(1), phi))
    return a, np.abs(np.sum(r * a))


def lpc2lpcc(a, e, nceps):
    p = len(a)
    c = np.ones(nceps)
    c[0] = np.log(zero_handling(e))
    for m in range(1, nceps):
        s = 0
        if m < p:
            s = a[m]
            for k in range(1, m):
                s = s + k / m * a[m - k]
        else:
            for k in range(m - p + 1, m):
                s = s + k / m * a[m - k]
        c[m] = s
    return c


def lpc(sig, fs, order, pre_emph, pre_emph_coeff, window):
    win = win_of(window)
    w = windowed_frames(sig, fs, pre_emph, pre_emph_coeff, win[0], win[1], win[2])
    rows = w.shape[0]
    A = np.zeros((rows, order))
    E = np.zeros((rows, 1))
    for i in range(rows):
        a, e = lpc_frame(w[i], order - 1)
        A[i, :] = a
        E[i, 0] = e
    return A, E


def lpcc(sig, fs, order, pre_emph, pre_emph_coeff, window, lifter, normalize):
    win = win_of(window)
    w = windowed_frames(sig, fs, pre_emph, pre_emph_coeff, win[0], win[1], win[2])
    rows = w.shape[0]
    C = np.zeros((rows, order))
    for i in range(rows):
        a, e = lpc_frame(w[i], order - 1)
        C[i, :] = lpc2lpcc(a, e, order)
    return finish(C, lifter, normalize)


def rastaplp(sig, fs, order, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, lifter,
             normalize, fbanks, conversion_approach, rasta):
    s, mag = bark_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                              fbanks, conversion_approach)
    if rasta:
        s = np.exp(rasta_filter(np.log(zero_handling(s))))
    L = intensity_power_law(s)
    acf = np.abs(np.fft.ifft(L, nfft))
    rows = acf.shape[0]
    C = np.zeros((rows, order))
    for i in range(rows):
        a, e = lpc_frame(acf[i], order - 1)
        C[i, :] = lpc2lpcc(a, e, order)
    return finish(C, lifter, normalize)


def plp(sig, fs, order, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, lifter,
        normalize, fbanks, conversion_approach="Wang"):
    return rastaplp(sig, fs, order, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                    lifter, normalize, fbanks, conversion_approach, False)


def rplp(sig, fs, order, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale, lifter,
         normalize, fbanks, conversion_approach="Wang"):
    return rastaplp(sig, fs, order, pre_emph, pre_emph_coeff, window, nfilts, nfft, low_freq, high_freq, scale,
                    lifter, normalize, fbanks, conversion_approach, True)


# -------------------------------------------------------------------- pncc
def medium_time_power_calculation(P, M):
    rows, cols = P.shape
    out = np.zeros((rows, cols))
    for m in range(rows):
        for l in range(cols):
            out[m, l] = np.sum(P[max(0, m - M): min(rows, m + M + 1), l]) / (2 * M + 1)
    return out


def asymmetric_lowpass_filtering(Q_tilde_in, lm_a, lm_b):
    out = np.zeros(Q_tilde_in.shape)
    out[0, :] = 0.9 * Q_tilde_in[0, :]
    for m in range(1, Q_tilde_in.shape[0]):
        lam = np.where(Q_tilde_in[m, :] >= out[m - 1, :], lm_a, lm_b)
        out[m, :] = lam * out[m - 1, :] + (1 - lam) * Q_tilde_in[m, :]
    return out


def temporal_masking(Q_tilde_0, lam_t, myu_t):
    peak = np.zeros(Q_tilde_0.shape)
    out = np.zeros(Q_tilde_0.shape)
    peak[0, :] = Q_tilde_0[0, :]
    out[0, :] = Q_tilde_0[0, :]
    for m in range(1, Q_tilde_0.shape[0]):
        peak[m, :] = np.maximum(lam_t * peak[m - 1, :], Q_tilde_0[m, :])
        out[m, :] = np.where(Q_tilde_0[m, :] >= lam_t * peak[m - 1, :], Q_tilde_0[m, :], myu_t * peak[m - 1, :])
    return out


def weight_smoothing(R_tilde, Q_tilde, nfilts, N):
    rows, cols = R_tilde.shape
    out = np.zeros((rows, cols))
    q = zero_handling(Q_tilde)
    for m in range(rows):
        for l in range(cols):
            l1 = max(l - N, 0)
            l2 = min(l + N, nfilts - 1)
            s = 0
            for j in range(l1, l2 + 1):
                s = s + R_tilde[m, j] / q[m, j]
            out[m, l] = s / (l2 - l1 + 1)
    return out


def mean_power_normalization(T, lam_myu, nfilts, k):
    rows = T.shape[0]
    mu = np.zeros(rows)
    mu[0] = 0.0001
    for m in range(1, rows):
        mu[m] = lam_myu * mu[m - 1] + (1 - lam_myu) / nfilts * np.sum(T[m, :nfilts])
    return k * T / mu[:, None]


def asymmetric_noise_suppression_with_temporal_masking(Q_tilde, threshold):
    le = asymmetric_lowpass_filtering(Q_tilde, 0.999, 0.5)
    d = Q_tilde - le
    q0 = np.where(d < threshold, 0, d)
    qf = asymmetric_lowpass_filtering(q0, 0.999, 0.5)
    qtm = temporal_masking(q0, 0.85, 0.2)
    return np.where(Q_tilde >= 2 * le, qtm, qf)


def pncc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, power, window, nfilts, nfft, low_freq, high_freq, scale,
         dct_type, lifter, normalize, fbanks, conversion_approach="Glasberg"):
    fb = erb_bank(fbanks, nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach)
    win = win_of(window)
    w = windowed_frames(sig, fs, pre_emph, pre_emph_coeff, win[0], win[1], win[2])
    P = np.dot(1.0 / nfft * magnitude(w, nfft) ** power, fb.T)
    Q = medium_time_power_calculation(P, 2)
    R = asymmetric_noise_suppression_with_temporal_masking(Q, 0)
    S = weight_smoothing(R, Q, P.shape[1], 4)
    U = mean_power_normalization(P * S, 0.999, P.shape[1], 1)
    return finish(dct_rows(U ** (1 / 15), dct_type, num_ceps), lifter, normalize)


# -------------------------------------------------------------- constant Q
def compute_constant_qtransform(frames, fs, low_freq, high_freq, nfft, number_of_octaves, number_of_bins_per_octave,
                                win_type, spectral_threshold, f0, q_rate):
    n = number_of_octaves * number_of_bins_per_octave
    fall = f0 * 2 ** (np.arange(n) / number_of_bins_per_octave)
    f = fall[(fall >= low_freq) & (fall <= high_freq)]
    Q = q_rate / (2 ** (1.0 / number_of_bins_per_octave) - 1.0)
    L = np.ceil(Q * fs / f).astype(np.int64)
    L = L[L <= nfft]
    f = f[len(f) - len(L):]
    npitch = len(f)
    kernel = np.zeros((npitch, nfft), dtype=np.complex128)
    for k in range(npitch):
        Nk = L[k]
        start = int((nfft - Nk) / 2)
        a = np.zeros(nfft, dtype=np.complex128)
        a[start: start + Nk] = 1 / Nk * windowing(np.exp(2.0 * np.pi * 1j * (f[k] / fs) * np.arange(Nk)), Nk, win_type)
        kernel[k] = np.fft.fft(a, nfft)
    kernel = np.where(np.abs(kernel) <= spectral_threshold, 0.0, kernel)
    spec = np.fft.fft(frames, nfft)
    return np.dot(spec, np.conj(kernel).T / nfft).T


def cqt_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfft, low_freq, high_freq, number_of_octaves,
                    number_of_bins_per_octave, spectral_threshold, f0, q_rate):
    win = win_of(window)
    w = windowed_frames(sig, fs, pre_emph, pre_emph_coeff, win[0], win[1], win[2])
    return compute_constant_qtransform(w, fs, low_freq, high_freq, nfft, number_of_octaves,
                                       number_of_bins_per_octave, win[2], spectral_threshold, f0, q_rate)


def cqcc(sig, fs, num_ceps, pre_emph, pre_emph_coeff, window, nfft, low_freq, high_freq, dct_type, lifter, normalize,
         number_of_octaves, number_of_bins_per_octave, resampling_ratio, spectral_threshold, f0, q_rate):
    c = cqt_spectrogram(sig, fs, pre_emph, pre_emph_coeff, window, nfft, low_freq, high_freq, number_of_octaves,
                        number_of_bins_per_octave, spectral_threshold, f0, q_rate)
    s = np.log(zero_handling(np.abs(c) ** 2)).T
    s = scipy.signal.resample(s, int(len(s) * resampling_ratio))
    return finish(dct_rows(s, dct_type, num_ceps), lifter, normalize)


# -------------------------------------------------------------- frequencies
def get_dominant_frequencies(sig, fs, butter_filter, lower_cutoff, upper_cutoff, nfft, win_len, win_hop, win_type,
                             only_positive):
    if butter_filter:
        b, a = scipy.signal.butter(6, [lower_cutoff * 2 / fs, upper_cutoff * 2 / fs], "band")
        sig = scipy.signal.lfilter(b, a, sig)
    frames, n = framing(sig, fs, win_len, win_hop)
    p = np.abs(np.fft.rfft(windowing(frames, n, win_type), nfft))
    return np.round(np.argmax(1 / nfft * (1 / nfft * p) ** 2, axis=1) * fs / nfft, 3)


def compute_difference(x, tau_max):
    n = len(x)
    d = np.zeros(min(tau_max, n))
    for tau in range(min(tau_max, n)):
        d[tau] = np.sum((x[: n - tau] - x[tau:]) ** 2)
    return d


def compute_cmnd(d_t, tau):
    out = np.ones(tau)
    for t in range(1, tau):
        out[t] = d_t[t] * t / np.sum(d_t[1: t + 1])
    return out


def get_pitch(cmdf, tau_min, tau_max, harmonic_threshold):
    tau = tau_min
    while tau < tau_max and not cmdf[tau] < harmonic_threshold:
        tau = tau + 1
    if tau >= tau_max:
        return 0
    while tau + 1 < tau_max and cmdf[tau + 1] < cmdf[tau]:
        tau = tau + 1
    return tau


# -------------------------------------------------------------- descriptors
def spectral_centroid(fs, spectrum, i):
    m = np.abs(spectrum)
    f = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
    return np.sum(m * f ** i) / np.sum(m)


def moment(fs, spectrum, k):
    m = np.abs(spectrum)
    f = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
    return np.sum(m * (f - spectral_centroid(fs, spectrum, 1)) ** k) / np.sum(m)


def spectral_skewness(sig, fs, spectrum):
    return moment(fs, spectrum, 3) / spectral_centroid(fs, spectrum, 2) ** 3


def spectral_kurtosis(sig, fs, spectrum):
    return moment(fs, spectrum, 4) / spectral_centroid(fs, spectrum, 2) ** 4


def spectral_entropy(spectrum):
    m = np.abs(spectrum)
    return -np.sum(m * np.log(m)) / np.log(len(m))


def spectral_spread(sig, fs, spectrum):
    return np.sqrt(moment(fs, spectrum, 2))


def spectral_flatness(spectrum):
    m = np.abs(spectrum)
    return np.exp(np.mean(np.log(m))) / np.mean(m)


def spectral_rolloff(spectrum, k):
    return k * np.sum(np.abs(spectrum))


def spectral_flux(spectrum, p):
    m = np.abs(spectrum)
    return np.sum(np.abs(m[1:] - m[:-1]) ** p) ** (1 / p)
