U = "spafe/utils/"
X = "spafe/features/"
B = "spafe/fbanks/"
# --- mel banks: helper extraction, linspace, & masks
add(B + "mel_fbanks.py", '''
def _triangle(freqs, lower, center, upper):
    row = np.zeros(len(freqs))
    rising = (freqs >= lower) & (freqs <= center)
    row[rising] = (freqs[rising] - lower) / (center - lower)
    falling = (freqs >= center) & (freqs <= upper)
    row[falling] = (upper - freqs[falling]) / (upper - center)
    return row


def _check_band(fs, low_freq, high_freq):
    if low_freq < 0:
        raise ParameterError(ErrorMsgs["low_freq"])
    if high_freq > fs / 2:
        raise ParameterError(ErrorMsgs["high_freq"])
''')
body(B + "mel_fbanks.py", "mel_filter_banks_helper", '''
    if not high_freq:
        high_freq = fs / 2
    _check_band(fs, low_freq, high_freq)
    nbins = nfft // 2 + 1
    if fb_type == "mel":
        lo = hz2mel(low_freq, conversion_approach)
        hi = hz2mel(high_freq, conversion_approach)
    else:
        lo, hi = low_freq, high_freq
    points = lo + abs(hi - lo) / (nfilts + 1) * np.arange(nfilts + 2)
    hz = mel2hz(points, conversion_approach) if fb_type == "mel" else points
    center_freqs = points[1:-1]
    freqs = np.linspace(low_freq, high_freq, nbins)
    fbank = np.array([_triangle(freqs, hz[j], hz[j + 1], hz[j + 2]) for j in range(nfilts)])
    return fbank * scale_fbank(scale=scale, nfilts=nfilts), center_freqs
''')
body(B + "mel_fbanks.py", "inverse_mel_filter_banks", '''
    if high_freq is None or high_freq == 0:
        high_freq = fs / 2
    if scale == "ascendant":
        mirrored = "descendant"
    elif scale == "descendant":
        mirrored = "ascendant"
    elif scale == "constant":
        mirrored = "constant"
    else:
        raise KeyError(scale)
    banks, mel_freqs = mel_filter_banks_helper(
        nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq,
        scale=mirrored, fb_type="mel", conversion_approach=conversion_approach)
    hz = mel2hz(mel_freqs, conversion_approach)
    centers = []
    for freq in low_freq + high_freq - hz:
        centers.append(hz2mel(freq, conversion_approach))
    return np.abs(banks[:, ::-1]), centers
''')
# --- bark banks
body(B + "bark_fbanks.py", "Fm", '''
    d = fb - fc
    if d < -1.3 or d > 2.5:
        return 0
    if d <= -0.5:
        return 10 ** (2.5 * (d + 0.5))
    if d < 0.5:
        return 1
    return 10 ** (0.5 - d)
''')
body(B + "bark_fbanks.py", "bark_filter_banks", '''
    high_freq = high_freq if high_freq else fs / 2
    if low_freq < 0:
        raise ParameterError(ErrorMsgs["low_freq"])
    if fs / 2 < high_freq:
        raise ParameterError(ErrorMsgs["high_freq"])
    centers = np.linspace(hz2bark(low_freq, conversion_approach), hz2bark(high_freq, conversion_approach), nfilts)
    bins = [int(np.floor((nfft + 1) * (bark2hz(c, conversion_approach) / fs))) for c in centers]
    first, last = bins[0], bins[-1]
    fbank = np.zeros((nfilts, nfft // 2 + 1))
    for i in range(first, last):
        fb = hz2bark(i * fs / (nfft + 1), conversion_approach)
        for j, fc in enumerate(centers):
            fbank[j, i] = Fm(fb, fc)
    return scale_fbank(scale=scale, nfilts=nfilts) * fbank, centers
''')
# --- gammatone
body(B + "gammatone_fbanks.py", "generate_center_frequencies", '''
    c = EarQ * minBW
    ratio = np.log((min_freq + c) / (max_freq + c))
    steps = np.arange(1, nfilts + 1) / nfilts
    return ((max_freq + c) * np.exp(steps * ratio) - c)[::-1]
''')
body(B + "gammatone_fbanks.py", "compute_gain", '''
    decay = np.exp(B * T)
    phase = 2 * np.pi * fcs * T
    s_hi, s_lo = np.sqrt(3 + 2**1.5), np.sqrt(3 - 2**1.5)
    A = np.array([(np.cos(phase) + s * np.sin(phase)) / decay for s in (s_hi, -s_hi, s_lo, -s_lo)])
    Kj = np.exp(1j * wT)
    Coe = 2 * (1 + Kj**2) / decay - 2 * Kj**2 - 2 / decay**2
    prod = 1
    for row in A:
        prod = prod * (2 * T * Kj * (row - Kj))
    return A, np.abs(prod / Coe**4)
''')
sub(B + "gammatone_fbanks.py", "np.array(range(nfft // 2 + 1))", "np.arange(nfft // 2 + 1)")
# --- pncc stages
body(X + "pncc.py", "medium_time_power_calculation", '''
    nframes, nbands = P.shape
    out = np.zeros((nframes, nbands))
    for m in range(nframes):
        lo, hi = max(0, m - M), min(nframes, m + M + 1)
        out[m] = P[lo:hi].sum(axis=0) / (2 * M + 1)
    return out
''')
body(X + "pncc.py", "asymmetric_lowpass_filtering", '''
    rows = [0.9 * Q_tilde_in[0]]
    for m in range(1, len(Q_tilde_in)):
        prev, cur = rows[-1], Q_tilde_in[m]
        lam = np.where(cur >= prev, lm_a, lm_b)
        rows.append(lam * prev + (1 - lam) * cur)
    return np.array(rows)
''')
body(X + "pncc.py", "temporal_masking", '''
    out = np.zeros(Q_tilde_0.shape)
    peak = Q_tilde_0[0, :].copy()
    out[0, :] = peak
    for m in range(1, Q_tilde_0.shape[0]):
        decayed = lam_t * peak
        out[m, :] = np.where(Q_tilde_0[m, :] >= decayed, Q_tilde_0[m, :], myu_t * peak)
        peak = np.maximum(decayed, Q_tilde_0[m, :])
    return out
''')
body(X + "pncc.py", "weight_smoothing", '''
    ratio = R_tilde / zero_handling(Q_tilde)
    S_tilde = np.zeros_like(R_tilde)
    for l in range(R_tilde.shape[1]):
        l1 = max(l - N, 0)
        l2 = min(l + N, nfilts - 1)
        S_tilde[:, l] = np.sum(ratio[:, l1:l2 + 1], axis=1) / (l2 - l1 + 1)
    return S_tilde
''')
body(X + "pncc.py", "mean_power_normalization", '''
    nframes = T.shape[0]
    myu = np.empty(nframes)
    myu[0] = 0.0001
    means = T[:, :nfilts].sum(axis=1) / nfilts
    for m in range(1, nframes):
        myu[m] = lam_myu * myu[m - 1] + (1 - lam_myu) * means[m]
    return (k * T) / myu.reshape(-1, 1)
''')
body(X + "pncc.py", "asymmetric_noise_suppression_with_temporal_masking", '''
    floor = asymmetric_lowpass_filtering(Q_tilde)
    diff = Q_tilde - floor
    rectified = np.where(diff >= threshold, diff, 0)
    smooth = asymmetric_lowpass_filtering(rectified, 0.999, 0.5)
    masked = temporal_masking(rectified)
    return np.where(Q_tilde < 2 * floor, smooth, masked)
''')
# --- rasta/plp
body(U + "filters.py", "rasta_filter", '''
    taps = np.arange(-2, 3)
    numer = -taps / np.sum(taps**2)
    denom = [1, -0.94]
    z = signal.lfilter_zi(numer, 1)
    rows = []
    for row in x:
        _, z = signal.lfilter(numer, 1, row[:4], zi=z * row[0])
        tail, _ = signal.lfilter(numer, denom, row[4:], zi=z)
        rows.append(np.concatenate((np.zeros(4), tail)))
    return np.array(rows)
''')
sub(X + "rplp.py", "    Y = [E(w) for w in auditory_spectrum]\n", "    Y = E(auditory_spectrum)\n")
# --- yin
F = "spafe/frequencies/fundamental_frequencies.py"
body(F, "get_pitch", '''
    for tau in range(tau_min, tau_max):
        if cmdf[tau] < harmonic_threshold:
            while tau + 1 < tau_max and cmdf[tau + 1] < cmdf[tau]:
                tau += 1
            return tau
    return 0
''')
body(F, "compute_cmnd", '''
    tail = d_t[1:]
    lags = np.arange(1, tau)
    return np.concatenate(([1.0], tail * lags / np.cumsum(tail)))
''')
body(F, "compute_difference", '''
    x = np.asarray(x, dtype=np.float64)
    n = len(x)
    cum = np.concatenate(([0.0], np.cumsum(x**2)))
    acf = signal.fftconvolve(x, x[::-1])[n - 1:]
    return (cum[n:0:-1] + (cum[n] - cum[:n]) - 2 * acf)[:tau_max]
''')
body(F, "compute_yin", '''
    tau_min = int(fs / high_freq)
    tau_max = int(fs / low_freq)
    w_len, w_step = int(win_len * fs), int(win_hop * fs)
    starts = list(range(0, len(sig) - w_len, w_step))
    pitches, harmonic_rates, argmins = [], [], []
    for t in starts:
        cmdf = compute_cmnd(compute_difference(sig[t : t + w_len], tau_max), tau_max)
        p = get_pitch(cmdf, tau_min, tau_max, harmonic_threshold)
        best = np.argmin(cmdf)
        argmins.append(fs / best if best > tau_min else 0.0)
        pitches.append(fs / p if p != 0 else 0.0)
        harmonic_rates.append(cmdf[p] if p != 0 else np.min(cmdf))
    return (
        np.array(pitches),
        np.array(harmonic_rates),
        np.array(argmins),
        np.array(starts) / fs,
    )
''')
# --- shared energy helper in the extractors
for f in ("mfcc", "lfcc", "bfcc", "gfcc", "ngcc"):
    pass
