U = "spafe/utils/"
X = "spafe/features/"
body(U + "preprocessing.py", "zero_handling", '''
    is_zero = x == 0
    return np.where(np.logical_not(is_zero), x, np.finfo(np.float64).eps)
''')
body(U + "preprocessing.py", "pre_emphasis", '''
    samples = np.asarray(sig, dtype=float)
    delayed = np.concatenate(([0.0], samples[:-1]))
    return samples - pre_emph_coeff * delayed
''')
body(U + "preprocessing.py", "stride_trick", '''
    a = np.array(a)
    nrows = 1 + (len(a) - stride_length) // stride_step
    starts = stride_step * np.arange(nrows)
    return a[starts[:, None] + np.arange(stride_length)[None, :]]
''')
body(U + "preprocessing.py", "framing", '''
    if win_hop > win_len:
        raise ParameterError(ErrorMsgs["win_len_win_hop_comparison"])
    samples_per_frame, samples_per_hop = int(fs * win_len), int(fs * win_hop)
    return stride_trick(sig, samples_per_frame, samples_per_hop), samples_per_frame
''')
body(U + "preprocessing.py", "windowing", '''
    if win_type == "kaiser":
        win = np.kaiser(frame_len, 14)
    else:
        win = {
            "hanning": np.hanning,
            "bartlet": np.bartlett,
            "blackman": np.blackman,
            "hamming": np.hamming,
        }[win_type](frame_len)
    return frames * win
''')
body(U + "cepstral.py", "normalize_ceps", '''
    if normalization_type == "mvn":
        return (x - x.mean(axis=0)) / x.std()
    if normalization_type == "ms":
        return x - x.mean(axis=0)
    if normalization_type == "vn":
        return x / x.std()
    if normalization_type == "mn":
        span = x.max() - x.min()
        return (x - x.mean()) / span
    raise KeyError(normalization_type)
''')
body(U + "cepstral.py", "lifter_ceps", '''
    if lift > 10 or lift == 0:
        return ceps
    ncols = ceps.shape[1]
    if lift > 0:
        weights = np.ones(ncols)
        for i in range(1, ncols):
            weights[i] = i**lift
    else:
        period = -int(lift)
        weights = 1 + (period / 2.0) * np.sin(np.pi * (np.arange(ncols) + 1) / period)
    return ceps * weights
''')
body(U + "cepstral.py", "deltas", '''
    cols = x.shape[1]
    half = w // 2
    padded = np.concatenate((np.repeat(x[:, :1], half, axis=1), x, np.repeat(x[:, -1:], half, axis=1)), axis=1)
    taps = np.arange(half, -half - 1, -1)
    return lfilter(taps, 1, padded, axis=1)[:, 2 * half : 2 * half + cols]
''')
body(U + "filters.py", "scale_fbank", '''
    if scale == "constant":
        return np.ones((nfilts, 1))
    ramp = np.arange(1, nfilts + 1) / nfilts
    if scale == "ascendant":
        return ramp[:, None]
    return ramp[::-1][:, None]
''')
for f, m in (("mfcc.py", "mel"), ("lfcc.py", "linear"), ("gfcc.py", "erb")):
    sub(X + f, "np.absolute(np.fft.fft(windows, nfft))", "np.abs(np.fft.rfft(windows, nfft))")
    sub(X + f, "fourrier_transform[:, : int(nfft / 2) + 1]", "fourrier_transform[:, : nfft // 2 + 1]")
sub(X + "mfcc.py", "features = np.dot(abs_fft_values, fbanks.T)", "features = abs_fft_values @ np.transpose(fbanks)")
add(X + "msrcc.py", '''
def _log_frame_energy(spectrum, nfft):
    power = (1.0 / nfft) * np.absolute(spectrum) ** 2
    return np.log(zero_handling(power.sum(axis=1)))
''')
sub(X + "msrcc.py", '''        # compute the power
        power_frames = (1.0 / nfft) * magnitude_frames**2''' if False else "energy = zero_handling(frame_energies)", "energy = zero_handling(np.sum(power_frames, axis=1))")
add(X + "lpc.py", '''
def _analysis_windows(sig, fs, pre_emph, pre_emph_coeff, window):
    if pre_emph:
        sig = pre_emphasis(sig, pre_emph_coeff)
    win = SlidingWindow() if window is None else window
    frames, frame_length = framing(sig, fs, win.win_len, win.win_hop)
    return windowing(frames, frame_length, win.win_type)
''')
body(X + "lpc.py", "lpc", '''
    windows = _analysis_windows(sig, fs, pre_emph, pre_emph_coeff, window)
    results = [__lpc_helper(frame, order - 1) for frame in windows]
    coeffs = np.array([a for a, _ in results])
    errors = np.array([[e] for _, e in results])
    return coeffs, errors
''')
body(X + "lpc.py", "lpcc", '''
    windows = _analysis_windows(sig, fs, pre_emph, pre_emph_coeff, window)
    rows = []
    for frame in windows:
        a, e = __lpc_helper(frame, order - 1)
        rows.append(lpc2lpcc(a, e, order))
    lpccs = np.array(rows)
    if lifter:
        lpccs = lifter_ceps(lpccs, lifter)
    return normalize_ceps(lpccs, normalize) if normalize else lpccs
''')
body(X + "lpc.py", "__lpc_helper", '''
    n = frame.size
    lags = min(order + 1, n)
    r = np.zeros(order + 1, frame.dtype)
    r[:lags] = np.correlate(frame, frame, "full")[n - 1 : n + order]
    r[0] = zero_handling(r[0])
    phi = linalg.solve(linalg.toeplitz(r[:-1]), -r[1:])
    a = np.concatenate(([1.0], phi))
    return a, np.abs(np.dot(a, r))
''')
body("spafe/frequencies/dominant_frequencies.py", "get_dominant_frequencies", '''
    if butter_filter:
        band = [2 * lower_cutoff / fs, 2 * upper_cutoff / fs]
        b, a = signal.butter(6, band, "band")
        sig = signal.lfilter(b, a, sig)
    frames, frame_length = framing(sig, fs, win_len, win_hop)
    windows = windowing(frames, frame_length, win_type)
    power = np.abs(np.fft.rfft(windows, nfft)) ** 2
    bins = np.argmax(power, axis=1)
    freqs = np.round(np.fft.rfftfreq(nfft, 1 / fs)[bins], 3)
    return freqs[freqs >= 0] if only_positive else freqs
''')
add(X + "spfeats.py", '''
def _magnitude_axis(fs, spectrum):
    return np.abs(spectrum), np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
''')
body(X + "spfeats.py", "spectral_centroid", '''
    mag, freqs = _magnitude_axis(fs, spectrum)
    return np.sum(freqs**i * mag) / np.sum(mag)
''')
body(X + "spfeats.py", "spectral_spread", '''
    mag, freqs = _magnitude_axis(fs, spectrum)
    dev = freqs - spectral_centroid(fs, spectrum)
    return np.sqrt(np.average(dev**2, weights=mag))
''')
body(X + "spfeats.py", "extract_feats", '''
    spectrum = np.fft.rfft(sig, nfft)
    return {
        "spectral_centroid": spectral_centroid(fs, spectrum),
        "spectral_skewness": spectral_skewness(sig, fs, spectrum),
        "spectral_kurtosis": spectral_kurtosis(sig, fs, spectrum),
        "spectral_entropy": spectral_entropy(spectrum),
        "spectral_spread": spectral_spread(sig, fs, spectrum),
        "spectral_flatness": spectral_flatness(spectrum),
        "spectral_rolloff": spectral_rolloff(spectrum),
        "spectral_flux": spectral_flux(spectrum),
        "spectral_mean": spectrum.mean(),
        "spectral_rms": np.sqrt(np.mean(spectrum * spectrum)),
        "spectral_std": np.sqrt(np.var(spectrum)),
        "spectral_variance": np.var(spectrum),
    }
''')
