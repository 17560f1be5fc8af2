U = "spafe/utils/"
X = "spafe/features/"
B = "spafe/fbanks/"
# shared helpers in preprocessing / cepstral
add(U + "preprocessing.py", '''
def prepare_windows(sig, fs, pre_emph, pre_emph_coeff, window):
    """pre-emphasise, frame and window a signal."""
    signal_in = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff) if pre_emph else sig
    window = window if window is not None else SlidingWindow()
    frames, frame_length = framing(sig=signal_in, fs=fs, win_len=window.win_len, win_hop=window.win_hop)
    return windowing(frames=frames, frame_len=frame_length, win_type=window.win_type)


def power_spectrum(magnitude, nfft):
    return (1.0 / nfft) * np.square(magnitude)


def log_frame_energy(spectrum, nfft):
    power_frames = power_spectrum(np.absolute(spectrum), nfft)
    return np.log(zero_handling(np.sum(power_frames, axis=1)))
''')
add(U + "cepstral.py", '''
def post_process(ceps, lifter=None, normalize=None):
    if lifter:
        ceps = lifter_ceps(ceps, lifter)
    if normalize:
        ceps = normalize_ceps(ceps, normalize)
    return ceps
''')
IMP = "from ..utils.preprocessing import prepare_windows, power_spectrum, log_frame_energy\nfrom ..utils.cepstral import post_process"
OPTS = '''
    options = dict(
        nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq, scale=scale%s)
'''
CA = ", conversion_approach=conversion_approach"
for f, spec, bank, ca in (("mfcc.py", "mel_spectrogram", "mel_filter_banks", CA),
                          ("lfcc.py", "linear_spectrogram", "linear_filter_banks", ""),
                          ("bfcc.py", "bark_spectrogram", "bark_filter_banks", CA),
                          ("gfcc.py", "erb_spectrogram", "gammatone_filter_banks", CA)):
    add(X + f, IMP)
    body(X + f, spec, (OPTS % ca) + '''
    if fbanks is None:
        fbanks = %s(**options)[0]
    windows = prepare_windows(sig, fs, pre_emph, pre_emph_coeff, window)
    magnitude = np.absolute(np.fft.rfft(windows, nfft))
    return power_spectrum(magnitude, nfft).dot(fbanks.T), magnitude
''' % bank)
def ceps(f, func, spec, ca, comp, var):
    body(X + f, func, '''
    if num_ceps > nfilts:
        raise ParameterError(ErrorMsgs["nfilts"])
    features, spectrum = %s(
        sig, fs=fs, pre_emph=pre_emph, pre_emph_coeff=pre_emph_coeff, window=window,
        nfilts=nfilts, nfft=nfft, low_freq=low_freq, high_freq=high_freq, scale=scale, fbanks=fbanks%s)
    compressed = %s
    coeffs = dct(compressed, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
    if use_energy:
        coeffs[:, 0] = log_frame_energy(spectrum, nfft)
    return post_process(coeffs, lifter, normalize)
''' % (spec, ca, comp))
ceps("mfcc.py", "mfcc", "mel_spectrogram", CA, "np.log(zero_handling(features))", 0)
ceps("lfcc.py", "lfcc", "linear_spectrogram", "", "np.log(zero_handling(features))", 0)
ceps("bfcc.py", "bfcc", "bark_spectrogram", CA, "np.log(zero_handling(intensity_power_law(features)))", 0)
ceps("gfcc.py", "gfcc", "erb_spectrogram", CA, "np.cbrt(features)", 0)
add(X + "msrcc.py", IMP)
ceps("msrcc.py", "msrcc", "mel_spectrogram", CA, "np.power(zero_handling(features), gamma)", 0)
body(X + "bfcc.py", "intensity_power_law", '''
    w2 = w**2
    num = (w2 + 56.8e6) * w2**2
    den = (w2 + 6.3e6) * (w2 + 0.38e9) * (w2**3 + 9.58e26)
    return (num / den) ** (1 / 3)
''')
add(X + "ngcc.py", IMP)
body(X + "ngcc.py", "ngcc", '''
    if nfilts < num_ceps:
        raise ParameterError(ErrorMsgs["nfilts"])
    bank = fbanks
    if bank is None:
        bank, _ = gammatone_filter_banks(
            nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach=conversion_approach)
    windows = prepare_windows(sig, fs, pre_emph, pre_emph_coeff, window)
    spectrum = np.fft.rfft(windows, nfft)
    power_frames = np.abs(spectrum) ** 2 / nfft
    log_features = np.log(zero_handling(np.dot(power_frames, bank.T)))
    ngccs = dct(log_features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
    if use_energy:
        ngccs[:, 0] = np.log(zero_handling(power_frames.sum(axis=1)))
    return post_process(ngccs, lifter=lifter, normalize=normalize)
''')
add(X + "psrcc.py", IMP)
body(X + "psrcc.py", "psrcc", '''
    if nfilts < num_ceps:
        raise ParameterError(ErrorMsgs["nfilts"])
    if fbanks is None:
        fbanks, _ = mel_filter_banks(
            nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq,
            scale=scale, conversion_approach=conversion_approach)
    windows = prepare_windows(sig, fs, pre_emph, pre_emph_coeff, window)
    spectrum = np.fft.rfft(windows, nfft)
    phases = np.angle(spectrum, deg=True)
    phases = np.where(phases < 0, phases + 360, phases)
    features = zero_handling(phases @ fbanks.T) ** gamma
    features[np.isnan(features)] = 0
    features[np.isinf(features)] = features.max()
    psrccs = dct(features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
    if use_energy:
        psrccs[:, 0] = log_frame_energy(spectrum, nfft)
    return post_process(psrccs, lifter, normalize)
''')
add(X + "pncc.py", IMP)
body(X + "pncc.py", "pncc", '''
    if nfilts < num_ceps:
        raise ParameterError(ErrorMsgs["nfilts"])
    if fbanks is None:
        fbanks, _ = gammatone_filter_banks(
            nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq,
            scale=scale, conversion_approach=conversion_approach)
    windows = prepare_windows(sig, fs, pre_emph, pre_emph_coeff, window)
    magnitude = np.abs(np.fft.rfft(windows, nfft))
    P = np.dot(magnitude**power / nfft, fbanks.T)
    Q = medium_time_power_calculation(P)
    R = asymmetric_noise_suppression_with_temporal_masking(Q)
    nbands = P.shape[1]
    T = weight_smoothing(R, Q, nfilts=nbands) * P
    V = mean_power_normalization(T, nfilts=nbands) ** (1 / 15)
    return post_process(dct(V, type=dct_type, axis=1, norm="ortho")[:, :num_ceps], lifter, normalize)
''')
add(X + "cqcc.py", IMP)
body(X + "cqcc.py", "cqt_spectrogram", '''
    nyquist = fs / 2
    if not high_freq:
        high_freq = nyquist
    if high_freq > nyquist:
        raise ParameterError(ErrorMsgs["high_freq"])
    if window is None:
        window = SlidingWindow()
    windows = prepare_windows(sig, fs, pre_emph, pre_emph_coeff, window)
    return compute_constant_qtransform(
        windows, fs, low_freq, high_freq, nfft, number_of_octaves, number_of_bins_per_octave,
        window.win_type, spectral_threshold, f0, q_rate)
''')
body(U + "spectral.py", "compute_constant_qtransform", '''
    if not high_freq:
        high_freq = fs / 2
    total = number_of_octaves * number_of_bins_per_octave
    freqs = f0 * 2 ** (np.arange(total) / number_of_bins_per_octave)
    freqs = freqs[(freqs >= low_freq) & (freqs <= high_freq)]
    Q = q_rate / (2 ** (1.0 / number_of_bins_per_octave) - 1.0)
    lens = np.ceil(Q * fs / freqs).astype(np.int64)
    lens = lens[lens <= nfft]
    freqs = freqs[len(freqs) - len(lens):]
    n_pitch = len(freqs)
    kernel = np.zeros((n_pitch, nfft), dtype=np.complex128)
    for k, (Nk, fk) in enumerate(zip(lens, freqs)):
        start = int((nfft - Nk) / 2)
        atom = np.zeros(nfft, dtype=np.complex128)
        tone = np.exp(2j * np.pi * (fk / fs) * np.arange(Nk))
        atom[start : start + Nk] = windowing(tone, Nk, win_type) / Nk
        kernel[k] = np.fft.fft(atom)
    kernel[np.abs(kernel) <= spectral_threshold] = 0.0
    kernel = np.conj(kernel) / nfft
    spec = np.zeros((len(frames), n_pitch), dtype=np.complex128)
    for k, frame in enumerate(frames):
        spec[k] = kernel.dot(np.fft.fft(frame, nfft))
    return spec.T
''')
add(X + "rplp.py", IMP)
sub(X + "rplp.py", '''        auditory_spectrum = np.exp(ras_nl_aspectrum)
''', '''        auditory_spectrum = np.exp(ras_nl_aspectrum)
    else:
        pass
''')
