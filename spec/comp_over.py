"""Replacements that turn the full reference into a compositional one.

`vref.comp` is `ref.py` with the functions defined here in place of its own: the
library's public building blocks (each decided on its own by C07, C08, C13-C15,
C20, C24-C26) stand for themselves, so that the extractors are compared modulo
their building blocks."""
import spafe.utils.preprocessing
import spafe.utils.cepstral
import spafe.utils.filters
import spafe.fbanks.mel_fbanks
import spafe.fbanks.bark_fbanks
import spafe.fbanks.linear_fbanks
import spafe.fbanks.gammatone_fbanks
import spafe.features.lpc
import spafe.features.pncc
import spafe.utils.spectral


def pre_emphasis(sig, pre_emph_coeff):
    return spafe.utils.preprocessing.pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)


def framing(sig, fs, win_len, win_hop):
    return spafe.utils.preprocessing.framing(sig=sig, fs=fs, win_len=win_len, win_hop=win_hop)


def windowing(frames, frame_len, win_type):
    return spafe.utils.preprocessing.windowing(frames=frames, frame_len=frame_len, win_type=win_type)


def normalize_ceps(x, normalization_type):
    return spafe.utils.cepstral.normalize_ceps(x=x, normalization_type=normalization_type)


def lifter_ceps(ceps, lift):
    return spafe.utils.cepstral.lifter_ceps(ceps=ceps, lift=lift)


def rasta_filter(x):
    return spafe.utils.filters.rasta_filter(x)


def mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    return spafe.fbanks.mel_fbanks.mel_filter_banks(
        nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq, scale=scale,
        conversion_approach=conversion_approach)


def inverse_mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    return spafe.fbanks.mel_fbanks.inverse_mel_filter_banks(
        nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq, scale=scale,
        conversion_approach=conversion_approach)


def linear_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale):
    return spafe.fbanks.linear_fbanks.linear_filter_banks(
        nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq, scale=scale)


def bark_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    return spafe.fbanks.bark_fbanks.bark_filter_banks(
        nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq, scale=scale,
        conversion_approach=conversion_approach)


def gammatone_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach="Glasberg", order=4):
    return spafe.fbanks.gammatone_fbanks.gammatone_filter_banks(
        nfilts=nfilts, nfft=nfft, fs=fs, low_freq=low_freq, high_freq=high_freq, scale=scale,
        conversion_approach=conversion_approach)


def lpc2lpcc(a, e, nceps):
    return spafe.features.lpc.lpc2lpcc(a, e, nceps)


def medium_time_power_calculation(P, M):
    return spafe.features.pncc.medium_time_power_calculation(P, M)


def asymmetric_noise_suppression_with_temporal_masking(Q_tilde, threshold):
    return spafe.features.pncc.asymmetric_noise_suppression_with_temporal_masking(Q_tilde, threshold)


def weight_smoothing(R_tilde, Q_tilde, nfilts, N):
    return spafe.features.pncc.weight_smoothing(R_tilde, Q_tilde, nfilts, N)


def mean_power_normalization(T, lam_myu, nfilts, k):
    return spafe.features.pncc.mean_power_normalization(T, lam_myu, nfilts, k)


def compute_constant_qtransform(frames, fs, low_freq, high_freq, nfft, number_of_octaves, number_of_bins_per_octave,
                                win_type, spectral_threshold, f0, q_rate):
    return spafe.utils.spectral.compute_constant_qtransform(
        frames, fs=fs, low_freq=low_freq, high_freq=high_freq, nfft=nfft, number_of_octaves=number_of_octaves,
        number_of_bins_per_octave=number_of_bins_per_octave, win_type=win_type,
        spectral_threshold=spectral_threshold, f0=f0, q_rate=q_rate)
