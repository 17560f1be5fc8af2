From 47c8534211c03f4a52c9a82fda03ea0282b35b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 01/20] fix: honour pre_emph_coeff in the bark, ERB and linear
 spectrograms, lpc and lpcc

---
 spafe/features/bfcc.py | 2 +-
 spafe/features/gfcc.py | 2 +-
 spafe/features/lfcc.py | 2 +-
 spafe/features/lpc.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spafe/features/bfcc.py b/spafe/features/bfcc.py
index b7a1d17..e0154e2 100644
--- a/spafe/features/bfcc.py
+++ b/spafe/features/bfcc.py
@@ -157,7 +157,7 @@ def bark_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/gfcc.py b/spafe/features/gfcc.py
index 3b9e868..6afb514 100644
--- a/spafe/features/gfcc.py
+++ b/spafe/features/gfcc.py
@@ -135,7 +135,7 @@ def erb_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lfcc.py b/spafe/features/lfcc.py
index 2c916c0..d99b49a 100644
--- a/spafe/features/lfcc.py
+++ b/spafe/features/lfcc.py
@@ -127,7 +127,7 @@ def linear_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index f522467..d0f56b3 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -176,7 +176,7 @@ def lpc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
@@ -313,7 +313,7 @@ def lpcc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
-- 
2.43.0


From 09087d47a726fac96342f858cf87a7dab709765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 02/20] fix: lpc and lpcc analyse the windowed frames

---
 spafe/features/lpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d0f56b3..9d07016 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -193,7 +193,7 @@ def lpc(
     a_mat = np.zeros((len(windows), order + 1))
     e_vec = np.zeros((len(windows), 1))
 
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         a_mat[i, :] = a
         e_vec[i] = e
@@ -329,7 +329,7 @@ def lpcc(
 
     # compute lpccs
     lpccs = np.zeros((len(windows), order + 1))
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         lpcc_coeffs = lpc2lpcc(a, e, order + 1)
         lpccs[i, :] = np.array(lpcc_coeffs)
-- 
2.43.0


From 7edd76b5f9f08ad6bd3c513abdc0fd8042e17c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 03/20] fix: inverse_mel_filter_banks without high_freq, and
 centre freqs mirrored over the band

---
 spafe/fbanks/mel_fbanks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index 105a70c..cc7018f 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -298,6 +298,9 @@ def inverse_mel_filter_banks(
         - :py:func:`spafe.fbanks.linear_fbanks.linear_filter_banks`
         - :py:func:`spafe.fbanks.bark_fbanks.bark_filter_banks`
     """
+    # init freqs
+    high_freq = high_freq or fs / 2
+
     # inverse scaler value
     scales = {
         "ascendant": "descendant",
@@ -324,7 +327,7 @@ def inverse_mel_filter_banks(
     # get inverse freqs
     imel_center_freqs = [
         hz2mel(freq, conversion_approach)
-        for freq in (high_freq - mel2hz(mel_freqs, conversion_approach))
+        for freq in (low_freq + high_freq - mel2hz(mel_freqs, conversion_approach))
     ]
 
     return np.abs(imel_fbanks), imel_center_freqs
-- 
2.43.0


From b0ce6a5d7fa4a02edae336bc3513f304e33ff6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 04/20] fix: extract_feats passes the spectrum, not fs, to
 spectral_rolloff

---
 spafe/features/spfeats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index f887da9..8b448ec 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -327,7 +327,7 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
     feats["spectral_entropy"] = spectral_entropy(spectrum)
     feats["spectral_spread"] = spectral_spread(sig, fs, spectrum)
     feats["spectral_flatness"] = spectral_flatness(spectrum)
-    feats["spectral_rolloff"] = spectral_rolloff(fs, spectrum)
+    feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
     feats["spectral_mean"] = np.mean(spectrum)
     feats["spectral_rms"] = np.sqrt(np.mean(spectrum**2))
-- 
2.43.0


From 097b2973509fb71068a276d73a9cfc2dcb7a16b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 05/20] fix: spectral_spread is the weighted standard deviation
 around the centroid

---
 spafe/features/spfeats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 8b448ec..c9b15fd 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -183,7 +183,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     # compute spread
     spread = np.sqrt(
-        ((np.sum(freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
+        np.sum(((freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
     )
     return spread
 
-- 
2.43.0


From ee4cbde9567927142a5b833db5fe21fcbaed040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 06/20] fix: dominant frequencies use the frequency of the rfft
 bin

---
 spafe/frequencies/dominant_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/frequencies/dominant_frequencies.py b/spafe/frequencies/dominant_frequencies.py
index afbbd0c..866c618 100644
--- a/spafe/frequencies/dominant_frequencies.py
+++ b/spafe/frequencies/dominant_frequencies.py
@@ -142,7 +142,7 @@ def get_dominant_frequencies(
         power_spectrum = (1 / nfft) * magnitude_spectrum**2
 
         # get all frequncies and  only keep positive frequencies
-        frequencies = np.fft.fftfreq(len(power_spectrum), 1 / fs)
+        frequencies = np.fft.rfftfreq(nfft, 1 / fs)
 
         # get id for max spectrum
         idx = np.argmax(power_spectrum)
-- 
2.43.0


From beb34345b287a8ec7892d6b4f921631a205c1330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 07/20] fix: LPC error term from the autocorrelation at
 non-negative lags

---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 9d07016..d15f55f 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -81,7 +81,7 @@ def __lpc_helper(frame, order):
 
     phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
-    e = auto_corr[0] + sum(ac_k * a_k for ac_k, a_k in zip(auto_corr[1:], a))
+    e = np.dot(r, a)
     return a, np.sqrt(e**2)
 
 
-- 
2.43.0


From 47f8667a48f24495b5a41e595ad7ca6c3cf700cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 08/20] fix: lpc2lpcc with more cepstra than coefficients
 skipped one and read past the end

---
 spafe/features/lpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d15f55f..1d517a0 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -238,8 +238,8 @@ def lpc2lpcc(a, e, nceps):
         c[m] = a[m] + sum([(k / m) * c[m] * a[m - k] for k in range(1, m)])
 
     if nceps > p:
-        for m in range(p + 1, nceps):
-            c[m] = sum([(k / m) * c[m] * a[m - k] for k in range(m - p, m)])
+        for m in range(p, nceps):
+            c[m] = sum([(k / m) * c[m] * a[m - k] for k in range(m - p + 1, m)])
 
     return c
 
-- 
2.43.0


From b51f94987b41d7b50a2835059e4509d6adf34e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 09/20] fix: asymmetric lowpass filter keeps its initial state
 instead of reading the last frame

---
 spafe/features/pncc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index edc0735..72497a9 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -84,7 +84,7 @@ def asymmetric_lowpass_filtering(
     Q_tilde_out[0,] = 0.9 * Q_tilde_in[0,]
 
     # compute asymmetric nonlinear filter
-    for m in range(Q_tilde_out.shape[0]):
+    for m in range(1, Q_tilde_out.shape[0]):
         Q1 = lm_a * Q_tilde_out[m - 1, :] + (1 - lm_a) * Q_tilde_in[m, :]
         Q2 = lm_b * Q_tilde_out[m - 1, :] + (1 - lm_b) * Q_tilde_in[m, :]
 
-- 
2.43.0


From 00b744de1f3a64c476d0798609c2d83238645688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 10/20] fix: weight smoothing averages over all channels l1..l2

---
 spafe/features/pncc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 72497a9..8a93a1d 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -163,11 +163,11 @@ def weight_smoothing(
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-            l1 = max(l - N, 1)
-            l2 = min(l + N, L)
+            l1 = max(l - N, 0)
+            l2 = min(l + N, L - 1)
             # compute smoothing output
             S_tilde[m, l] = (1 / float(l2 - l1 + 1)) * sum(
-                [R_tilde[m, lprime] / Q_tilde[m, lprime] for lprime in range(l1, l2)]
+                [R_tilde[m, lprime] / Q_tilde[m, lprime] for lprime in range(l1, l2 + 1)]
             )
 
     return S_tilde
-- 
2.43.0


From c26caf20748978dbbdd38293e627e7f1b4703d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 11/20] fix: gammatone_filter_banks no longer swallows every
 exception

---
 spafe/fbanks/gammatone_fbanks.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spafe/fbanks/gammatone_fbanks.py b/spafe/fbanks/gammatone_fbanks.py
index d8b827b..6a05686 100644
--- a/spafe/fbanks/gammatone_fbanks.py
+++ b/spafe/fbanks/gammatone_fbanks.py
@@ -219,11 +219,7 @@ def gammatone_filter_banks(
     )
 
     # make sure all filters has max value = 1.0
-    try:
-        fbank = np.array([f / np.max(f) for f in fbank[:, range(maxlen)]])
-
-    except BaseException:
-        fbank = fbank[:, idx]
+    fbank = np.array([f / np.max(f) for f in fbank[:, range(maxlen)]])
 
     # compute scaling
     scaling = scale_fbank(scale=scale, nfilts=nfilts)
-- 
2.43.0


From 1e8ddbf010fd7a3f914b4d9ff668f87b093dc6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:10 +0000
Subject: [PATCH 12/20] fix: constant-Q transform with no kernel fitting the
 FFT size

---
 spafe/utils/spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/spectral.py b/spafe/utils/spectral.py
index c3cea8d..f7cb82f 100644
--- a/spafe/utils/spectral.py
+++ b/spafe/utils/spectral.py
@@ -91,7 +91,7 @@ def compute_constant_qtransform(
     win_lens = win_lens[win_lens <= nfft]
 
     # filter center freqs and count number of pitches & frames
-    cqt_freqs = cqt_freqs[-1 * len(win_lens) :]
+    cqt_freqs = cqt_freqs[len(cqt_freqs) - len(win_lens) :]
     n_pitch = len(cqt_freqs)
     n_frames = len(frames)
 
-- 
2.43.0


From f0ae252e340a1c97d5dd7854f0b181b90827fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 13/20] fix: rplp protects the log of a silent auditory
 spectrum

---
 spafe/features/rplp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spafe/features/rplp.py b/spafe/features/rplp.py
index ff44527..0227fff 100644
--- a/spafe/features/rplp.py
+++ b/spafe/features/rplp.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -139,7 +140,7 @@ def __rastaplp(
     # rasta filtering
     if do_rasta:
         # put in log domain
-        nl_aspectrum = np.log(auditory_spectrum)
+        nl_aspectrum = np.log(zero_handling(auditory_spectrum))
 
         # next do rasta filtering
         ras_nl_aspectrum = rasta_filter(nl_aspectrum)
-- 
2.43.0


From 93c37f03565417fbd3252055cbabb804cab0c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 14/20] fix: msrcc and psrcc protect zeros before taking the
 root

---
 spafe/features/msrcc.py | 2 +-
 spafe/features/psrcc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/msrcc.py b/spafe/features/msrcc.py
index 14953e9..6827313 100644
--- a/spafe/features/msrcc.py
+++ b/spafe/features/msrcc.py
@@ -151,7 +151,7 @@ def msrcc(
     )
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # -> DCT(.)
     msrccs = dct(x=features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
diff --git a/spafe/features/psrcc.py b/spafe/features/psrcc.py
index 635afd4..ddb5de0 100644
--- a/spafe/features/psrcc.py
+++ b/spafe/features/psrcc.py
@@ -172,7 +172,7 @@ def psrcc(
     features = np.dot(fft_phases, fbanks.T)
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # assign 0 to values to be computed based on negative phases (otherwise results in nan)
     features[np.isnan(features)] = 0
-- 
2.43.0


From 0053d49cddd27629014b9b512d2280006d067181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 15/20] fix: PNCC weight smoothing of silent channels

---
 spafe/features/pncc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 8a93a1d..8fa1526 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -161,6 +162,7 @@ def weight_smoothing(
     """
     L = nfilts
     S_tilde = np.zeros_like(R_tilde)
+    Q_tilde = zero_handling(Q_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
             l1 = max(l - N, 0)
-- 
2.43.0


From 72a99e346034682c038cfed881ccd34352858b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 16/20] fix: LPC of a silent frame

---
 spafe/features/lpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 1d517a0..78d93c7 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -79,6 +79,9 @@ def __lpc_helper(frame, order):
     auto_corr = np.correlate(frame, frame, "full")
     r[:nx] = auto_corr[frame.size - 1 : frame.size + order]
 
+    # a silent frame has no energy: keep the normal equations solvable
+    r[0] = zero_handling(r[0])
+
     phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
     e = np.dot(r, a)
-- 
2.43.0


From 2b30771c088c18e23b0cddea1ad1d40b78a302bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 17/20] fix: PNCC uses the number of filters of the bank it was
 given

---
 spafe/features/pncc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 8fa1526..3f38434 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -434,13 +434,13 @@ def pncc(
     R_tilde = asymmetric_noise_suppression_with_temporal_masking(Q_tilde)
 
     ## 3. weight smoothing
-    S_tilde = weight_smoothing(R_tilde, Q_tilde, nfilts=nfilts)
+    S_tilde = weight_smoothing(R_tilde, Q_tilde, nfilts=P.shape[1])
 
     # -> time frequency normalization
     T = P * S_tilde
 
     # -> mean power normalization
-    U = mean_power_normalization(T, nfilts=nfilts)
+    U = mean_power_normalization(T, nfilts=P.shape[1])
 
     # -> power law non-linearity
     V = U ** (1 / 15)
-- 
2.43.0


From f80f64b5a1cff602871d8945cf32a43b7ef974e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 18/20] fix: Terhardt bark2hz inverts hz2bark

---
 spafe/utils/converters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index d90c006..6b94cb1 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -143,7 +143,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -214,7 +214,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -262,7 +262,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Schroeder":
         return 650 * np.sinh(fb / 7)
     elif approach == "Terhardt":
-        return (1000 / 0.75) * np.tan(fb / 13)
+        return (1000 / 0.75) * np.tan(fb / 13.3)
     elif approach == "Zwicker":
         return 10 ** (((fb - 8.7) / 14.2) + 3)
     elif approach == "Traunmueller":
-- 
2.43.0


From e52f7d123f61dff36b188298feb33f022eb966e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 19/20] fix: Traunmueller hz2bark inverts bark2hz, also for
 arrays

---
 spafe/utils/converters.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index 6b94cb1..de286bb 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -150,7 +150,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
             - :math:`f  = 10^{(\\frac{fb-8.7}{14.2} + 3)}`
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{1960+f}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
@@ -187,7 +187,10 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Zwicker":
         return 8.7 + 14.2 * np.log10(f / 1000)
     elif approach == "Traunmueller":
-        return ((26.28 * f) / (1 + 1960)) - 0.53
+        fb = ((26.81 * f) / (1960 + f)) - 0.53
+        return np.where(
+            fb < 2, 0.85 * fb + 0.3, np.where(fb > 20.1, 1.22 * fb - 4.422, fb)
+        )
     else:
         return 6 * np.arcsinh(f / 600)
 
@@ -223,7 +226,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
             *!* might raise RuntimeWarning: divide by zero encountered in log10
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{1960+f}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
@@ -277,12 +280,9 @@ def __traunmueller_helper(fi: float) -> float:
     """
     Helper funtion for the Traunmueller approach.
     """
-    if fi < 2:
-        return (fi - 0.3) / (0.85)
-    elif fi > 20.1:
-        return (fi + 4.422) / 1.22
-    else:
-        return fi
+    return np.where(
+        fi < 2, (fi - 0.3) / 0.85, np.where(fi > 20.1, (fi + 4.422) / 1.22, fi)
+    )
 
 
 MelConversionApproach = Literal["Oshaghnessy", "Lindsay"]
-- 
2.43.0


From 084085460541810d796b429718ccb098ba59a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 20/20] fix: accept the documented Beranek mel conversion

---
 spafe/utils/converters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index de286bb..679da9b 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -285,7 +285,7 @@ def __traunmueller_helper(fi: float) -> float:
     )
 
 
-MelConversionApproach = Literal["Oshaghnessy", "Lindsay"]
+MelConversionApproach = Literal["Oshaghnessy", "Beranek", "Lindsay"]
 
 
 def hz2mel(f: float, approach: MelConversionApproach = "Oshaghnessy") -> float:
@@ -345,6 +345,7 @@ def hz2mel(f: float, approach: MelConversionApproach = "Oshaghnessy") -> float:
     """
     return {
         "Oshaghnessy": 2595 * np.log10(1 + f / 700.0),
+        "Beranek": 1127 * np.log(1 + f / 700.0),
         "Lindsay": 2410 * np.log10(1 + f / 625),
     }[approach]
 
@@ -381,5 +382,6 @@ def mel2hz(fm: float, approach: MelConversionApproach = "Oshaghnessy") -> float:
     """
     return {
         "Oshaghnessy": 700 * (10 ** (fm / 2595.0) - 1),
+        "Beranek": 700 * (np.exp(fm / 1127.0) - 1),
         "Lindsay": 625 * (10 ** (fm / 2410) - 1),
     }[approach]
-- 
2.43.0

