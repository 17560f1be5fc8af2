"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
F = "spafe/features/"; B = "spafe/fbanks/"; U = "spafe/utils/"; Q = "spafe/frequencies/"
EXTR = [F+x+".py" for x in "mfcc bfcc lfcc gfcc msrcc ngcc psrcc pncc cqcc lpc rplp".split()]

prop("C01", "Caller-owned arrays and window objects are never modified",
 "No public function changes the contents of any array, list or sliding-window object that the caller passes to it, under any combination of options.",
 ["inputs", "configurations"], "every public function, every argument, every option combination and every path",
 "The tests load a fresh signal per case and never compare an argument before and after a call.",
 EXTR + [F+"spfeats.py", U+"preprocessing.py", U+"cepstral.py", U+"spectral.py", U+"filters.py", U+"vis.py", Q+"dominant_frequencies.py", Q+"fundamental_frequencies.py", B+"mel_fbanks.py"],
 [("the signal is copied before strided framing; every later step allocates its result", U+"preprocessing.py stride_trick")], ["the argument objects after the call"])

prop("C02", "Results depend on the arguments alone",
 "Calling any public function with equal arguments gives equal results whatever was called before, in whatever order or process state: nothing is remembered between calls, nothing random, time-, file- or environment-dependent enters a result, and no process-wide setting is changed.",
 ["histories", "inputs"], "every call history over the public API",
 "Each test compares calls made back to back inside one process with the same arguments; no test varies the history.",
 EXTR + [F+"spfeats.py"] + [U+x for x in ("preprocessing.py","converters.py","cepstral.py","filters.py","spectral.py")] + [B+x for x in ("mel_fbanks.py","bark_fbanks.py","gammatone_fbanks.py","linear_fbanks.py")],
 [("module level holds constants only; no function writes anything that outlives its call", "spafe/")], ["return values across call histories"])

prop("C03", "Every analysis option reaches the processing step it names",
 "In every spectrogram, cepstral, LPC/PLP and dominant-frequency extractor, each analysis option the caller gives (sampling rate, pre-emphasis switch and coefficient, window length, hop and type, FFT size, filter count, band edges, scale, conversion approach, DCT type, number of coefficients, root exponent, lifter, normalisation, constant-Q settings) is delivered unchanged to the processing step it names. No layer drops an option, swaps it with another one, or puts a constant in its place.",
 ["configurations", "inputs"], "all option values, all extractors, all layers between the public entry and the primitive that consumes the option",
 "The tests call an extractor twice with the same options and compare the two outputs, so an option that is ignored or hard-coded in both calls is invisible.",
 EXTR + [Q+"dominant_frequencies.py", B+"linear_fbanks.py", B+"mel_fbanks.py"],
 [("keyword forwarding at each layer", "the call sites inside "+F)], ["extractor outputs as a function of one option"])

prop("C04", "Invalid configurations are rejected, boundary ones accepted",
 "Building a filter bank or extracting features with one raises the library's ParameterError exactly when the low edge is negative or the high edge exceeds half the sampling rate; a filter-bank cepstral or PLP extractor raises it exactly when more coefficients than filters are requested; framing, and every extractor given such a window, raises it exactly when the window is shorter than the hop; the constant-Q spectrogram and cepstrum raise it when the high edge exceeds half the sampling rate. With a caller-supplied bank the band edges do not matter. Values on the boundary are accepted, and no result is returned for an invalid configuration.",
 ["configurations"], "all values of the band edges, sampling rate, filter and coefficient counts, window length and hop, at every entry point",
 "Tests try one value far outside each range and never a boundary, and not every entry point is tried.",
 EXTR + [B+"mel_fbanks.py", B+"bark_fbanks.py", B+"gammatone_fbanks.py", B+"linear_fbanks.py", U+"preprocessing.py", U+"exceptions.py"],
 [("guard statements raising ParameterError", "start of each filter bank / extractor / framing")], ["exception type raised, or a returned value"])

prop("C05", "Omitting an optional argument means its documented default",
 "Leaving out the upper band edge is the same as passing half the sampling rate, leaving out the window is the same as passing a 25 ms / 10 ms Hamming window, and leaving out the filter bank is the same as passing the one the library builds from the remaining options, in every function that takes them.",
 ["configurations", "inputs"], "every function with an optional band edge, window or filter bank; all values of the other options",
 "The tests always pass the upper band edge explicitly and never pass an explicit default window.",
 EXTR + [B+"mel_fbanks.py", B+"bark_fbanks.py", B+"gammatone_fbanks.py", B+"linear_fbanks.py", U+"spectral.py", U+"preprocessing.py"],
 [("None handling", "start of each function"), ("SlidingWindow field defaults", U+"preprocessing.py")], ["return values"])

prop("C06", "Digital silence gives finite features",
 "For an all-zero signal every spectrogram and every cepstral, LPC and PLP extractor (normalisation off, frequency scales finite at the chosen edges) returns arrays without NaN or infinity and raises nothing: each logarithm, negative power, division and matrix inverse on signal energy is protected against zero.",
 ["inputs", "configurations"], "signals containing frames of exact zeros, with every option other than normalisation",
 "The only test signal is one speech recording without digital silence.",
 EXTR + [U+"preprocessing.py", U+"filters.py"],
 [("zero substitution before log/power/division", U+"preprocessing.py zero_handling and its uses")], ["np.isfinite on outputs"])

prop("C07", "Framing is exact and stays inside the signal",
 "For every mono signal of N samples, frame k holds exactly samples k*hop .. k*hop+len-1, with len and hop the window length and hop in whole samples, and there are floor((N-len)/hop)+1 frames, so no complete frame is missing. No value outside the signal is ever read, and writing to the frames cannot change the signal.",
 ["inputs", "configurations"], "all signal lengths, sampling rates, window lengths and hops",
 "The test checks only an upper bound on the number of frames for four window settings and never looks at a frame's content.",
 [U+"preprocessing.py"], [("strided view over a private copy with row count derived from the copy's size", U+"preprocessing.py stride_trick, framing")], ["frames returned by framing"])

prop("C08", "Pre-emphasis and windowing compute the documented transform",
 "Pre-emphasis returns y[t] = x[t] - coeff*x[t-1] (y[0] = x[0]) for every coefficient, windowing multiplies every frame by the window function the caller named (hanning, bartlet, kaiser with beta 14, blackman, hamming) at the given frame length, and zero handling replaces exactly the zero entries by the machine epsilon and nothing else.",
 ["inputs", "configurations"], "all signals, coefficients, frame lengths and window names",
 "One five-sample signal with one coefficient is tested, and the windowing test's assertion cannot fail.",
 [U+"preprocessing.py"], [("FIR filter call, window table, where()", U+"preprocessing.py")], ["return values"])

prop("C09", "Spectral analysis sees each frame windowed exactly once",
 "In every extractor that works on short-time frames, what enters the Fourier transform, constant-Q transform or linear prediction is the frame of the (optionally pre-emphasised) signal multiplied by the selected window exactly once; pre-emphasis acts once, on the whole signal, before framing.",
 ["inputs", "configurations"], "every extractor, every window type, pre-emphasis on or off",
 "Tests compare an extractor with itself, so a missing, doubled or misplaced window or pre-emphasis is invisible.",
 EXTR + [Q+"dominant_frequencies.py"], [("pre-emphasis, framing, windowing call sequence", F)], ["extractor outputs"])

prop("C10", "Frequency scale conversions are mutual inverses",
 "For every advertised approach and every frequency in the scale's domain, converting Hz to mel, bark or ERB and back returns the original frequency.",
 ["inputs", "configurations"], "all frequencies, all approaches of the three scales",
 "Bark and mel tests compare a conversion with itself; only ERB is tested as a round trip, on 15 values.",
 [U+"converters.py"], [("paired closed-form formulas", U+"converters.py")], ["x2hz(hz2x(f)) against f"])

prop("C11", "Every advertised option value is accepted and selects its own behaviour",
 "Each window type, scale, normalisation, and conversion approach that the type hints or documentation of a function advertise is accepted by that function and by everything it calls, and selects the computation documented for that name; different names select their documented, different computations.",
 ["configurations"], "all advertised option names at all functions that accept them",
 "Only some names are tried, and the result is compared with a second call of the same function.",
 [U+"preprocessing.py", U+"converters.py", U+"cepstral.py", U+"filters.py", U+"vis.py", B+"mel_fbanks.py"],
 [("dispatch tables and if-chains keyed by option name", "see files")], ["return values per option name"])

prop("C12", "Outputs have the documented dimensions",
 "Filter banks are nfilts x (nfft//2+1) with nfilts centre frequencies; spectrograms are frames x filters together with a frames x (nfft//2+1) spectrum; cepstra are frames x num_ceps; LPC/LPCC/PLP are frames x order, for every parity of nfft, every count and every signal length of at least one window. Liftering, normalisation, deltas and RASTA filtering preserve the shape of their input.",
 ["configurations", "inputs"], "all nfft (odd and even), nfilts, num_ceps, order, signal lengths, window settings",
 "Tests use even FFT sizes and a handful of counts, and mostly check only the number of columns.",
 EXTR + [B+"mel_fbanks.py", B+"bark_fbanks.py", B+"gammatone_fbanks.py", B+"linear_fbanks.py", U+"cepstral.py", U+"filters.py"],
 [("allocation sizes, slices, axis arguments", "see files")], [".shape of outputs"])

prop("C13", "Mel, linear and inverse-mel filters are unit triangles",
 "Each mel or linear filter rises linearly from 0 at its lower edge to 1 at its centre and falls to 0 at its upper edge, with edges and centres equally spaced on the mel (or Hz) scale between the band edges and neighbouring filters sharing them; all weights lie in [0, 1] and are zero outside the edges; the nfft//2+1 columns stand for equally spaced frequencies from the low to the high band edge. The inverse-mel bank is the mel bank mirrored over the band, with its centre frequencies mirrored likewise.",
 ["configurations"], "all filter counts, FFT sizes, sampling rates, band edges and approaches",
 "Tests check only the shape of the matrices.",
 [B+"mel_fbanks.py", B+"linear_fbanks.py"], [("edge grid and slope assignments", B+"mel_fbanks.py")], ["filter bank matrices and centre frequencies"])

prop("C14", "Bark and gammatone filters follow their documented curves within [0, 1]",
 "Each Bark filter weight is the documented piecewise critical-band curve of the bin's Bark distance to an equally spaced centre, zero more than 1.3 Bark below or 2.5 Bark above it and at most 1. Each gammatone filter is its magnitude response at the FFT bins normalised to a maximum of 1, with ERB-spaced ascending centres.",
 ["configurations"], "all filter counts, FFT sizes, sampling rates, band edges and approaches",
 "Tests check only the shape of the matrices.",
 [B+"bark_fbanks.py", B+"gammatone_fbanks.py"], [("piecewise curve; row-maximum normalisation", "see files")], ["filter bank matrices"])

prop("C15", "The scale option weights filters and nothing else",
 "For every filter bank, 'constant' leaves the bank as is, 'ascendant' multiplies filter i (counted from 1) by i/nfilts and 'descendant' by (nfilts+1-i)/nfilts; the inverse-mel bank applies the mirrored scale; centre frequencies do not depend on the scale.",
 ["configurations"], "all filter banks, filter counts and scale names",
 "Tests pass all scale names but check only the matrix shape.",
 [U+"filters.py", B+"mel_fbanks.py", B+"bark_fbanks.py", B+"gammatone_fbanks.py", B+"linear_fbanks.py"], [("scale vector multiplied once into the bank", "end of each bank builder")], ["filter bank matrices per scale"])

prop("C16", "A filter bank supplied by the caller is used exactly as given",
 "When the caller passes a filter bank, the extracted features are computed with that matrix unaltered, and options that only describe how a bank is built (band edges, scale, conversion approach) no longer affect the result.",
 ["inputs", "configurations"], "all matrices passed as filter bank, all extractors that accept one",
 "Tests only pass the bank the extractor would have built itself.",
 EXTR, [("bank built only when none is given", "start of each extractor")], ["extractor outputs"])

prop("C17", "use_energy replaces exactly the first coefficient by the log frame energy",
 "With use_energy on, coefficient 0 of every frame is the natural log of that frame's total power ((1/nfft) times the sum of squared spectral magnitudes over the nfft//2+1 bins, zeros replaced by epsilon) before liftering and normalisation, and every other coefficient is what it is with use_energy off.",
 ["inputs", "configurations"], "all extractors with the option, all signals and other options",
 "Tests compare the energy column with a second call that uses the same option values.",
 [F+x+".py" for x in "mfcc bfcc lfcc gfcc msrcc ngcc psrcc".split()], [("column-0 assignment after the DCT", "see files")], ["coefficient columns"])

prop("C18", "Liftering then normalisation are the last steps, on the requested coefficients",
 "Every cepstral, LPCC and PLP extractor with lifter and normalize options returns normalize(lifter(c)), where c are the first num_ceps (or order) coefficients it returns with both options off; each step is applied once, only when requested, with the caller's parameter.",
 ["inputs", "configurations"], "all extractors with these options, all lifter and normalisation values",
 "Tests sample two lifters and two normalisations, skip this comparison for PNCC and RASTA-PLP, and compare with 0 to 3 decimals.",
 EXTR, [("post-processing tail", "end of each extractor")], ["extractor outputs"])

prop("C19", "Cepstra come from the library's own spectrogram for the same options",
 "For the same options, the mel, inverse-mel, linear, bark, gammatone and root-compressed cepstra equal the orthonormal DCT over the filter axis of the documented compression (log, power law or root, with zeros protected) of exactly the filter-bank power spectrum (1/nfft)|FFT|^2 that the library's spectrograms return, truncated to num_ceps columns.",
 ["inputs", "configurations"], "all signals and options of mfcc, imfcc, lfcc, bfcc, gfcc, msrcc, ngcc, psrcc",
 "No test relates a cepstral extractor to the corresponding spectrogram or to the formula.",
 [F+x+".py" for x in "mfcc bfcc lfcc gfcc msrcc ngcc psrcc".split()], [("spectrogram -> compression -> DCT chain", "see files")], ["extractor outputs"])

prop("C20", "Normalisation, liftering and deltas follow their documented formulas",
 "Cepstral normalisation (mvn, ms, vn, mn), exponential and sinusoidal liftering (identity for 0 and above 10) and delta computation (linear slope over a w-point window with replicated edges) equal the documented formula for every matrix and parameter.",
 ["inputs", "configurations"], "all matrices, lifter values and window widths",
 "The formulas are sampled on one vector with one decimal; positive liftering is computed but never asserted.",
 [U+"cepstral.py"], [("formula code", U+"cepstral.py")], ["return values"])

prop("C21", "Spectral descriptors are computed from the spectrum they name",
 "The spectral feature extractor returns exactly the twelve documented entries, each one being its own descriptor function applied to the spectrum of the given signal at the given FFT size and sampling rate, and each descriptor equals its documented formula as a single number.",
 ["inputs"], "all signals, sampling rates, FFT sizes and spectra",
 "The test counts the dictionary entries and checks that none is None.",
 [F+"spfeats.py"], [("argument binding of descriptor calls; formulas", F+"spfeats.py")], ["dictionary values"])

prop("C22", "YIN pitch results are consistent and inside the search range",
 "For every signal, the four YIN results have one entry per analysis frame, each pitch is either 0 (unvoiced) or fs divided by a lag between int(fs/high_freq) and int(fs/low_freq)-1, found at the first dip of the cumulative mean normalised difference below the threshold, and its harmonic rate is that function's value at the lag (its minimum when unvoiced); time stamps are the frame starts in seconds.",
 ["inputs", "configurations"], "all signals, search ranges, thresholds and window settings",
 "The test only checks that the result is not None.",
 [Q+"fundamental_frequencies.py"], [("lag search loop and difference function", Q+"fundamental_frequencies.py")], ["the four returned arrays"])

prop("C23", "Dominant frequency is the frequency of the strongest bin",
 "Each reported dominant frequency is the true frequency, in Hz at the given sampling rate and FFT size, of the strongest bin of that frame's power spectrum (rounded to 3 decimals), so it lies between 0 and half the sampling rate; the optional band-pass filter uses the caller's cut-offs.",
 ["inputs", "configurations"], "all signals, sampling rates, FFT sizes, window settings",
 "The test only checks that the result is not None.",
 [Q+"dominant_frequencies.py"], [("bin-to-Hz mapping after argmax", Q+"dominant_frequencies.py")], ["returned frequencies"])

prop("C24", "The constant-Q transform uses geometric bins, in-range kernels and every frame",
 "Constant-Q centre frequencies are f0*2^(k/bins) restricted to the requested band and to kernels that fit the FFT size, each kernel is a centred, length-normalised windowed exponential of ceil(Q*fs/f) samples, and the transform is each frame's spectrum against the thresholded conjugate kernel; the cepstrum is the DCT of its zero-protected log power resampled by the caller's ratio.",
 ["inputs", "configurations"], "all signals, octave/bin settings, thresholds, band edges, FFT sizes",
 "The transform's numbers are not tested at all.",
 [U+"spectral.py", F+"cqcc.py"], [("kernel construction loop", U+"spectral.py")], ["transform matrix, cqcc output"])

prop("C25", "LPC, LPCC and PLP follow the autocorrelation method on every frame",
 "Each frame's LPC row starts with 1 followed by the solution of the Toeplitz normal equations of that frame's autocorrelation at the requested order (up to the frame length); LPCCs start with the log of the error term and follow the documented recursion; PLP and RASTA-PLP differ only by the RASTA filtering of the log auditory spectrum.",
 ["inputs", "configurations"], "all signals, orders and options",
 "Only the number of columns is tested.",
 [F+"lpc.py", F+"rplp.py"], [("autocorrelation, Toeplitz solve, recursion", "see files")], ["lpc, lpcc, plp, rplp outputs"])

prop("C26", "PNCC applies its documented stages in order, causally",
 "PNCC is the power-law compressed DCT of the filter-bank power passed through medium-time averaging over existing frames within two of the current one, asymmetric noise suppression with temporal masking, spectral weight smoothing and mean power normalisation, each with its documented recurrence; the recursive stages at a frame use only that frame and earlier ones.",
 ["inputs", "configurations"], "all power matrices and parameters of the stages",
 "The numerical assertions of the PNCC test are commented out.",
 [F+"pncc.py"], [("stage functions", F+"pncc.py")], ["stage outputs, pncc output"])

prop("C27", "Importing and computing needs only the declared dependencies",
 "Importing any module of the library, and running everything except the plotting functions, needs only NumPy, SciPy and typing_extensions; the plotting library is loaded only when a plotting function is called.",
 ["configurations"], "every installation that satisfies the declared requirements",
 "The test environment has the plotting library and much else installed.",
 [U+"vis.py", "spafe/__init__.py", "requirements.txt", "setup.py"], [("import placed inside plotting functions", U+"vis.py")], ["import of each module in a minimal environment"])

prop("C28", "Errors are never swallowed or disguised",
 "No library function catches an exception it did not anticipate and carries on: interrupts, memory errors and programming errors reach the caller, and a rejected configuration always surfaces as ParameterError, a subclass of the library's root exception.",
 ["fault_sequences", "inputs"], "every exception raised at any point inside a library call",
 "No test injects a failure inside a library call.",
 ["spafe/"] + [B+"gammatone_fbanks.py", U+"exceptions.py"], [("absence of handlers that neither re-raise nor convert", "whole package")], ["exceptions observed by the caller"])

prop("C29", "Features of one frame do not depend on other frames",
 "With normalisation off and no resampling, row i of every spectrogram and of every cepstral, LPC and PLP output other than PNCC and RASTA-PLP (column i of the constant-Q spectrogram) depends only on the samples of frame i (plus the pre-emphasis neighbour), so extracting from a longer recording leaves the rows of the earlier frames unchanged.",
 ["inputs"], "all signals and all continuations of a signal",
 "No test compares the extraction of a signal with the extraction of its continuation.",
 EXTR, [("operations act along the filter or sample axis only", F)], ["rows of outputs for a signal and its extension"])

prop("C30", "Estimated pitch matches the true fundamental of periodic signals",
 "For a periodic signal whose fundamental lies inside the search range, the YIN estimate is within one lag of the true period.",
 ["inputs"], "all periodic signals",
 "The test only checks that the result is not None.",
 [Q+"fundamental_frequencies.py"], [("YIN algorithm", Q+"fundamental_frequencies.py")], ["pitch estimates"])

prop("C31", "Features stay finite and accurate for every signal amplitude and type",
 "For every finite signal of any amplitude and numeric type, features are finite and within floating-point error of the exact formula.",
 ["inputs"], "all finite signals of all numeric types",
 "Tests use one 16-bit recording.",
 EXTR, [("floating-point arithmetic", "whole package")], ["outputs against a high-precision reference"])

os.makedirs("/verif", exist_ok=True)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
