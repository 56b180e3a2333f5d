#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                  "mechanism": [dict(name=n, where=w) for n, w in mech],
                  "observe_at": list(observe), "hook_needed": None}})
CORE, NB, NORM, MT = "cddm/core.py", "cddm/_core_nb.py", "cddm/norm.py", "cddm/multitau.py"
VID, FFT, MAP, CONF, PRT = "cddm/video.py", "cddm/fft.py", "cddm/map.py", "cddm/conf.py", "cddm/print_tools.py"

prop("C01", "Every frame pair is counted once, in the bin of its own time delay",
 "A direct (non-FFT) correlation, difference, per-delay sum or occurrence count visits every pair of frames exactly once and adds it at the delay between the two time stamps: the magnitude of the delay for real results, and for complex cross results the signed delay, second minus first, with negative delays stored from the end of the output. Pairs whose delay does not fit into the output are skipped. Regularly spaced data without time stamps behave as if the stamps were 0, 1, 2, ...",
 ["inputs", "configurations"], "all frame stacks, all time-stamp sequences (irregular, unsorted, repeated), all output lengths, all axes and memory layouts, cross and auto, real and complex",
 "The tests compare a few fixed-seed arrays of 24 frames with each other (FFT against direct), so an error shared by siblings, or one that needs an unusual time sequence or length, is never exercised.",
 [CORE, NB], [("lag kernels", NB), ("kernel dispatch and time-stamp normalisation", CORE)], observe=["result of cross/auto correlate, difference, sum and count"])
prop("C02", "Each pair contributes exactly the documented product, difference or sum term",
 "For a pair of a first-camera frame a and a second-camera frame b a direct correlation adds conj(a)*b (its real part for real results), a direct difference adds |b-a|^2, a per-delay sum adds the value of the camera that is summed, and an occurrence count adds one. For auto-correlation the earlier frame is the conjugated one. The term is the same for one- and multi-dimensional data, regular and irregular spacing, every axis and alignment choice.",
 ["inputs", "configurations"], "all data values and all layout / spacing / complexity configurations",
 "Tests sample random real-valued noise in a handful of layouts; a wrong conjugation or a wrong operand in one layout variant needs a specific combination to be visible.",
 [CORE, NB], [("summands of the lag kernels", NB), ("operand order at the dispatch sites", CORE)])
prop("C03", "Results accumulate into caller-supplied outputs and start from zero otherwise",
 "When output arrays of an earlier call are passed back in, a computation adds its contribution to them (correlation, count, squared sum and both signal sums alike) and returns those same arrays; nothing that was accumulated is overwritten, reset, scaled or dropped. When no output is passed, accumulation starts from zeros. Hence results for consecutive data sets add up.",
 ["histories", "inputs", "configurations"], "every sequence of accumulating calls, all methods and normalization requests",
 "A test feeds an output back once, with one method; the property concerns every history of accumulating calls and every one of the output arrays under each method.",
 [CORE, NB, MT], [("output defaulting", CORE), ("kernels only add to out", NB)], state=[("aout", "tuple of accumulators", CORE)])
prop("C04", "FFT evaluation defines the same sums as the direct evaluation",
 "Correlations and per-delay sums evaluated with FFT zero-pad by time stamp to at least twice the time range, so that no circular wrap-around can mix delays, conjugate the same operand as the direct evaluation, and add the same delays to the same output positions. This holds for auto and cross, real and complex, regular and irregular spacing, and time-inverted sums.",
 ["inputs", "configurations"], "all data, time stamps and output lengths for which both evaluations are defined",
 "Tests compare FFT to direct results on a few arrays whose length and output size are fixed; wrap-around, orientation and slice errors need longer outputs or other time spans.",
 [CORE, NB], [("padding, conjugation and slice selection", NB), ("length determination", CORE)])
prop("C05", "Raw results hold the camera-specific sums that the chosen normalization needs",
 "Correlation data is the five-tuple (correlation, count, squared-signal sum, first-camera sum, second-camera sum) and difference data the four-tuple (difference, count, first-camera sum, second-camera sum). Each entry is computed from the camera, time stamps, delay orientation and complexity it is named after (squared sums combine both cameras, auto-correlation doubles the single camera), and the squared sum is present exactly when a structured normalization, and the signal sums exactly when a subtracted normalization, was requested.",
 ["configurations", "inputs"], "all methods, normalization requests, spacing and complexity, with or without precomputed squares",
 "Tests mostly look at the normalised outcome on identically distributed cameras where exchanging cameras or time stamps changes little.",
 [CORE], [("composition of the data tuple", CORE)])
prop("C06", "Normalization estimators equal their documented formulas, real and complex alike",
 "Every normalization estimator evaluates its defining formula (baseline, subtracted, compensated; standard or structured) exactly: as algebraic expressions in correlation, count, backgrounds, signal sums, squared sum and variance they are identical to the definition. The real part of each complex estimator is the real estimator. Complex estimators give an infinite value for delays that never occur instead of dividing by zero.",
 ["inputs"], "all real and complex values of the arguments",
 "Tests compare estimators with each other on statistically symmetric noise with loose tolerances; a wrong sign of a term that vanishes on average goes unnoticed.",
 [NB], [("normalization kernels", NB)])
prop("C07", "Normalizing uses the estimator and the data entries of the requested mode",
 "Normalizing raw data with a given normalization code applies the estimator of that code, for correlation and for difference data, feeding each argument (correlation, count, backgrounds of the right camera, variance offset, squared sum, first- and second-camera sums) from the matching entry of the data; auto-correlation data uses its single sum for both cameras. Weighted codes combine the structured and the standard estimate of the same family, with weights between them computed from the data or supplied by the caller. Masks and a supplied output array are honoured in every mode.",
 ["configurations", "inputs"], "all normalization codes, both data kinds, both representations, masked or not",
 "Tests visit some codes with symmetric inputs, under which exchanged slots or cameras give nearly the same numbers.",
 [NORM, NB], [("dispatch on the normalization code", NORM), ("real/complex dispatch", NB)])
prop("C08", "Correlation and difference representations and scaling are mutually consistent",
 "The difference representation of a result is always 2*(v - g) for correlation representation g and variance v (mean of both cameras' variances), and the reverse conversion is its exact inverse. Scaling divides by that same variance v, masked like the data, exactly once. The weight used in weighted normalization does not depend on whether scaling was requested.",
 ["configurations", "inputs"], "all codes, both data kinds, masks, one or two cameras",
 "Tests check the relation for some codes with equal variances, where unequal treatment of the cameras is invisible.",
 [NORM], [("conversion helpers, scale factor, noise delta", NORM)])
prop("C09", "Normalization codes, names and defaults form one consistent table",
 "Named, flag-built and numeric normalization codes agree; the default code is the richest one that the data (or the method) supports; a code that the method or the available data entries cannot support is rejected with a value error before anything is computed; and every accepted code has an estimator.",
 ["inputs", "configurations"], "all strings, flag combinations and integers, all methods and data shapes",
 "Tests try a few valid and invalid codes; the table has hundreds of (code, method, data) cells.",
 [NORM, CORE], [("flag constants, name parsing, default tables", NORM), ("per-method default and admissible codes", CORE)])
prop("C10", "Compiled kernels never read or write outside their arrays",
 "For every admissible combination of input length, time stamps and output length, including outputs longer than the data, every element access in the compiled computation kernels stays inside the accessed array. (Compiled code performs no bounds check of its own.)",
 ["inputs"], "all array lengths and time stamps",
 "An out-of-bounds access usually returns plausible memory and tests use matched sizes.",
 [NB, "cddm/_sim_nb.py"], [("loop bounds and guards in the kernels", NB)])
prop("C11", "Computations do not modify the caller's input data",
 "Frames, time stamps, squared signals, backgrounds, variances, masks and raw data passed to a computation, normalization, averaging, mapping or frame-wise operation keep their values; only arrays passed explicitly as outputs, or frames for which in-place operation was requested, are written.",
 ["inputs", "histories"], "all public computing functions, all option combinations, inputs that are views or already have the working data type",
 "Inputs that already have the working dtype are not copied, so a stray in-place operation corrupts later results without failing the call a test looks at.",
 [CORE, NORM, MT, FFT, MAP, VID, NB], [("copies and fresh outputs", "all computing modules")])
prop("C12", "Multi-tau levels bin both cameras and their squares identically",
 "Each further multi-tau level halves the time resolution by combining consecutive pairs of frames: their mean, the first of the two, or one chosen of the two. The same selection is applied to both cameras and to their squared signals, in memory and iteratively, each level is computed from the previous one, and every requested level is filled. Binning by averaging is refused for difference analysis.",
 ["inputs", "configurations", "histories"], "all frame counts, level sizes, numbers of levels, chunk sizes and binning modes",
 "Tests compare in-memory and iterative results for default levels and averaging only.",
 [MT], [("binning functions", MT), ("chunked level buffers", MT)], state=[("level buffers", "binned frames per level", MT)])
prop("C13", "Every option given to a user-level function reaches the computation",
 "Every parameter of the in-memory, multi-tau and iterative correlation functions that selects data, time stamps, lengths, levels, method, normalization, complexity, masking, threading or statistics is forwarded to the stage that implements it, under its own meaning, in every branch; none is dropped, exchanged or replaced by a constant. A default call of any of these functions is accepted.",
 ["configurations"], "all options of all user-level correlation functions, in every branch",
 "Tests use few non-default options at a time, and a dropped option usually still gives a valid-looking result.",
 [CORE, MT], [("parameter forwarding", MT)])
prop("C14", "Chunked computation pairs every chunk with itself and both neighbours",
 "In full mode the iterative computation correlates each chunk with itself and with the preceding chunk in both camera orders, and in chunk mode only with itself; in each of these the frames, their squares and their time stamps come from the same chunk and camera, at every level. All contributions are added into the running result, with counts, so that a full-mode run equals the in-memory multi-tau result.",
 ["inputs", "histories", "configurations"], "all frame counts, chunk sizes, levels, modes, auto and cross, real and complex",
 "Tests compare one data size with one or two chunk sizes, for which mispaired squares or stamps at deeper levels contribute little.",
 [MT], [("chunk and level loops", MT)], state=[("ring buffers", "two half-chunks per level", MT)])
prop("C15", "Delay axes of averaged and merged data label each value with its true delay",
 "Log-averaging and merging of linear, multi-level and multi-tau data keeps every value together with its true delay: level k of a multilevel array has spacing 2^k, slow multi-tau levels start at twice the period, halves already covered by a finer level are dropped, nothing is duplicated, and the axis is increasing. Occurrence-count helpers follow the same layout as the data they describe.",
 ["inputs", "configurations"], "all data lengths, level sizes, periods and binning modes",
 "Tests compare shapes or one size; a mislabeled level is a factor of two on part of an axis.",
 [MT], [("multilevel, merge, log-merge", MT)])
prop("C16", "Folding and phase equalization pair each delay with its own negative delay",
 "Operations on complex cross-correlation data pair the value at positive delay i with the value stored for delay -i, for every i: folding averages the value and the conjugate of its partner (or returns one side, one value per delay, zero delay first), and shifting/equalizing return data whose value at -i is tied to that at i by conjugation and whose zero-delay value is real.",
 ["inputs"], "all lengths and data values, all fold modes",
 "Only symmetric data or one mode is tested, where an off-by-one pairing is invisible.",
 [NORM], [("slice pairing", NORM)])
prop("C17", "Cropping and half-plane conversion keep every value at its wave vector",
 "Cropping a Fourier-transformed frame keeps exactly the wave vectors up to the requested limits, each with its own value, and refuses limits the frame cannot supply. Converting between the full Fourier plane and the stored half plane maps each wave vector to itself or to its negative partner (conjugated for complex data), for even and odd frame sizes.",
 ["inputs", "configurations"], "all frame sizes (even and odd, non-square) and limits, including limit zero",
 "Tests use a few sizes; index arithmetic at the Nyquist row, odd widths or zero limits is not covered.",
 [FFT, MAP], [("crop slices", FFT), ("half-plane slices", MAP)])
prop("C18", "Wave-vector selection averages exactly the requested wave vectors",
 "Selecting data by wave number returns for each requested wave number the mean over the wave vectors whose magnitude rounds to it and whose angle lies in the sector, together with their mean magnitude; half-plane data includes the negative partners conjugated, masked-out wave vectors never contribute, and wave vectors follow the real frame shape. A single wave number, a list, or no wave number are all accepted.",
 ["inputs", "configurations"], "all sectors, wave numbers, frame shapes and masks",
 "Tests check one sector on simulated data.",
 [MAP], [("k grids, sector map, selection", MAP)])
prop("C19", "Every FFT backend that can be selected computes every transform",
 "Each transform has an implementation for every backend name that configuration accepts, forwards the caller's options to it, uses the matching direction and dimensionality, and returns data of the configured precision where the result feeds the correlators; a backend that is not installed can not become selected.",
 ["configurations"], "all selectable backends, all transforms",
 "Only the backends installed on a test machine, and mostly the default, are run.",
 [FFT, CONF], [("backend dispatch", FFT), ("backend setters", CONF)])
prop("C20", "Configuration setters validate first and return the previous value",
 "Every configuration setter returns the value that was in force before the call, so settings can be restored; an invalid value raises a value error and leaves the configuration unchanged, and a value that can not be honoured leaves the configuration unchanged. Importing works for any supported combination of environment settings and hardware limits.",
 ["inputs", "configurations", "histories"], "all setters, valid and invalid values, sequences of calls",
 "Tests call setters once with valid values.",
 [CONF], [("setters", CONF)])
prop("C21", "Computations leave the user's verbosity setting as they found it",
 "Silencing of nested progress output is temporary: after any computation returns, yields a partial result or fails with an exception, the verbosity level is the one that was set before, and nested silencing does not re-enable output of an outer silenced stage.",
 ["histories", "fault_sequences"], "all computations, all nesting, all exits including exceptions and suspended generators",
 "Tests run with output off, where the property is trivially true.",
 [PRT, MT, NORM, "cddm/viewer.py"], [("disable/enable pairs", PRT)], state=[("verbosity", "signed level; negative is silenced", CONF)])
prop("C22", "Selecting single precision changes precision everywhere and nothing else",
 "All computation arrays and compiled signatures follow the configured precision: real, complex and integer working types are taken from the configuration, so no computation path is tied to one precision or mixes precisions of accumulators and kernels.",
 ["configurations"], "both precisions, all computation paths",
 "The test run uses one precision per process.",
 [NB, CORE, MT, FFT, NORM, CONF], [("working type aliases", CONF)])
prop("C23", "Frame-wise video operations keep the stream: one output per input, in order",
 "Each frame-wise video operation yields, lazily and in order, exactly one multi-frame per input multi-frame with every camera transformed by the operation and nothing else; two-stream operations combine camera i with camera i and refuse mismatched camera counts; in-place and out-of-place variants compute the same values, and out-of-place variants honour the requested data type.",
 ["inputs", "histories", "configurations"], "all video streams, camera counts and options",
 "Tests run short videos through each operation once.",
 [VID, FFT], [("generator functions", VID)])
prop("C24", "Loading a video stores frame i at index i of each camera's array",
 "Loading a video to arrays or to memory-mapped files stores frame i of camera c at index i of array c, for any iterable video (list, tuple, generator), uses the frame's data type and shape, and requires a count when the length is not known. What is loaded and iterated again is the original stream.",
 ["inputs"], "all iterables of multi-frames",
 "Tests load generators only.",
 [VID], [("loading loops", VID)])
prop("C25", "Background reading and playing deliver every frame once and surface errors",
 "Reading a video in a background thread, and playing it live, delivers exactly the frames of the source, each once and in order, then ends; no additional element is delivered, display never blocks or drops the data stream, and an exception in the source reaches the consumer instead of silently truncating the stream.",
 ["schedules", "fault_sequences", "inputs"], "all interleavings of producer and consumer, all queue sizes, failures at any frame",
 "Tests never inspect the end of a threaded stream nor inject failures.",
 [VID], [("worker thread, queue and sentinel", VID)], state=[("queue", "frames in flight", VID)])
prop("C26", "Invalid arguments are rejected with an error before results are touched",
 "Unknown methods, modes, binning or normalization names, mismatched shapes or time stamps, incomplete time-stamp pairs, unsuitable output arrays and impossible sizes raise an error before any output is written; they never fall through to a default or to an unbound result.",
 ["inputs", "configurations"], "all invalid argument values of user-level functions",
 "Tests try a few invalid values per function.",
 [CORE, NORM, MT, FFT, MAP, CONF, "cddm/sim.py", "cddm/window.py", VID], [("argument inspection", "all modules")])
prop("C27", "Masking and reshaping move each frame element to its own place and back",
 "Input reshaping and masking followed by output reshaping returns every wave vector's data to its own place in the original frame layout, marks elements outside the mask as missing, and never touches the count array; masking raw data selects the same elements from all data entries.",
 ["inputs", "configurations"], "all frame shapes, masks, axes and thread divisors, raw tuples and normalized arrays",
 "Tests use one mask and shape.",
 [CORE, NORM], [("reshape and mask helpers", CORE)])
prop("C28", "Background and variance statistics are exact running statistics of the data",
 "Reported background and variance of each camera are the mean over frames and the mean squared magnitude minus the squared magnitude of the mean, over exactly the frames processed so far and of that camera, and cover every frame once; automatic background removal subtracts each camera's own background before frames enter any buffer.",
 ["inputs", "histories"], "all data, chunk sizes, cameras and numbers of processed chunks",
 "Tests compare final statistics of one run.",
 [CORE, MT, NB], [("statistics accumulators", MT)])
prop("C29", "Viewers show the data normalized, folded and averaged as selected",
 "What a correlation viewer plots is the supplied data normalized with the viewer's own background, variance, normalization, mode and scale settings, restricted to the currently selected wave vectors or mask and averaged over them ignoring missing values; changing data, normalization or mask takes effect on the next update.",
 ["configurations", "histories"], "all viewers, data kinds and sequences of setter calls",
 "Viewers are hardly exercised by tests.",
 ["cddm/viewer.py"], [("viewer data pipeline", "cddm/viewer.py")])
prop("C30", "Simulated particles stay in the frame and frames appear at requested times",
 "Simulated positions are wrapped into the frame after every step, drawing never leaves the image whatever the particle position or spot size, the converter output saturates at its limits instead of overflowing, and a simulated or triggered video yields exactly one frame for each requested time, in order, from the state at that time, with camera one at the first and camera two at the second time stamps.",
 ["inputs", "histories"], "all positions, velocities, spot sizes, time sequences and bit depths",
 "Tests run small fixed-seed simulations.",
 ["cddm/sim.py", "cddm/_sim_nb.py"], [("wrap, draw, convert and trigger", "cddm/sim.py")])
prop("C31", "Window functions follow their formula on the normalized radius, zero outside",
 "Each window depends only on the elliptic radius, normalized so that it reaches one at the frame edge of each axis; compactly supported windows are exactly zero from radius one outwards and follow their defining formula inside; supplying an output array gives the same values as not supplying one.",
 ["inputs"], "all frame shapes (also non-square) and window parameters",
 "Tests replicate the formula for one shape.",
 ["cddm/window.py"], [("window formulas", "cddm/window.py")])
prop("C32", "Denoising filters define every output element from its own neighbourhood",
 "Median, convolution, monotonic and interpolation filters write every element of their output, end points included, from the input elements in the documented neighbourhood, so the outcome never depends on what the output buffer contained before; complex data is filtered in real and imaginary part alike.",
 ["inputs", "histories"], "all lengths and data values, reused or fresh output buffers",
 "Fresh buffers are frequently zero by chance, so missing writes pass.",
 [NB, "cddm/avg.py"], [("filter kernels", NB)])
# properties this technique does not decide
prop("C90", "FFT and direct results agree to within floating point accuracy",
 "For the same input the FFT and the direct evaluation return numerically equal results up to rounding, for every data magnitude and length.",
 ["inputs"], "all data values", "Rounding behaviour depends on the data.", [CORE, NB], [("fft kernels", NB)])
prop("C91", "Normalization modes are consistent estimators with the stated noise level",
 "All normalization modes converge to the same intermediate scattering function, with the standard deviation predicted by the error model.",
 ["inputs"], "all signal statistics", "It is a statement about distributions.", [NORM, NB], [("sigma/weight model", NB)])
prop("C92", "Live processing keeps up with the requested frame rate",
 "Playing and live analysis sustain the requested frame rate and skip drawing rather than data when late.",
 ["schedules"], "all machines and loads", "Timing depends on the machine.", [VID], [("play", VID)])
prop("C93", "Simulated motion reproduces the diffusion coefficient and drift asked for",
 "The simulated trajectories have the requested mean square displacement and drift, and the analysed relaxation rates reproduce D k^2.",
 ["inputs"], "all random seeds", "It is a statement about random variables.", ["cddm/sim.py"], [("random steps", "cddm/_sim_nb.py")])
prop("C94", "Multi-threaded kernels give the same result as single-threaded ones",
 "Parallel compilation of the kernels does not change results: no two threads write the same element.",
 ["schedules", "configurations"], "all thread schedules", "Tests run with the default target.", [NB, "cddm/_sim_nb.py"], [("parallel targets", NB)])
if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
