#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
E, F, H, I, T, U, C, L = ("src/ebur128.rs", "src/filter.rs", "src/history.rs", "src/interp.rs",
    "src/true_peak.rs", "src/utils.rs", "src/capi.rs", "src/lib.rs")
HDR = "assets/ebur128.h"; BINS = "src/histogram_bins.rs"

prop("C01", "Reset returns the analyzer to its freshly created state",
 "After reset(), every query and every later sequence of calls behaves exactly as on a newly created analyzer with the same channels, rate, mode, channel map, window and history settings. "
 "No audio, peak, block position, filter or interpolator memory and no loudness history fed or seeded before the reset has any influence afterwards, and the configuration itself is untouched.",
 ["inputs", "histories"], "every history of add_frames/seed_frames/setter calls before the reset and every sequence after it",
 "The unit tests call reset() once, at the end of the sine tests, and only look at queries on an idle analyzer; no test feeds audio after a reset, so leftover filter, interpolator or counter state is never seen.",
 [E, F, T, I, H], [("EbuR128::reset", E), ("Filter::reset", F), ("TruePeak::reset", T), ("InterpF::reset", I), ("History::reset", H)],
 state=[("EbuR128", "all analyzer state", E), ("Filter", "filter memory and last-call peaks", F)], observe=["EbuR128::reset", "every query"])

prop("C02", "Reconfiguring re-derives all processing state",
 "After a change_parameters call that changes the channel count or sample rate, the audio buffer, filters, interpolators, block sizes and positions and short-term pacing are those of a newly created analyzer with the new settings (and the current window); after a set_max_window call that changes the window the audio buffer, block positions and short-term pacing are, while filter memory and peaks are kept; the unfinished block is lost. "
 "A changed channel count also resets the channel map to its default and all peaks. The loudness histories, mode, other settings and (for an unchanged channel count) the channel map and overall peaks are kept, and a call that changes nothing leaves everything as it was.",
 ["configurations", "histories"], "every old and new combination of channels, rate, window, and every prior history",
 "No existing test calls change_parameters or set_max_window at all.",
 [E, F], [("EbuR128::change_parameters", E), ("EbuR128::set_max_window", E), ("EbuR128::new", E)], observe=["EbuR128::change_parameters", "EbuR128::set_max_window", "queries after them"])

prop("C03", "A failing call leaves the analyzer unchanged",
 "When a method that can modify an analyzer (set_channel, set_channel_map, change_parameters, set_max_window, set_max_history, add_frames_*, seed_frames_*) returns an error, nothing has been modified: configuration, buffered audio, filters, histories and peaks are as before the call.",
 ["inputs", "histories"], "every argument that is rejected, in every state",
 "Existing tests never provoke an error from a mutating method.",
 [E, U], [("validation before mutation in each method", E), ("Interleaved::new / Planar::new", U)], observe=["Err results of the mutating methods"])

prop("C04", "Queries answer exactly when their mode is enabled",
 "loudness_global, relative_threshold and loudness_global_multiple need Mode::I; loudness_range and loudness_range_multiple need Mode::LRA; sample_peak/prev_sample_peak need Mode::SAMPLE_PEAK; true_peak/prev_true_peak need Mode::TRUE_PEAK (for the multi-instance queries: on every instance). "
 "Without the mode each returns Err(InvalidMode) and never a number; with the mode it is never refused as InvalidMode (except that LRA over a mixture of histogram and queue instances is).",
 ["configurations", "inputs"], "all mode bit combinations accepted by new(), all states, all instance lists",
 "The tests only create analyzers with Mode::all() with or without HISTOGRAM, so no mode check is ever taken.",
 [E], [("mode checks at the start of each query", E), ("Mode bit definitions", E)], observe=["results of the query methods"])

prop("C05", "Enabled measurements are taken, disabled ones are not",
 "Once constructed, and again after change_parameters, an analyzer measures exactly what its mode enables: every gating block enters the integrated-loudness history iff Mode::I, every short-term block enters the loudness-range history iff Mode::LRA, sample peaks are tracked iff SAMPLE_PEAK and true peaks iff TRUE_PEAK. Histories are histograms iff HISTOGRAM.",
 ["configurations", "histories"], "all mode combinations, before and after reconfiguration",
 "Only Mode::all() (with and without HISTOGRAM) is tested and never after change_parameters.",
 [E, F], [("EbuR128::new", E), ("EbuR128::change_parameters", E), ("EbuR128::add_frames", E), ("Filter::new", F)], observe=["loudness_global, loudness_range, sample_peak, true_peak"])

prop("C06", "Channel arguments are validated",
 "Every call taking a channel number answers Err(InvalidChannelIndex) for a number not below the channel count (for queries: once the mode check has passed) and accepts every number below it; set_channel_map accepts only a map with exactly one entry per channel. "
 "DualMono is accepted only for the only channel of a mono analyzer, by set_channel and set_channel_map alike; every other channel type is accepted everywhere and stored at exactly the requested position(s).",
 ["inputs", "configurations"], "all u32 channel numbers, all channel counts, all channel types and maps",
 "No test passes an invalid channel number or calls set_channel/set_channel_map.",
 [E], [("EbuR128::set_channel", E), ("EbuR128::set_channel_map", E), ("sample_peak/prev_sample_peak/true_peak/prev_true_peak", E)], observe=["results and channel_map()"])

prop("C07", "Channel types weigh loudness as documented",
 "In every loudness figure a channel of type Unused contributes nothing, LeftSurround, RightSurround, Mp060, Mm060, Mp090 and Mm090 contribute with weight 1.41, DualMono with weight 2 and every other type with weight 1. "
 "The default channel map is L,R,C,Unused,Ls,Rs then Unused, except 4 channels = L,R,Ls,Rs and 5 channels = L,R,C,Ls,Rs.",
 ["inputs", "configurations"], "all 37 channel types in every channel, all channel counts",
 "The gating block test only uses Left (and the sine tests the stereo default map).",
 [E, F], [("Filter::calc_gating_block", F), ("default_channel_map", E)], observe=["loudness queries", "channel_map()"])

prop("C08", "Exactly the documented parameter range is accepted",
 "new() and change_parameters() accept exactly 1..=64 channels and sample rates 16..=2822400 Hz and answer Err(NoMem) otherwise; new() answers Err(InvalidMode) exactly when the mode (with valid channels and rate) does not include Mode::M. mode(), channels(), rate(), channel_map(), max_window() and max_history() report the accepted values.",
 ["inputs"], "all u32 channel counts and rates, all modes", "Tests only use valid parameters; the quickcheck generators stay within 1..16 channels and 16..224 kHz.",
 [E], [("EbuR128::new", E), ("EbuR128::change_parameters", E), ("MAX_RATE / MAX_CHANNELS", E)], observe=["new, change_parameters, getters"])

prop("C09", "Window and history settings are honoured with their minimums",
 "set_max_window and set_max_history store the requested duration, raised to 3000 ms when the mode includes S and to 400 ms otherwise; a new analyzer has a window of 3000 ms with S, else 400 ms, and an unlimited history. The stored history bounds the gating-block history to history/100 entries and the short-term history to history/3000 entries.",
 ["inputs", "configurations"], "all u32 durations, all modes", "No test calls set_max_window or set_max_history.",
 [E, H], [("EbuR128::set_max_window", E), ("EbuR128::set_max_history", E)], observe=["max_window(), max_history(), loudness_window"])

prop("C10", "Peaks are running maxima",
 "The overall sample and true peak of a channel never decrease while frames are added, and after each add_frames call are at least the peak of that call; the prev_* peaks cover only the last (non-empty) add_frames call. Reported true peaks are never below the corresponding sample peak.",
 ["inputs", "histories"], "all signals and all ways of splitting them into calls", "Tests check four constants for one sine wave, almost always after a single call.",
 [E, F, T], [("peak updates in add_frames", E), ("Filter::process", F), ("UpsamplingScanner::check_true_peak", T), ("true_peak/prev_true_peak", E)], observe=["sample_peak, prev_sample_peak, true_peak, prev_true_peak"])

prop("C11", "All sample formats and layouts share one processing path",
 "Every add_frames_* and seed_frames_* entry point, interleaved or planar and for i16, i32, f32 and f64, hands all frames of its argument, unmodified and once, with the analyzer's own channel count, to the same processing; formats differ only in the fixed full-scale factor (2^15, 2^31, 1, 1). Interleaved and planar sample access visit every frame of the requested channel exactly once in order.",
 ["inputs"], "all signals, in all four formats and both layouts", "seed_frames_i16/i32/f64 and all planar seed variants are untested, and planar input only for stereo sines.",
 [E, U], [("add_frames_*, seed_frames_*", E), ("Samples impls for Interleaved and Planar", U), ("Sample::MAX_AMPLITUDE", U)], observe=["all queries after equivalent input"])

prop("C12", "The C API is a faithful wrapper",
 "Every ebur128_* function operates on the state it is given through exactly the corresponding Rust operation with the caller's arguments; it returns 0 on success and the error's C code otherwise (NOMEM 1, INVALID_MODE 2, INVALID_CHANNEL_INDEX 3, NO_CHANGE 4 when a setter would change nothing), writes its result through the out pointer exactly on success, and the public state fields keep mirroring mode, channels and sample rate.",
 ["inputs", "histories"], "all C call sequences with valid state pointers", "capi-test.c makes one successful call of each query function on one float signal; no error path, no setter, no int/short/double input.",
 [C], [("extern \"C\" wrappers", C), ("From<Error> for i32", C)], observe=["return codes, *out, ebur128_state fields"])

prop("C13", "The C ABI agrees with the shipped header",
 "Every function declared in ebur128.h is exported with the declared parameter and return types, and no exported ebur128_* symbol is missing from the header. The layout of ebur128_state and the numeric values of the channel, mode and error enumerations and the version agree between the header and the library.",
 ["programs"], "every C program compiled against the header", "capi-test uses a subset of functions and constants, on one platform where many mismatches are invisible.",
 [C, E, HDR], [("State repr(C)", C), ("Channel repr(u32)", E), ("Mode bits", E), ("header declarations", HDR)], observe=["linking and calling from C"])

prop("C14", "C API states are owned and released exactly once",
 "ebur128_init returns either NULL or a state owning exactly its allocations, ebur128_destroy releases all of them once and nulls the caller's pointer, and tolerates NULL and already destroyed states; no other C function frees, leaks, replaces or hands out ownership of a state.",
 ["histories"], "all C call sequences", "capi-test makes one init/destroy pair under valgrind; failing init, double destroy and NULL are not tested.",
 [C], [("Box::into_raw / Box::from_raw pairing", C)], observe=["ebur128_init, ebur128_destroy"])

prop("C15", "C API arguments are range-checked, not truncated",
 "A numeric argument from C that does not fit the Rust parameter (sample rate, window, history, frame count) is rejected with an error code (NULL from ebur128_init) rather than truncated or wrapped, and a channel type outside the enumeration or an empty input given as a NULL pointer never causes undefined behaviour: no out-of-range integer is reinterpreted as an enum and no slice is made from a NULL pointer for zero elements.",
 ["inputs"], "all unsigned long / int / pointer argument values", "capi-test passes only in-range constants.",
 [C], [("u32::MAX checks and checked_mul in the wrappers", C)], observe=["return codes of ebur128_init, _change_parameters, _set_max_window, _set_max_history, _loudness_window, _set_channel, _add_frames_*"])

prop("C16", "The caller's floating-point environment is preserved",
 "Whatever flush-to-zero setting the library uses internally is in force only during a call: on every way out of add_frames_*, seed_frames_* or any other call, including a panic, the thread's floating-point control state is what it was on entry.",
 ["inputs", "fault_sequences"], "all calls, normal and unwinding exits", "No test reads the control register.",
 [F], [("ftz::with_ftz / Ftz drop guard", F)], observe=["MXCSR after any call"])

prop("C17", "Unsafe buffer accesses stay in bounds",
 "No safe API use, in any configuration of oversampling factor and channel layout, makes the library access memory outside its buffers: every unchecked index or pointer read in the interpolator's rolling buffer stays inside the buffer after any number of pushes and resets.",
 ["inputs", "histories"], "all push/reset histories, all tap/factor configurations", "Tests run without a memory checker and out-of-bounds reads inside neighbouring fields go unnoticed.",
 [I, F, U], [("RollingBuffer::push_front / as_ref", I)], observe=["unsafe blocks outside the C API"])

prop("C18", "Results do not depend on how input is split into calls",
 "Feeding the same frames in one add_frames call or split at any frame positions over several calls leads to the same loudness results and overall peaks: each call consumes all its frames exactly once and in order, and the block, buffer and short-term positions advance by exactly the frames consumed, wherever a call boundary falls.",
 ["inputs", "histories"], "all ways to split a stream into calls", "Only one test splits its input, with one fixed chunk size.",
 [E], [("EbuR128::add_frames loop", E)], state=[("block/buffer/short-term counters", "position in the block schedule", E)], observe=["loudness queries"])

prop("C19", "Block schedule and measurement windows follow BS.1770/EBU 3342",
 "The first gating block is taken after 400 ms and then one every 100 ms, each over the last 400 ms; short-term blocks for loudness range are taken first after 3 s and then every 1 s, each over the last 3 s. Momentary, short-term and window loudness cover exactly the last 400 ms, 3 s and requested window of audio, and a window longer than the buffer is refused with InvalidMode.",
 ["inputs", "configurations"], "all sample rates, call patterns, window lengths", "Tests use long stationary signals for which shifted or wrong-length windows give nearly the same numbers.",
 [E, F], [("EbuR128::add_frames", E), ("energy_in_interval", E), ("Filter::calc_gating_block", F)], observe=["loudness queries"])

prop("C20", "Histories hold exactly the most recent measured blocks",
 "A loudness history contains only block energies that were measured, each exactly once and unmodified (one count in one bin for a histogram); the non-histogram history never holds more than its maximum, drops only its oldest entries, and changing the maximum adds nothing and keeps the most recent entries.",
 ["inputs", "histories"], "all sequences of blocks and set_max_history calls", "No test calls set_max_history or reaches a history limit.",
 [H, E], [("Queue::add / set_max_size", H), ("Histogram::add", H), ("EbuR128::set_max_history", E)], observe=["loudness_global, loudness_range, gating_block_count_and_energy"])

prop("C21", "Gating is the same everywhere",
 "Blocks below -70 LUFS never enter any history and blocks at or above always do, whichever history form is used. The relative gate is 10 LU below the ungated mean for integrated loudness, its reported threshold and block count, for single and multiple instances, and 20 LU for loudness range, with the 10 % and 95 % percentiles, for histogram and queue alike.",
 ["inputs", "configurations"], "all histories, both history forms, all instance lists", "The comparison tests use loud stationary random signals; gates matter only for signals with quiet parts.",
 [H], [("History::add", H), ("iter_gating_block_count_and_energy", H), ("relative_threshold", H), ("Histogram::loudness_range / Queue::loudness_range", H)], observe=["loudness_global(_multiple), relative_threshold, loudness_range(_multiple), gating_block_count_and_energy"])

prop("C22", "Silence and missing data give defined results",
 "With no block above the gates loudness_global is -infinity, relative_threshold is -70, loudness_range is 0 and gating_block_count_and_energy is None; momentary, short-term and window loudness of zero energy are -infinity. No block count of zero is ever divided by.",
 ["inputs", "histories"], "all histories without qualifying blocks, including empty instance lists", "Checked once, after a reset, in the sine test.",
 [H, E], [("count checks before division", H), ("energy <= 0 checks", E)], observe=["query results"])

prop("C23", "Queries are pure and analyzers independent",
 "Queries never change any state, so calling them any number of times at any moment does not affect later results; analyzers share no mutable state and results depend only on configuration and input, never on other instances, threads, time, environment or I/O. Analyzers can be moved to and queried from other threads.",
 ["schedules", "histories"], "all interleavings of queries and instances", "Needs all interleavings of calls and instances; tests use one instance at a time.",
 [E, F, H, T, I], [("&self query signatures without interior mutability", E), ("no global mutable state", L)], observe=["all queries"])

prop("C24", "Seeding warms the filters and nothing else",
 "seed_frames_* advances each channel's filter memory (of channels that are not Unused) and the interpolator memory exactly as add_frames_* would for the same samples, and changes nothing else: no peak, history, buffered audio, block position or setting.",
 ["inputs", "histories"], "all signals, formats, channel maps", "Two tests seed one mono sine signal and check global loudness and peaks with coarse tolerance.",
 [E, F, T], [("Filter::seed", F), ("Filter::process", F), ("TruePeak::seed", T)], observe=["queries after seeding"])

prop("C25", "Channels do not leak into each other",
 "The sample peak, true peak, filter memory and buffered audio of a channel depend only on that channel's samples, and each channel's energy is taken with that channel's own type; the result for a channel does not depend on what other channels contain.",
 ["inputs", "configurations"], "all multichannel signals and layouts (including every specialised interpolator)", "Tests feed the same signal to every channel, so swapped or mixed channels are invisible.",
 [F, T, U, I], [("Filter::process", F), ("check_true_peak", T), ("FrameAccumulator", U), ("calc_gating_block", F)], observe=["per-channel peaks, loudness of silent/loud channel mixes"])

prop("C26", "Histogram bins partition the loudness scale",
 "The 1000 histogram bins cover -70 to +30 LUFS in steps of 0.1 LU: bin boundaries are strictly increasing at 10^((i/10-70+0.691)/10), each bin's energy is the one at its centre and lies inside it, and each energy is counted in the bin whose boundaries enclose it, with energies above the top counted in the last bin.",
 ["inputs"], "all energies, all 1000 bins", "Test signals fall in a handful of bins.",
 [BINS, H, "examples/generate_histogram_bins.rs"], [("ENERGIES / BOUNDARIES", BINS), ("find_histogram_index", H)], observe=["histogram mode results"])

prop("C27", "A query on one instance equals the multi-instance query on it",
 "loudness_global equals loudness_global_multiple over just that instance and loudness_range equals loudness_range_multiple over it; a multi-instance query takes every given instance into account exactly once.",
 ["inputs", "configurations"], "all instances and instance lists", "Multi-instance tests use two or three identical-mode instances with the same signal.",
 [E, H], [("gated_loudness_multiple", H), ("loudness_range_multiple", H), ("loudness_global_multiple", E)], observe=["loudness_global(_multiple), loudness_range(_multiple)"])

prop("C28", "True peak oversampling follows the sample rate",
 "True peaks are measured with 4x oversampling for sample rates below 96 kHz, 2x from 96 kHz to below 192 kHz, and without oversampling from 192 kHz on, for every channel count, the specialised layouts (1, 2, 4, 6, 8 channels) using the same filter length as the generic one.",
 ["configurations"], "all rates and channel counts", "Random test rates essentially never hit the exact boundaries, and above 192 kHz nothing is compared.",
 [T, I], [("UpsamplingScanner::new", T), ("InterpF::new", I)], observe=["true_peak, prev_true_peak"])

prop("C29", "Running out of memory is an error, not an abort",
 "If the audio buffer for the requested channels, rate and window cannot be sized or allocated, new, change_parameters and set_max_window return Err(NoMem) and leave an existing analyzer unchanged; no requested duration makes them overflow, abort or panic.",
 ["inputs", "fault_sequences"], "all window durations, all allocation failures", "Allocation failure is never injected and no test requests a large window.",
 [E], [("allocate_audio_data", E)], observe=["results of new, change_parameters, set_max_window"])

prop("C30", "Every accepted configuration can process audio",
 "For every accepted channel count, sample rate, mode and window the audio buffer holds a full 400 ms gating block (and a full 3 s block when the mode includes S), so adding frames neither fails nor panics and momentary (and, with S, short-term) loudness is available.",
 ["configurations"], "all accepted rates (including rates not divisible by 10 and very low ones), modes and windows", "Tests use rates of 16 kHz and above.",
 [E, F], [("allocate_audio_data", E), ("Filter::process buffer assertion", F)], observe=["add_frames_*, loudness_momentary, loudness_shortterm"])

prop("C31", "Mis-sized input is rejected with an error, not a panic",
 "add_frames_* and seed_frames_* return an error, and do not panic, when interleaved input is not a whole number of frames or planar input has the wrong number of channels or channels of different length.",
 ["inputs"], "all slice lengths and shapes", "No test passes mis-sized input.",
 [E, U, F], [("Interleaved::new / Planar::new", U), ("add_frames_planar_*", E), ("Filter::process / seed assertions", F)], observe=["results of add_frames_*, seed_frames_*"])

# ---- properties static analysis cannot decide (see DESIGN.md / MANIFEST not_applicable) ----
prop("N01", "Loudness values match ITU-R BS.1770 / EBU Tech 3341",
 "For every signal the momentary, short-term and integrated loudness are those defined by ITU-R BS.1770-4 and EBU Tech 3341 within 0.1 LU.",
 ["inputs"], "all signals and rates", "The EBU test set is a dozen signals and is not available here.",
 [F, E, H], [("filter_coefficients", F)], observe=["loudness queries"])
prop("N02", "Results equal those of libebur128",
 "For every input the results equal those of the C library libebur128 1.2.6 up to rounding.",
 ["inputs"], "all inputs", "Quickcheck compares 10 random loud signals per run.",
 [F, E, H, T, I], [("port of the C code", L)], observe=["all queries"])
prop("N03", "Applying a gain shifts loudness by that gain",
 "Scaling a signal by g dB shifts momentary, short-term, integrated (away from the absolute gate) loudness and peaks by g dB and leaves loudness range unchanged.",
 ["inputs"], "all signals and gains", "Not tested.", [F, H, U], [("energy_to_loudness", U)], observe=["loudness queries"])
prop("N04", "Loudness range percentiles follow EBU Tech 3342",
 "Loudness range is the difference of the 95th and 10th percentile of the relative-gated short-term loudness distribution for every distribution, histogram results within the 0.1 LU bin width.",
 ["inputs"], "all distributions of short-term energies", "Compared with C for a few random histories.", [H], [("loudness_range", H)], observe=["loudness_range"])
prop("N05", "Chunked parallel analysis equals serial analysis",
 "Analysing overlapping chunks with seeding as documented and combining with loudness_global_multiple gives the serial result within a small tolerance.",
 ["inputs", "schedules"], "all signals and chunk layouts", "Two tests with one sine wave.", [E, H], [("loudness_global_multiple", E)], observe=["loudness_global_multiple"])
prop("N06", "True peak estimate accuracy",
 "The reported true peak is within the tolerance of ITU-R BS.1770-4 Annex 2 of the band-limited signal's true peak.",
 ["inputs"], "all signals", "One sine frequency.", [I, T], [("InterpF filter", I)], observe=["true_peak"])
prop("N07", "NaN and infinite samples never panic or loop",
 "Samples that are NaN or infinite give NaN/infinite or defined results from every query, without panic or endless loop.",
 ["inputs"], "all signals containing NaN/infinity", "Two tests, all-NaN and all-infinite.", [F, H], [("NaN checks", H)], observe=["all queries"])
prop("N08", "Filter stability at every accepted rate",
 "The BS.1770 filter computed for any accepted sample rate is stable (bounded input gives bounded output).",
 ["configurations", "inputs"], "all rates 16..=2822400", "Only rates above 16 kHz are used.", [F], [("filter_coefficients", F)], observe=["loudness queries"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
