"""Per property: technique (deciding method), what exactly is decided and within which bounds."""
T = {
 'C01': ('effect analysis (which state leaves processing may write) with comparison of symbolic exit states, over the MIR',
         'For symbolic channel count, rate, mode and any prior contents: every leaf that add_frames/seed_frames may write has, after reset, the value new() gives it; every other leaf is unwritten.'),
 'C02': ('comparison of symbolic exit states over the MIR',
         'For symbolic old and new settings and any prior contents: every leaf after change_parameters/set_max_window equals the leaf of a new analyzer with the new settings, or the old leaf where the property says it is kept.'),
 'C03': ('effect analysis of error exits over the MIR',
         'Every path of the mutating methods that ends in Err leaves every leaf of the analyzer unwritten; rejected input of add_/seed_frames for 2-3 channels (quick) and arbitrary lengths.'),
 'C04': ('path-condition analysis of exits over the MIR',
         'Single-instance queries for a symbolic mode; multi-instance queries over lists of 1, 2, 3 and 18 C states with every combination of nine modes.'),
 'C05': ('value-numbering comparison of processing with features on and off, guards of measurements, over the MIR',
         'Concrete modes, few frames, symbolic samples and symbolic prior state.'),
 'C06': ('path-condition analysis of exits over the MIR', 'Symbolic channel index, type, count and mode; channel maps of fixed small and of symbolic length.'),
 'C07': ('value-numbering of block energies with channel types as constants, over the MIR',
         'Each channel type in each channel position for small channel counts: the energy is the documented weighted sum, terms compared after normalisation of sums and products; constant folding supplies the counterexamples. Default maps for every channel count.'),
 'C08': ('path-condition (interval partition) analysis over the MIR', 'Symbolic channels, rate and mode: accepted exactly in the documented range; getters return what was accepted.'),
 'C09': ('path-condition analysis and a sequence domain for the history queues, over the MIR', 'Symbolic durations and modes for the settings; the history bounds at the maxima 400, 750, 3000, 7000 ms and others, for every queue length up to beyond the bound.'),
 'C10': ('value-numbering of peak updates with an order domain over max terms, over the MIR', 'All sample formats and layouts, symbolic samples, few frames and channels; true peak at rates of each oversampling factor, starting from any interpolator state.'),
 'C11': ('sibling-agreement: comparison of symbolic exit states of the 16 entry points, over the MIR', 'Symbolic samples in each format against f64 samples of the documented scale, planar against interleaved, two and more frames, several modes. Terms are compared after conversion; floating-point conversion factors by constant folding.'),
 'C12': ('sibling-agreement: comparison of the C functions with the Rust methods by symbolic exit states, over the MIR', 'Symbolic analyzer, arguments and out-pointers; frames by the slice that reaches EbuR128::add_frames_*; multi-instance queries by lists of states.'),
 'C13': ('comparison of the clang AST of ebur128.h with rustc ABI, layout and constants', 'Every extern function, struct and enumeration of the header; error codes by the exits that produce them.'),
 'C14': ('typestate/ownership analysis of allocations (Box::into_raw, from_raw, drop, replace) over the MIR', 'Every path of ebur128_init and ebur128_destroy; every other C function neither releases nor leaks the state and its analyzer.'),
 'C15': ('narrowing and range analysis of C arguments over the MIR', 'Full range of every C integer argument; frames times channels overflow; NULL with length zero; enumeration discriminants.'),
 'C16': ('effect analysis of the floating-point control word on all exits including unwinding, over the MIR', 'Every entry point on every path: the control word written last is the one read at entry; unwinding edges included.'),
 'C17': ('index-bound (interval and linear-invariant) analysis of unchecked accesses over the MIR', 'get_unchecked and raw slices for 1-8 channels at each oversampling factor over a full cycle of the interpolator position, symbolic samples; index stores keep the invariant.'),
 'C18': ('value-numbering comparison of one call with its splits, over the MIR', 'Symbolic samples and prior state, every position relative to the block schedule at 16-41 Hz (all positions between blocks), splits frame by frame and in two.'),
 'C19': ('value-numbering of block and window energies as sums of per-frame contributions, over the MIR', 'Low rates where every position of a full schedule can be unrolled; loudness_window length limit for symbolic window at nine rates up to 2.8 MHz.'),
 'C20': ('sequence domain for queues and array-effect summaries for histograms, over the MIR', 'Queue lengths up to beyond the bound for several maxima, arbitrary contents.'),
 'C21': ('case analysis over the place of the gate (linear summaries of 1000-bin loops), term comparison for queues; constant folding for counterexamples', 'Queues up to 8 (quick) or 12 blocks with arbitrary contents; histograms with arbitrary counts, every place of the gate for one instance; several instances by lists of up to 34.'),
 'C22': ('path-condition analysis with zero-count and all-gated states, over the MIR', 'All exits of the loudness queries without data, with silence, and for arbitrary histories: the value is finite, or -inf/0 as documented, never NaN.'),
 'C23': ('effect analysis of queries, scan for interior mutability, statics and ambient reads, compile-time Send/Sync witness', 'Every query on a symbolic analyzer; every type and function reachable.'),
 'C24': ('value-numbering comparison of seeding with processing, over the MIR', 'Symbolic samples and prior state, few frames, all formats and layouts: filter state and window positions follow, measurements and peaks do not change.'),
 'C25': ('dependence analysis of query terms on input samples by channel, over the MIR', 'Two to eight channels over three calls, 33 and 63 channels over one; all formats for the filters, true peak at both factors.'),
 'C26': ('evaluation of static tables as compile-time constants and case analysis of the bin search, over the MIR', 'Every bin boundary and both sides of it.'),
 'C27': ('comparison of single- and multi-instance exits, over the MIR', 'One symbolic instance, and lists of up to 34 instances.'),
 'C28': ('interval partition over rates and constant evaluation of interpolation tables, over the MIR', 'Every rate boundary for 1-9 and 64 channels; the measured peak is the maximum over all phases of the polyphase filter computed from its definition.'),
 'C29': ('fallible-allocation dataflow over the MIR', 'Every allocation whose size depends on arguments is fallible and its failure reaches an error exit with the analyzer unchanged.'),
 'C30': ('symbolic buffer-length bounds over all accepted rates, overflow analysis, over the MIR', 'All rates (piecewise in the rate), channel counts and modes; a cycle of frames at the extremes.'),
 'C31': ('path-condition analysis of malformed input, over the MIR', 'Arbitrary lengths of interleaved and planar input for fixed and symbolic channel counts.'),
}
