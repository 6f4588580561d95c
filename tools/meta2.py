# continuation of gen_meta.py (exec'd there)
prop("C16", "Togglers and edge detectors report every edge exactly once",
     "A toggler reports a rising (falling) edge exactly once after its registered state went from low to high (high to low) since that edge was last reported, cleared or superseded, and never otherwise; its level is always the last registered or set level, and setting the level silently raises no event. Copying, updating from or transferring from another toggler takes over its level and pending events as documented, and the counting variant counts how long the state has been steady. Edge and change detectors report precisely the transitions between consecutive updates.",
     ["histories"], "every sequence of registrations, queries, copies and transfers between togglers",
     "Togglers have no tests beyond the debouncer; event bookkeeping depends on the whole history.",
     ["util/debouncer.hh", "util/debouncer_compact.hh", "util/edge_detector.hh", "util/change_detector.hh"],
     [("rising/falling flags set on change, cleared on read", "register_state/is_just_pressed/is_just_released")],
     ["all public members of Toggler, TogglerCompact, TogglerCounter, EdgeStateDetector, Rising/FallingEdgeDetector, ChangeDetector"],
     technique=SEQ.format("Toggler.tla, Edge.tla"), note=SEQN.format("Toggler.tla, Edge.tla"))

prop("C17", "Debouncers fire only on the configured bit patterns",
     "A debouncer fed one sample per call reports a press exactly when the most recent samples within its mask match the configured rising pattern, and a release exactly when they match the falling pattern, each once; no other input history produces an event. Its level follows the raw input or, if so configured, only the debounced decisions, and the counting variant's steady count is the number of samples since the last decision.",
     ["histories", "configurations"], "every history of samples and every pattern/mask configuration",
     "Tests play one bounce pattern per configuration.", ["util/debouncer.hh"],
     [("shift register compared with patterns under a mask", "register_state")], ["Debouncer, DebouncerCounter public members"],
     technique=SEQ.format("Debounce.tla"), note=SEQN.format("Debounce.tla"))

prop("C18", "Threshold hysteresis: no change without crossing the far threshold",
     "A Schmitt trigger goes high only when its input exceeds the high threshold and goes low only when the input falls below the low threshold, keeping its state for every input between or on the thresholds; each transition is reported once. The edge-only variant reports exactly the low-to-high transitions of that machine, and the stateless gate and feedback helpers implement the same rule from the previous output.",
     ["histories", "inputs"], "every sequence of input values, including values exactly on a threshold, and every pair of thresholds",
     "Tests use one short ramp.", ["util/schmitt_trigger.hh", "util/math.hh"], [("state-dependent threshold comparison", "process/update/hysteresis_gate")],
     ["SchmittTrigger, RisingSchmittTrigger, MathTools::hysteresis_gate / hysteresis_feedback"],
     technique=SEQ.format("Schmitt.tla"), note=SEQN.format("Schmitt.tla"))

prop("C19", "Periodic pollers act once per elapsed period, across clock wrap",
     "A periodic event fires on a poll exactly when at least one period has elapsed since it last fired, and then restarts its period at that moment, also when the tick counter wraps around. A periodic change detector samples its input only at such moments, or when forced, evaluates a deferred input only then, and reports exactly once that the sampled state changed since the last report.",
     ["histories", "configurations"], "every non-decreasing sequence of tick values modulo the width of the counter, every period and counter width",
     "Tests use few tick sequences; the change detector has none.", ["util/poll_event.hh", "util/poll_change.hh"],
     [("unsigned elapsed-time comparison", "poll")], ["PollEvent::poll, PollChange public members"],
     technique=SEQ.format("Poll.tla"), note=SEQN.format("Poll.tla"))

prop("C20", "Quadrature decoding counts each detent once, per direction",
     "The quadrature decoder reports one step for each complete detent sequence of its inputs in a direction and nothing for repeated samples, bounces or reversed partial sequences, so forward and backward traversals report opposite directions and a bounce never yields net motion. Motion accumulators neither lose nor duplicate motion when it is read, added or transferred.",
     ["histories", "configurations"], "every sequence of input samples, both polarities, and every sequence of accumulator operations",
     "Tests run a few detents; the property is over all bounce histories.", ["util/quadrature_encoder.hh", "util/rotary_motion.hh"],
     [("last four distinct input states compared with the two detent sequences", "get_motion")], ["QuadratureEncoder::get_motion, RotaryMotion"],
     technique=SEQ.format("Quad.tla"), note=SEQN.format("Quad.tla"))

prop("C21", "Parameters report changes exactly once and keep the latest value",
     "A change-tracking parameter always yields the value last stored and reports a change exactly once for any number of changes since the last query. A latched parameter changes only when the new value differs from the held one by at least the configured minimum, and a by-reference parameter reports a change exactly when the referenced value differs from the one seen at the previous query.",
     ["histories", "inputs"], "every sequence of stores and queries over every arithmetic type and minimum change",
     "Tests sample a few values.", ["util/parameter.hh"], [("changed flags", "setValue/isChanged/store_changed/did_change")],
     ["Parameter, LatchedParam, RefParameter"], technique=SEQ.format("Param.tla"), note=SEQN.format("Param.tla"))

prop("C22", "Interpolated readings reach each new target exactly, without overshoot",
     "After a new reading an interpolated parameter moves in equal steps towards it and, after the configured number of updates, is there up to the rounding of the step; in the filtered array every output lies between its previous value and the current target, reaches the target after as many updates as separated the last two readings, and stays there until new data. Readings are consumed only when marked ready, once each, filtered, and channel by channel; a ready mark set concurrently is never lost.",
     ["histories", "schedules"], "every sequence of readings, ready marks, updates and update-count settings",
     "Tests follow a few fixed-rate scripts.", ["util/interp_param.hh", "util/filtered_interp_array.hh"],
     [("step = distance / updates, snap on overshoot", "set_new_value/next/get_interp_values"), ("atomic ready flag", "mark_new_data_ready/add_new_readings")],
     ["public members, read and output callbacks"], technique=SEQ.format("Interp.tla, FInterp.tla") + "; the ready-mark handshake under controlled-scheduler executions judged for linearizability against ReadyLin.tla", note=SEQN.format("Interp.tla, FInterp.tla"))

prop("C23", "Averaging filters output the average of exactly their window",
     "A moving average always equals the integer average of the last window of samples (zeros before the first), and an oversampler holds, between window boundaries, the average of the last complete window of samples and of no other samples. The resizable oversampler switches to a new window size without losing or double counting samples, and cascaded and pass-through filters compose these without loss.",
     ["histories", "configurations"], "every sequence of samples, window sizes and resize points within the declared input range",
     "Tests use constant or short inputs at one size.", ["util/filter.hh"], [("running sum and ring of samples", "MovingAverage::add_val"), ("accumulate and emit", "Oversampler::add_val")],
     ["add_val()/val()/set_size()/reset()"], technique=SEQ.format("Filter.tla"), note=SEQN.format("Filter.tla"))

prop("C24", "Compact binary: what is written is what is parsed",
     "Every tree of fields, raw blocks and nested objects written by the compact binary writer or serializer is read back by the parser with the same keys, sizes and bytes, and writer, one-shot serializer, streaming serializer and size measurement agree byte for byte. If the output buffer is too small the reported size is still the full size, the buffer holds the prefix of the full encoding, and nothing outside it is written. Objects nested deeper than the writer is made for leave the sizes of those around them right.",
     ["inputs", "configurations"], "every document (field types, raw lengths, nesting), every key and size type, every buffer length",
     "Tests encode a few documents into ample buffers.", ["util/compact_binary_writer.hh", "util/compact_binary_serializer.hh", "util/compact_binary_parser.hh"],
     [("[key][size][data] emission with back-patched object sizes", "begin_object/end_object/object"), ("linear scan", "get_size_and_offset")],
     ["buffer bytes, size(), measure(), stream sink, parser get/get_node/get_size"], technique=SEQ.format("Compact.tla, CbFormat.tla"), note=SEQN.format("Compact.tla, CbFormat.tla"))

prop("C25", "Compact binary parser is total and stays inside any blob",
     "For any byte sequence and any key, the parser terminates, reads only bytes of the blob, and returns either nothing or the data of the first complete well-formed entry with that key; a value of a type is returned only if the entry has exactly that size and is wholly inside the blob. Nodes it returns are sub-ranges of the blob.",
     ["inputs"], "every blob (truncated, corrupted, adversarial sizes), every key and size type",
     "Tests parse a few valid blobs and truncations.", ["util/compact_binary_parser.hh"], [("bounds checks before advancing and reading", "advance/get/get_node")],
     ["get/get_node/get_size"], technique=SEQ.format("Parser.tla, CbFormat.tla"), note=SEQN.format("Parser.tla, CbFormat.tla"))

prop("C26", "Stored callables own exactly one copy of their capture",
     "A fixed-size callable invokes the function object most recently stored in it, with its captured state, and every captured object constructed by storing, copying or replacing callables is destroyed exactly once, none while still callable. A callable that holds nothing says so.",
     ["histories", "programs"], "every sequence of constructing, copying, assigning, calling and destroying callables, for trivial and non-trivial captures",
     "Tests use trivial captures and no copies.", ["util/callable.hh"], [("placement-new of the functor with type-erased invoke/destroy", "constructors/assignment/destructor")],
     ["call results; construction/destruction counts of an instrumented capture"], technique=SEQ.format("Callable.tla"), note=SEQN.format("Callable.tla"))

prop("C27", "Integer and text printing yields the exact text",
     "Formatting an integer yields its decimal text, with sign, for every value of the type, and never writes outside the given buffer; digit counts agree with that text, and chopped formatting yields the documented fixed-width prefix. Printing a mix of text and numbers outputs exactly the concatenation of their texts in order.",
     ["inputs"], "every integer value and buffer length; every list of printed items",
     "Tests check a handful of numbers.", ["util/int_to_str.hh", "util/int_to_str.cc", "util/print.hh"], [("digit extraction loops", "int_to_str/print")],
     ["returned text, buffer bytes, characters passed to the output"], technique=SEQ.format("Text.tla"), note=SEQN.format("Text.tla"))

prop("C28", "Version strings parse and order consistently",
     "A version text parses to exactly its numeric components and pre-release kind, missing components count as zero, and parsing reads only the given text. Comparison is a total order on parsed versions, lexicographic by major, minor and revision, then pre-release (a dash in the last component) before release, and equality agrees with it; compatibility checks follow from that order.",
     ["inputs"], "every version text and every pair and triple of versions", "Tests compare a few pairs.",
     ["util/version_tools.hh"], [("tokenise on separators, compare component-wise", "Version")], ["Version construction and comparison operators"],
     technique=SEQ.format("Version.tla"), note=SEQN.format("Version.tla"))

prop("C29", "Text search, tokenising and comparison agree with their definition",
     "Replacing text replaces every non-overlapping occurrence, scanning left to right, and terminates for every pattern and replacement. Tokenising splits at every separator and nowhere else; whole-word search succeeds exactly when the word occurs delimited by spaces or the ends of the text, ignoring letter case; case-insensitive comparison and ordering equal comparison of the lower-cased texts.",
     ["inputs"], "all texts, patterns, separators and words", "Tests check a handful of strings.",
     ["util/string_util.hh", "util/contains_word.hh", "util/string_compare.hh"], [("scan loops", "replace_all/tokenize/contains_word")], ["return values"],
     technique=SEQ.format("Strings.tla"), note=SEQN.format("Strings.tla"))

prop("C30", "Partitioning covers every element once and stays balanced",
     "Partitioning assigns each element index to exactly one group, and handles the elements from largest to smallest, giving each to a group whose sum so far (including initial values) is smallest; so no group exceeds another's sum by more than its own smallest element beyond what the initial values force. Repeated calculation starts afresh and inputs are left unchanged.",
     ["inputs", "configurations"], "every list of values and initial sums, every number of groups and capacity", "Tests check two lists.",
     ["util/partition.hh"], [("sort descending then greedy least-sum", "calc_partitions")], ["the index groups"],
     technique=SEQ.format("Partition.tla (results judged by the definition)") + "; the greedy algorithm itself model checked in GreedyPart.tla", note=SEQN.format("Partition.tla"))

prop("C31", "Zipped iteration visits aligned elements up to the shortest range",
     "Iterating over zipped ranges visits, for each position up to the length of the shortest range and no further, the elements at that position of every range, by reference so that writes land in the originals; the counting variants also yield the position, counting from zero.",
     ["inputs", "configurations"], "all combinations of lengths, numbers and kinds of ranges, const and mutable", "Tests use equal lengths mostly.",
     ["util/zip.hh", "util/countzip.hh", "util/iterator_helpers.hh"], [("stop when any iterator reaches its end", "operator==")], ["visited tuples and resulting containers"],
     technique=SEQ.format("Zip.tla"), note=SEQN.format("Zip.tla"))

prop("C32", "Rectangle overlap and polygon convexity match their geometry",
     "Two rectangles are reported as intersecting on an axis exactly when their extents on that axis share a point, symmetrically, including when one contains the other, and as intersecting when that holds on both axes. A polygon is reported concave exactly when its consecutive turns differ in direction, regardless of orientation and starting vertex.",
     ["inputs"], "all pairs of integer rectangles and all integer polygons within bounds", "There are no tests of these.",
     ["util/geometry.hh"], [("interval comparisons", "x_intersects/y_intersects"), ("sign of cross products", "is_poly_concave")], ["return values"],
     technique=SEQ.format("Geometry.tla"), note=SEQN.format("Geometry.tla"))

prop("C33", "Signal statistics are those of exactly the observed window",
     "A signal analyser reports the minimum, maximum, average and peak of exactly the samples seen since its last reset or window boundary, for any sign of the samples, and resetting forgets everything.",
     ["histories", "inputs"], "every sequence of samples and resets", "Tests use positive samples and the happy path.",
     ["util/analyzed_signal.hh"], [("running extremes and counters", "update/reset")], ["public members"],
     technique=SEQ.format("Signal.tla"), note=SEQN.format("Signal.tla"))

prop("C34", "LED animation and timing phases run their exact course",
     "An LED flash or fade starts, progresses monotonically and ends after its configured number of updates and then returns to the background, and breathing and blinking are periodic with the configured period. Adjusting colours clamps each channel to its range and never lets one channel affect another.",
     ["histories", "configurations"], "every sequence of colour, flash, fade, breathe and update calls", "There are no tests of the LED animations.",
     ["util/rgbled.hh", "util/colors.hh", "util/colors_rgb565.hh", "util/oscs.hh"], [("phase counters", "update")], ["output colours"],
     technique=SEQ.format("Led.tla"), note=SEQN.format("Led.tla"))

prop("C40", "Table lookups interpolate the right elements; tables hold their functions",
     "Looking up an interpolating array by index or phase gives exactly the linear interpolation of the two neighbouring elements: the plain variants run from the first element to the last, the wrapping variants treat the array as a cycle for every phase, also negative ones and ones beyond a cycle, and the closest variants give the element at or below the position. A lookup table maps its input range linearly onto its points and stays at the first or last one outside, whatever its size or input range, also when its points were generated from a function. Sine, cosine, tangent, powers of two, pitch multiples and normalised frequencies computed from the tables equal the real functions within the error of the tables, for every argument: any number of cycles either way, arguments outside the range being clamped where documented.",
     ["inputs", "configurations"], "every array, every dyadic index or phase (which floats represent exactly), every table entry, arguments over many cycles", "Tests sample a few points of positive phases.",
     ["util/math.hh", "util/interp_array.hh", "util/math_tables.cc", "util/lookup_table.hh", "util/lut.hh"],
     [("linear interpolation of neighbours with wrapped index", "InterpArray::interp_by_index_wrap"), ("clamped linear lookup", "LookupTable::lookup")],
     ["return values of InterpArray, LookupTable, MathTools::sin/sin01/cos/cos_close/tan/pow2/setPitchMultiple/audioFreqToNorm/faster_sine"],
     technique=SEQ.format("Lut.tla, MathFns.tla"), note=SEQN.format("Lut.tla, MathFns.tla"))
prop("C41", "Audio samples and colours convert with saturation, not wrap-around",
     "Scaling floating-point audio to fixed-point samples clamps values beyond full scale to the nearest representable sample for every sample width, converting signed samples to float and back returns the same sample, and sign extension keeps the value of every narrow sample. Converting, blending, adding, scaling and adjusting colours works on each channel separately and saturates at its ends; conversions between 8-bit and 16-bit (565) colours keep the leading bits of every channel, HSV colours become the RGB colour they denote within rounding, and the named primary colours have the channel values their names say.",
     ["inputs"], "every sample width and sample value class, every colour and factor on a grid including the extremes", "Tests sample points.",
     ["util/audio_frame.hh", "util/colors.hh", "util/colors_rgb565.hh", "util/hsv.hh"], [("clamp then scale", "scaleOutput"), ("saturating channel addition", "Color::operator+")],
     ["AudioFrame::scaleInput/scaleOutput/sign_extend, Color, RGB565, HSV conversions"],
     technique=SEQ.format("Color.tla, Audio.tla"), note=SEQN.format("Color.tla, Audio.tla"))
prop("C42", "Linear calibration recovers slope and offset",
     "Calibrating from two distinct measured points yields the line through them: corrected readings at those points equal the expected values within rounding, other readings are corrected along the same line, and the reverse adjustment undoes the forward one. The values shown or set directly as slope and offset describe that same line. The voltage-per-octave calibration computes its slope from the two latest readings alone and its offset from the line through them, or from the reading of C0 once there was one; readings that define no line leave the slope as it was, and a reset forgets all readings.",
     ["inputs", "histories"], "every pair of distinct readings and targets, and re-calibration", "Tests sample points.", ["util/calibrator.hh", "util/voct_calibrator.hh"], [("two-point linear fit", "calibrate_chan"), ("latest two readings", "record_measurement")], ["return values"],
     technique=SEQ.format("Calib.tla, Voct.tla"), note=SEQN.format("Calib.tla, Voct.tla"))
prop("C43", "Aligned allocations are aligned, disjoint and large enough",
     "Storage obtained through the aligned allocator is aligned as requested, does not overlap any other live block, holds all elements asked for and can be released in any order; a request whose size overflows is refused. Containers work with the allocator, and allocators of any element type compare equal. A padded type starts and ends on its alignment, also in arrays, adds only the padding needed, and gives access to its value.",
     ["histories", "configurations"], "every order of allocations and releases, alignment and size", "No tests.", ["util/aligned_allocator.hh", "util/padded_aligned.hh"], [("aligned operator new", "allocate"), ("size rounded up to the alignment", "PaddedAligned")], ["addresses and sizes"],
     technique=SEQ.format("Align.tla"), note=SEQN.format("Align.tla"))
prop("C44", "Integer and bit helpers are right for every value and width",
     "The integer helpers compute the mathematical result for every value of every width: next power of two (zero if it does not fit), floor of log2, power-of-two test, integer power (modulo 2^32), wrapping into a range, dead-zone (plateau), range tests, clamping, minimum, maximum and distance, fixed-point and floating interpolation, linear mapping, random numbers within their bounds, byte swapping, saturating to a number of bits, finite and infinite tests, adjacent differences, combining bit fields and enumerators, and choosing the smallest integer type. The portable vector helpers change only their destination and compute each lane as the instruction they stand for.",
     ["inputs", "configurations"], "boundary values of every width (each power of two and its neighbours) and random ones", "Tests sample a few values of one width.",
     ["util/math.hh", "util/cortex_math.hh", "util/bitfield.hh", "util/smallest_integer.hh", "util/soft_neon.hh", "util/overloaded.hh"],
     [("bit smearing", "next_power_of_2"), ("modulo by subtraction", "wrap"), ("lane-wise float operations", "vmlaq_f32")], ["return values"],
     technique=SEQ.format("Bits.tla, Neon.tla"), note=SEQN.format("Bits.tla, Neon.tla"))
prop("C45", "Oscillators keep frequency and phase, counters and one-shots their length",
     "An oscillator advances by its frequency divided by the update rate at every update, wraps at the end of a cycle without losing phase, continues from its present phase when the frequency or period changes, and starts at any phase set; its triangle, ramp and sine outputs are those functions of its phase over the whole output range. A down counter falls linearly from full to zero in its period, stays at zero until reset, and starts again from full. A one-shot is high for exactly its length at the current update rate, can be restarted or stopped at any time, and is low otherwise.",
     ["histories", "configurations"], "every sequence of updates, frequency, period and phase changes at several update rates", "There are no tests of the oscillators.",
     ["util/oscs.hh", "util/math_tables.cc"], [("32-bit phase accumulator", "update"), ("count down until exhausted", "OneShot::update")], ["values after each update"],
     technique=SEQ.format("Osc.tla"), note=SEQN.format("Osc.tla"))
prop("C46", "Staging buffers never overrun, and byte blocks are little-endian",
     "An input buffer stores the items put into it in order until it is full and then ignores further ones without overwriting any; an output buffer hands out its items in order and then default values; reset restarts either at the beginning and keeps the contents. Full and size are always right. A byte block appends the little-endian bytes of every value printed to it, and raw bytes unchanged, after everything already there.",
     ["histories"], "every sequence of operations, size and item type", "No tests.", ["util/input_output_buffer.hh", "util/byte_block.hh"], [("position stops at the size", "put/get"), ("bytes appended lowest first", "printU16LE/printU32LE")], ["contents, full, size"],
     technique=SEQ.format("Staging.tla"), note=SEQN.format("Staging.tla"))
prop("C47", "The memory test passes good memory and detects faulty memory",
     "The memory test succeeds on every range of working memory, of any length and position, and touches nothing outside it; it fails whenever two words of the range share storage or a word changes after it was written because of a write elsewhere in the range. A range of addresses that ends before it starts fails.",
     ["inputs", "configurations", "fault_sequences"], "every range, every aliasing of pages and every coupling fault", "No tests (needs faulty memory).", ["util/mem_test.hh"], [("non-repeating sequence written, then read back", "check")], ["return value, memory outside the range"],
     technique=SEQ.format("Memory.tla"), note=SEQN.format("Memory.tla"))

prop("C48", "Big buffers own their block and hand out its elements",
     "A big buffer makes one object of its type and destroys it exactly once, when the buffer goes. Every element written by index or through the reference is read back unchanged by index (also from a const buffer) and by reference, at any size. Buffers, and copies where a buffer can be copied, hold separate elements.",
     ["histories", "configurations"], "every order of making, writing, copying, assigning and destroying buffers", "No tests.", ["util/big_buffer.hh"], [("new/delete of the wrapped object", "BigBuffer()/~BigBuffer()"), ("element access", "operator[]/get")], ["element values; elements alive"],
     technique=SEQ.format("BigBuf.tla"), note=SEQN.format("BigBuf.tla"))
