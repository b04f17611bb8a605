SYM = "generated symbol programs vs. independent decoder and encoder model, with shrinking"
prop("C01", "Symbol streams decode to exactly what was coded",
 "Whatever sequence of adaptive symbols (alphabets of 2 to 16 symbols, any strictly increasing distribution ending at 32768), static bools, bool runs and literals is coded into one symbol stream, the finished stream is a whole number of bytes and decoding it with the same starting distributions returns the same values in the same order. This holds however long a carry stays undecided and however long the stream is. It also holds for an independent decoder written from the AV1 draft's decoding process.",
 ["inputs", "histories"], "all sequences of coding operations with all valid starting distributions and values, of any length",
 "The one symbol test codes a few random sequences from fixed distributions; rare carry patterns, extreme probabilities, minimum-probability symbols and long streams are never met.",
 ["src/bool_coder.rs"], [("range coder with carry propagation", "BoolCoder::encode_symbol / finish / exit_symbol"), ("matching decoder", "BoolCoder::decode_symbol")],
 SYM, "Sampled: about 10^5 programs per quick run, including programs steered by a coder model into long undecided carries; no proof beyond the sample.",
 state=[("low, range, carry counters", "interval being coded and bits whose value is not yet known", "BoolCoder fields")], observe=["bits pushed to the output vector", "decoded values"])
prop("C02", "Streams, descriptors and raw bytes share one buffer without interfering",
 "One coder object may be reused for any succession of symbol streams written into the same buffer, between byte-aligned raw values, and each stream starts and ends on a byte boundary and leaves every bit written before it as it was. Reading back in the same order, one decoder object recovers every value, and after leaving a stream it has consumed exactly the bytes that stream was given, including when it leaves with coded symbols unread.",
 ["histories", "inputs"], "all histories of start, code, finish and raw writes on one object, and all points at which a reader leaves a stream",
 "Tests use a fresh coder per stream and always read it to the end.",
 ["src/bool_coder.rs"], [("stream start resets state", "BoolCoder::init_encoder / init_decoder"), ("byte-aligned ending", "BoolCoder::exit_symbol, exit_decoder")],
 "stateful histories on one coder object vs. a list model, with shrinking", "Sampled histories of up to a dozen streams.", observe=["bits in the shared buffer", "remaining input after each stream"])
prop("C03", "Encoder and decoder adapt distributions identically and validly",
 "After every coded symbol the encoder's and the decoder's copy of its distribution are equal to each other and to what the AV1 draft's adaptation rule gives, the distribution stays strictly increasing and ends at 32768, and the use count saturates at 32. In a stream with adaptation disabled no distribution changes, and the next stream adapts again. Bools and literals change no distribution.",
 ["inputs", "histories"], "all valid starting distributions, counts and symbol sequences",
 "The test only compares decoded symbols; a drift in the shared rule, or a distribution that becomes invalid only after many adaptations, is invisible to it.",
 ["src/bool_coder.rs"], [("adaptation after each symbol", "BoolCoder::encode_symbol, decode_symbol")],
 "model-based testing of the adaptation rule over generated symbol sequences", "Grid over alphabet sizes, counts and symbols is complete for one family of distributions; the rest sampled.", observe=["distribution arrays passed by the caller"])
prop("C04", "Coded size stays within a fixed overhead of the information content",
 "A symbol stream is never longer than the information content of its symbols under the adapting distributions plus a small per-symbol loss from the coder's finite precision and a constant to end the stream. Coding an empty stream takes a constant size.",
 ["inputs"], "all symbol sequences and distributions",
 "No test looks at the length of the output: a coder that wastes bits on rare symbols still round-trips.",
 ["src/bool_coder.rs"], [("interval subdivision by probability", "BoolCoder::encode_symbol")],
 "generated symbol programs vs. an information-theoretic bound", "The bound is loose by the stated slack (DESIGN.md); waste smaller than that is not seen.", observe=["stream length"])
prop("C05", "Raw descriptor values read back exactly, in any mix",
 "Any sequence of values written with the fixed-width, variable-length, little-endian, LEB128, signed and non-symmetric writers and alignment reads back as the same values, each reader consuming exactly the bits its writer produced, whatever precedes and follows it.",
 ["inputs", "histories"], "all values: 32-bit variable-length, 1..8 little-endian bytes, LEB128 below 2^56, signed width 1..62, range size 1..2^48, fixed width 0..32",
 "Tests round-trip each writer alone on 100 random values in a narrow band.",
 ["src/bool_coder.rs"], [("descriptor writers and readers", "encode_uvlc/le/leb128/su/ns, decode_*, push_bits_with_size, push_bits_align")],
 "round-trip property over generated value sequences, plus exhaustive small ranges", "Complete for small values and widths, sampled with boundary bias elsewhere.", observe=["bit vector", "reader position"])
prop("C06", "Raw descriptors use exactly the AV1 wire format",
 "The bits each descriptor writer produces are the ones the AV1 specification defines for that value, in the shortest form the descriptor allows, and the readers accept every legal form, including LEB128 values padded with redundant bytes. Alignment adds only zero bits and only up to the next byte boundary.",
 ["inputs"], "all descriptor values in the domains of the round-trip property",
 "Round-trip tests cannot see a writer and reader that agree on a wrong format.",
 ["src/bool_coder.rs"], [("descriptor writers and readers", "encode_*, decode_*, push_bits_*")],
 "differential testing against an independent reference writer", "Reference writer and reader were written from the specification text, not from the code.", observe=["bit vector"])
prop("C07", "Truncated input is refused, never misread or looped on",
 "Reading a value or a symbol stream from input that ends before the value does always stops with a failure in bounded time. It never returns a made-up value and never loops.",
 ["inputs", "fault_sequences"], "all valid encodings cut at every point before the last bit needed",
 "Tests only ever read complete input.",
 ["src/bool_coder.rs"], [("queue pops that assert", "BoolCoder::decode_*")],
 "fault injection: truncation of generated valid encodings at every kind of point", "Refusal is a panic in this crate; a CPU-time watchdog decides non-termination.", level="exploration", observe=["outcome of the reader"])
prop("C08", "Integer helpers agree with their mathematical definition",
 "Most-significant-bit position, floor log2, absolute value, minimum, maximum, clipping, rounding shift and signed rounding shift give the mathematically defined result for every operand in range, including zero, negative and extreme operands where defined.",
 ["inputs"], "all 16-bit operands, all 32/64-bit operands and shifts",
 "They have no tests; the code paths that use them sample only ordinary values.",
 ["src/util.rs"], [("msb16/msb32/msb64 and macros", "src/util.rs")],
 "exhaustive 16-bit sweep and boundary-biased generation vs. wide-integer definitions", "16-bit domain is complete; wider operands sampled at every bit position.", hook="macros are reached through functions of the guarded module verif")
