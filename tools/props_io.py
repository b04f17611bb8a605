prop("C09", "Command-line options mean what the option list says",
 "Any list of documented options (--input/-i, --output/-o, --frames/-fr, --size/-s WxH, --framerate/-r N or N/D), in any order, either spelling and with repetitions, gives exactly the configuration it spells out: the last value of each option counts and options left out keep their defaults (frames 4294967295, frame rate 30/1). Lists with an unknown option, a missing value or a malformed number, size or rate are refused. A configuration passes validation exactly when input, output and a size with both dimensions in 1..8191 are given and the frame rate is positive.",
 ["inputs"], "all argument lists",
 "There are no tests of the option parser, and the interesting faults depend on order, repetition and boundary values.",
 ["src/option.rs"], [("option table, parsers and validators", "OPTIONS, CommandOption::parse / init_config / validate_config")],
 "model-based testing of the parser over generated argument lists", "Sampled lists of up to 8 options with boundary-biased values; each list of the five options is tried in all 120 orders.", observe=["Config after parsing", "validation verdict"], hook="module option is compiled into the library under the guard")
prop("C10", "Bad command lines and files are refused cleanly and change nothing",
 "For any argument list, including arbitrary bytes, the program ends by itself without panicking. If the list is malformed, incomplete or invalid, or the input cannot be opened, the program prints an error on standard error, writes nothing to standard output, ends with a non-zero status, and neither creates nor changes any file, in particular not an existing output file. An output that cannot be created also gives a non-zero status. Without any argument the program only prints its version and ends with status 0; --help lists every option and ends with status 0; neither touches a file.",
 ["inputs", "fault_sequences"], "all argument vectors, Unicode or not, and all states of the named files",
 "No test starts the program.",
 ["src/main.rs", "src/option.rs"], [("argument handling before any file is opened", "main"), ("parse errors", "CommandOption::parse"), ("help", "CommandOption::show_help_and_exit")],
 "fuzzing of the program's command line against a model of the option list", "Runs the real program in a scratch directory, some thousands of argument vectors per quick run.", observe=["exit status", "standard output and error", "files in the working directory"])
prop("C11", "The bit writer packs exactly the bits it is given",
 "Whatever mixture of single bits, bit runs, byte alignments, byte-aligned raw bytes and flushes is written, the output (a file or standard output) holds those bits packed from the most significant bit on, alignment padded with zeros, nothing lost, duplicated or reordered, and nothing left of an earlier file of that name. If the output accepts none or only some of the bytes, an error surfaces by the time of the flush.",
 ["inputs", "histories", "fault_sequences"], "all sequences of writer operations of any length, on any output",
 "The writer has no tests; buffer boundaries and write errors are never met.",
 ["src/binary_writer.rs"], [("bit accumulator and buffered output", "BinaryWriter::write_bit / write_bits / byte_align / flush")],
 "generated write histories vs. an independent bit packer, with a full device as injected fault", "Sampled histories, runs up to 70000 bits so that the stream buffer overflows several times.", observe=["bytes in the output file", "errors"], hook="module binary_writer is compiled into the library under the guard")
prop("C12", "Planes are filled with the input's samples however input arrives",
 "Reading planes one after the other, of any sizes and of 8 or 16-bit sample types, from a file, standard input or a pipe that delivers its data in pieces of any size, fills each plane with the next bytes of the input in order, one sample per byte. The returned count is smaller than the plane only when the input has ended, and then it is exactly the number of bytes that were left; an input that breaks off with an error gives an error, not a short count.",
 ["inputs", "schedules", "histories"], "all input lengths, plane sizes and divisions of the input into pieces",
 "The reader has no tests; short reads only happen on pipes and at buffer boundaries.",
 ["src/binary_reader.rs"], [("plane filling", "BinaryReader::read_to_vec"), ("Read and BufRead pass-through", "impl Read, BufRead for BinaryReader")],
 "generated read histories over scheduled piecewise delivery vs. a byte-list model", "Each piece is delivered only once the one before it is consumed, so short reads are under the generator's control.", observe=["sample vectors", "returned counts"], hook="module binary_reader is compiled into the library under the guard")
prop("C16", "Encoding ends and yields one valid stream for exactly the asked video",
 "For any raw 8-bit 4:2:0 input (planes of an odd-sized frame rounded up) and any valid size, frame limit and frame rate, the program ends with status 0 after the frame limit or the last complete frame, whichever comes first, without waiting for input beyond the limit. If at least one complete frame was read, the output is exactly one temporal unit with one sequence header that announces the given width and height, 8-bit 4:2:0, and with no stray bytes; otherwise the output is empty. The bytes are the same whether input and output are files or standard streams and in whatever order options are given. An input that breaks off with a read error before that, or a failing output device, gives a non-zero status.",
 ["inputs", "fault_sequences"], "all sizes, inputs, frame limits, ways to connect input and output, and write failures",
 "No test runs the program; odd sizes, partial frames, end of input and failing outputs need generated runs.",
 ["src/main.rs", "src/binary_reader.rs", "src/binary_writer.rs", "src/frame.rs", "src/obu_encoder.rs"],
 [("frame loop and end of input", "main"), ("plane sizes", "Frame::new"), ("temporal unit", "OBUEncoder::encode_temporal_unit")],
 "generated runs of the program read back by an independent Annex B and sequence header parser, with injected output failure", "The program only writes the sequence header at this commit, so picture data cannot be checked; a run counts as endless after 20 s of CPU time.", level="fault_enumeration", observe=["exit status", "output bytes"])
