prop("C13", "Sequence headers carry every parameter to a decoder unchanged",
 "Any sequence header the encoder's types can express (1..32 operating points, profiles 0..2, frame sizes 1..65536 on each side, any colour description, timing, decoder model, operating parameters, frame id and order hint settings) is coded so that a parser following the AV1 draft reads back exactly those parameters, with the derived ones (bit depth, subsampling, monochrome) as the draft defines, and no bit is left over. Coding the same header again in one session gives the same bits.",
 ["inputs", "histories"], "all parameter combinations, all frame sizes, and repeated headers in one session",
 "No test touches header coding, and each field is only present under a combination of others.",
 ["src/obu_encoder.rs", "src/sequence_header.rs"], [("sequence header syntax", "OBUEncoder::encode_obu_payload, OBU_SEQUENCE_HEADER arm")],
 "round trip of generated headers through an independent parser", "All widths and heights enumerated; combinations sampled. Reduced still picture headers are not offered by the encoder.", observe=["payload bits"], hook="modules obu_encoder, encoder and obu are compiled into the library under the guard")
prop("C14", "Units are framed so that a reader can walk the stream",
 "Every stream of temporal units splits back, by the size fields of the AV1 length-delimited format (Annex B), into exactly the units written, each with one frame unit with one OBU, and every byte of the stream belongs to one of them. The OBU header carries the right type, no extension and no size field; a non-empty payload is followed by a one bit and zeros up to the byte boundary; the payload itself is intact. This holds across the payload lengths at which a size field grows by a byte.",
 ["inputs", "histories"], "all sequences of OBUs and all payload lengths",
 "No test writes a stream; size fields only go wrong at certain lengths.",
 ["src/obu_encoder.rs", "src/obu.rs"], [("temporal unit, frame unit and OBU sizes", "OBUEncoder::encode_temporal_unit, encode_obu"), ("OBU header", "OBUEncoder::encode_obu_header")],
 "generated sessions split by an independent Annex B reader", "One OBU per temporal unit, which is what the interface offers; OBU kinds with payloads that do not need a frame, plus the header of every kind.", observe=["bytes in the output file"], hook="modules obu_encoder and obu are compiled into the library under the guard")
prop("C15", "Metadata, padding and delimiters carry exactly what they were given",
 "Every metadata unit (content light level, mastering display colour volume, scalability with or without structure, ITU-T T.35, time code) is coded with its type and every field, in order and at the width the AV1 draft defines, with nothing left out or added (of a time code, the parts up to the first missing one); padding has exactly the asked number of bytes; a temporal delimiter is empty.",
 ["inputs"], "all field values and list lengths of all metadata types",
 "No test touches metadata; most fields are optional.",
 ["src/obu_encoder.rs", "src/obu.rs"], [("metadata syntax", "OBUEncoder::encode_obu_payload, OBU_METADATA arm"), ("padding", "OBUEncoder::encode_obu_payload, OBU_PADDING arm")],
 "round trip of generated metadata through an independent field reader", "The extension byte that T.35 country code 255 calls for must be there, but its value is left open: the type has no field for it.", observe=["payload bits"], hook="modules obu_encoder and obu are compiled into the library under the guard")
prop("C17", "Frame headers carry every parameter to a decoder unchanged",
 "After any sequence header, the header of any frame (key, inter, intra-only or switch frame, or a shown existing frame) with any legal parameters is coded without panicking, and a decoder that follows the AV1 draft's frame header syntax and tracks which elements are present from what it has read itself finds every element with exactly the value asked for, in order and at the draft's width, with no bit left over. This covers reference signaling, sizes and superres, uniform tiles, quantizer, segmentation, delta q/lf, loop filter, CDEF, loop restoration, skip mode, global motion (predicted from the previous parameters, or the defaults without a primary reference frame) and film grain. It holds for each header of a session, whatever came before; a frame as constructed by Frame::new, given uniform tiles, can be coded at any size that one tile can cover.",
 ["inputs", "histories"], "all combinations of sequence and frame parameters and all sequences of headers coded by one encoder",
 "No test codes a frame header; each element is present only under a combination of others, and mistakes shift every later bit.",
 ["src/obu_encoder.rs", "src/frame.rs", "src/encoder.rs", "src/constants.rs"], [("frame header syntax", "OBUEncoder::encode_obu_payload, OBU_FRAME_HEADER arm"), ("tile counts", "Frame::tile_cols_log2, tile_rows_log2")],
 "generated sessions of headers read back by an independent checking parser", "Sampled, about 5*10^5 headers per quick run. Non-uniform tiles, found_ref other than the first reference, repeated headers of one frame and reduced still picture headers are not implemented by the encoder and not covered.", observe=["payload bits"], hook="modules obu_encoder, encoder and obu are compiled into the library under the guard")
prop("C18", "After a frame header the encoder is in the state a decoder derives",
 "Once a frame header is coded, everything the encoder keeps for coding the frame's tiles equals what a decoder derives from the header bits: whether the frame is intra and error resilient, upscaled and coded size, superres denominator, render size, order hints and sign biases of the references, expected frame ids and validity of the reference slots, tile starts, quantizer deltas, active segmentation features, SegIdPreSkip and LastActiveSegId, delta q/lf settings, lossless flags and quantizer matrix levels per segment, loop filter and CDEF settings where they are off, restoration types and unit sizes, transform mode, skip mode frames, global motion types and parameters, film grain, refresh flags, and whether a frame is still open (not after showing an existing frame). Elements the header does not carry take their inferred value even if the caller asked for another.",
 ["inputs", "histories"], "all combinations of sequence and frame parameters and all sequences of headers coded by one encoder",
 "Encoder and decoder drift apart silently when an inferred value differs; no test compares them.",
 ["src/obu_encoder.rs", "src/encoder.rs", "src/frame.rs"], [("state derived while coding", "OBUEncoder::encode_obu_payload, OBU_FRAME_HEADER arm; EncoderContext and Frame fields")],
 "differential testing of encoder state against decoder-derived state over generated sessions", "Same sessions and limits as the header round trip.", observe=["EncoderContext and Frame after coding"], hook="modules obu_encoder, encoder and frame are compiled into the library under the guard")
