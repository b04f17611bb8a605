prop("C24", "A decoder recovers each block's segment, skip, CDEF index and level changes",
 "For any history of blocks in any tile of any frame configuration, a decoder that reads the coded symbols in the order of the syntax recovers for each block its segment (predicted from the neighbours inside the tile, coded before or after skip as the segmentation features demand), skip, CDEF index (once per 64x64 area, not for skipped or lossless blocks or with intra block copy), quantizer index and loop filter level changes (first block of a superblock, of any size and sign, resolution and number of levels; the nearest lower or higher one where whole steps do not reach the one asked for), and whether the block is inter coded; and it ends with the same distributions and the same running state (current quantizer index, loop filter deltas, CDEF indices, availability of neighbours and chroma) as the encoder.",
 ["inputs", "histories"], "all frame and tile configurations, block sizes and positions, neighbourhoods, segmentation features, and histories of blocks with any values",
 "No test codes a block; errors show only for particular predictions, large changes, skipped blocks, or later blocks of a history.",
 ["src/tile_encoder.rs", "src/bool_coder.rs"], [("block header", "TileEncoder::encode_block, encode_mode_info, encode_segment_id"), ("symbols", "bool_coder.rs: encode_skip, encode_segment_id, encode_delta_q_abs, encode_delta_lf_abs, encode_is_inter")],
 "model-based property-based testing: generated block histories are coded and read back by an independent decoder of the syntax; values, running state, distributions and an end mark are compared",
 "About 720 thousand blocks per quick run. Only the branch of the code that exists (frames marked intra) is coded.",
 state=[("current_q_index, delta_lf, read_deltas", "running levels of the tile", "src/encoder.rs"), ("Frame.cdef_idx", "CDEF index per 64x64", "src/frame.rs"), ("Frame.mis", "mode info of each 4x4 position", "src/frame.rs")], observe=["coded bits, encoder context, partition tree after encode_block"], hook=HOOK_SYM)
prop("C25", "A decoder recovers the references, mode and motion vectors of each inter block",
 "For any history of inter blocks, a decoder recovers each block's single or compound reference frames (given by segment features or coded), its mode, its index into the candidate list, and its exact motion vectors in frames of whole, quarter and eighth sample precision, given the candidate list; vectors of the other modes are the predicted ones, and the block's own mode is left as asked. Vectors of intra block copy are predicted from the list or, where it is empty, from the superblock row, and are recovered exactly too. Both sides end with the same distributions.",
 ["inputs", "histories"], "all reference pairs, modes, candidate lists, vectors and precisions, for all histories of blocks",
 "No test codes an inter block; a wrong class boundary, sign, or reference bit shows only for particular values.",
 ["src/tile_encoder.rs", "src/bool_coder.rs"], [("references, modes, vectors", "TileEncoder::encode_mode_info, assign_mv"), ("symbols", "bool_coder.rs: encode_comp_*, encode_uni_comp_*, encode_single_ref_*, encode_new_mv .. encode_drl_mode, encode_mv_*")],
 "model-based property-based testing: generated histories of inter blocks and intra block copy vectors are coded and read back by an independent decoder of the syntax",
 "About 720 thousand blocks and 420 thousand intra block copy vectors per quick run. The candidate list and the contexts that depend on it are taken from the encoder's state (C26 decides the list as far as it is implemented).",
 state=[("ref_stack_mv, num_mv_found, global_mvs", "candidates", "src/tile_encoder.rs")], observe=["coded bits, partition tree and y_mode after encode_block"], hook=HOOK_SYM)
prop("C26", "Motion vector candidates and their weights are those a decoder derives",
 "For every block, neighbourhood, tile, motion field and global motion, the candidate list built before a block's mode is coded equals the one of the AV1 draft for the implemented steps: global vectors of every model type in the frame's precision, candidates of the row above, the column to the left and the point above and to the right (only inside the tile and already coded) for single and compound references, with the global vector in place of those of globally moving blocks, weights by length with the bonus for nearest ones, temporal candidates only where the frame uses them, at most eight entries without duplicates; and so are the counts of new vectors and close matches and the context of zero_mv, whatever an earlier block left behind.",
 ["inputs", "histories"], "all block sizes and positions, neighbourhoods, references, motion fields, global motion models and precisions",
 "No test builds a candidate list; most errors need particular neighbours, tile edges or model types.",
 ["src/tile_encoder.rs"], [("candidates", "TileEncoder::find_mv_stack, add_ref_mv_candidate, is_inside")],
 "property-based testing against an independent model of the candidate derivation",
 "About 360 thousand neighbourhoods per quick run. The steps the encoder does not implement yet (wider scans, extension of the temporal scan, sorting, extra search, clamping and the contexts of new_mv and ref_mv) are not claimed.",
 state=[("ref_stack_mv, weight_stack, num_mv_found", "candidate list", "src/tile_encoder.rs"), ("motion_field_mvs", "temporal vectors", "src/encoder.rs")], observe=["fields of the tile encoder after find_mv_stack"], hook=HOOK_SYM)
prop("C27", "A decoder recovers the type and coefficients of every loop restoration unit",
 "For every frame size, subsampling, superblock size, superres scale, unit size and per-plane restoration type, each restoration unit is coded exactly once, with the superblock in which it starts, and a decoder recovers its type and its exact Wiener coefficients or self guided filter set and weights, over their whole ranges and for any references; the values stored in the frame and the references kept for the next unit are the decoder's, and nothing is coded in frames with intra block copy.",
 ["inputs", "histories"], "all frame sizes and restoration configurations, all coefficient values and references, all sequences of units",
 "No test codes a restoration unit; errors show only for values at the ends of the ranges, particular references, or frame sizes that leave partial units.",
 ["src/tile_encoder.rs", "src/bool_coder.rs", "src/constants.rs"], [("units", "TileEncoder::encode_lr"), ("symbols", "bool_coder.rs: encode_use_wiener, encode_use_sgrproj, encode_restoration_type, encode_literal")],
 "model-based property-based testing: all units of generated frames are coded and read back by an independent decoder of the syntax",
 "About 1.9 million units per quick run; the caller is assumed to allocate the unit grids.",
 state=[("ref_lr_wiener, ref_sgr_xqd", "references for the next unit", "src/encoder.rs"), ("Frame.lr_type, lr_wiener, lr_sgr_set, lr_sgr_xqd", "decoded units", "src/frame.rs")], observe=["coded bits, frame and context after encode_lr"], hook=HOOK_SYM)
prop("C29", "A tile codes exactly the superblocks, partitions and blocks a decoder walks",
 "For every frame size, tile layout, tile, superblock size and neighbourhood (blocks of other tiles, which are not available, never count), coding a tile covers exactly the positions of that tile, superblock by superblock, starting from the tile's initial state (quantizer index, loop filter deltas, restoration references, CDEF indices); a decoder that walks the tile reads every restoration unit, partition (with the context of the neighbours' sizes; reduced or inferred at the right and bottom edges of the frame) and block header in order (with segment ids and level changes where the frame has them; adapting distributions only if the frame header does not disable it), ends exactly at the end with the same distributions, and builds the partition tree the encoder keeps.",
 ["inputs", "histories"], "all frame sizes, tile layouts, superblock sizes and stored neighbourhoods",
 "No test codes a tile; edges need frame sizes that are no multiple of the superblock size, contexts need particular neighbours.",
 ["src/tile_encoder.rs", "src/block.rs", "src/bool_coder.rs"], [("walk", "TileEncoder::encode_tile, encode_superblock, encode_partition"), ("symbols", "bool_coder.rs: encode_partition, encode_split_or_horz, encode_split_or_vert, push_bits")],
 "model-based property-based testing: whole tiles and single superblocks are coded and walked by an independent decoder of the syntax",
 "About 40 thousand superblocks per quick run. The encoder keeps the first possible partition everywhere and codes new trees (segment 0, quantizer index 0), so only the trees and values that follow from that occur; C24 decides other block headers.",
 state=[("mi_row_start .. mi_col_end", "tile bounds", "src/tile_encoder.rs"), ("Frame.cdef_idx", "CDEF index per 64x64", "src/frame.rs")], observe=["coded bits, Superblock.part_tree, encoder context"], hook=HOOK_SYM)
prop("C30", "A tile group carries its tiles so that a decoder finds and reads each of them",
 "For every frame size, tile layout and choice of tiles, coding a tile group gives a whole number of bytes in which a decoder finds which tiles it holds (a part of the frame, or all of it when nothing is said), skips from tile to tile by their little-endian sizes of the announced width, the last tile taking the rest, and reads every tile to its end, each starting from the default distributions and its own initial state, with or without adaptation, without regard to the blocks of other tiles; no tile has spare bytes. The frame is closed after the group with the last tile and open before.",
 ["inputs", "histories"], "all frame sizes, tile layouts, groups and size widths",
 "No test codes a tile group.",
 ["src/obu_encoder.rs", "src/tile_encoder.rs", "src/bool_coder.rs", "src/frame.rs"], [("tile group", "OBUEncoder::encode_obu_payload (OBU_TILE_GROUP)"), ("tiles", "TileEncoder::encode_tile"), ("sizes", "BoolCoder::encode_le, Frame::tile_cols_log2, tile_rows_log2")],
 "model-based property-based testing: generated tile groups are split and every tile is walked by an independent decoder of the syntax",
 "About 20 thousand tiles per quick run, with blocks stored all over the frame.",
 state=[("tg_start, tg_end, tile_num, seen_frame_header", "group in progress", "src/encoder.rs")], observe=["coded bits, encoder context, Frame.cdef_idx"], hook=HOOK_SYM)
prop("C31", "Frames of a stream are found and read from what the stream itself says",
 "For any session written as temporal units (sequence headers, frame headers of all types followed by the tile groups of the frame in one or several groups, other units in between, frames given up by a new temporal delimiter), a reader of the output file splits it into the units written and, knowing only the headers it has read, finds for each frame its size, tiles, superblocks, restoration units, segments, quantizer and level changes, CDEF and adaptation settings as needed to read every tile group to its end: the tile groups of a frame together hold each tile once, in order, and the encoder takes a frame as complete exactly when such a reader does. Units in between and earlier frames, with other parameters and sequence headers, change nothing.",
 ["inputs", "histories"], "all sessions of sequence headers, frame headers, tile groups and other units",
 "No test codes a frame; agreement between what the header announces and what the tiles use needs both sides, over many configurations.",
 ["src/obu_encoder.rs", "src/tile_encoder.rs", "src/bool_coder.rs", "src/frame.rs", "src/encoder.rs", "src/binary_writer.rs"],
 [("units", "OBUEncoder::encode_temporal_unit, encode_obu"), ("headers", "OBUEncoder::encode_obu_payload"), ("tiles", "TileEncoder::encode_tile, encode_lr, encode_superblock")],
 "stateful property-based testing: generated sessions are written to a file and read by an independent Annex B reader, header parser and tile decoder chained together",
 "About 25 thousand tile groups per quick run. Mode info is not stored by the encoder at this commit; the caller provides it. The blocks coded are of segment 0.",
 state=[("seen_frame_header, tg_start, tg_end, mi_row_starts, mi_col_starts, tile_size_bytes, restoration types", "what headers leave for tiles", "src/encoder.rs")], observe=["the output file"], hook=HOOK_SYM)
