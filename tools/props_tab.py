prop("C22", "Block and transform geometry, sets and types are those of the format",
 "For every block size, transform size, transform type, chroma mode, partition and subsampling the format has, the derived facts agree with the AV1 draft: side lengths and their logarithms, 4x4 counts, size groups, the block a plane's residual covers, the sub-block of a partition (or that there is none), the transform of a shape (or that there is none), the square transforms inside and around it, the size stored for 64-sample sides, coefficient context offsets, the transform set and its members, the class of a type, and the transform type a decoder derives for any transform block of any frame (lossless, inter or intra, luma or chroma, reduced sets, subsampling).",
 ["inputs"], "all block and transform sizes and types, partitions, subsamplings, and all mode infos stored in a frame",
 "Nothing tests the tables; one wrong entry breaks only streams that use that size or type.",
 ["src/common.rs", "src/constants.rs"], [("tables", "constants.rs: block_width .. partition_subsize"), ("functions", "common.rs: get_plane_residual_size, find_tx_size, get_tx_set, is_tx_type_in_set, get_tx_class, compute_tx_type")],
 "exhaustive enumeration of all sizes, types and shapes, and property-based testing of derived types, against formulas written from the format", "The tables are enumerated completely; derived transform types are sampled (about 700 thousand per quick run). 4:4:0, which AV1 does not have, is left out.",
 observe=["returned sizes, sets, classes and types"], hook=HOOK_SYM)
prop("C23", "Coding starts from the default distributions a decoder starts with",
 "Each of the 4648 default distributions is the one a decoder starts with: complete and strictly increasing up to 32768, with a use count of zero, and equal to the pinned defaults, so that a stream coded from a fresh start decodes at a decoder that starts with its own copy, for any mix of elements.",
 ["inputs", "histories"], "all default distributions and all symbol sequences coded from them",
 "No test looks at the defaults; a wrong entry breaks only streams that use that context.",
 ["src/cdf.rs"], [("defaults", "cdf.rs: default_cdf")],
 "exhaustive comparison of every distribution with pinned values, and differential property-based testing of coded sequences", "All distributions are compared. The pinned values were taken from this tree after reading them; they are the reference, no AV1 decoder is available here.",
 state=[("default_cdf", "initial distributions", "src/cdf.rs")], observe=["default_cdf", "coded bits"], hook=HOOK_SYM)
prop("C28", "Frames, tile counts, order hints and copies are laid out as defined",
 "A new frame of any size has complete luma and chroma planes (odd sizes rounded up) and a grid of empty mode info covering the frame in 8x8 steps; lookups of a position, above it and left of it return exactly the stored info or nothing at the frame edge, and change nothing; tile counts and their rounded-up logarithms follow the tile starts; the relative distance of two order hints is the signed difference modulo the hint range for every number of bits; reference direction and use counts follow the reference numbers; vectors add and subtract by component; a copied partition tree equals its original and is independent of it.",
 ["inputs"], "all frame sizes, positions, tile counts, pairs of order hints, reference pairs and partition trees",
 "The existing tests build no frame; sizes that are not multiples of 8, wrapped order hints and deep copies are never sampled.",
 ["src/frame.rs", "src/common.rs", "src/block.rs"], [("frames", "Frame::new, get_mi, get_above_mi, get_left_mi, mi_rows, mi_cols, num_tiles, tile_cols_log2, tile_rows_log2"), ("helpers", "common.rs: get_relative_dist, count_refs, ref_count_ctx, is_samedir_ref_pair, check_backward, MotionVector"), ("copies", "block.rs: PartitionTree::clone")],
 "exhaustive enumeration of small frames, tile counts, hints and references, and property-based testing of larger frames, lookups and copies", "Frames up to 70x70, tile counts up to 64x64 and all 8-bit hint pairs are enumerated; the rest is sampled.",
 state=[("Frame.mis", "mode info of each 4x4 position", "src/frame.rs")], observe=["frame fields and returned values"], hook=HOOK_SYM)
