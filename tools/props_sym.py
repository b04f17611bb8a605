HOOK_SYM = "private modules constants, cdf, common, frame and block are re-exported under the guard"
prop("C19", "Block syntax elements are coded with the distribution the syntax assigns",
 "Every block-level syntax element whose context comes from its arguments alone (luma, chroma and angle modes, partitions and the forced splits at a frame edge, segment ids, motion vector flags and components, filter intra, compound mode and type, interintra, wedge and OBMC elements, palette sizes and colour indices, delta q and delta lf, chroma-from-luma signs and magnitudes, restoration switches) is coded with exactly the distribution and symbol number that the AV1 syntax prescribes for those arguments: a decoder that applies the draft's context rules reads the same value, only that one distribution adapts, all others stay as they were, and forced splits adapt nothing. This holds for any state of the distributions and any order and number of elements.",
 ["inputs", "histories"], "all argument values of each element, all states of the distributions, all sequences of elements in one stream",
 "No test codes a syntax element; a wrong context or symbol number still gives a well-formed stream that decodes to other values only for particular modes, sizes or signs.",
 ["src/bool_coder.rs", "src/cdf.rs", "src/constants.rs"], [("element coders", "BoolCoder::encode_intra_frame_y_mode .. encode_restoration_type"), ("context tables", "constants.rs: intra_mode_context, size_group, palette_color_context, mi_width_log2")],
 "model-based testing: generated element sequences against a reference decoder with its own context rules", "Sampled: about 1.5 million elements per quick run over 48 randomised sets of distributions and the defaults; every element has few enough contexts that each is met many times.",
 state=[("CDF", "one adaptive distribution per element and context", "src/cdf.rs")], observe=["coded bits", "distributions after each element"], hook=HOOK_SYM)
prop("C20", "Elements coded next to other blocks use the contexts their neighbours imply",
 "For any position in a frame and any blocks above and to the left (absent, intra, inter-intra, single or compound inter), the elements that depend on them (transform depth and split, predicted segment id, is_inter, compound mode, skip, skip mode, all reference frame elements, compound reference type, compound group and index, interpolation filter, palette presence) are coded with the distribution the AV1 draft derives from exactly those two neighbours, also at the frame edges and where order hints wrap, so that a decoder reads the same value; nothing else adapts and the stored mode info is not changed.",
 ["inputs", "histories"], "all neighbour configurations, frame positions, order hints, states of the distributions and sequences of elements",
 "No test builds a frame with neighbours; each context rule is a case analysis over two blocks that only goes wrong for particular pairs.",
 ["src/bool_coder.rs", "src/common.rs", "src/frame.rs", "src/constants.rs"], [("context derivation", "BoolCoder::encode_tx_depth .. encode_has_palette_y"), ("reference counting", "common.rs: count_refs, ref_count_ctx, is_samedir_ref_pair, check_backward, get_relative_dist"), ("neighbour lookup", "Frame::get_above_mi, get_left_mi")],
 "model-based testing: generated neighbourhoods against a reference decoder with its own context rules", "Sampled: about 1.3 million elements per quick run; positions other than the two neighbours hold decoys.",
 state=[("Frame.mis", "mode info of each 4x4 position", "src/frame.rs")], observe=["coded bits", "distributions after each element"], hook=HOOK_SYM)
prop("C21", "Coefficient elements use the contexts of the transform block they belong to",
 "For any plane, subsampling, transform size and type, position, scan position and coefficient magnitudes, the elements of a block of coefficients (all_zero, the end-of-block classes and extra bit, coeff_base, coeff_base_eob, coeff_br, dc_sign, and the intra and inter transform type) are coded with the distribution and symbol number the AV1 draft prescribes, taking the transform type a decoder derives for the block, so that a decoder reads the same value; nothing else adapts. This includes transforms with a side of 64, one-dimensional transforms, reduced transform sets, lossless blocks and positions at the edges of the transform and of the frame.",
 ["inputs", "histories"], "all planes, block and transform sizes, types, coefficient neighbourhoods and neighbour contexts",
 "No test codes a coefficient; contexts depend on up to five neighbouring magnitudes and the transform's class and shape.",
 ["src/bool_coder.rs", "src/common.rs", "src/constants.rs"], [("coefficient elements", "BoolCoder::encode_all_zero .. encode_coeff_br, encode_intra_tx_type, encode_inter_tx_type"), ("contexts", "common.rs: get_coeff_base_ctx, compute_tx_type, get_tx_set, get_tx_class"), ("tables", "constants.rs: coeff_base_ctx_offset, sig_ref_diff_offset, mag_ref_offset_with_tx_class, adjusted_tx_size")],
 "model-based testing: generated transform blocks against a reference decoder with its own context rules", "Sampled: about 1.3 million elements per quick run. Only the first set of coefficient distributions is used by the encoder, and one mode info stands for a whole edge.",
 state=[("Frame.mis", "transform types and coefficient contexts of each position", "src/frame.rs")], observe=["coded bits", "distributions after each element"], hook=HOOK_SYM)
