//! C13: sequence headers.
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::constants::{ChromaSamplePosition, ColorPrimaries, MatrixCoefficients, TransferCharacteristics};
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::FilmGrainParams;
use av1enc::verif::obu::OBU;
use av1enc::verif::obu_encoder::OBUEncoder;
use av1enc::verif::sequence_header::*;
use harness::av1;
use harness::bits::*;
use harness::check_eq;
use harness::engine::*;
use std::cell::RefCell;
use std::rc::Rc;

use ChromaSamplePosition::*;
use ColorPrimaries::*;
use MatrixCoefficients::*;
use TransferCharacteristics::*;

const CP: [ColorPrimaries; 12] = [CP_BT_709, CP_UNSPECIFIED, CP_BT_470_M, CP_BT_470_B_G, CP_BT_601, CP_SMPTE_240, CP_GENERIC_FILM, CP_BT_2020, CP_XYZ, CP_SMPTE_431, CP_SMPTE_432, CP_EBU_3213];
const CPN: [u64; 12] = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22];
const TC: [TransferCharacteristics; 19] = [TC_RESERVED_0, TC_BT_709, TC_UNSPECIFIED, TC_RESERVED_3, TC_BT_470_M, TC_BT_470_B_G, TC_BT_601, TC_SMPTE_240, TC_LINEAR, TC_LOG_100, TC_LOG_100_SQRT10, TC_IEC_61966, TC_BT_1361, TC_SRGB, TC_BT_2020_10_BIT, TC_BT_2020_12_BIT, TC_SMPTE_2084, TC_SMPTE_428, TC_HLG];
const MC: [MatrixCoefficients; 15] = [MC_IDENTITY, MC_BT_709, MC_UNSPECIFIED, MC_RESERVED_3, MC_FCC, MC_BT_470_B_G, MC_BT_601, MC_SMPTE_240, MC_SMPTE_YCGCO, MC_BT_2020_NCL, MC_BT_2020_CL, MC_SMPTE_2085, MC_CHROMAT_NCL, MC_CHROMAT_CL, MC_ICTCP];
const CSP: [ChromaSamplePosition; 4] = [CSP_UNKNOWN, CSP_VERTICAL, CSP_COLOCATED, CSP_RESERVED];

fn dim(s: &mut Src) -> usize { s.biased(65535) as usize + 1 }
fn nbits(s: &mut Src, n: u64) -> u64 { s.biased((1u64 << n) - 1) }

/// A header, the context it is coded in, and the values a decoder must find in it.
pub fn gen_seq(s: &mut Src) -> (SequenceHeader, EncoderContext, av1::Seq) {
    let (w, h) = (dim(s), dim(s));
    gen_seq_of(s, w, h)
}

/// The same for frames of at most this size.
pub fn gen_seq_of(s: &mut Src, w: usize, h: usize) -> (SequenceHeader, EncoderContext, av1::Seq) {
    let mut q = SequenceHeader::new(w, h);
    let mut e = EncoderContext::new();
    let mut x = av1::Seq::default();
    let bitlen = |v: usize| -> u64 { let mut n = 1; while (v >> n) > 0 { n += 1; } n };
    q.frame_width = s.us(1, w);
    q.frame_height = s.us(1, h);
    x.width = w as u64;
    x.height = h as u64;
    x.width_bits = bitlen(w - 1);
    x.height_bits = bitlen(h - 1);
    q.profile = s.below(3) as u8;
    x.profile = q.profile as u64;
    q.still_picture = s.bool();
    x.still = q.still_picture;
    let n = if s.bool() { 1 } else { s.us(1, 32) };
    q.operating_points = vec![];
    for _ in 0..n {
        let level = s.below(32);
        let tier = if level > 7 { Some(s.bool()) } else { None };
        let idc = nbits(s, 12);
        q.operating_points.push(OperatingPoint { idc: idc as u16, seq_level_idx: level as u8, seq_tier: tier });
        x.ops.push(av1::OpPoint { idc, level, tier });
    }
    if s.bool() {
        let (d, a) = (s.range(2, 17) as u8, s.range(1, 8) as u8);
        q.frame_id = Some(FrameID { delta_frame_id_length: d, additional_frame_id_length: a });
        x.frame_id = Some((d as u64, a as u64));
        e.frame_id_numbers_present_flag = true;
        e.delta_frame_id_length = d as usize;
        e.additional_frame_id_length = a as usize;
    }
    e.use_128x128_superblock = s.bool();
    x.sb128 = e.use_128x128_superblock;
    q.enable_filter_intra = s.bool();
    x.filter_intra = q.enable_filter_intra;
    q.enable_intra_edge_filter = s.bool();
    x.intra_edge = q.enable_intra_edge_filter;
    q.enable_interintra_compound = s.bool();
    x.interintra = q.enable_interintra_compound;
    q.enable_masked_compound = s.bool();
    x.masked = q.enable_masked_compound;
    e.enable_warped_motion = s.bool();
    x.warped = e.enable_warped_motion;
    q.enable_dual_filter = s.bool();
    x.dual = q.enable_dual_filter;
    e.enable_order_hint = s.bool();
    q.enable_jnt_comp = s.bool();
    e.enable_ref_frame_mvs = s.bool();
    if e.enable_order_hint {
        e.order_hint_bits = s.range(1, 8) as u8;
        x.order_hint_bits = e.order_hint_bits as u64;
        x.jnt = q.enable_jnt_comp;
        x.ref_mvs = e.enable_ref_frame_mvs;
    }
    q.seq_choose_screen_content_tools = s.bool();
    e.seq_force_screen_content_tools = s.us(0, 1);
    x.screen = if q.seq_choose_screen_content_tools { 2 } else { e.seq_force_screen_content_tools as u64 };
    q.seq_choose_integer_mv = s.bool();
    e.seq_force_integer_mv = s.us(0, 1);
    x.int_mv = if x.screen == 0 || q.seq_choose_integer_mv { 2 } else { e.seq_force_integer_mv as u64 };
    e.enable_superres = s.bool();
    x.superres = e.enable_superres;
    e.enable_cdef = s.bool();
    x.cdef = e.enable_cdef;
    e.enable_restoration = s.bool();
    x.restoration = e.enable_restoration;
    // color
    let c = &mut e.color_config;
    c.high_bitdepth = s.bool();
    c.twelve_bit = s.bool();
    x.bit_depth = if !c.high_bitdepth { 8 } else if q.profile == 2 && c.twelve_bit { 12 } else { 10 };
    c.mono_chrome = s.one_in(3);
    x.mono = c.mono_chrome && q.profile != 1;
    c.color_range = s.bool();
    c.subsampling_x = s.bool();
    c.subsampling_y = s.bool();
    let cspi = s.us(0, 3);
    c.chroma_sample_position = CSP[cspi];
    c.separate_uv_delta_q = s.bool();
    match s.below(4) {
        0 => c.color_description = None,
        1 => { c.color_description = Some(ColorDescription { color_primaries: CP_BT_709, transfer_characteristics: TC_SRGB, matrix_coefficients: MC_IDENTITY }); x.color_desc = Some((1, 13, 0)); }
        _ => {
            let (a, b, d) = (s.us(0, 11), s.us(0, 18), s.us(0, 14));
            c.color_description = Some(ColorDescription { color_primaries: CP[a], transfer_characteristics: TC[b], matrix_coefficients: MC[d] });
            x.color_desc = Some((CPN[a], b as u64, d as u64));
        }
    }
    if x.mono {
        x.full_range = c.color_range;
        x.sub_x = true;
        x.sub_y = true;
    } else if x.color_desc == Some((1, 13, 0)) {
        x.full_range = true;
        x.separate_uv = c.separate_uv_delta_q;
    } else {
        x.full_range = c.color_range;
        match q.profile {
            0 => { x.sub_x = true; x.sub_y = true; }
            1 => {}
            _ => if x.bit_depth == 12 { x.sub_x = c.subsampling_x; x.sub_y = c.subsampling_x && c.subsampling_y; } else { x.sub_x = true; }
        }
        if x.sub_x && x.sub_y { x.chroma_pos = cspi as u64; }
        x.separate_uv = c.separate_uv_delta_q;
    }
    // timing
    if s.bool() {
        let t = TimingInfo { num_units_in_display_tick: nbits(s, 32) as u32, time_scale: nbits(s, 32) as u32, equal_picture_interval: s.bool(), num_ticks_per_picture: (s.biased(u32::MAX as u64 - 1) + 1) as u32 };
        x.timing = Some(av1::Timing { units: t.num_units_in_display_tick as u64, scale: t.time_scale as u64, equal: t.equal_picture_interval, ticks: if t.equal_picture_interval { Some(t.num_ticks_per_picture as u64) } else { None } });
        e.timing_info = Some(t);
    }
    if s.bool() {
        let m = DecoderModelInfo {
            bitrate_scale: s.below(16) as u8, buffer_size_scale: s.below(16) as u8,
            encoder_decoder_buffer_delay_length: s.range(1, 32) as u8, num_units_in_decoding_tick: nbits(s, 32) as u32,
            buffer_removal_delay: 0, buffer_removal_delay_length: s.range(1, 32) as u8, buffer_removal_delay_present: s.bool(),
            frame_presentation_delay_length: s.range(1, 32) as u8,
        };
        if x.timing.is_some() {
            x.dec_model = Some(av1::DecModel { bitrate_scale: m.bitrate_scale as u64, buffer_scale: m.buffer_size_scale as u64, delay_len: m.encoder_decoder_buffer_delay_length as u64, decoding_tick: m.num_units_in_decoding_tick as u64, removal_len: m.buffer_removal_delay_length as u64, presentation_len: m.frame_presentation_delay_length as u64 });
        }
        q.decoder_model_info = Some(m);
    }
    let n = if s.bool() { 0 } else { s.us(1, 32) };
    for _ in 0..n {
        let idc = nbits(s, 12);
        let delay = if s.bool() { Some(s.range(1, 16) as u8) } else { None };
        let mut p = None;
        let mut xp = None;
        if s.bool() {
            let k = x.dec_model.as_ref().map(|d| d.delay_len).unwrap_or(8);
            let o = OperatingParametersInfo { bitrate: (s.biased(u32::MAX as u64 - 1) + 1) as u32, buffer_size: (s.biased(u32::MAX as u64 - 1) + 1) as u32, cbr_flag: s.bool(), decoder_buffer_delay: nbits(s, k) as u32, encoder_buffer_delay: nbits(s, k) as u32, low_delay_mode_flag: s.bool() };
            if x.dec_model.is_some() {
                xp = Some(av1::OpParams { bitrate: o.bitrate as u64, buffer: o.buffer_size as u64, cbr: o.cbr_flag, dec_delay: o.decoder_buffer_delay as u64, enc_delay: o.encoder_buffer_delay as u64, low_delay: o.low_delay_mode_flag });
            }
            p = Some(o);
        }
        e.operating_points_decoder_model.push(OperatingPointsDecoderModel { idc: idc as u16, initial_display_delay: delay, operating_parameters_info: p });
        x.op_models.push(av1::OpModel { idc, display_delay: delay.map(|d| d as u64), params: xp });
    }
    if s.bool() { e.film_grain_params = Some(FilmGrainParams::new()); x.film_grain = true; }
    (q, e, x)
}

/// Carries the caller's settings for a new sequence header over into a context that is already in use.
pub fn adopt(c: &mut EncoderContext, e: EncoderContext) {
    c.frame_id_numbers_present_flag = e.frame_id_numbers_present_flag;
    c.delta_frame_id_length = e.delta_frame_id_length;
    c.additional_frame_id_length = e.additional_frame_id_length;
    c.use_128x128_superblock = e.use_128x128_superblock;
    c.enable_warped_motion = e.enable_warped_motion;
    c.enable_order_hint = e.enable_order_hint;
    c.enable_ref_frame_mvs = e.enable_ref_frame_mvs;
    c.order_hint_bits = e.order_hint_bits;
    c.seq_force_screen_content_tools = e.seq_force_screen_content_tools;
    c.seq_force_integer_mv = e.seq_force_integer_mv;
    c.enable_superres = e.enable_superres;
    c.enable_cdef = e.enable_cdef;
    c.enable_restoration = e.enable_restoration;
    c.color_config = e.color_config;
    c.timing_info = e.timing_info;
    c.operating_points_decoder_model = e.operating_points_decoder_model;
    c.film_grain_params = e.film_grain_params;
}

/// The payload bits of each OBU, coded one after the other by one encoder.
pub fn payloads(e: EncoderContext, obus: &mut [OBU]) -> Vec<Vec<u8>> {
    let mut w = BinaryWriter::file("/dev/null").unwrap();
    let mut c = BoolCoder::new();
    let ctx = Rc::new(RefCell::new(e));
    let mut enc = OBUEncoder::new(&ctx, &mut w, &mut c);
    obus.iter_mut().map(|o| { let mut b = vec![]; enc.encode_obu_payload(o, &mut b); b }).collect()
}

fn diff(a: &av1::Seq, b: &av1::Seq) -> String {
    let (x, y) = (format!("{:#?}", a), format!("{:#?}", b));
    x.lines().zip(y.lines()).filter(|(p, q)| p != q).map(|(p, q)| format!("{} (expected {})", p.trim(), q.trim())).take(4).collect::<Vec<_>>().join("; ")
}

fn roundtrip(s: &mut Src, info: &mut Info) -> Res {
    let (q, e, x) = gen_seq(s);
    info.nontrivial(x.ops.len() > 1 || x.timing.is_some() || x.order_hint_bits > 0 || !x.op_models.is_empty());
    if x.mono { info.label("monochrome"); }
    if x.dec_model.is_some() { info.label("decoder model"); }
    if x.order_hint_bits > 0 { info.label("order hints"); }
    info.desc(|| trunc(&format!("{:?}", x), 600));
    let b = payloads(e, &mut [OBU::OBU_SEQUENCE_HEADER(q)]);
    let mut r = BitR::new(&b[0]);
    let got = av1::seq(&mut r).map_err(|m| format!("the header cannot be read back: {}", m))?;
    if got != x { return Err(format!("header read back differs: {}", diff(&got, &x))); }
    check_eq!(r.left(), 0, "bits after the last field of the header");
    Ok(())
}

/// Coding the same header again in the same session gives the same bits.
fn repeated(s: &mut Src, info: &mut Info) -> Res {
    let (mut q, e, x) = gen_seq(s);
    info.nontrivial(true);
    info.desc(|| trunc(&format!("{:?}", x), 600));
    let mut w = BinaryWriter::file("/dev/null").unwrap();
    let mut c = BoolCoder::new();
    let ctx = Rc::new(RefCell::new(e));
    let mut enc = OBUEncoder::new(&ctx, &mut w, &mut c);
    let mut first: Option<Vec<u8>> = None;
    for k in 0..s.us(2, 4) {
        // the caller's choices of screen content tools and motion vector precision are inputs of each header
        if !q.seq_choose_screen_content_tools { ctx.borrow_mut().seq_force_screen_content_tools = x.screen as usize; }
        if x.int_mv < 2 { ctx.borrow_mut().seq_force_integer_mv = x.int_mv as usize; }
        let mut o = OBU::OBU_SEQUENCE_HEADER(q);
        let mut b = vec![];
        enc.encode_obu_payload(&mut o, &mut b);
        q = match o { OBU::OBU_SEQUENCE_HEADER(q) => q, _ => unreachable!() };
        if s.one_in(3) { let mut pad = OBU::OBU_TEMPORAL_DELIMITER; enc.encode_obu_payload(&mut pad, &mut vec![]); }
        match first {
            None => first = Some(b),
            Some(ref f) => if *f != b { return Err(format!("sequence header {} of the session differs from the first: {} vs {}", k + 1, show_bits(&b), show_bits(f))); }
        }
        info.evals(1);
    }
    Ok(())
}

/// Different sequence headers coded one after the other by one encoder: each carries its own parameters only.
fn changing(s: &mut Src, info: &mut Info) -> Res {
    let n = if s.one_in(20) { s.us(5, 30) } else { s.us(2, 4) };
    info.nontrivial(true);
    let mut w = BinaryWriter::file("/dev/null").unwrap();
    let mut c = BoolCoder::new();
    let ctx = Rc::new(RefCell::new(EncoderContext::new()));
    let mut enc = OBUEncoder::new(&ctx, &mut w, &mut c);
    let mut d = vec![];
    let mut all = vec![];
    for k in 0..n {
        let (q, e, x) = gen_seq(s);
        if info.want_desc { d.push(format!("{:?}", x)); info.desc = trunc(&d.join(" | "), 900); }
        if s.bool() { adopt(&mut ctx.borrow_mut(), e); } else { *ctx.borrow_mut() = e; }
        let append = s.one_in(4);
        let mut fresh = vec![];
        let from = if append { all.len() } else { 0 };
        {
            let b = if append { &mut all } else { &mut fresh };
            enc.encode_obu_payload(&mut OBU::OBU_SEQUENCE_HEADER(q), b);
            let mut r = BitR::new(&b[from..]);
            let got = av1::seq(&mut r).map_err(|m| format!("header {} cannot be read back: {}", k, m))?;
            if got != x { return Err(format!("header {} of the session read back differs: {}", k, diff(&got, &x))); }
            check_eq!(r.left(), 0, "bits after the last field of header {}", k);
        }
        if s.one_in(4) { enc.encode_obu_payload(&mut OBU::OBU_TEMPORAL_DELIMITER, &mut vec![]); }
        info.evals(1);
    }
    Ok(())
}

/// What the encoder keeps for the frames that follow is what a decoder knows after the header.
fn kept(s: &mut Src, info: &mut Info) -> Res {
    let n = s.us(1, 3);
    info.nontrivial(true);
    let mut w = BinaryWriter::file("/dev/null").unwrap();
    let mut c = BoolCoder::new();
    let ctx = Rc::new(RefCell::new(EncoderContext::new()));
    let mut enc = OBUEncoder::new(&ctx, &mut w, &mut c);
    for _ in 0..n {
        let (q, e, x) = gen_seq(s);
        info.desc(|| trunc(&format!("{:?}", x), 600));
        adopt(&mut ctx.borrow_mut(), e);
        // subsampling the profile does not leave open is not the caller's to choose
        if s.bool() { let mut c = ctx.borrow_mut(); if !(x.profile == 2 && x.bit_depth == 12 && !x.mono) { c.color_config.subsampling_x = s.bool(); c.color_config.subsampling_y = s.bool(); } else if !c.color_config.subsampling_x { c.color_config.subsampling_y = s.bool(); } }
        let mut b = vec![];
        enc.encode_obu_payload(&mut OBU::OBU_SEQUENCE_HEADER(q), &mut b);
        let got = av1::seq(&mut BitR::new(&b)).map_err(|m| format!("the header cannot be read back: {}", m))?;
        if got != x { return Err(format!("header read back differs: {}", diff(&got, &x))); }
        let e = ctx.borrow();
        check_eq!((e.color_config.mono_chrome, e.num_planes), (x.mono, if x.mono { 1 } else { 3 }), "monochrome and number of planes kept");
        check_eq!((e.color_config.subsampling_x, e.color_config.subsampling_y), (x.sub_x, x.sub_y), "subsampling kept");
        check_eq!(e.color_config.separate_uv_delta_q, x.separate_uv, "separate_uv_delta_q kept");
        if x.mono { check_eq!(e.color_config.chroma_sample_position as u8, 0, "chroma sample position kept of a header without chroma"); }
        check_eq!((e.seq_force_screen_content_tools as u64, e.seq_force_integer_mv as u64), (x.screen, x.int_mv), "screen content tools and integer motion vectors kept");
        check_eq!((e.enable_order_hint, e.enable_ref_frame_mvs), (x.order_hint_bits > 0, x.ref_mvs), "order hints and motion field kept");
        check_eq!((e.enable_superres, e.enable_cdef, e.enable_restoration, e.enable_warped_motion, e.use_128x128_superblock), (x.superres, x.cdef, x.restoration, x.warped, x.sb128), "superres, CDEF, restoration, warped motion, 128x128 superblocks kept");
        check_eq!((e.timing_info.is_some(), e.film_grain_params.is_some()), (x.timing.is_some(), x.film_grain), "timing info and film grain kept");
        info.evals(1);
    }
    Ok(())
}

/// Every frame size, each dimension on its own.
fn sizes(k: u64, info: &mut Info) -> Res {
    info.nontrivial(true);
    let d = k as usize + 1;
    info.desc(|| format!("sizes {}x7 and 7x{}", d, d));
    for (w, h) in [(d, 7), (7, d)].iter() {
        let b = payloads(EncoderContext::new(), &mut [OBU::OBU_SEQUENCE_HEADER(SequenceHeader::new(*w, *h))]);
        let mut r = BitR::new(&b[0]);
        let got = av1::seq(&mut r)?;
        check_eq!((got.width, got.height), (*w as u64, *h as u64), "frame size in the header for {}x{}", w, h);
        check_eq!(r.left(), 0, "bits after the last field of the header for {}x{}", w, h);
        info.evals(1);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13", level: "exploration",
        rule: "A case is a sequence header and context with every optional section drawn independently (operating points, frame ids, order hints, color config of all profiles, timing, decoder models, film grain); it is coded and read back by an independent parser and compared field by field. 'repeated' codes one header several times in a session; 'changing' codes different headers one after the other with one encoder; 'kept' compares what the encoder keeps for the following frames with what the header says; 'sizes' enumerates every width and every height. Non-trivial: some optional section present.",
        assumptions: vec!["header syntax of the AV1 draft the encoder follows; reduced still picture headers are not implemented in the encoder and excluded", "1 to 32 operating points, sizes 1..65536, lengths within their fields"],
        subs: vec![
            Sub::random("roundtrip", 600_000, 5_000_000, roundtrip),
            Sub::random("repeated", 100_000, 1_000_000, repeated),
            Sub::random("changing", 100_000, 1_000_000, changing),
            Sub::random("kept", 150_000, 1_000_000, kept),
            Sub::exhaustive("sizes", 65_536, 65_536, sizes),
        ],
    }]
}
