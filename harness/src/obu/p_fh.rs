//! C17 (frame headers) and C18 (state kept after a frame header).
use crate::p_seq::{adopt, gen_seq};
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::constants::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::*;
use av1enc::verif::obu::OBU;
use av1enc::verif::obu_encoder::OBUEncoder;
use av1enc::verif::sequence_header::DecoderModelInfo;
use harness::av1;
use harness::av1fh::*;
use harness::bits::*;
use harness::engine::*;
use harness::{check, check_eq};
use std::cell::RefCell;
use std::rc::Rc;

const TYPES: [FrameType; 4] = [FrameType::KEY_FRAME, FrameType::INTER_FRAME, FrameType::INTRA_ONLY_FRAME, FrameType::SWITCH_FRAME];
const FILTERS: [InterpFilter; 5] = [InterpFilter::EIGHTTAP, InterpFilter::EIGHTTAP_SMOOTH, InterpFilter::EIGHTTAP_SHARP, InterpFilter::BILINEAR, InterpFilter::SWITCHABLE];

fn gen_grain(s: &mut Src) -> Grain {
    let mut g = Grain::default();
    g.apply = s.bool();
    g.seed = s.biased(65535);
    g.update = s.bool();
    g.ref_idx = s.below(8);
    let pts = |s: &mut Src, max: usize| -> Vec<(u64, u64)> { let n = if s.one_in(3) { 0 } else { s.us(0, max) }; (0..n).map(|_| (s.below(256), s.below(256))).collect() };
    g.y = pts(s, 14);
    g.cfl = s.one_in(3);
    g.cb = pts(s, 10);
    g.cr = pts(s, 10);
    g.scaling = s.below(4) + 8;
    g.lag = s.below(4);
    let co = |s: &mut Src| -> Vec<i64> { let m = s.u64(); (0..25u32).map(|i| (m.rotate_left(i * 5) & 255) as i64 - 128).collect() };
    g.ar_y = co(s);
    g.ar_cb = co(s);
    g.ar_cr = co(s);
    g.ar_shift = s.below(4) + 6;
    g.scale_shift = s.below(4);
    g.cb_mult = (s.below(256), s.below(256), s.biased(511));
    g.cr_mult = (s.below(256), s.below(256), s.biased(511));
    g.overlap = s.bool();
    g.clip = s.bool();
    g
}

fn gm_value(s: &mut Src, kind: u64, idx: usize, hp: bool) -> i64 {
    let (ab, pb) = gm_bits(kind, idx, hp);
    let mx = 1i64 << ab;
    let v = if s.one_in(3) { s.range(-8, 8) } else { s.biased_range(-mx, mx) };
    (v << (16 - pb)) + if idx % 3 == 2 { 1 << 16 } else { 0 }
}

fn gm_any(s: &mut Src) -> [i64; 6] {
    let mut p = gm_default();
    if s.bool() { return p; }
    for i in 0..6 { p[i] = gm_value(s, 3, i, true); }
    p
}

pub fn gen_want(s: &mut Src, x: &av1::Seq) -> Want {
    let mut q = Want::default();
    q.temporal_id = s.below(8);
    q.spatial_id = s.below(4);
    q.show_existing = s.one_in(8);
    q.map_idx = s.below(8);
    if let Some(ref m) = x.dec_model {
        q.tu_delay = s.biased((1 << m.presentation_len) - 1);
        if s.bool() { q.removal = Some(s.biased((1 << m.removal_len) - 1)); }
    }
    if let Some((a, b)) = x.frame_id {
        q.display_id = s.biased((1 << (a + b)) - 1);
        q.frame_id = s.biased((1 << (a + b)) - 1);
        for i in 0..7 { q.delta_ids[i] = s.biased((1 << a) - 1) + 1; }
        for i in 0..8 { let r = if s.bool() { (q.frame_id as i64 + s.range(-2, 2) - if s.bool() { 1i64 << a } else { 0 }) as u64 } else { s.u64() }; q.ref_ids[i] = r & ((1 << (a + b)) - 1); }
    }
    for i in 0..8 { q.ref_types[i] = s.below(4); q.valid[i] = !s.one_in(4); }
    q.frame_type = s.pick(&[KEY, INTER, INTER, INTER, INTRA_ONLY, SWITCH]);
    q.show = s.below(3) > 0;
    q.showable = s.bool();
    q.err_res = s.one_in(3);
    q.no_cdf_update = s.one_in(3);
    q.screen = s.below(2);
    q.int_mv = s.below(2);
    q.size_override = s.bool();
    let hmax = (1u64 << x.order_hint_bits) - 1;
    q.order_hint = s.biased(hmax);
    let near = s.bool();
    for i in 0..8 { q.ref_hints[i] = if near { (q.order_hint as i64 + s.range(-4, 4)) as u64 & hmax } else { s.biased(hmax) }; }
    q.primary = if s.one_in(3) { NONE } else { s.below(8) };
    q.refresh = s.below(256);
    if q.frame_type == INTRA_ONLY && q.refresh == 255 { q.refresh = 254; }
    let intra = q.frame_type == KEY || q.frame_type == INTRA_ONLY;
    q.sent_hints = q.ref_hints;
    if intra && s.bool() { for i in 0..8 { q.sent_hints[i] = s.biased(hmax); } }
    let (mw, mh) = (x.width, x.height);
    let over = q.size_override || q.frame_type == SWITCH;
    if over {
        q.w = s.biased(mw - 1) + 1;
        q.h = s.biased(mh - 1) + 1;
    } else { q.w = mw; q.h = mh; }
    q.superres = if s.bool() { Some(s.range(9, 16) as u64) } else { None };
    let denom = if x.superres { q.superres.unwrap_or(8) } else { 8 };
    let down = (q.w * 8 + denom / 2) / denom;
    match s.below(4) {
        0 => { q.rw = q.w; q.rh = q.h; }
        1 => { q.rw = down; q.rh = q.h; }
        2 => { q.rw = q.w; q.rh = s.biased(65535) + 1; }
        _ => { q.rw = s.biased(65535) + 1; q.rh = s.biased(65535) + 1; }
    }
    q.intrabc = s.bool();
    for i in 0..7 { q.refs[i] = s.below(8); }
    q.short = s.one_in(4);
    if q.short && x.order_hint_bits > 0 {
        q.last_idx = s.below(8);
        q.gold_idx = s.below(8);
        // a decoder infers the references; the caller names the same ones
        q.refs = set_frame_refs(q.last_idx, q.gold_idx, q.order_hint, &q.ref_hints, x.order_hint_bits);
    }
    q.hp = s.bool();
    q.filter = s.below(5);
    q.motion_switchable = s.bool();
    q.ref_mvs = s.bool();
    q.no_end_update = s.bool();
    let l = tile_limits(down, q.h, x.sb128);
    q.cols_log2 = if s.bool() { l.min_cols } else { s.range(l.min_cols as i64, l.max_cols as i64) as u64 };
    let lo = l.min_tiles.saturating_sub(q.cols_log2);
    q.rows_log2 = if lo >= l.max_rows || s.bool() { lo } else { s.range(lo as i64, l.max_rows as i64) as u64 };
    // (asked for, but not carried, with a single tile)
    q.ctx_tile = if q.cols_log2 + q.rows_log2 == 0 { s.biased(63) } else { s.biased((1u64 << (q.cols_log2 + q.rows_log2)) - 1) };
    q.gm_also = s.below(256);
    q.stale = s.below(256);
    q.tile_size_bytes = s.below(4) + 1;
    q.base_q = if s.one_in(3) { 0 } else { s.biased(255) };
    if s.bool() { for i in 0..5 { q.dq[i] = if s.bool() { 0 } else { s.biased_range(-64, 63) }; } }
    q.diff_uv = s.bool();
    q.qm = if s.bool() { Some((s.below(16), s.below(16), s.below(16))) } else { None };
    q.seg = s.bool();
    q.seg_map = s.bool();
    q.seg_temporal = s.bool();
    q.seg_data = s.bool();
    let max = [255i64, 63, 63, 63, 63, 7, 0, 0];
    let dense = s.below(3);
    for i in 0..8 {
        for j in 0..8 {
            if match dense { 0 => false, 1 => s.one_in(10), _ => s.bool() } {
                q.features[i][j] = Some(if j < 5 { s.biased_range(-max[j] - q.seg_data as i64, max[j]) } else { s.below(max[j] as u64 + 1) as i64 });
            }
        }
    }
    if s.bool() { q.delta_q = Some(s.below(4)); }
    if s.bool() { q.delta_lf = Some((s.below(4), s.bool())); }
    for i in 0..4 { q.lf[i] = if s.one_in(3) { 0 } else { s.below(64) }; }
    q.sharp = s.below(8);
    q.lf_delta = s.bool();
    q.lf_update = s.bool();
    for i in 0..8 { if s.bool() { q.ref_deltas[i] = Some(s.biased_range(-64, 63)); } }
    for i in 0..2 { if s.bool() { q.mode_deltas[i] = Some(s.range(0, 63)); } }
    q.damping = s.below(4) + 3;
    let n = 1usize << s.below(4);
    for _ in 0..n { q.cdef.push((s.below(16), s.below(4), s.below(16), s.below(4))); }
    q.lr_type = s.below(4);
    q.lr_shift = if x.sb128 { s.range(1, 2) as u64 } else { s.below(3) };
    q.lr_uv_shift = s.below(2);
    q.tx_select = s.bool();
    q.ref_select = s.below(3) > 0;
    q.skip_mode = s.bool();
    q.warped = s.bool();
    q.reduced_tx = s.bool();
    // motion vector precision as a decoder will know it decides how translations are coded
    let screen = if x.screen == 2 { q.screen } else { x.screen };
    let int_mv = if screen > 0 { if x.int_mv == 2 { q.int_mv } else { x.int_mv } } else { 0 };
    let hp = if int_mv > 0 { false } else { q.hp };
    q.gm = [gm_default(); 8];
    q.prev_gm = [gm_default(); 8];
    let gm_on = s.bool();
    for f in 1..8 {
        q.prev_gm[f] = gm_any(s);
        if !gm_on || s.one_in(3) { continue; }
        let t = s.range(1, 3) as u64;
        q.gm_type[f] = t;
        let idxs: &[usize] = match t { 1 => &[0, 1], 2 => &[0, 1, 2, 3], _ => &[0, 1, 2, 3, 4, 5] };
        for i in idxs { q.gm[f][*i] = gm_value(s, t, *i, hp); }
        if t == 2 { q.gm[f][4] = -q.gm[f][3]; q.gm[f][5] = q.gm[f][2]; }
    }
    q.gm_stale = s.range(-9, 9) as isize * 4099;
    q.grain = gen_grain(s);
    let one = gen_grain(s);
    q.ref_grain = (0..8).map(|i| { let mut g = one.clone(); g.seed = i * 257; g.lag = i & 3; g.scaling = 8 + (i >> 1 & 3); g.cfl = i & 1 == 1; g }).collect();
    q
}

fn to_grain(g: &Grain) -> FilmGrainParams {
    let mut p = FilmGrainParams::new();
    p.apply_grain = g.apply;
    p.grain_seed = g.seed as u16;
    p.update_grain = g.update;
    p.film_grain_params_ref_idx = g.ref_idx as usize;
    p.num_y_points = g.y.len();
    p.point_y_value = g.y.iter().map(|p| p.0 as u8).collect();
    p.point_y_scaling = g.y.iter().map(|p| p.1 as u8).collect();
    p.chroma_scaling_from_luma = g.cfl;
    p.num_cb_points = g.cb.len();
    p.num_cr_points = g.cr.len();
    p.point_cb_value = g.cb.iter().map(|p| p.0 as u8).collect();
    p.point_cb_scaling = g.cb.iter().map(|p| p.1 as u8).collect();
    p.point_cr_value = g.cr.iter().map(|p| p.0 as u8).collect();
    p.point_cr_scaling = g.cr.iter().map(|p| p.1 as u8).collect();
    p.grain_scaling = g.scaling as usize;
    p.ar_coeff_lag = g.lag as usize;
    p.ar_coeffs_y = g.ar_y.iter().map(|v| *v as i16).collect();
    p.ar_coeffs_cb = g.ar_cb.iter().map(|v| *v as i16).collect();
    p.ar_coeffs_cr = g.ar_cr.iter().map(|v| *v as i16).collect();
    p.ar_coeff_shift = g.ar_shift as usize;
    p.grain_scale_shift = g.scale_shift as usize;
    p.cb_mult = g.cb_mult.0 as usize;
    p.cb_luma_mult = g.cb_mult.1 as usize;
    p.cb_offset = g.cb_mult.2 as usize;
    p.cr_mult = g.cr_mult.0 as usize;
    p.cr_luma_mult = g.cr_mult.1 as usize;
    p.cr_offset = g.cr_mult.2 as usize;
    p.overlap_flag = g.overlap;
    p.clip_to_restricted_range = g.clip;
    p
}

fn from_grain(p: &FilmGrainParams) -> Grain {
    let z = |a: &Vec<u8>, b: &Vec<u8>| a.iter().zip(b.iter()).map(|(a, b)| (*a as u64, *b as u64)).collect::<Vec<_>>();
    let c = |a: &Vec<i16>| a.iter().map(|v| *v as i64).collect::<Vec<_>>();
    Grain { apply: p.apply_grain, seed: p.grain_seed as u64, update: p.update_grain, ref_idx: p.film_grain_params_ref_idx as u64,
        y: z(&p.point_y_value, &p.point_y_scaling), cfl: p.chroma_scaling_from_luma, cb: z(&p.point_cb_value, &p.point_cb_scaling), cr: z(&p.point_cr_value, &p.point_cr_scaling),
        scaling: p.grain_scaling as u64, lag: p.ar_coeff_lag as u64, ar_y: c(&p.ar_coeffs_y), ar_cb: c(&p.ar_coeffs_cb), ar_cr: c(&p.ar_coeffs_cr), ar_shift: p.ar_coeff_shift as u64, scale_shift: p.grain_scale_shift as u64,
        cb_mult: (p.cb_mult as u64, p.cb_luma_mult as u64, p.cb_offset as u64), cr_mult: (p.cr_mult as u64, p.cr_luma_mult as u64, p.cr_offset as u64), overlap: p.overlap_flag, clip: p.clip_to_restricted_range }
}

/// The request in the encoder's own terms.
pub fn to_frame(q: &Want, x: &av1::Seq, e: &mut EncoderContext) -> Frame {
    e.temporal_id = q.temporal_id as usize;
    e.spatial_id = q.spatial_id as usize;
    e.show_existing_frame = q.show_existing;
    e.frame_to_show_map_idx = q.map_idx as u8;
    e.show_frame = q.show;
    e.showable_frame = q.showable;
    e.disable_cdf_update = q.no_cdf_update;
    // without frame ids: whatever a sequence with them left
    e.current_frame_id = if x.frame_id.is_some() { q.frame_id as usize } else { (q.base_q as usize * 3 + 1) & 0x1ff };
    e.frame_size_override_flag = q.size_override;
    e.refresh_frame_flags = q.refresh as u8;
    for i in 0..8 { e.ref_frame_type[i] = TYPES[q.ref_types[i] as usize]; e.ref_order_hint[i] = q.ref_hints[i] as usize; e.ref_valid[i] = q.valid[i]; }
    // elements that are not carried: whatever the caller left in them
    e.superres_denom = q.superres.unwrap_or(9 + (q.stale & 7)) as usize;
    e.disable_frame_end_update_cdf = q.no_end_update;
    e.context_update_tile_id = q.ctx_tile as usize;
    e.tile_size_bytes = q.tile_size_bytes as usize;
    e.delta_q_y_dc = q.dq[0] as isize;
    e.delta_q_u_dc = q.dq[1] as isize;
    e.delta_q_u_ac = q.dq[2] as isize;
    e.delta_q_v_dc = q.dq[3] as isize;
    e.delta_q_v_ac = q.dq[4] as isize;
    for i in 0..8 { for j in 0..6 { e.gm_params[i][j] = q.gm[i][j] as isize; e.prev_gm_params[i][j] = q.prev_gm[i][j] as isize; } }
    // parameters that are not coded: whatever earlier frames left
    for f in 1..8 { for j in 0..6 { let coded = match q.gm_type[f] { 0 => false, 1 => j < 2, 2 => j < 4, _ => true }; if !coded { e.gm_params[f][j] = q.gm_stale; } } }
    if x.film_grain {
        e.film_grain_params = Some(to_grain(&q.grain));
        for i in 0..8 { if q.ref_grain.len() == 8 { e.ref_film_grain_params[i] = to_grain(&q.ref_grain[i]); } }
    }
    for i in 0..8 { e.ref_frame_id[i] = q.ref_ids[i] as usize; }
    let mut f = Frame::new(TYPES[q.frame_type as usize], 8, 8);
    f.frame_width = q.w as usize;
    f.frame_height = q.h as usize;
    f.render_width = q.rw as usize;
    f.render_height = q.rh as usize;
    f.decoder_model_info = x.dec_model.as_ref().map(|m| DecoderModelInfo {
        bitrate_scale: m.bitrate_scale as u8, buffer_size_scale: m.buffer_scale as u8, encoder_decoder_buffer_delay_length: m.delay_len as u8,
        num_units_in_decoding_tick: m.decoding_tick as u32, buffer_removal_delay: q.removal.unwrap_or(0) as usize, buffer_removal_delay_length: m.removal_len as u8,
        buffer_removal_delay_present: q.removal.is_some(), frame_presentation_delay_length: m.presentation_len as u8,
    });
    f.temporal_point_info = Some(TemporalPointInfo { tu_presentation_delay: q.tu_delay as u32 });
    f.display_frame_id = Some(q.display_id as u32);
    f.error_resilient_mode = q.err_res;
    f.allow_screen_content_tools = q.screen as usize;
    f.force_integer_mv = q.int_mv as usize;
    f.allow_high_precision_mv = q.hp;
    f.use_ref_frame_mvs = q.ref_mvs;
    f.order_hint = q.order_hint as u8;
    f.primary_ref_frame = q.primary as u8;
    f.allow_intrabc = q.intrabc;
    for i in 0..8 { f.ref_order_hint[i] = q.sent_hints[i] as usize; }
    f.use_superres = q.superres.is_some();
    f.frame_refs_short_signaling = q.short;
    f.last_frame_idx = q.last_idx as u8;
    f.gold_frame_idx = q.gold_idx as u8;
    for i in 0..7 { f.ref_frame_idx[i] = q.refs[i] as u8; f.delta_frame_id[i] = q.delta_ids[i] as usize; }
    f.is_filter_switchable = q.filter == 4;
    f.interp_filter = FILTERS[if q.filter == 4 { (q.stale & 7).min(4) } else { q.filter } as usize];
    f.is_motion_mode_switchable = q.motion_switchable;
    f.tile_info.uniform_tile_spacing_flag = true;
    let denom = if x.superres { q.superres.unwrap_or(8) } else { 8 };
    let down = (q.w * 8 + denom / 2) / denom;
    let l = tile_limits(down, q.h, x.sb128);
    let mut cs = tile_starts(l.sb_cols, q.cols_log2, l.shift, 0);
    cs.pop();
    let mut rs = tile_starts(l.sb_rows, q.rows_log2, l.shift, 0);
    rs.pop();
    f.tile_col_starts = cs.into_iter().map(|v| v as usize).collect();
    f.tile_row_starts = rs.into_iter().map(|v| v as usize).collect();
    f.quantization_params.base_q_idx = q.base_q as u8;
    f.quantization_params.diff_uv_delta = q.diff_uv;
    f.quantization_params.using_qmatrix = q.qm.is_some();
    if let Some(m) = q.qm { f.quantization_params.qm_y = m.0 as u8; f.quantization_params.qm_u = m.1 as u8; f.quantization_params.qm_v = m.2 as u8; }
    f.segmentation_params.segmentation_enabled = q.seg;
    f.segmentation_params.segmentation_update_map = q.seg_map;
    f.segmentation_params.segmentation_temporal_update = q.seg_temporal;
    f.segmentation_params.segmentation_update_data = q.seg_data;
    for i in 0..8 { for j in 0..f.segmentation_params.feature_value[i].len() { f.segmentation_params.feature_value[i][j] = q.features[i][j].map(|v| v as isize); } }
    f.delta_q_params.delta_q_present = q.delta_q.is_some();
    f.delta_q_params.delta_q_res = q.delta_q.unwrap_or(q.stale >> 3 & 3) as u8;
    f.delta_lf_params.delta_lf_present = q.delta_lf.is_some();
    let (a, b) = q.delta_lf.unwrap_or((q.stale >> 5 & 3, q.stale >> 7 == 1));
    f.delta_lf_params.delta_lf_res = a as u8;
    f.delta_lf_params.delta_lf_multi = b;
    for i in 0..4 { f.loop_filter_params.loop_filter_level[i] = q.lf[i] as u8; }
    f.loop_filter_params.loop_filter_sharpness = q.sharp as u8;
    f.loop_filter_params.loop_filter_delta_enabled = q.lf_delta;
    f.loop_filter_params.loop_filter_delta_update = q.lf_update;
    for i in 0..8 { f.loop_filter_params.update_ref_delta[i] = q.ref_deltas[i].is_some(); f.loop_filter_params.loop_filter_ref_deltas[i] = q.ref_deltas[i].unwrap_or(0) as isize; }
    for i in 0..2 { f.loop_filter_params.update_mode_delta[i] = q.mode_deltas[i].is_some(); f.loop_filter_params.loop_filter_mode_deltas[i] = q.mode_deltas[i].unwrap_or(0) as u8; }
    f.cdef_params.cdef_damping = q.damping as u8;
    f.cdef_params.cdef_bits = tile_log2(1, q.cdef.len() as u64) as u8;
    f.cdef_params.cdef_y_pri_strength = q.cdef.iter().map(|c| c.0 as u8).collect();
    f.cdef_params.cdef_y_sec_strength = q.cdef.iter().map(|c| c.1 as u8).collect();
    f.cdef_params.cdef_uv_pri_strength = q.cdef.iter().map(|c| c.2 as u8).collect();
    f.cdef_params.cdef_uv_sec_strength = q.cdef.iter().map(|c| c.3 as u8).collect();
    f.lr_params.lr_type = q.lr_type as u8;
    f.lr_params.lr_unit_shift = q.lr_shift as usize;
    f.lr_params.lr_uv_shift = q.lr_uv_shift as usize;
    f.tx_mode_select = q.tx_select;
    f.reference_select = q.ref_select;
    f.skip_mode_present = q.skip_mode;
    f.allow_warped_motion = q.warped;
    f.reduced_tx_set = q.reduced_tx;
    for i in 0..8 {
        f.global_motion_params.is_global[i] = q.gm_type[i] != 0;
        // the flags a type does not carry may have any value
        let also = q.gm_also >> i & 1 == 1;
        f.global_motion_params.is_rot_zoom[i] = q.gm_type[i] == 2 || (q.gm_type[i] == 0 && also);
        f.global_motion_params.is_translation[i] = q.gm_type[i] == 1 || (q.gm_type[i] != 3 && also);
    }
    f
}

fn describe(q: &Want) -> String {
    format!("type {} {}x{} show {} err_res {} base_q {} seg {} gm {:?} tiles 2^{}x2^{} intrabc {} grain {}{}", q.frame_type, q.w, q.h, q.show, q.err_res, q.base_q, q.seg, &q.gm_type[1..], q.cols_log2, q.rows_log2, q.intrabc, q.grain.apply, if q.show_existing { " (show existing)" } else { "" })
}

/// A session: one sequence header, then frame headers coded by the same encoder; `look` sees each frame.
fn session<F: FnMut(&av1::Seq, &Want, &Frame, &EncoderContext, &[u8]) -> Res>(s: &mut Src, info: &mut Info, long: bool, mut look: F) -> Res {
    let (mut sh, e, mut x) = gen_seq(s);
    sh.frame_width = x.width as usize;
    sh.frame_height = x.height as usize;
    let mut w = BinaryWriter::file("/dev/null").unwrap();
    let mut c = BoolCoder::new();
    let ctx = Rc::new(RefCell::new(e));
    let mut enc = OBUEncoder::new(&ctx, &mut w, &mut c);
    enc.encode_obu_payload(&mut OBU::OBU_SEQUENCE_HEADER(sh), &mut vec![]);
    let n = if long { s.us(200, 600) } else if s.one_in(40) { s.us(3, 24) } else { s.us(1, 3) };
    let mut d = vec![];
    let mut pending = false; // a frame is open: only a temporal delimiter lets the next header be a new one
    for k in 0..n {
        if k > 0 && s.one_in(if long { 80 } else { 8 }) {
            // another sequence header: what follows is coded by its rules
            let (sh, e, y) = gen_seq(s);
            adopt(&mut ctx.borrow_mut(), e);
            enc.encode_obu_payload(&mut OBU::OBU_TEMPORAL_DELIMITER, &mut vec![]);
            enc.encode_obu_payload(&mut OBU::OBU_SEQUENCE_HEADER(sh), &mut vec![]);
            pending = false;
            x = y;
            info.label("changes the sequence header");
        }
        let q = gen_want(s, &x);
        if k > 0 {
            info.evals(1);
            if pending || s.bool() { enc.encode_obu_payload(&mut OBU::OBU_TEMPORAL_DELIMITER, &mut vec![]); }
        }
        if info.want_desc { d.push(describe(&q)); info.desc = trunc(&format!("{}x{}{}: {}", x.width, x.height, if x.mono { " mono" } else { "" }, d.join("; ")), 700); }
        pending = !q.show_existing;
        if q.show_existing { info.label("shows an existing frame"); } else {
            info.nontrivial(true);
            info.label(["key frame", "inter frame", "intra-only frame", "switch frame"][q.frame_type as usize]);
        }
        let f = to_frame(&q, &x, &mut ctx.borrow_mut());
        let mut o = OBU::OBU_FRAME_HEADER(f);
        let mut bits = vec![];
        enc.encode_obu_payload(&mut o, &mut bits);
        let f = match o { OBU::OBU_FRAME_HEADER(f) => f, _ => unreachable!() };
        look(&x, &q, &f, &ctx.borrow(), &bits).map_err(|m| format!("frame {}: {}", k, m))?;
    }
    Ok(())
}

fn header(s: &mut Src, info: &mut Info) -> Res { header_of(s, info, false) }
fn header_long(s: &mut Src, info: &mut Info) -> Res { header_of(s, info, true) }

fn header_of(s: &mut Src, info: &mut Info, long: bool) -> Res {
    session(s, info, long, |x, q, _, _, bits| {
        let mut r = BitR::new(bits);
        harness::av1fh::check(&mut r, x, q)?;
        check_eq!(r.left(), 0, "bits after the last field of the frame header");
        Ok(())
    })
}

fn state(s: &mut Src, info: &mut Info) -> Res { state_of(s, info, false) }
fn state_long(s: &mut Src, info: &mut Info) -> Res { state_of(s, info, true) }

fn state_of(s: &mut Src, info: &mut Info, long: bool) -> Res {
    session(s, info, long, |x, q, f, e, bits| {
        let d = harness::av1fh::check(&mut BitR::new(bits), x, q).map_err(|m| format!("a decoder is not told what was asked for: {}", m))?;
        check_eq!(e.refresh_frame_flags as u64, d.refresh, "refresh_frame_flags");
        if d.shown_existing { check_eq!(f.frame_type as u64, q.ref_types[q.map_idx as usize], "type of the frame shown"); check!(!e.seen_frame_header, "a frame header is still pending after an existing frame was shown"); return Ok(()); }
        check!(e.seen_frame_header, "no frame header is pending after a frame header");
        check_eq!(e.frame_is_intra, d.intra, "FrameIsIntra");
        check_eq!(e.showable_frame, !q.show && q.showable, "showable_frame");
        let shown_key = q.show && q.frame_type == KEY;
        for i in 0..8 { check_eq!(e.ref_order_hint[i] as u64, if shown_key { 0 } else { q.ref_hints[i] }, "order hint of slot {}", i); }
        if shown_key { check_eq!(e.order_hints[1..8], [0; 7], "order hints of the references of a shown key frame"); }
        check_eq!(e.current_frame_id as u64, if x.frame_id.is_some() { q.frame_id } else { 0 }, "current_frame_id");
        check_eq!(e.frame_size_override_flag, q.size_override || q.frame_type == SWITCH, "frame_size_override_flag");
        check_eq!((e.show_frame, e.disable_cdf_update), (q.show, q.no_cdf_update), "show_frame, disable_cdf_update");
        for i in 0..8 { check_eq!(e.ref_valid[i], d.ref_valid[i], "validity of slot {}", i); }
        check_eq!(f.error_resilient_mode, d.err_res, "error_resilient_mode");
        check_eq!(f.primary_ref_frame as u64, d.primary, "primary_ref_frame");
        check_eq!((f.allow_screen_content_tools as u64, f.force_integer_mv as u64), (d.screen, d.int_mv), "allow_screen_content_tools, force_integer_mv");
        check_eq!((e.upscaled_width as u64, f.frame_width as u64, f.frame_height as u64, e.superres_denom as u64), (d.upscaled, d.width, d.height, d.denom), "upscaled width, width, height, superres denominator");
        check_eq!((f.render_width as u64, f.render_height as u64), d.render, "render size");
        check_eq!((f.allow_intrabc, f.allow_high_precision_mv, f.use_ref_frame_mvs), (d.intrabc, d.hp, d.ref_mvs), "allow_intrabc, allow_high_precision_mv, use_ref_frame_mvs");
        if !d.intra { check!(f.interp_filter == FILTERS[q.filter as usize], "interpolation filter, expected number {}", q.filter); }
        if let Some(h) = d.hints { for i in 0..7 { check_eq!(e.order_hints[1 + i] as u64, h[i], "order hint of reference {}", 1 + i); } }
        if let Some(b) = d.bias { for i in 0..7 { check_eq!(e.ref_frame_sign_bias[1 + i] as u64, b[i] as u64, "sign bias of reference {}", 1 + i); } }
        if let Some(b) = d.expected_ids { for i in 0..7 { check_eq!(e.expected_frame_id[i] as u64, b[i], "expected frame id of reference {}", 1 + i); } }
        check_eq!(e.disable_frame_end_update_cdf, d.no_end_update, "disable_frame_end_update_cdf");
        let v = |a: &Vec<usize>| a.iter().map(|x| *x as u64).collect::<Vec<_>>();
        check_eq!(v(&e.mi_col_starts), d.col_starts, "tile column starts");
        check_eq!(v(&e.mi_row_starts), d.row_starts, "tile row starts");
        check_eq!(e.context_update_tile_id as u64, d.ctx_tile, "context_update_tile_id");
        check_eq!([e.delta_q_y_dc as i64, e.delta_q_u_dc as i64, e.delta_q_u_ac as i64, e.delta_q_v_dc as i64, e.delta_q_v_ac as i64], d.dq, "quantizer deltas");
        for i in 0..8 { for j in 0..8 { check_eq!(f.segmentation_params.feature_value[i].get(j).and_then(|v| v.map(|v| v as i64)), d.features[i][j], "feature {} of segment {}", j, i); } }
        if q.seg {
            check_eq!(f.segmentation_params.segmentation_update_map, d.seg_map, "segmentation_update_map");
            if d.primary == NONE { check_eq!((f.segmentation_params.segmentation_temporal_update, f.segmentation_params.segmentation_update_data), (false, true), "segmentation temporal update, update data without a primary reference"); }
        }
        check_eq!((e.seg_id_pre_skip, e.last_active_seg_id as u64), (d.seg_pre_skip, d.last_seg), "SegIdPreSkip, LastActiveSegId");
        check_eq!((f.delta_q_params.delta_q_present, f.delta_q_params.delta_q_res as u64), (d.delta_q.is_some(), d.delta_q.unwrap_or(0)), "delta_q_present, delta_q_res");
        check_eq!((f.delta_lf_params.delta_lf_present, f.delta_lf_params.delta_lf_res as u64, f.delta_lf_params.delta_lf_multi), (d.delta_lf.is_some(), d.delta_lf.map(|l| l.0).unwrap_or(0), d.delta_lf.map(|l| l.1).unwrap_or(false)), "delta_lf_present, delta_lf_res, delta_lf_multi");
        check_eq!(e.lossless_array, d.lossless, "LosslessArray");
        check_eq!((e.coded_lossless, e.all_lossless), (d.coded_lossless, d.all_lossless), "CodedLossless, AllLossless");
        if let Some(m) = d.qm_levels { for p in 0..3 { for i in 0..8 { check_eq!(e.seg_q_m_level[p][i] as u64, m[p][i], "quantizer matrix level of plane {} and segment {}", p, i); } } }
        check_eq!((f.frame_type as u64, f.order_hint as u64, f.quantization_params.base_q_idx as u64, f.quantization_params.using_qmatrix, f.segmentation_params.segmentation_enabled), (q.frame_type, q.order_hint, q.base_q, q.qm.is_some(), q.seg), "frame_type, order_hint, base_q_idx, using_qmatrix, segmentation_enabled");
        check_eq!((f.tx_mode_select, f.reduced_tx_set), (q.tx_select, q.reduced_tx), "tx_mode_select, reduced_tx_set");
        if !d.lf_zero {
            let n = if !x.mono && (q.lf[0] > 0 || q.lf[1] > 0) { 4 } else { 2 };
            for i in 0..n { check_eq!(f.loop_filter_params.loop_filter_level[i] as u64, q.lf[i], "loop filter level {}", i); }
            check_eq!((f.loop_filter_params.loop_filter_sharpness as u64, f.loop_filter_params.loop_filter_delta_enabled), (q.sharp, q.lf_delta), "loop filter sharpness, delta_enabled");
        } else {
            check_eq!((f.loop_filter_params.loop_filter_level[0], f.loop_filter_params.loop_filter_level[1]), (0, 0), "loop filter levels when lossless or with intra block copy");
            check_eq!(f.loop_filter_params.loop_filter_ref_deltas, [1, 0, 0, 0, -1, 0, -1, -1], "loop filter reference deltas when lossless or with intra block copy");
            check_eq!(f.loop_filter_params.loop_filter_mode_deltas, [0, 0], "loop filter mode deltas when lossless or with intra block copy");
        }
        if d.cdef_off {
            check_eq!(f.cdef_params.cdef_bits, 0, "cdef_bits without CDEF");
            let z = |v: &Vec<u8>| v.first().cloned();
            check_eq!([z(&f.cdef_params.cdef_y_pri_strength), z(&f.cdef_params.cdef_y_sec_strength), z(&f.cdef_params.cdef_uv_pri_strength), z(&f.cdef_params.cdef_uv_sec_strength)], [Some(0); 4], "CDEF strengths without CDEF");
            check_eq!(f.cdef_params.cdef_damping, 3, "CDEF damping without CDEF");
        } else {
            for (i, c) in q.cdef.iter().enumerate() {
                let up = |v: u64| if v == 3 { 4 } else { v };
                check_eq!((f.cdef_params.cdef_y_pri_strength[i] as u64, f.cdef_params.cdef_y_sec_strength[i] as u64), (c.0, up(c.1)), "luma CDEF strengths {}", i);
                if !x.mono { check_eq!((f.cdef_params.cdef_uv_pri_strength[i] as u64, f.cdef_params.cdef_uv_sec_strength[i] as u64), (c.2, up(c.3)), "chroma CDEF strengths {}", i); }
            }
        }
        for p in 0..d.lr.len() { check_eq!(e.frame_restoration_type[p] as u64, d.lr[p], "restoration type of plane {}", p); }
        check_eq!(e.uses_lr, d.lr_sizes.is_some(), "UsesLr");
        if let Some((y, c)) = d.lr_sizes {
            check_eq!(e.loop_restoration_size[0] as u64, y, "restoration unit size of luma");
            if d.lr.len() > 1 { check_eq!((e.loop_restoration_size[1] as u64, e.loop_restoration_size[2] as u64), (c, c), "restoration unit size of chroma"); }
            check_eq!(e.uses_chroma_lr, d.uses_chroma_lr, "usesChromaLr");
        }
        check_eq!(e.tx_mode as u64, d.tx_mode, "TxMode");
        check_eq!((f.reference_select, f.skip_mode_present, f.allow_warped_motion), (d.ref_select, d.skip_mode, d.warped), "reference_select, skip_mode_present, allow_warped_motion");
        check_eq!(e.skip_mode_allowed, d.skip_frames.is_some(), "skipModeAllowed");
        if let Some((a, b)) = d.skip_frames { check_eq!((e.skip_mode_frame[0] as u64, e.skip_mode_frame[1] as u64), (a, b), "SkipModeFrame"); }
        if x.film_grain {
            let g = match e.film_grain_params { Some(ref g) => g, None => return Err("the film grain parameters are gone".to_string()) };
            let a = from_grain(g);
            if !(q.show || q.showable) || !q.grain.apply { check_eq!(a.apply, false, "apply_grain of a frame without grain"); }
            else if q.frame_type == INTER && !q.grain.update {
                let mut b = q.ref_grain[q.grain.ref_idx as usize].clone();
                b.seed = q.grain.seed;
                let mut a = a;
                a.apply = b.apply;
                a.update = b.update;
                check_eq!(a, b, "film grain taken over from slot {}", q.grain.ref_idx);
            } else {
                check_eq!((a.apply, a.seed), (true, q.grain.seed), "apply_grain and grain_seed");
                let cfl = !x.mono && q.grain.cfl;
                let no_chroma = x.mono || cfl || (x.sub_x && x.sub_y && q.grain.y.is_empty());
                check_eq!((g.num_y_points, g.num_cb_points, g.num_cr_points, g.chroma_scaling_from_luma), (q.grain.y.len(), if no_chroma { 0 } else { q.grain.cb.len() }, if no_chroma { 0 } else { q.grain.cr.len() }, cfl), "film grain points of the planes, chroma_scaling_from_luma");
                let mut b = q.grain.clone();
                let mut a = a;
                b.update = a.update; b.ref_idx = a.ref_idx; b.cfl = cfl;
                if no_chroma { for g in [&mut a, &mut b].iter_mut() { g.cb.clear(); g.cr.clear(); } }
                check_eq!(a, b, "film grain parameters");
            }
        } else { check!(e.film_grain_params.is_none(), "film grain parameters appeared in a sequence without film grain"); }
        for i in 1..8 {
            check_eq!(e.gm_type[i] as u64, d.gm_type[i], "global motion type of reference {}", i);
            for j in 0..6 { check_eq!(e.gm_params[i][j] as i64, d.gm[i][j], "gm_params[{}][{}]", i, j); }
        }
        Ok(())
    })
}

/// A frame with the constructor's defaults needs nothing but uniform tiles to be coded.
fn defaults(k: u64, info: &mut Info) -> Res {
    let (w, h) = match k / 4096 {
        0 => (1 + (k % 64) as usize * 3, 1 + (k / 64) as usize * 5),
        1 => (1 + (k % 4096) as usize, 40), // as wide as one tile can be
        _ => (40, 1 + (k % 4096) as usize * 2),
    };
    info.nontrivial(true);
    info.desc(|| format!("default key frame of {}x{}", w, h));
    let mut wr = BinaryWriter::file("/dev/null").unwrap();
    let mut c = BoolCoder::new();
    let ctx = Rc::new(RefCell::new(EncoderContext::new()));
    let mut enc = OBUEncoder::new(&ctx, &mut wr, &mut c);
    let mut sb = vec![];
    enc.encode_obu_payload(&mut OBU::OBU_SEQUENCE_HEADER(av1enc::verif::sequence_header::SequenceHeader::new(w, h)), &mut sb);
    let x = av1::seq(&mut BitR::new(&sb))?;
    let mut f = Frame::new(FrameType::KEY_FRAME, w, h);
    f.tile_info.uniform_tile_spacing_flag = true;
    let mut o = OBU::OBU_FRAME_HEADER(f);
    let mut bits = vec![];
    enc.encode_obu_payload(&mut o, &mut bits);
    let mut q = Want::default();
    q.show = true;
    q.w = w as u64;
    q.h = h as u64;
    q.rw = q.w;
    q.rh = q.h;
    q.filter = 4;
    q.tx_select = true;
    q.gm = [gm_default(); 8];
    let mut r = BitR::new(&bits);
    harness::av1fh::check(&mut r, &x, &q)?;
    check_eq!(r.left(), 0, "bits after the last field of the frame header");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let a = vec!["uniform tile spacing (other spacings are not implemented in the encoder)", "the caller keeps the context's frame id lengths and the frame's decoder model in step with the sequence header", "a frame size that differs from the sequence's is announced as such; with found_ref it is that of the first reference", "loop filter mode deltas 0..63, CDEF strengths as coded (0..3 for the secondary ones)"];
    vec![
        Prop {
            id: "C17", level: "exploration",
            rule: "A case is a session of a generated sequence header and 1 to 3 (sometimes up to 24, in long sessions 200 to 600) frame headers of all types, with the sequence header changed now and then, with every parameter drawn from its whole range; a reader written from the AV1 draft walks each header and compares every coded element with the value asked for. 'defaults' enumerates sizes for a frame as constructed. Non-trivial: at least one header that is not a mere show-existing.",
            assumptions: a.clone(),
            subs: vec![
                Sub::random("session", 600_000, 8_000_000, header),
                Sub::random("long session", 48, 2_000, header_long),
                Sub::exhaustive("defaults", 3 * 4096, 3 * 4096, defaults),
            ],
        },
        Prop {
            id: "C18", level: "exploration",
            rule: "The same sessions; after each header the values the encoder keeps for the coding of tiles are compared with what a decoder derives from the header. Non-trivial: at least one header that is not a mere show-existing.",
            assumptions: a,
            subs: vec![Sub::random("session", 600_000, 8_000_000, state), Sub::random("long session", 48, 2_000, state_long)],
        },
    ]
}
