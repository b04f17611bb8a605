//! A checking reader of AV1 frame headers: it walks uncompressed_header() as the AV1 draft defines
//! it, deciding every condition from what it has read itself, and compares each coded element with
//! the value the caller asked for. It returns what a decoder derives from the header.
use crate::av1::Seq;
use crate::bits::*;

pub const KEY: u64 = 0;
pub const INTER: u64 = 1;
pub const INTRA_ONLY: u64 = 2;
pub const SWITCH: u64 = 3;
pub const NONE: u64 = 7;

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Grain {
    pub apply: bool,
    pub seed: u64,
    pub update: bool,
    pub ref_idx: u64,
    pub y: Vec<(u64, u64)>,
    pub cfl: bool,
    pub cb: Vec<(u64, u64)>,
    pub cr: Vec<(u64, u64)>,
    pub scaling: u64, // 8..11
    pub lag: u64,
    pub ar_y: Vec<i64>,
    pub ar_cb: Vec<i64>,
    pub ar_cr: Vec<i64>,
    pub ar_shift: u64, // 6..9
    pub scale_shift: u64,
    pub cb_mult: (u64, u64, u64),
    pub cr_mult: (u64, u64, u64),
    pub overlap: bool,
    pub clip: bool,
}

/// What the caller asks for.
#[derive(Debug, Clone, Default)]
pub struct Want {
    pub temporal_id: u64,
    pub spatial_id: u64,
    pub show_existing: bool,
    pub map_idx: u64,
    pub tu_delay: u64,
    pub display_id: u64,
    pub frame_type: u64,
    pub show: bool,
    pub showable: bool,
    pub err_res: bool,
    pub no_cdf_update: bool,
    pub screen: u64,
    pub int_mv: u64,
    pub frame_id: u64,
    pub size_override: bool,
    pub order_hint: u64,
    pub primary: u64,
    pub removal: Option<u64>,
    pub refresh: u64,
    pub sent_hints: [u64; 8],
    pub w: u64,
    pub h: u64,
    pub superres: Option<u64>, // denominator
    pub rw: u64,
    pub rh: u64,
    pub intrabc: bool,
    pub short: bool,
    pub last_idx: u64,
    pub gold_idx: u64,
    pub refs: [u64; 7],
    pub delta_ids: [u64; 7],
    pub hp: bool,
    pub filter: u64, // 4: switchable
    pub motion_switchable: bool,
    pub ref_mvs: bool,
    pub no_end_update: bool,
    pub cols_log2: u64,
    pub rows_log2: u64,
    pub ctx_tile: u64,
    pub stale: u64, // left in elements that are not carried
    pub gm_also: u64, // per reference: the flags its motion type does not carry
    pub tile_size_bytes: u64,
    pub base_q: u64,
    pub dq: [i64; 5], // y dc, u dc, u ac, v dc, v ac
    pub diff_uv: bool,
    pub qm: Option<(u64, u64, u64)>,
    pub seg: bool,
    pub seg_map: bool,
    pub seg_temporal: bool,
    pub seg_data: bool,
    pub features: [[Option<i64>; 8]; 8],
    pub delta_q: Option<u64>,
    pub delta_lf: Option<(u64, bool)>,
    pub lf: [u64; 4],
    pub sharp: u64,
    pub lf_delta: bool,
    pub lf_update: bool,
    pub ref_deltas: [Option<i64>; 8],
    pub mode_deltas: [Option<i64>; 2],
    pub damping: u64,
    pub cdef: Vec<(u64, u64, u64, u64)>, // length 1, 2, 4 or 8
    pub lr_type: u64,
    pub lr_shift: u64, // 0..2
    pub lr_uv_shift: u64,
    pub tx_select: bool,
    pub ref_select: bool,
    pub skip_mode: bool,
    pub warped: bool,
    pub reduced_tx: bool,
    pub gm_type: [u64; 8],
    pub gm: [[i64; 6]; 8],
    pub prev_gm: [[i64; 6]; 8],
    /// what the parameters that are not coded were before
    pub gm_stale: isize,
    pub grain: Grain,
    /// decoder state
    pub ref_hints: [u64; 8],
    pub ref_types: [u64; 8],
    pub ref_ids: [u64; 8],
    pub valid: [bool; 8],
    pub ref_grain: Vec<Grain>,
}

/// What a decoder knows after the header, as far as tile decoding needs it.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Derived {
    pub shown_existing: bool,
    pub refresh: u64,
    pub intra: bool,
    pub err_res: bool,
    pub primary: u64,
    pub screen: u64,
    pub int_mv: u64,
    pub upscaled: u64,
    pub width: u64,
    pub height: u64,
    pub denom: u64,
    pub render: (u64, u64),
    pub intrabc: bool,
    pub hp: bool,
    pub ref_mvs: bool,
    pub hints: Option<[u64; 7]>, // of LAST..ALTREF
    pub bias: Option<[bool; 7]>,
    pub expected_ids: Option<[u64; 7]>,
    pub no_end_update: bool,
    pub col_starts: Vec<u64>,
    pub row_starts: Vec<u64>,
    pub ctx_tile: u64,
    pub dq: [i64; 5],
    pub features: [[Option<i64>; 8]; 8],
    pub seg: bool,
    pub seg_map: bool,
    pub seg_pre_skip: bool,
    pub last_seg: u64,
    pub delta_q: Option<u64>,
    pub delta_lf: Option<(u64, bool)>,
    pub lossless: [bool; 8],
    pub coded_lossless: bool,
    pub all_lossless: bool,
    pub qm_levels: Option<[[u64; 8]; 3]>,
    pub lf_zero: bool,
    pub cdef_off: bool,
    pub lr: Vec<u64>, // restoration type of each plane: 0 none, 1 wiener, 2 sgrproj, 3 switchable
    pub lr_sizes: Option<(u64, u64)>, // luma, chroma
    pub uses_chroma_lr: bool,
    pub tx_mode: u64, // 0 only 4x4, 1 largest, 2 select
    pub ref_select: bool,
    pub skip_frames: Option<(u64, u64)>,
    pub skip_mode: bool,
    pub warped: bool,
    pub gm_type: [u64; 8],
    pub gm: [[i64; 6]; 8],
    pub ref_valid: [bool; 8],
}

pub fn tile_log2(blk: u64, target: u64) -> u64 { let mut k = 0; while (blk << k) < target { k += 1; } k }

pub struct TileLimits { pub sb_cols: u64, pub sb_rows: u64, pub shift: u64, pub min_cols: u64, pub max_cols: u64, pub max_rows: u64, pub min_tiles: u64 }

pub fn tile_limits(width: u64, height: u64, sb128: bool) -> TileLimits {
    let (mi_cols, mi_rows) = (2 * ((width + 7) >> 3), 2 * ((height + 7) >> 3));
    let shift = if sb128 { 5 } else { 4 };
    let sb_cols = (mi_cols + (1 << shift) - 1) >> shift;
    let sb_rows = (mi_rows + (1 << shift) - 1) >> shift;
    let size = shift + 2;
    let max_w = 4096u64 >> size;
    let max_a = (4096u64 * 2304) >> (2 * size);
    let min_cols = tile_log2(max_w, sb_cols);
    TileLimits { sb_cols, sb_rows, shift, min_cols, max_cols: tile_log2(1, sb_cols.min(64)), max_rows: tile_log2(1, sb_rows.min(64)), min_tiles: min_cols.max(tile_log2(max_a, sb_rows * sb_cols)) }
}

/// Starts of uniformly spaced tiles in 4x4 units, closed by the size of the frame.
pub fn tile_starts(sbs: u64, log2: u64, shift: u64, mis: u64) -> Vec<u64> {
    let step = (sbs + (1 << log2) - 1) >> log2;
    let mut v = vec![];
    let mut s = 0;
    while s < sbs { v.push(s << shift); s += step; }
    v.push(mis);
    v
}

pub fn dist(a: u64, b: u64, bits: u64) -> i64 {
    if bits == 0 { return 0; }
    let m = 1i64 << (bits - 1);
    let d = a as i64 - b as i64;
    (d & (m - 1)) - (d & m)
}

/// set_frame_refs(): the reference frames a decoder infers from short signaling.
pub fn set_frame_refs(last: u64, gold: u64, order: u64, hints: &[u64; 8], bits: u64) -> [u64; 7] {
    let mut r = [-1i64; 7];
    r[0] = last as i64;
    r[3] = gold as i64;
    let mut used = [false; 8];
    used[last as usize] = true;
    used[gold as usize] = true;
    let cur = 1i64 << (bits - 1);
    let sh: Vec<i64> = (0..8).map(|i| cur + dist(hints[i], order, bits)).collect();
    let latest_backward = |used: &[bool; 8]| { let mut x = -1i64; let mut b = 0; for i in 0..8 { if !used[i] && sh[i] >= cur && (x < 0 || sh[i] >= b) { x = i as i64; b = sh[i]; } } x };
    let earliest_backward = |used: &[bool; 8]| { let mut x = -1i64; let mut b = 0; for i in 0..8 { if !used[i] && sh[i] >= cur && (x < 0 || sh[i] < b) { x = i as i64; b = sh[i]; } } x };
    let latest_forward = |used: &[bool; 8]| { let mut x = -1i64; let mut b = 0; for i in 0..8 { if !used[i] && sh[i] < cur && (x < 0 || sh[i] >= b) { x = i as i64; b = sh[i]; } } x };
    let k = latest_backward(&used);
    if k >= 0 { r[6] = k; used[k as usize] = true; }
    let k = earliest_backward(&used);
    if k >= 0 { r[4] = k; used[k as usize] = true; }
    let k = earliest_backward(&used);
    if k >= 0 { r[5] = k; used[k as usize] = true; }
    for i in [1usize, 2, 4, 5, 6].iter() {
        if r[*i] < 0 { let k = latest_forward(&used); if k >= 0 { r[*i] = k; used[k as usize] = true; } }
    }
    let mut first = -1i64;
    let mut b = 0;
    for i in 0..8 { if first < 0 || sh[i] < b { first = i as i64; b = sh[i]; } }
    let mut out = [0u64; 7];
    for i in 0..7 { out[i] = if r[i] < 0 { first as u64 } else { r[i] as u64 }; }
    out
}

type R<T> = Result<T, String>;

struct Rd<'a, 'b> { r: &'a mut BitR<'b> }
impl<'a, 'b> Rd<'a, 'b> {
    fn f(&mut self, what: &str, n: u64, want: u64) -> R<u64> {
        let at = self.r.pos;
        let v = self.r.f(n as usize).map_err(|e| format!("{}: {}", what, e))?;
        if v != want { return Err(format!("{} (bit {}) reads {}, asked for {}", what, at, v, want)); }
        Ok(v)
    }
    fn b(&mut self, what: &str, want: bool) -> R<bool> { Ok(self.f(what, 1, want as u64)? == 1) }
    fn su(&mut self, what: &str, n: u64, want: i64) -> R<i64> {
        let at = self.r.pos;
        let v = self.r.su(n as usize).map_err(|e| format!("{}: {}", what, e))?;
        if v != want { return Err(format!("{} (bit {}) reads {}, asked for {}", what, at, v, want)); }
        Ok(v)
    }
    fn delta_q(&mut self, what: &str, want: i64) -> R<i64> {
        if self.b(what, want != 0)? { self.su(what, 7, want) } else { Ok(0) }
    }
}

fn inverse_recenter(r: i64, v: i64) -> i64 { if v > 2 * r { v } else if v & 1 == 1 { r - ((v + 1) >> 1) } else { r + (v >> 1) } }

fn subexp(r: &mut BitR, n: i64) -> R<i64> {
    let (mut i, mut mk, k) = (0, 0i64, 3);
    loop {
        let b2 = if i > 0 { k + i - 1 } else { k };
        let a = 1i64 << b2;
        if n <= mk + 3 * a { return Ok(r.ns((n - mk) as u64)? as i64 + mk); }
        if r.flag()? { i += 1; mk += a; } else { return Ok(r.f(b2 as usize)? as i64 + mk); }
    }
}

fn signed_subexp(r: &mut BitR, low: i64, high: i64, rf: i64) -> R<i64> {
    let (mx, rr) = (high - low, rf - low);
    let v = subexp(r, mx)?;
    let x = if (rr << 1) <= mx { inverse_recenter(rr, v) } else { mx - 1 - inverse_recenter(mx - 1 - rr, v) };
    Ok(x + low)
}

pub fn gm_default() -> [i64; 6] { [0, 0, 1 << 16, 0, 0, 1 << 16] }

/// (bits of magnitude, bits of precision) of a global motion parameter
pub fn gm_bits(kind: u64, idx: usize, hp: bool) -> (u64, u64) {
    if idx < 2 {
        if kind == 1 { (9 - !hp as u64, 3 - !hp as u64) } else { (12, 6) }
    } else { (12, 15) }
}

fn size(rd: &mut Rd, s: &Seq, q: &Want, over: bool, d: &mut Derived) -> R<()> {
    let (w, h) = if over { (rd.f("frame_width_minus_1", s.width_bits, q.w - 1)? + 1, rd.f("frame_height_minus_1", s.height_bits, q.h - 1)? + 1) } else { (s.width, s.height) };
    d.height = h;
    superres(rd, s, q, w, d)
}

fn superres(rd: &mut Rd, s: &Seq, q: &Want, w: u64, d: &mut Derived) -> R<()> {
    let us = if s.superres { rd.b("use_superres", q.superres.is_some())? } else { false };
    d.denom = if us { rd.f("coded_denom", 3, q.superres.unwrap() - 9)? + 9 } else { 8 };
    d.upscaled = w;
    d.width = (w * 8 + d.denom / 2) / d.denom;
    Ok(())
}

/// Either way of announcing the render size is legal; what counts is the size a decoder ends up with.
fn render(rd: &mut Rd, q: &Want, d: &mut Derived) -> R<()> {
    d.render = if rd.r.flag()? { (rd.r.f(16)? + 1, rd.r.f(16)? + 1) } else { (d.upscaled, d.height) };
    if d.render != (q.rw, q.rh) { return Err(format!("render size reads {:?}, asked for {:?}", d.render, (q.rw, q.rh))); }
    Ok(())
}

fn temporal_point(rd: &mut Rd, s: &Seq, q: &Want) -> R<()> {
    if let Some(ref m) = s.dec_model {
        if !s.timing.as_ref().map(|t| t.equal).unwrap_or(false) { rd.f("tu_presentation_delay", m.presentation_len, q.tu_delay)?; }
    }
    Ok(())
}

pub fn check(r: &mut BitR, s: &Seq, q: &Want) -> R<Derived> {
    let mut rd = Rd { r };
    let mut d = Derived::default();
    let id_len = s.frame_id.map(|(a, b)| a + b);
    if rd.b("show_existing_frame", q.show_existing)? {
        rd.f("frame_to_show_map_idx", 3, q.map_idx)?;
        temporal_point(&mut rd, s, q)?;
        if let Some(n) = id_len { rd.f("display_frame_id", n, q.display_id)?; }
        d.shown_existing = true;
        d.refresh = if q.ref_types[q.map_idx as usize] == KEY { 255 } else { 0 };
        return Ok(d);
    }
    let ft = rd.f("frame_type", 2, q.frame_type)?;
    let intra = ft == KEY || ft == INTRA_ONLY;
    d.intra = intra;
    let show = rd.b("show_frame", q.show)?;
    if show { temporal_point(&mut rd, s, q)?; }
    let showable = if show { false } else { rd.b("showable_frame", q.showable)? };
    let err = if ft == SWITCH || (ft == KEY && show) { true } else { rd.b("error_resilient_mode", q.err_res)? };
    d.err_res = err;
    let mut hints = q.ref_hints;
    d.ref_valid = q.valid;
    if ft == KEY && show { hints = [0; 8]; d.ref_valid = [false; 8]; }
    let ncu = rd.b("disable_cdf_update", q.no_cdf_update)?;
    let screen = if s.screen == 2 { rd.f("allow_screen_content_tools", 1, q.screen)? } else { s.screen };
    d.screen = screen;
    let mut int_mv = if screen > 0 { if s.int_mv == 2 { rd.f("force_integer_mv", 1, q.int_mv)? } else { s.int_mv } } else { 0 };
    if intra { int_mv = 1; }
    d.int_mv = int_mv;
    if let Some(n) = id_len {
        let id = rd.f("current_frame_id", n, q.frame_id)?;
        let diff = 1u64 << s.frame_id.unwrap().0;
        for i in 0..8 {
            let r = q.ref_ids[i];
            if id > diff { if r > id || r < id - diff { d.ref_valid[i] = false; } }
            else if r > id && r < (1 << n) + id - diff { d.ref_valid[i] = false; }
        }
    }
    let over = if ft == SWITCH { true } else { rd.b("frame_size_override_flag", q.size_override)? };
    let hint = rd.f("order_hint", s.order_hint_bits, q.order_hint)?;
    let primary = if intra || err { NONE } else { rd.f("primary_ref_frame", 3, q.primary)? };
    d.primary = primary;
    if let Some(ref m) = s.dec_model {
        if rd.b("buffer_removal_delay_present_flag", q.removal.is_some())? {
            for o in s.op_models.iter() {
                let t = (o.idc >> q.temporal_id) & 1;
                let p = (o.idc >> (q.spatial_id + 8)) & 1;
                if o.idc == 0 || (t == 1 && p == 1) { rd.f("buffer_removal_delay", m.removal_len, q.removal.unwrap())?; }
            }
        }
    }
    let refresh = if ft == SWITCH || (ft == KEY && show) { 255 } else { rd.f("refresh_frame_flags", 8, q.refresh)? };
    d.refresh = refresh;
    if (!intra || refresh != 255) && err && s.order_hint_bits > 0 {
        for i in 0..8 { if rd.f("ref_order_hint", s.order_hint_bits, q.sent_hints[i])? != hints[i] { d.ref_valid[i] = false; } }
    }
    let mut refs = [0u64; 7];
    if intra {
        size(&mut rd, s, q, over, &mut d)?;
        render(&mut rd, q, &mut d)?;
        if screen > 0 && d.upscaled == d.width { d.intrabc = rd.b("allow_intrabc", q.intrabc)?; }
    } else {
        let short = if s.order_hint_bits > 0 { rd.b("frame_refs_short_signaling", q.short)? } else { false };
        if short {
            let l = rd.f("last_frame_idx", 3, q.last_idx)?;
            let g = rd.f("gold_frame_idx", 3, q.gold_idx)?;
            refs = set_frame_refs(l, g, hint, &hints, s.order_hint_bits);
        }
        let mut exp = [0u64; 7];
        for i in 0..7 {
            if !short { refs[i] = rd.f("ref_frame_idx", 3, q.refs[i])?; }
            if let Some((dl, _)) = s.frame_id {
                let n = id_len.unwrap();
                let delta = rd.f("delta_frame_id_minus_1", dl, q.delta_ids[i] - 1)? + 1;
                exp[i] = (q.frame_id + (1 << n) - delta) % (1 << n);
            }
        }
        if s.frame_id.is_some() { d.expected_ids = Some(exp); }
        if over && !err {
            // this encoder only ever takes the size of the first reference, which is the size asked for
            rd.b("found_ref", true)?;
            d.height = q.h;
            d.render = (q.rw, q.rh);
            superres(&mut rd, s, q, q.w, &mut d)?;
        } else {
            size(&mut rd, s, q, over, &mut d)?;
            render(&mut rd, q, &mut d)?;
        }
        d.hp = if int_mv > 0 { false } else { rd.b("allow_high_precision_mv", q.hp)? };
        if !rd.b("is_filter_switchable", q.filter == 4)? { rd.f("interpolation_filter", 2, q.filter)?; }
        rd.b("is_motion_mode_switchable", q.motion_switchable)?;
        d.ref_mvs = if err || !s.ref_mvs { false } else { rd.b("use_ref_frame_mvs", q.ref_mvs)? };
        let mut hs = [0u64; 7];
        let mut bias = [false; 7];
        for i in 0..7 { hs[i] = hints[refs[i] as usize]; bias[i] = dist(hs[i], hint, s.order_hint_bits) > 0; }
        d.hints = Some(hs);
        d.bias = Some(bias);
    }
    d.no_end_update = if ncu { true } else { rd.b("disable_frame_end_update_cdf", q.no_end_update)? };
    // tile info
    let l = tile_limits(d.width, d.height, s.sb128);
    if !rd.b("uniform_tile_spacing_flag", true)? { return Err("not uniform".to_string()); }
    let mut cl = l.min_cols;
    while cl < l.max_cols { if rd.b("increment_tile_cols_log2", cl < q.cols_log2)? { cl += 1; } else { break; } }
    d.col_starts = tile_starts(l.sb_cols, cl, l.shift, 2 * ((d.width + 7) >> 3));
    let mut rl = l.min_tiles.saturating_sub(cl);
    while rl < l.max_rows { if rd.b("increment_tile_rows_log2", rl < q.rows_log2)? { rl += 1; } else { break; } }
    d.row_starts = tile_starts(l.sb_rows, rl, l.shift, 2 * ((d.height + 7) >> 3));
    if cl > 0 || rl > 0 {
        d.ctx_tile = rd.f("context_update_tile_id", cl + rl, q.ctx_tile)?;
        rd.f("tile_size_bytes_minus_1", 2, q.tile_size_bytes - 1)?;
    }
    // quantization params
    let planes = if s.mono { 1 } else { 3 };
    let base_q = rd.f("base_q_idx", 8, q.base_q)?;
    d.dq[0] = rd.delta_q("DeltaQYDc", q.dq[0])?;
    if planes > 1 {
        let diff = if s.separate_uv { rd.b("diff_uv_delta", q.diff_uv)? } else { false };
        d.dq[1] = rd.delta_q("DeltaQUDc", q.dq[1])?;
        d.dq[2] = rd.delta_q("DeltaQUAc", q.dq[2])?;
        if diff {
            d.dq[3] = rd.delta_q("DeltaQVDc", q.dq[3])?;
            d.dq[4] = rd.delta_q("DeltaQVAc", q.dq[4])?;
        } else { d.dq[3] = d.dq[1]; d.dq[4] = d.dq[2]; }
    }
    let mut qm = None;
    if rd.b("using_qmatrix", q.qm.is_some())? {
        let w = q.qm.unwrap();
        let y = rd.f("qm_y", 4, w.0)?;
        let u = rd.f("qm_u", 4, w.1)?;
        let v = if s.separate_uv { rd.f("qm_v", 4, w.2)? } else { u };
        qm = Some([y, u, v]);
    }
    // segmentation params
    let bits = [8u64, 6, 6, 6, 6, 3, 0, 0];
    let max = [255i64, 63, 63, 63, 63, 7, 0, 0];
    let seg = rd.b("segmentation_enabled", q.seg)?;
    if seg {
        let (mut map, mut data) = (true, true);
        if primary != NONE {
            map = rd.b("segmentation_update_map", q.seg_map)?;
            if map { rd.b("segmentation_temporal_update", q.seg_temporal)?; }
            data = rd.b("segmentation_update_data", q.seg_data)?;
        }
        d.seg = true;
        d.seg_map = map;
        if data {
            for i in 0..8 {
                for j in 0..8 {
                    if rd.b("feature_enabled", q.features[i][j].is_some())? {
                        let w = q.features[i][j].unwrap();
                        d.features[i][j] = Some(if j < 5 { rd.su("feature_value", 1 + bits[j], w)?.max(-max[j]).min(max[j]) } else { (rd.f("feature_value", bits[j], w as u64)? as i64).min(max[j]) });
                    }
                }
            }
        } else { d.features = q.features; } // of the frame that is referred to
    }
    for i in 0..8 { for j in 0..8 { if d.features[i][j].is_some() { d.last_seg = i as u64; if j >= 5 { d.seg_pre_skip = true; } } } }
    // delta q, delta lf
    if base_q > 0 && rd.b("delta_q_present", q.delta_q.is_some())? {
        d.delta_q = Some(rd.f("delta_q_res", 2, q.delta_q.unwrap())?);
        if !d.intrabc && rd.b("delta_lf_present", q.delta_lf.is_some())? {
            let w = q.delta_lf.unwrap();
            d.delta_lf = Some((rd.f("delta_lf_res", 2, w.0)?, rd.b("delta_lf_multi", w.1)?));
        }
    }
    d.coded_lossless = true;
    let mut lv = [[0u64; 8]; 3];
    for i in 0..8 {
        let qi = match d.features[i][0] { Some(x) if seg => (base_q as i64 + x).max(0).min(255), _ => base_q as i64 };
        d.lossless[i] = qi == 0 && d.dq == [0; 5];
        if !d.lossless[i] { d.coded_lossless = false; }
        if let Some(m) = qm { for p in 0..3 { lv[p][i] = if d.lossless[i] { 15 } else { m[p] }; } }
    }
    if qm.is_some() { d.qm_levels = Some(lv); }
    d.all_lossless = d.coded_lossless && d.width == d.upscaled;
    // loop filter
    if d.coded_lossless || d.intrabc { d.lf_zero = true; } else {
        let a = rd.f("loop_filter_level[0]", 6, q.lf[0])?;
        let b = rd.f("loop_filter_level[1]", 6, q.lf[1])?;
        if planes > 1 && (a > 0 || b > 0) {
            rd.f("loop_filter_level[2]", 6, q.lf[2])?;
            rd.f("loop_filter_level[3]", 6, q.lf[3])?;
        }
        rd.f("loop_filter_sharpness", 3, q.sharp)?;
        if rd.b("loop_filter_delta_enabled", q.lf_delta)? && rd.b("loop_filter_delta_update", q.lf_update)? {
            for i in 0..8 { if rd.b("update_ref_delta", q.ref_deltas[i].is_some())? { rd.su("loop_filter_ref_deltas", 7, q.ref_deltas[i].unwrap())?; } }
            for i in 0..2 { if rd.b("update_mode_delta", q.mode_deltas[i].is_some())? { rd.su("loop_filter_mode_deltas", 7, q.mode_deltas[i].unwrap())?; } }
        }
    }
    // cdef
    if d.coded_lossless || d.intrabc || !s.cdef { d.cdef_off = true; } else {
        rd.f("cdef_damping_minus_3", 2, q.damping - 3)?;
        let n = q.cdef.len() as u64;
        rd.f("cdef_bits", 2, tile_log2(1, n))?;
        for c in q.cdef.iter() {
            rd.f("cdef_y_pri_strength", 4, c.0)?;
            rd.f("cdef_y_sec_strength", 2, c.1)?;
            if planes > 1 {
                rd.f("cdef_uv_pri_strength", 4, c.2)?;
                rd.f("cdef_uv_sec_strength", 2, c.3)?;
            }
        }
    }
    // loop restoration
    d.lr = vec![0; planes];
    if !(d.all_lossless || d.intrabc || !s.restoration) {
        let mut uses = false;
        for p in 0..planes {
            let t = rd.f("lr_type", 2, q.lr_type)?;
            d.lr[p] = [0, 3, 1, 2][t as usize];
            if t > 0 { uses = true; if p > 0 { d.uses_chroma_lr = true; } }
        }
        if uses {
            let shift = if s.sb128 { rd.f("lr_unit_shift", 1, q.lr_shift - 1)? + 1 } else {
                if rd.b("lr_unit_shift", q.lr_shift > 0)? { 1 + rd.f("lr_unit_extra_shift", 1, q.lr_shift - 1)? } else { 0 }
            };
            let uv = if s.sub_x && s.sub_y && d.uses_chroma_lr { rd.f("lr_uv_shift", 1, q.lr_uv_shift)? } else { 0 };
            let y = 256u64 >> (2 - shift);
            d.lr_sizes = Some((y, y >> uv));
        }
    }
    d.tx_mode = if d.coded_lossless { 0 } else if rd.b("tx_mode_select", q.tx_select)? { 2 } else { 1 };
    d.ref_select = if intra { false } else { rd.b("reference_select", q.ref_select)? };
    // skip mode
    if d.ref_select && s.order_hint_bits > 0 {
        let ob = s.order_hint_bits;
        let (mut fi, mut bi) = (None, None);
        let (mut fh, mut bh) = (0, 0);
        for i in 0..7 {
            let h = hints[refs[i] as usize];
            if dist(h, hint, ob) < 0 { if fi.is_none() || dist(h, fh, ob) > 0 { fi = Some(i); fh = h; } }
            else if dist(h, hint, ob) > 0 { if bi.is_none() || dist(h, bh, ob) < 0 { bi = Some(i); bh = h; } }
        }
        let mut second = bi;
        if fi.is_some() && bi.is_none() {
            let mut sh = 0;
            for i in 0..7 {
                let h = hints[refs[i] as usize];
                if dist(h, fh, ob) < 0 && (second.is_none() || dist(h, sh, ob) > 0) { second = Some(i); sh = h; }
            }
        }
        if let (Some(a), Some(b)) = (fi, second) { d.skip_frames = Some((1 + a.min(b) as u64, 1 + a.max(b) as u64)); }
    }
    d.skip_mode = if d.skip_frames.is_some() { rd.b("skip_mode_present", q.skip_mode)? } else { false };
    d.warped = if intra || err || !s.warped { false } else { rd.b("allow_warped_motion", q.warped)? };
    rd.b("reduced_tx_set", q.reduced_tx)?;
    // global motion
    d.gm = [gm_default(); 8];
    if !intra {
        for f in 1..8 {
            let t = q.gm_type[f];
            let g = rd.b("is_global", t != 0)?;
            let kind = if !g { 0 } else if rd.b("is_rot_zoom", t == 2)? { 2 } else if rd.b("is_translation", t == 1)? { 1 } else { 3 };
            d.gm_type[f] = kind;
            let prev = if primary == NONE { gm_default() } else { q.prev_gm[f] };
            let idxs: &[usize] = match kind { 0 => &[], 1 => &[0, 1], 2 => &[2, 3, 0, 1], _ => &[2, 3, 4, 5, 0, 1] };
            for &i in idxs {
                let (ab, pb) = gm_bits(kind, i, d.hp);
                let pd = 16 - pb;
                let round = if i % 3 == 2 { 1i64 << 16 } else { 0 };
                let sub = if i % 3 == 2 { 1i64 << pb } else { 0 };
                let mx = 1i64 << ab;
                let rf = (prev[i] >> pd) - sub;
                let v = signed_subexp(rd.r, -mx, mx + 1, rf).map_err(|e| format!("gm_params[{}][{}]: {}", f, i, e))?;
                d.gm[f][i] = (v << pd) + round;
                if d.gm[f][i] != q.gm[f][i] { return Err(format!("gm_params[{}][{}] of type {} reads {}, asked for {}", f, i, kind, d.gm[f][i], q.gm[f][i])); }
            }
            if kind == 2 { d.gm[f][4] = -d.gm[f][3]; d.gm[f][5] = d.gm[f][2]; }
        }
    }
    // film grain
    if s.film_grain && (show || showable) && rd.b("apply_grain", q.grain.apply)? {
        let g = &q.grain;
        rd.f("grain_seed", 16, g.seed)?;
        let upd = if ft == INTER { rd.b("update_grain", g.update)? } else { true };
        if !upd { rd.f("film_grain_params_ref_idx", 3, g.ref_idx)?; }
        else {
            let pts = |rd: &mut Rd, what: &str, v: &Vec<(u64, u64)>| -> R<usize> {
                let n = rd.f(what, 4, v.len() as u64)?;
                for p in v { rd.f(what, 8, p.0)?; rd.f(what, 8, p.1)?; }
                Ok(n as usize)
            };
            let ny = pts(&mut rd, "luma points", &g.y)?;
            let cfl = if s.mono { false } else { rd.b("chroma_scaling_from_luma", g.cfl)? };
            let (mut nb, mut nr) = (0, 0);
            if !(s.mono || cfl || (s.sub_x && s.sub_y && ny == 0)) {
                nb = pts(&mut rd, "cb points", &g.cb)?;
                nr = pts(&mut rd, "cr points", &g.cr)?;
            }
            rd.f("grain_scaling_minus_8", 2, g.scaling - 8)?;
            let lag = rd.f("ar_coeff_lag", 2, g.lag)?;
            let luma = 2 * lag * (lag + 1);
            let chroma = if ny > 0 { luma + 1 } else { luma };
            if ny > 0 { for i in 0..luma as usize { rd.f("ar_coeffs_y_plus_128", 8, (g.ar_y[i] + 128) as u64)?; } }
            if cfl || nb > 0 { for i in 0..chroma as usize { rd.f("ar_coeffs_cb_plus_128", 8, (g.ar_cb[i] + 128) as u64)?; } }
            if cfl || nr > 0 { for i in 0..chroma as usize { rd.f("ar_coeffs_cr_plus_128", 8, (g.ar_cr[i] + 128) as u64)?; } }
            rd.f("ar_coeff_shift_minus_6", 2, g.ar_shift - 6)?;
            rd.f("grain_scale_shift", 2, g.scale_shift)?;
            if nb > 0 { rd.f("cb_mult", 8, g.cb_mult.0)?; rd.f("cb_luma_mult", 8, g.cb_mult.1)?; rd.f("cb_offset", 9, g.cb_mult.2)?; }
            if nr > 0 { rd.f("cr_mult", 8, g.cr_mult.0)?; rd.f("cr_luma_mult", 8, g.cr_mult.1)?; rd.f("cr_offset", 9, g.cr_mult.2)?; }
            rd.b("overlap_flag", g.overlap)?;
            rd.b("clip_to_restricted_range", g.clip)?;
        }
    }
    Ok(d)
}
