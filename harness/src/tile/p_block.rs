//! C24: what precedes a block's prediction (segment, skip, CDEF, deltas). C25: references, modes and vectors of inter blocks.
use crate::cdfs::*;
use crate::geo::*;
use crate::rd::*;
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::block::{PartitionTree, Superblock};
use av1enc::verif::common::MotionVector;
use av1enc::verif::constants::*;
use av1enc::verif::constants::CompMode::*;
use av1enc::verif::constants::CompRefType::*;
use av1enc::verif::constants::RefFrame::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::Frame;
use av1enc::verif::tile_encoder::TileEncoder;
use harness::engine::*;
use std::cell::RefCell;
use std::rc::Rc;

pub const FEATURES: usize = 8;
const REF: usize = 5;
const SKIP: usize = 6;
const GLOBAL: usize = 7;

pub type Mv = (isize, isize); // row, column
pub fn mv(m: &MotionVector) -> Mv { (m.y, m.x) }

/// Which vectors a frame can have.
#[derive(Clone, Copy)]
pub struct Prec { pub whole: bool, pub hp: bool }
impl Prec {
    pub fn gen(s: &mut Src) -> Prec { match s.below(3) { 0 => Prec { whole: false, hp: true }, 1 => Prec { whole: false, hp: false }, _ => Prec { whole: true, hp: false } } }
    pub fn unit(&self) -> isize { if self.whole { 8 } else if self.hp { 1 } else { 2 } }
}

fn gen_comp(s: &mut Src, u: isize) -> isize {
    let v = match s.below(5) {
        0 => 0,
        1 => s.range(-3, 3) as isize,
        2 => s.range(-40, 40) as isize,
        3 => s.range(-16, 16) as isize * 8,
        _ => s.biased_range(-8191, 8191) as isize,
    };
    v / u * u
}

pub struct Env {
    pub f: Frame, pub ectx: Rc<RefCell<EncoderContext>>, pub rows: usize, pub cols: usize,
    pub r0: usize, pub r1: usize, pub c0: usize, pub c1: usize,
    pub sb4: usize, pub prec: Prec, pub active: usize, pub pre: bool, pub seg: bool,
}

/// A frame with one tile whose blocks all hold something already; other tiles hold nothing.
pub fn env(s: &mut Src, inter: bool) -> Env { let size = (s.us(8, 280), s.us(8, 200)); env_of(s, inter, size) }

pub fn env_of(s: &mut Src, inter: bool, (w, h): (usize, usize)) -> Env {
    let mut f = new_frame(w, h);
    let (rows, cols) = (f.mis.len(), f.mis[0].len());
    let big = s.bool();
    let sb4 = if big { 32 } else { 16 };
    let cut = |s: &mut Src, n: usize| -> (usize, usize) {
        let k = (n + sb4 - 1) / sb4;
        let a = if s.bool() { 0 } else { s.us(0, k - 1) };
        let b = if s.bool() { k } else { s.us(a + 1, k) };
        (a * sb4, (b * sb4).min(n))
    };
    let (r0, r1) = cut(s, rows);
    let (c0, c1) = cut(s, cols);
    let mut e = EncoderContext::new();
    e.frame_is_intra = true;
    e.use_128x128_superblock = big;
    e.num_planes = if s.one_in(3) { 1 } else { 3 };
    let (ssx, ssy) = s.pick(&[(true, true), (false, false), (true, false)]);
    f.subsampling_x = ssx;
    f.subsampling_y = ssy;
    // segmentation
    let seg = s.below(3) > 0;
    f.segmentation_params.segmentation_enabled = seg;
    let few = s.one_in(4);
    let top = s.pick(&[FEATURES, REF, FEATURES, REF + 1]); // with and without features that move the segment id before skip
    let mut active = 0;
    let mut pre = false;
    for k in 0..8 {
        if few && k > 2 { break; }
        for j in 0..top {
            if s.below(6) > 0 { continue; }
            if !inter && j == GLOBAL { continue; }
            let v = match j { 0 => s.range(-255, 255), 1..=4 => s.range(-63, 63), REF => if inter { s.range(0, 7) } else { 0 }, _ => 0 };
            f.segmentation_params.feature_value[k][j] = Some(v as isize);
            if seg { active = active.max(k); if j >= REF { pre = true; } }
        }
    }
    e.last_active_seg_id = active;
    e.seg_id_pre_skip = pre;
    for k in 0..8 { e.lossless_array[k] = s.one_in(4); }
    e.coded_lossless = s.one_in(8);
    e.enable_cdef = !s.one_in(5);
    f.allow_intrabc = s.one_in(8);
    f.cdef_params.cdef_bits = s.below(4) as u8;
    // deltas
    f.delta_q_params.delta_q_present = s.below(3) > 0;
    f.delta_q_params.delta_q_res = s.below(4) as u8;
    f.delta_lf_params.delta_lf_present = f.delta_q_params.delta_q_present && s.below(3) > 0;
    f.delta_lf_params.delta_lf_res = s.below(4) as u8;
    f.delta_lf_params.delta_lf_multi = s.bool();
    e.current_q_index = s.biased_range(1, 255) as usize;
    for k in 0..4 { e.delta_lf[k] = s.biased_range(-63, 63) as isize; }
    // motion
    let prec = Prec::gen(s);
    f.force_integer_mv = prec.whole as usize;
    f.allow_high_precision_mv = prec.hp;
    f.reference_select = !s.one_in(4);
    f.use_ref_frame_mvs = s.bool();
    for k in 0..8 {
        e.gm_type[k] = s.below(4) as usize;
        e.gm_params[k] = [s.range(-4000, 4000) as isize * 16, s.range(-4000, 4000) as isize * 16, 65536 + s.range(-300, 300) as isize,
            s.range(-300, 300) as isize, s.range(-300, 300) as isize, 65536 + s.range(-300, 300) as isize];
    }
    let mut r = Rng::new(s.u64());
    e.motion_field_mvs = (0..8).map(|_| (0..rows / 2).map(|_| (0..cols / 2).map(|_| {
        let x = r.next();
        if x & 3 == 0 { MotionVector::new(-1 << 15, -1 << 15) } else if x & 3 == 1 { MotionVector::new(0, 0) }
        else { MotionVector::new((x >> 8) as i8 as isize * if x & 4 == 0 { 1 } else { 31 }, (x >> 16) as i8 as isize) }
    }).collect()).collect()).collect();
    // stored blocks
    let few: Vec<ModeInfo> = (0..s.us(1, 4)).map(|_| { let mut m = gen_mi(s); m.segment_id = if seg { m.segment_id % (active + 1) } else { 0 };
        for k in 0..2 { m.mvs[k] = MotionVector::new(m.mvs[k].x / 2, m.mvs[k].y / 2); } m }).collect();
    for y in 0..rows { for x in 0..cols { f.mis[y][x] = Some(few[(r.next() % few.len() as u64) as usize]); } }
    f.tile_row_start = r0;
    f.tile_col_start = c0;
    let up = |n: usize| (n + 31) / 32 * 32;
    f.cdef_idx = vec![vec![-1; up(cols) + 32]; up(rows) + 32];
    let bits = f.cdef_params.cdef_bits;
    for y in 0..f.cdef_idx.len() { for x in 0..f.cdef_idx[0].len() { if r.next() % 3 == 0 { f.cdef_idx[y][x] = (r.next() % (1 << bits)) as isize; } } }
    Env { f, ectx: Rc::new(RefCell::new(e)), rows, cols, r0, r1, c0, c1, sb4, prec, active, pre, seg }
}

/// A block of the tile, often next to the one before.
fn place(s: &mut Src, e: &Env, last: Option<(usize, usize, usize)>) -> (usize, usize, usize) {
    let mut bs = s.below(22) as usize;
    while BS[bs].1.max(BS[bs].2) > e.sb4 * 4 { bs = if bs > 0 { bs - 1 } else { 0 }; }
    let (w4, h4) = (BS[bs].1 / 4, BS[bs].2 / 4);
    let (mut r, mut c) = (s.us(e.r0, e.r1 - 1), s.us(e.c0, e.c1 - 1));
    if s.one_in(4) { r = e.r0; }
    if s.one_in(4) { c = e.c0; }
    if let Some((lr, lc, lb)) = last {
        match s.below(4) {
            0 => { r = lr; c = lc + BS[lb].1 / 4; }
            1 => { r = lr + BS[lb].2 / 4; c = lc; }
            2 => { r = lr + BS[lb].2 / 4; c = lc + BS[lb].1 / 4; }
            _ => {}
        }
    }
    r = r / h4 * h4;
    c = c / w4 * w4;
    if r < e.r0 || r >= e.r1 || c < e.c0 || c >= e.c1 { r = e.r0; c = e.c0; }
    (r, c, bs)
}

fn gen_tree(s: &mut Src, e: &Env, bs: usize, inter: bool) -> PartitionTree {
    let mut t = PartitionTree::new(BS[bs].0);
    t.segment_id = if e.seg { s.us(0, e.active) } else if s.one_in(4) { s.us(0, 7) } else { 0 }; // without segmentation every block is of segment 0, whatever the tree says
    t.skip = s.one_in(3);
    t.cdef_idx = s.below(1 << e.f.cdef_params.cdef_bits) as isize;
    t.is_inter = inter;
    {
        let x = e.ectx.borrow();
        let step = |s: &mut Src, cur: isize, res: u8, lo: isize, hi: isize| -> isize {
            // not every index can be reached in whole steps
            if s.one_in(3) { return s.biased_range(lo as i64 - (lo == 1) as i64, hi as i64) as isize; }
            let (a, b) = ((cur - lo) >> res, (hi - cur) >> res);
            let k = match s.below(4) { 0 => 0, 1 => s.range(-4, 4) as isize, _ => s.biased_range(-(a as i64), b as i64) as isize };
            cur + (k.max(-a).min(b) << res)
        };
        t.q_index = step(s, x.current_q_index as isize, e.f.delta_q_params.delta_q_res, 1, 255) as usize;
        for k in 0..4 { t.delta_lf[k] = step(s, x.delta_lf[k], e.f.delta_lf_params.delta_lf_res, -63, 63); }
    }
    if inter {
        match s.below(5) {
            0 | 1 => { t.ref_frame = [RF[s.us(2, 8)], if s.bool() { NONE } else { RF[s.us(1, 8)] }]; t.comp_mode = SINGLE_REFERENCE; }
            2 => {
                t.comp_mode = COMPOUND_REFERENCE; t.comp_ref_type = UNIDIR_COMP_REFERENCE;
                t.ref_frame = s.pick(&[[LAST_FRAME, LAST2_FRAME], [LAST_FRAME, LAST3_FRAME], [LAST_FRAME, GOLDEN_FRAME], [BWDREF_FRAME, ALTREF_FRAME]]);
            }
            _ => { t.comp_mode = COMPOUND_REFERENCE; t.comp_ref_type = BIDIR_COMP_REFERENCE; t.ref_frame = [RF[s.us(2, 5)], RF[s.us(6, 8)]]; }
        }
        t.compound_mode = YM[s.us(18, 25)];
        t.new_mv = s.bool();
        t.zero_mv = s.below(3) > 0;
        t.ref_mv = s.bool();
        for k in 0..8 { t.drl_mode[k] = s.us(0, 1); }
        let u = e.prec.unit();
        for k in 0..2 { t.mvs[k] = MotionVector::new(gen_comp(s, u), gen_comp(s, u)); }
    }
    t
}

/// What was known and asked for when one block was coded, and what it left behind.
struct Coded {
    r: usize, c: usize, bs: usize, want: PartitionTree, got: PartitionTree,
    a: Mi, l: Mi, ul: Mi, avail: (bool, bool),
    cdef: isize, deltas: bool, q: usize, lf: [isize; 4],
    stack: [[MotionVector; 2]; 8], found: usize, globals: [MotionVector; 2], ctx: [usize; 3], drl: [usize; 8], mode: usize,
    cdef_grid: Vec<(usize, usize, isize)>,
    q_after: usize, lf_after: [isize; 4], deltas_after: bool, cdef_after: Vec<(usize, usize, isize)>,
    flags: (bool, bool, bool, bool, bool), lossless: bool,
}

fn copy(t: &PartitionTree) -> PartitionTree {
    let mut n = PartitionTree::new(t.bsize);
    n.segment_id = t.segment_id; n.skip = t.skip; n.cdef_idx = t.cdef_idx; n.q_index = t.q_index; n.delta_lf = t.delta_lf; n.is_inter = t.is_inter;
    n.ref_frame = t.ref_frame; n.comp_mode = t.comp_mode; n.comp_ref_type = t.comp_ref_type; n.compound_mode = t.compound_mode; n.new_mv = t.new_mv;
    n.zero_mv = t.zero_mv; n.ref_mv = t.ref_mv; n.drl_mode = t.drl_mode; n.use_intrabc = t.use_intrabc; n.mvs = t.mvs;
    n
}

fn history(s: &mut Src, i: &mut Info, inter: bool, wide: bool) -> Res {
    let mut e = if wide { let size = far(s, 65536); env_of(s, inter, size) } else { env(s, inter) };
    let start = base(s);
    let mark = s.below(1 << 16);
    let n = if s.one_in(40) { s.us(9, 40) } else { s.us(1, 8) };
    let mut coder = BoolCoder::new();
    coder.init_encoder();
    let mut out: Vec<u8> = vec![];
    let mut done: Vec<Coded> = vec![];
    let left;
    {
        let ectx = Rc::clone(&e.ectx);
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = *start;
        te.mi_row_start = e.r0; te.mi_row_end = e.r1; te.mi_col_start = e.c0; te.mi_col_end = e.c1;
        let mut last = None;
        for _ in 0..n {
            let (r, c, bs) = place(s, &e, last);
            last = Some((r, c, bs));
            let moves = inter && !s.one_in(8);
            let want = gen_tree(s, &e, bs, moves);
            let deltas = e.f.delta_q_params.delta_q_present && s.bool();
            ectx.borrow_mut().read_deltas = deltas;
            te.new_mv_context = s.us(0, 5);
            te.ref_mv_context = s.us(0, 5);
            for k in 0..8 { te.drl_ctx_stack[k] = s.us(0, 2); }
            let ctx = [te.new_mv_context, 0, te.ref_mv_context];
            let drl = te.drl_ctx_stack;
            let a = if r > e.r0 { e.f.mis[r - 1][c] } else { None };
            let l = if c > e.c0 { e.f.mis[r][c - 1] } else { None };
            let avail = (r > e.r0, c > e.c0);
            let ul = if avail.0 && avail.1 { e.f.mis[r - 1][c - 1] } else { None };
            let before: Vec<Vec<isize>> = e.f.cdef_idx.clone();
            let cdef_grid: Vec<(usize, usize, isize)> = (0..4).map(|k| { let (y, x) = ((r & !15) + 16 * (k / 2), (c & !15) + 16 * (k % 2)); (y, x, before[y][x]) }).collect();
            let (q, lf) = { let x = ectx.borrow(); (x.current_q_index, x.delta_lf) };
            let mut got = copy(&want);
            let mut sb = Superblock::new(if e.sb4 == 32 { BlockSize::BLOCK_128X128 } else { BlockSize::BLOCK_64X64 }, c / e.sb4 * e.sb4 * 4, r / e.sb4 * e.sb4 * 4);
            te.encode_block(&mut sb, r, c, &mut e.f, &mut out, &mut got);
            let mut cdef_after = vec![];
            for y in 0..before.len() { for x in 0..before[0].len() { if before[y][x] != e.f.cdef_idx[y][x] { cdef_after.push((y, x, e.f.cdef_idx[y][x])); } } }
            let x = ectx.borrow();
            // the frame's record of the block, as the caller keeps it
            let mut m = fresh_mi();
            m.mi_size = BS[bs].0; m.skip = got.skip; m.segment_id = got.segment_id; m.is_inter = got.is_inter; m.intra = !got.is_inter;
            if got.is_inter { m.ref_frame = got.ref_frame; m.single = rf(got.ref_frame[1]) <= 0; m.mvs = got.mvs;
                m.y_mode = YM.iter().cloned().find(|y| *y as usize == te.y_mode).unwrap_or(YMode::GLOBALMV); }
            for y in r..(r + BS[bs].2 / 4).min(e.r1) { for x in c..(c + BS[bs].1 / 4).min(e.c1) { e.f.mis[y][x] = Some(m); } }
            done.push(Coded { r, c, bs, want, got, a, l, ul, avail, cdef: before[r & !15][c & !15], deltas, q, lf,
                stack: te.ref_stack_mv, found: te.num_mv_found, globals: te.global_mvs, ctx: [ctx[0], te.zero_mv_context, ctx[2]], drl, mode: te.y_mode,
                cdef_grid, q_after: x.current_q_index, lf_after: x.delta_lf, deltas_after: x.read_deltas, cdef_after,
                flags: (te.avail_u, te.avail_l, te.has_chroma, te.avail_u_chroma, te.avail_l_chroma), lossless: te.lossless });
        }
        left = boxed(&te.cdf);
    }
    seal(&mut coder, &mut out, mark);
    let mut d = Rd::new(&out, start)?;
    let mut inters = 0;
    for (k, b) in done.iter().enumerate() {
        let name = format!("block {} of {} ({} at {},{} in tile rows {}..{} columns {}..{})", k + 1, n, bname(b.bs), b.r, b.c, e.r0, e.r1, e.c0, e.c1);
        if let Err(m) = check(&mut d, &e, b, i) { return Err(format!("{}: {}", name, m)); }
        inters += b.got.is_inter as usize;
    }
    let log = d.log.len();
    i.evals += n as u64;
    i.nontrivial(n >= 2 && log >= 6 && (!inter || inters >= 2));
    i.desc(|| format!("{} blocks: {}", n, trunc(&d.log.join(" "), 400)));
    d.end(mark, &left)
}

/// Reads one block back and compares everything a decoder would know of it.
fn check(d: &mut Rd, e: &Env, b: &Coded, i: &mut Info) -> Res {
    macro_rules! same { ($what:expr, $got:expr, $want:expr) => { if $got != $want { return Err(d.err(format!("{} is {:?} at a decoder, but {:?} here", $what, $got, $want))); } } }
    let x = e.ectx.borrow();
    let (w4, h4) = (BS[b.bs].1 / 4, BS[b.bs].2 / 4);
    // where the block is
    let (ssx, ssy) = (e.f.subsampling_x, e.f.subsampling_y);
    let chroma = x.num_planes > 1 && !(ssy && h4 == 1 && b.r % 2 == 0) && !(ssx && w4 == 1 && b.c % 2 == 0);
    let uc = chroma && if ssy && h4 == 1 { b.r >= e.r0 + 2 } else { b.avail.0 };
    let lc = chroma && if ssx && w4 == 1 { b.c >= e.c0 + 2 } else { b.avail.1 };
    same!("what is available (above, left, chroma, above and left of chroma)", (b.avail.0, b.avail.1, chroma, uc, lc), b.flags);

    let feature = |seg: usize, j: usize| -> Option<isize> { if e.seg { e.f.segmentation_params.feature_value[seg][j] } else { None } };
    let read_seg = |d: &mut Rd, skip: bool| -> Result<usize, String> {
        if !e.seg { return Ok(0); }
        let id = |m: &Mi| m.map(|m| m.segment_id as isize).unwrap_or(-1);
        let u = if b.avail.0 { id(&b.a) } else { -1 };
        let l = if b.avail.1 { id(&b.l) } else { -1 };
        let ul = id(&b.ul);
        let pred = if u < 0 { l.max(0) } else if l < 0 { u } else if ul == u { u } else { l };
        if skip { return Ok(pred as usize); }
        let k = if ul < 0 { 0 } else if ul == u && ul == l { 2 } else if ul == u || ul == l || u == l { 1 } else { 0 };
        let v = d.sym("segment_id", |c| &mut c.segment_id[k][..])?;
        // codes count outwards from the prediction, alternating, until one side is used up
        let mut order = vec![pred];
        let max = e.active as isize + 1;
        for k in 1..=max { if pred + k < max { order.push(pred + k); } if pred - k >= 0 { order.push(pred - k); } }
        match order.get(v) { Some(x) => Ok(*x as usize), None => Err(d.err(format!("segment_id: code {} does not exist", v))) }
    };
    let mut seg = 0;
    if e.pre { seg = read_seg(d, false)?; }
    let skip = if e.pre && feature(seg, SKIP).is_some() { true } else {
        let k = [b.a, b.l].iter().map(|m| m.map(|m| m.skip as usize).unwrap_or(0)).sum::<usize>();
        d.sym("skip", |c| &mut c.skip[k][..])? == 1
    };
    if !e.pre { seg = read_seg(d, skip)?; }
    same!("the segment", seg, b.got.segment_id);
    if e.seg && (e.pre || !skip) { same!("the segment", seg, b.want.segment_id); }
    same!("skip", skip, b.got.skip);
    if !(e.pre && feature(seg, SKIP).is_some()) { same!("skip", skip, b.want.skip); } else { i.label("skipped by its segment"); }
    same!("whether the block is lossless", x.lossless_array[seg], b.lossless);

    let mut grid = vec![];
    if !skip && !x.coded_lossless && x.enable_cdef && !e.f.allow_intrabc && b.cdef == -1 {
        let v = d.lit("cdef_idx", e.f.cdef_params.cdef_bits as usize)? as isize;
        same!("the CDEF index", v, b.want.cdef_idx);
        for y in 0..(h4 + 15) / 16 { for x in 0..(w4 + 15) / 16 { grid.push(((b.r & !15) + 16 * y, (b.c & !15) + 16 * x, v)); } }
        i.label("CDEF index coded");
    }
    for &(y, x, v) in &b.cdef_after { if !grid.contains(&(y, x, v)) { return Err(d.err(format!("the CDEF index of {},{} became {}", y, x, v))); } }
    for &(y, x, v) in &grid { if !b.has_cdef(y, x, v) { return Err(d.err(format!("the CDEF index of {},{} is not the block's ({})", y, x, v))); } }

    let (mut q, mut lf) = (b.q as isize, b.lf);
    let whole_sb = w4 == e.sb4 && h4 == e.sb4;
    if b.deltas && !(whole_sb && skip) {
        let delta = |d: &mut Rd, what: &str, v: usize| -> Result<isize, String> {
            let mut a = v;
            if v == 3 { let n = d.lit(what, 3)? + 1; a = d.lit(what, n)? + (1 << n) + 1; }
            Ok(if a > 0 && d.lit(what, 1)? == 1 { -(a as isize) } else { a as isize })
        };
        let v = d.sym("delta_q_abs", |c| &mut c.delta_q[..])?;
        let k = delta(d, "delta_q", v)?;
        if k != 0 { q = (q + (k << e.f.delta_q_params.delta_q_res)).max(1).min(255); }
        // exactly what was asked for where that is a whole number of steps away
        if (q - (b.want.q_index as isize).max(1)).abs() >= 1 << e.f.delta_q_params.delta_q_res { same!("the quantizer index", q, b.want.q_index as isize); }
        if k.abs() > 3 { i.label("large quantizer change"); }
        if e.f.delta_lf_params.delta_lf_present {
            let multi = e.f.delta_lf_params.delta_lf_multi;
            let n = if !multi { 1 } else if x.num_planes > 1 { 4 } else { 2 };
            for k in 0..n {
                let v = d.sym("delta_lf_abs", |c| if multi { &mut c.delta_lf_multi[k][..] } else { &mut c.delta_lf[..] })?;
                let v = delta(d, "delta_lf", v)?;
                if v != 0 { lf[k] = (lf[k] + (v << e.f.delta_lf_params.delta_lf_res)).max(-63).min(63); }
                if (lf[k] - b.want.delta_lf[k]).abs() >= 1 << e.f.delta_lf_params.delta_lf_res { same!("the loop filter delta", lf[k], b.want.delta_lf[k]); }
            }
            i.label("loop filter deltas coded");
        }
    }
    same!("the current quantizer index after the block", q as usize, b.q_after);
    same!("the loop filter deltas after the block", lf, b.lf_after);
    same!("whether deltas are still to come", false, b.deltas_after);

    let inter = match (feature(seg, REF), feature(seg, GLOBAL)) {
        (Some(v), _) => v != 0,
        (None, Some(_)) => true,
        _ => {
            let v = d.sym("is_inter", |c| &mut c.is_inter[is_inter_ctx(&b.a, &b.l)][..])? == 1;
            same!("whether the block is inter coded", v, b.want.is_inter);
            v
        }
    };
    same!("whether the block is inter coded", inter, b.got.is_inter);
    if !inter { return Ok(()); }

    // references
    let refs = if let Some(v) = feature(seg, REF) { i.label("reference given by its segment"); [RF[v as usize + 1], NONE] }
        else if feature(seg, SKIP).is_some() || feature(seg, GLOBAL).is_some() { [LAST_FRAME, NONE] }
        else {
            let v = read_refs(d, &b.a, &b.l, e.f.reference_select && w4 >= 2 && h4 >= 2)?;
            let compound = b.want.comp_mode == COMPOUND_REFERENCE && e.f.reference_select && w4 >= 2 && h4 >= 2;
            let want = if compound { b.want.ref_frame } else { [b.want.ref_frame[0], NONE] };
            same!("the reference frames", [rf(v[0]), rf(v[1])], [rf(want[0]), rf(want[1])]);
            v
        };
    same!("the reference frames", [rf(refs[0]), rf(refs[1])], [rf(b.got.ref_frame[0]), rf(b.got.ref_frame[1])]);
    let compound = rf(refs[1]) > 0;
    if compound { i.label("compound"); }

    // mode
    let mode = if feature(seg, SKIP).is_some() || feature(seg, GLOBAL).is_some() { 16 }
        else if compound {
            let k = [[0usize, 1, 1, 1, 1], [1, 2, 3, 4, 4], [4, 4, 5, 6, 7]][b.ctx[2] >> 1][b.ctx[0].min(4)];
            let v = 18 + d.sym("compound_mode", |c| &mut c.compound_mode[k][..])?;
            same!("the compound mode", YM[v] as usize, b.want.compound_mode as usize);
            v
        } else {
            let v = if d.sym("new_mv", |c| &mut c.new_mv[b.ctx[0]][..])? == 0 { 17 }
                else if d.sym("zero_mv", |c| &mut c.zero_mv[b.ctx[1]][..])? == 0 { 16 }
                else if d.sym("ref_mv", |c| &mut c.ref_mv[b.ctx[2]][..])? == 0 { 14 } else { 15 };
            let want = if !b.want.new_mv { 17 } else if !b.want.zero_mv { 16 } else if !b.want.ref_mv { 14 } else { 15 };
            same!("the mode", v, want);
            v
        };
    same!("the mode", YM[mode] as usize, b.mode);
    if compound { same!("the compound mode kept with the block", YM[mode] as usize, b.got.compound_mode as usize); }
    // 14 nearest, 15 near, 16 global, 17 new; compound modes as pairs of these
    let parts: [usize; 2] = match mode { 18 => [14, 14], 19 => [15, 15], 20 => [14, 17], 21 => [17, 14], 22 => [15, 17], 23 => [17, 15], 24 => [16, 16], 25 => [17, 17], m => [m, 0] };
    let mut idx = 0;
    let ask = if mode == 17 || mode == 25 { Some(0) } else if parts.contains(&15) { idx = 1; Some(1) } else { None };
    if let Some(from) = ask {
        for k in from..from + 2 {
            if b.found > k + 1 {
                let v = d.sym("drl_mode", |c| &mut c.drl_mode[b.drl[k]][..])?;
                same!("the drl mode", v, b.want.drl_mode[k]);
                i.label("drl mode coded");
                if v == 0 { idx = k; break; }
                idx = k + 1;
            }
        }
    }
    for k in 0..1 + compound as usize {
        let pred = mv(&match parts[k] {
            16 => b.globals[k],
            14 => b.stack[0][k],
            17 if b.found <= 1 => b.stack[0][k],
            _ => b.stack[idx][k],
        });
        let v = if parts[k] == 17 {
            let (y, x) = read_mv_diff(d, 0, e.prec.whole, e.prec.hp)?;
            let v = (pred.0 + y, pred.1 + x);
            same!("the motion vector", v, mv(&b.want.mvs[k]));
            i.label("vector coded");
            if y.abs().max(x.abs()) > 16 { i.label("vector of a higher class"); }
            v
        } else { pred };
        same!("the motion vector", v, mv(&b.got.mvs[k]));
    }
    Ok(())
}

impl Coded {
    /// a changed position is listed; an unchanged one must have had the value already
    fn has_cdef(&self, y: usize, x: usize, v: isize) -> bool { self.cdef_after.contains(&(y, x, v)) || self.cdef_grid.contains(&(y, x, v)) }
}

/// Intra block copy: the vector of the block, predicted from the stack or from the place.
fn intrabc(s: &mut Src, i: &mut Info) -> Res { let e = env(s, true); copies(s, i, e) }
fn intrabc_far(s: &mut Src, i: &mut Info) -> Res { let size = far(s, 65536); let e = env_of(s, true, size); copies(s, i, e) }

fn copies(s: &mut Src, i: &mut Info, mut e: Env) -> Res {
    e.f.force_integer_mv = 1;
    e.f.allow_high_precision_mv = false;
    let start = base(s);
    let mark = s.below(1 << 16);
    let n = s.us(1, 4);
    let mut coder = BoolCoder::new();
    coder.init_encoder();
    let mut out = vec![];
    let mut done: Vec<(Mv, Mv, usize)> = vec![];
    let left;
    {
        let ectx = Rc::clone(&e.ectx);
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = *start;
        te.mi_row_start = e.r0; te.mi_row_end = e.r1; te.mi_col_start = e.c0; te.mi_col_end = e.c1;
        for _ in 0..n {
            let (r, c, bs) = place(s, &e, None);
            te.mi_row = r; te.mi_col = c; te.mi_size = BS[bs].0;
            te.y_mode = s.pick(&[YMode::DC_PRED, YMode::NEWMV]) as usize;
            te.num_mv_found = s.us(0, 2);
            for k in 0..2 { te.ref_stack_mv[k][0] = if s.below(3) > 0 { MotionVector::new(0, 0) } else { MotionVector::new(gen_comp(s, 8), gen_comp(s, 8)) }; }
            let sb = e.sb4 as isize * 4;
            let (s0, s1) = (mv(&te.ref_stack_mv[0][0]), mv(&te.ref_stack_mv[1][0]));
            let pred = if s0 != (0, 0) { s0 } else if s1 != (0, 0) { s1 }
                else if r < e.r0 + e.sb4 { i.label("first row of superblocks"); (0, -(sb + 256) * 8) } else { i.label("later row of superblocks"); (-sb * 8, 0) };
            let mut t = PartitionTree::new(BS[bs].0);
            t.use_intrabc = true;
            let far = |s: &mut Src| if s.bool() { gen_comp(s, 8) } else { s.range(-700, 0) as isize * 8 };
            t.mvs[0] = MotionVector::new(far(s), far(s));
            let want = mv(&t.mvs[0]);
            te.assign_mv(false, &mut e.f, &mut out, &mut t);
            if mv(&t.mvs[0]) != want { return Err(format!("the block's vector {:?} became {:?}", want, mv(&t.mvs[0]))); }
            done.push((pred, want, r));
        }
        left = boxed(&te.cdf);
    }
    seal(&mut coder, &mut out, mark);
    let mut d = Rd::new(&out, start)?;
    for (k, (pred, want, r)) in done.iter().enumerate() {
        let (y, x) = read_mv_diff(&mut d, 1, true, false)?;
        if (pred.0 + y, pred.1 + x) != *want {
            return Err(d.err(format!("vector {} of {} (block in row {} of a tile from row {}, superblocks of {}): {:?} at a decoder, but {:?} here", k + 1, n, r, e.r0, e.sb4 * 4, (pred.0 + y, pred.1 + x), want)));
        }
    }
    i.evals += n as u64;
    i.nontrivial(done.iter().any(|x| x.0 != x.1));
    i.desc(|| d.log.join(" "));
    d.end(mark, &left)
}

fn headers(s: &mut Src, i: &mut Info) -> Res { history(s, i, false, false) }
fn headers_far(s: &mut Src, i: &mut Info) -> Res { history(s, i, false, true) }
fn inter(s: &mut Src, i: &mut Info) -> Res { history(s, i, true, false) }
fn inter_far(s: &mut Src, i: &mut Info) -> Res { history(s, i, true, true) }

pub fn props() -> Vec<Prop> {
    let common = "all positions of the frame hold mode info; segmentation features, the last active segment and the position of the segment id fit together; the levels asked for are in range";
    vec![Prop {
        id: "C24", level: "exploration",
        rule: "a history of at least two blocks and six symbols",
        assumptions: vec![common],
        subs: vec![Sub::random("histories of blocks", 120_000, 1_500_000, headers),
            Sub::random("histories in wide and high frames", 800, 12_000, headers_far)],
    }, Prop {
        id: "C25", level: "exploration",
        rule: "a history of at least two inter blocks (histories), or a vector that differs from its prediction (intra block copy)",
        assumptions: vec![common, "the candidate stack and the contexts derived with it are those the encoder holds (C26 decides the stack)", "vectors are multiples of the frame's precision and differ from their prediction by at most 16384 per component"],
        subs: vec![
            Sub::random("histories of inter blocks", 120_000, 1_500_000, inter),
            Sub::random("intra block copy vectors", 120_000, 1_500_000, intrabc),
            Sub::random("histories of inter blocks in wide and high frames", 800, 12_000, inter_far),
            Sub::random("intra block copy in wide and high frames", 800, 12_000, intrabc_far),
        ],
    }]
}
