//! C29: the walk over a tile: superblocks, restoration units, partitions, blocks.
use crate::cdfs::*;
use crate::geo::*;
use crate::p_lr;
use crate::rd::*;
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::block::{PartitionTree, Superblock};
use av1enc::verif::constants::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::Frame;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::cdf::default_cdf;
use av1enc::verif::obu::OBU;
use av1enc::verif::obu_encoder::OBUEncoder;
use av1enc::verif::tile_encoder::TileEncoder;
use harness::engine::*;
use std::cell::RefCell;
use std::rc::Rc;

/// The segmentation feature that skips a block.
const SKIP_FEATURE: usize = 6;
const REF_FEATURE: usize = 5;

struct Tile { r0: usize, r1: usize, c0: usize, c1: usize, sb4: usize, intra: bool }

/// A tree of blocks as a decoder builds it.
#[derive(PartialEq, Debug)]
enum Tree { Outside, Block(usize), Parts(usize, usize, Vec<Tree>) }

struct Walk<'a> {
    t: &'a Tile, f: &'a Frame, e: &'a EncoderContext, cdef: Vec<Vec<isize>>, blocks: usize, edges: usize,
    /// whether deltas are still to come, and where they lead (from the tile's start, without the limits of their ranges)
    deltas: bool, q: isize, lf: [isize; 4],
    seg_ids: usize, steps: usize,
}

impl<'a> Walk<'a> {
    fn new(t: &'a Tile, f: &'a Frame, e: &'a EncoderContext, cdef: Vec<Vec<isize>>) -> Walk<'a> {
        Walk { t, f, e, cdef, blocks: 0, edges: 0, deltas: false, q: f.quantization_params.base_q_idx as isize, lf: [0; 4], seg_ids: 0, steps: 0 }
    }
    fn segment(&mut self, d: &mut Rd, r: usize, c: usize) -> Result<usize, String> {
        if !self.f.segmentation_params.segmentation_enabled { return Ok(0); }
        let id = |y: usize, x: usize| self.f.mis[y][x].map(|m| m.segment_id as isize).unwrap_or(-1);
        let (up, le) = (r > self.t.r0, c > self.t.c0);
        let u = if up { id(r - 1, c) } else { -1 };
        let l = if le { id(r, c - 1) } else { -1 };
        let ul = if up && le { id(r - 1, c - 1) } else { -1 };
        let pred = if u < 0 { l.max(0) } else if l < 0 { u } else if ul == u { u } else { l };
        let k = if ul < 0 { 0 } else if ul == u && ul == l { 2 } else if ul == u || ul == l || u == l { 1 } else { 0 };
        let v = d.sym("segment_id", |c| &mut c.segment_id[k][..])?;
        let mut order = vec![pred];
        let max = self.e.last_active_seg_id as isize + 1;
        for k in 1..=max { if pred + k < max { order.push(pred + k); } if pred - k >= 0 { order.push(pred - k); } }
        self.seg_ids += 1;
        match order.get(v) { Some(x) => Ok(*x as usize), None => Err(d.err(format!("segment_id: code {} does not exist", v))) }
    }
    fn delta(d: &mut Rd, what: &str, v: usize) -> Result<isize, String> {
        let mut a = v;
        if v == 3 { let n = d.lit(what, 3)? + 1; a = d.lit(what, n)? + (1 << n) + 1; }
        Ok(if a > 0 && d.lit(what, 1)? == 1 { -(a as isize) } else { a as isize })
    }
    fn near(&self, r: usize, c: usize) -> (Mi, Mi) {
        (if r > self.t.r0 { self.f.mis[r - 1][c] } else { None }, if c > self.t.c0 { self.f.mis[r][c - 1] } else { None })
    }
    fn block(&mut self, d: &mut Rd, r: usize, c: usize, bs: usize) -> Result<Tree, String> {
        self.blocks += 1;
        if self.t.intra {
            let (a, l) = self.near(r, c);
            let pre = self.e.seg_id_pre_skip;
            let mut seg = 0;
            if pre { seg = self.segment(d, r, c)?; }
            let skip = if pre && self.f.segmentation_params.segmentation_enabled && self.f.segmentation_params.feature_value[seg][SKIP_FEATURE].is_some() { true } else {
                let k = [a, l].iter().map(|m| m.map(|m| m.skip as usize).unwrap_or(0)).sum::<usize>();
                d.sym("skip", |c| &mut c.skip[k][..])? == 1
            };
            if !pre && !skip { seg = self.segment(d, r, c)?; }
            if seg != 0 { return Err(d.err(format!("the block {} at {},{} is of segment {} instead of 0", bname(bs), r, c, seg))); }
            let (y, x) = (r & !15, c & !15);
            let cdef_on = self.e.enable_cdef && !self.e.coded_lossless && !self.f.allow_intrabc;
            if cdef_on && !skip && self.cdef[y][x] == -1 {
                let v = d.lit("cdef_idx", self.f.cdef_params.cdef_bits as usize)? as isize;
                for j in 0..(BS[bs].2 + 63) / 64 { for k in 0..(BS[bs].1 + 63) / 64 { self.cdef[y + 16 * j][x + 16 * k] = v; } }
            }
            if self.deltas && !(skip && BS[bs].1 == self.t.sb4 * 4 && BS[bs].2 == self.t.sb4 * 4) {
                let v = d.sym("delta_q_abs", |c| &mut c.delta_q[..])?;
                let k = Walk::delta(d, "delta_q", v)? << self.f.delta_q_params.delta_q_res;
                if k != 0 { self.q = (self.q + k).max(1).min(255); }
                self.steps += 1;
                if self.f.delta_lf_params.delta_lf_present {
                    let multi = self.f.delta_lf_params.delta_lf_multi;
                    for k in 0..if !multi { 1 } else if self.e.num_planes > 1 { 4 } else { 2 } {
                        let v = d.sym("delta_lf_abs", |c| if multi { &mut c.delta_lf_multi[k][..] } else { &mut c.delta_lf[..] })?;
                        let v = Walk::delta(d, "delta_lf", v)? << self.f.delta_lf_params.delta_lf_res;
                        if v != 0 { self.lf[k] = (self.lf[k] + v).max(-63).min(63); }
                    }
                }
            }
            self.deltas = false;
            // a segment may say that its blocks are intra coded
            if self.f.segmentation_params.segmentation_enabled && self.f.segmentation_params.feature_value[seg][REF_FEATURE].is_some() { return Ok(Tree::Block(bs)); }
            if d.sym("is_inter", |c| &mut c.is_inter[is_inter_ctx(&a, &l)][..])? == 1 { return Err(d.err(format!("the block {} at {},{} is inter coded", bname(bs), r, c))); }
        }
        Ok(Tree::Block(bs))
    }
    fn part(&mut self, d: &mut Rd, r: usize, c: usize, side: usize) -> Result<Tree, String> {
        let (rows, cols) = (self.f.mis.len(), self.f.mis[0].len());
        if r >= rows || c >= cols { return Ok(Tree::Outside); }
        let bs = bs_of(side, side).unwrap();
        if side < 8 { return self.block(d, r, c, bs).map(|b| Tree::Parts(bs, 0, vec![b])); }
        let (n4, half) = (side / 4, side / 8);
        let (has_rows, has_cols) = (r + half < rows, c + half < cols);
        let (a, l) = self.near(r, c);
        let dims = |m: ModeInfo| BS.iter().find(|b| b.0 == m.mi_size).map(|b| (b.1, b.2)).unwrap();
        let k = a.map(|m| (dims(m).0 < side) as usize).unwrap_or(0) + 2 * l.map(|m| (dims(m).1 < side) as usize).unwrap_or(0);
        let p = if has_rows && has_cols {
            match side {
                8 => d.sym("partition", |c| &mut c.partition_w8[k][..])?,
                16 => d.sym("partition", |c| &mut c.partition_w16[k][..])?,
                32 => d.sym("partition", |c| &mut c.partition_w32[k][..])?,
                64 => d.sym("partition", |c| &mut c.partition_w64[k][..])?,
                _ => d.sym("partition", |c| &mut c.partition_w128[k][..])?,
            }
        } else if has_rows || has_cols {
            self.edges += 1;
            let cdf: Vec<i32> = match side { 8 => d.c.partition_w8[k].to_vec(), 16 => d.c.partition_w16[k].to_vec(), 32 => d.c.partition_w32[k].to_vec(), 64 => d.c.partition_w64[k].to_vec(), _ => d.c.partition_w128[k].to_vec() };
            let p = |k: usize| cdf[k] - if k > 0 { cdf[k - 1] } else { 0 };
            let mut parts = if has_cols { vec![2, 3, 4, 6, 7] } else { vec![1, 3, 4, 5, 6] };
            if side != 128 { parts.push(if has_cols { 9 } else { 8 }); }
            let psum: i32 = parts.into_iter().map(p).sum();
            let split = d.fixed(if has_cols { "split_or_horz" } else { "split_or_vert" }, &[32768 - psum, 32768, 0])? == 1;
            if split { 3 } else if has_cols { 1 } else { 2 }
        } else { self.edges += 1; 3 };
        let q = n4 / 4;
        // the shapes of a partition: where each block is (in 4x4 units from here) and its size in samples
        let s2 = side / 2;
        let s4 = side / 4;
        let at: Vec<(usize, usize, usize, usize)> = match p {
            0 => vec![(0, 0, side, side)],
            1 => vec![(0, 0, side, s2), (half, 0, side, s2)],
            2 => vec![(0, 0, s2, side), (0, half, s2, side)],
            3 => {
                let mut v = vec![];
                for k in 0..4 { v.push(self.part(d, r + half * (k / 2), c + half * (k % 2), s2)?); }
                return Ok(Tree::Parts(bs, 3, v));
            }
            4 => vec![(0, 0, s2, s2), (0, half, s2, s2), (half, 0, side, s2)],
            5 => vec![(0, 0, side, s2), (half, 0, s2, s2), (half, half, s2, s2)],
            6 => vec![(0, 0, s2, s2), (half, 0, s2, s2), (0, half, s2, side)],
            7 => vec![(0, 0, s2, side), (0, half, s2, s2), (half, half, s2, s2)],
            8 => (0..4).map(|k| (q * k, 0, side, s4)).collect(),
            _ => (0..4).map(|k| (0, q * k, s4, side)).collect(),
        };
        let mut v = vec![];
        for (y, x, w, h) in at {
            if r + y >= rows || c + x >= cols { continue; }
            let bs = match bs_of(w, h) { Some(b) => b, None => return Err(d.err(format!("partition {} of {} samples at {},{} does not exist", p, side, r, c))) };
            v.push(self.block(d, r + y, c + x, bs)?);
        }
        Ok(Tree::Parts(bs, p, v))
    }
}

/// The encoder's tree, in the same form.
fn tree(t: &PartitionTree, f: &Frame, r: usize, c: usize) -> Tree {
    let bs = BS.iter().position(|b| b.0 == t.bsize).unwrap();
    if r >= f.mis.len() || c >= f.mis[0].len() { return Tree::Outside; }
    let p = t.part_type as usize;
    match p {
        0 => Tree::Parts(bs, 0, vec![Tree::Block(bs)]),
        3 => { let half = BS[bs].1 / 8; Tree::Parts(bs, 3, t.partitions.iter().enumerate().map(|(k, x)| tree(x, f, r + half * (k / 2), c + half * (k % 2))).collect()) }
        _ => Tree::Parts(bs, p, t.partitions.iter().map(|x| Tree::Block(BS.iter().position(|b| b.0 == x.bsize).unwrap())).collect()),
    }
}

struct Scene { f: Frame, e: EncoderContext, sb4: usize, rows: usize, cols: usize, row_starts: Vec<usize>, col_starts: Vec<usize>, lr: p_lr::Lr }

/// The size of a frame, and how it is cut into tiles.
#[derive(Clone, Copy, PartialEq)]
enum Size { Small, Large, Many, Far }

fn scene(s: &mut Src, kind: Size) -> Scene {
    let large = kind != Size::Small;
    let big = s.one_in(3) && kind != Size::Many;
    let sb4 = if big { 32 } else { 16 };
    let size = |s: &mut Src| match s.below(3) { 0 => s.us(1, 70), 1 => s.us(1, 150), _ => s.us(1, 330) };
    let (w, h) = if !large { (size(s), size(s)) } else if kind == Size::Many {
        // up to 64 columns or rows of tiles, or a grid
        match s.below(12) { 0..=3 => (s.us(600, 4096), s.us(1, 200)), 4..=7 => (s.us(1, 200), s.us(600, 4096)), 8 => (s.us(1025, 1500), s.us(1025, 1500)), _ => (s.us(200, 900), s.us(200, 900)) }
    } else if kind == Size::Far { far(s, 32768) } else {
        // wide, high or both
        match s.below(3) { 0 => (s.us(600, 4096), s.us(1, 400)), 1 => (s.us(1, 400), s.us(600, 2304)), _ => (s.us(300, 1300), s.us(300, 1300)) }
    };
    let mut f = new_frame(w, h);
    let (rows, cols) = (f.mis.len(), f.mis[0].len());
    let mut e = EncoderContext::new();
    e.use_128x128_superblock = big;
    e.num_planes = if s.one_in(4) { 1 } else { 3 };
    let (ssx, ssy) = s.pick(&[(true, true), (false, false), (true, false)]);
    f.subsampling_x = ssx;
    f.subsampling_y = ssy;
    e.frame_is_intra = s.bool();
    e.enable_cdef = !s.one_in(4);
    e.disable_cdf_update = s.one_in(4);
    e.coded_lossless = s.one_in(8);
    f.allow_intrabc = s.one_in(8);
    f.cdef_params.cdef_bits = s.below(4) as u8;
    f.quantization_params.base_q_idx = s.below(256) as u8;
    f.delta_q_params.delta_q_present = s.bool();
    f.delta_q_params.delta_q_res = s.below(4) as u8;
    if f.delta_q_params.delta_q_present {
        // changes are only coded for frames with an index
        f.quantization_params.base_q_idx = f.quantization_params.base_q_idx.max(1);
    }
    f.delta_lf_params.delta_lf_present = f.delta_q_params.delta_q_present && s.bool();
    f.delta_lf_params.delta_lf_res = s.below(4) as u8;
    f.delta_lf_params.delta_lf_multi = s.bool();
    e.current_q_index = s.us(0, 255);
    for k in 0..4 { e.delta_lf[k] = s.range(-63, 63) as isize; }
    e.read_deltas = s.bool();
    // where an earlier tile was
    f.tile_row_start = s.us(0, 2) * sb4;
    f.tile_col_start = s.us(0, 2) * sb4;
    let lr = p_lr::setup(s, &mut f, &mut e);
    if s.one_in(3) { for p in 0..3 { e.frame_restoration_type[p] = FrameRestorationType::RESTORE_NONE; } }
    let dense = s.us(1, 6);
    let starts = |s: &mut Src, n: usize| -> Vec<usize> {
        let mut v = vec![0];
        if kind == Size::Far {
            // cut at up to ten places, a tile of one superblock after each, and at the end
            let count = (n + sb4 - 1) / sb4;
            let mut at: Vec<usize> = vec![count - 1];
            for _ in 0..s.us(0, 10) { let k = s.us(0, count - 1); at.push(k); at.push(k + 1); }
            at.retain(|k| *k > 0 && *k < count);
            at.sort();
            at.dedup();
            v.extend(at.iter().map(|k| k * sb4));
            v.push(n);
            return v;
        }
        for k in 1..(n + sb4 - 1) / sb4 { if match kind { Size::Small => s.bool(), Size::Large => s.one_in(20), Size::Many => !s.one_in(dense as u64 * dense as u64), Size::Far => false } { v.push(k * sb4); } }
        v.push(n);
        v
    };
    let row_starts = starts(s, rows);
    let col_starts = starts(s, cols);
    f.tile_row_starts = row_starts[..row_starts.len() - 1].to_vec();
    f.tile_col_starts = col_starts[..col_starts.len() - 1].to_vec();
    e.mi_row_starts = row_starts.clone();
    e.mi_col_starts = col_starts.clone();
    let up = |n: usize| (n + sb4 - 1) / sb4 * sb4;
    f.cdef_idx = vec![vec![5; up(cols)]; up(rows)];
    Scene { f, e, sb4, rows, cols, row_starts, col_starts, lr }
}

/// Segmentation, with blocks of many segments everywhere in the tile. The tree of a superblock has segment 0 only.
fn segments(s: &mut Src, f: &mut Frame, e: &mut EncoderContext) {
    f.segmentation_params.segmentation_enabled = true;
    let last = s.us(0, 7);
    let mut pre = false;
    for k in 0..=last { for j in 0..8 { if s.one_in(8) || (k == last && j == 0) {
        // blocks are of segment 0, and intra coded
        if k == 0 && j > SKIP_FEATURE { continue; }
        f.segmentation_params.feature_value[k][j] = Some(if j == REF_FEATURE { if k == 0 { 0 } else { s.range(0, 7) as isize } } else if j >= SKIP_FEATURE { 0 } else { s.range(-63, 63) as isize });
        pre |= j >= REF_FEATURE;
    } } }
    e.last_active_seg_id = last;
    e.seg_id_pre_skip = pre;
    for k in 0..8 { e.lossless_array[k] = s.one_in(4); }
    stored(s, f, last);
}

/// Mode info of every position, of segments up to the last one.
pub fn stored(s: &mut Src, f: &mut Frame, last: usize) {
    let pool: Vec<ModeInfo> = (0..s.us(1, 5)).map(|_| { let mut m = gen_mi(s); m.segment_id %= last + 1; m }).collect();
    let mut g = Rng::new(s.u64());
    let calm = s.bool();
    let mut m = pool[0];
    for y in 0..f.mis.len() { for x in 0..f.mis[0].len() { if !calm || g.next() % 4 == 0 { m = pool[(g.next() % pool.len() as u64) as usize]; } f.mis[y][x] = Some(m); } }
}

/// The blocks stored in a frame, inside and outside of the tile.
pub fn fill(s: &mut Src, f: &mut Frame) {
    if s.one_in(3) { return; }
    let pool: Vec<ModeInfo> = (0..s.us(1, 5)).map(|_| gen_mi(s)).collect();
    let mut g = Rng::new(s.u64());
    for y in 0..f.mis.len() { for x in 0..f.mis[0].len() { if g.next() % 16 != 0 { f.mis[y][x] = Some(pool[(g.next() % pool.len() as u64) as usize]); } } }
}

/// What a decoder finds in a tile.
struct Found { sbs: u64, blocks: usize, edges: usize, q: isize, lf: [isize; 4], seg_ids: usize, steps: usize }

/// Reads a tile.
fn read_tile(d: &mut Rd, lr: &mut p_lr::Lr, f: &Frame, e: &EncoderContext, t: &Tile, cdef: &mut Vec<Vec<isize>>, i: &mut Info) -> Result<Found, String> {
    lr.reset(e.num_planes);
    let mut w = Walk::new(t, f, e, std::mem::take(cdef));
    let mut sbs = 0;
    for r in (t.r0..t.r1).step_by(t.sb4) {
        for c in (t.c0..t.c1).step_by(t.sb4) {
            for y in 0..t.sb4 / 16 { for z in 0..t.sb4 / 16 { w.cdef[r + 16 * y][c + 16 * z] = -1; } }
            w.deltas = f.delta_q_params.delta_q_present;
            lr.read(d, f, e, r / t.sb4, c / t.sb4, i)?;
            if let Err(m) = w.part(d, r, c, t.sb4 * 4) { return Err(format!("superblock at {},{}: {}", r, c, m)); }
            sbs += 1;
        }
    }
    *cdef = w.cdef;
    if w.seg_ids > 0 { i.label("segment ids coded"); }
    if w.steps > 1 { i.label("several quantizer changes coded"); }
    Ok(Found { sbs, blocks: w.blocks, edges: w.edges, q: w.q, lf: w.lf, seg_ids: w.seg_ids, steps: w.steps })
}

fn whole_tile(s: &mut Src, i: &mut Info) -> Res { tile_of(s, i, Size::Small) }

fn large_tile(s: &mut Src, i: &mut Info) -> Res { tile_of(s, i, Size::Large) }

/// Tiles of one or two superblocks, in frames of many tiles and far from the first.
fn many_tile(s: &mut Src, i: &mut Info) -> Res { tile_of(s, i, Size::Many) }

fn far_tile(s: &mut Src, i: &mut Info) -> Res { tile_of(s, i, Size::Far) }

fn tile_of(s: &mut Src, i: &mut Info, large: Size) -> Res {
    let mut x = scene(s, large);
    let (mut tr, mut tc) = (s.us(0, x.row_starts.len() - 2), s.us(0, x.col_starts.len() - 2));
    if large == Size::Far {
        // a small tile, often
        for _ in 0..3 {
            let (a, b) = (s.us(0, x.row_starts.len() - 2), s.us(0, x.col_starts.len() - 2));
            if (x.row_starts[a + 1] - x.row_starts[a]) * (x.col_starts[b + 1] - x.col_starts[b]) < (x.row_starts[tr + 1] - x.row_starts[tr]) * (x.col_starts[tc + 1] - x.col_starts[tc]) { tr = a; tc = b; }
        }
    }
    let n = tr * (x.col_starts.len() - 1) + tc;
    x.e.tile_num = n;
    let t = Tile { r0: x.row_starts[tr], r1: x.row_starts[tr + 1], c0: x.col_starts[tc], c1: x.col_starts[tc + 1], sb4: x.sb4, intra: x.e.frame_is_intra };
    if t.intra && s.one_in(3) { segments(s, &mut x.f, &mut x.e); } else { fill(s, &mut x.f); }
    let start = base(s);
    let mark = s.below(1 << 16);
    let cdef_before = x.f.cdef_idx.clone();
    let ectx = Rc::new(RefCell::new(x.e));
    let mut coder = BoolCoder::new();
    coder.init_encoder();
    coder.disable_cdf_update = s.bool(); // as the tile before left it
    let mut out = vec![];
    let left;
    {
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = *start;
        te.encode_tile(&mut x.f, n, &mut out);
        left = boxed(&te.cdf);
        let got = (te.mi_row_start, te.mi_row_end, te.mi_col_start, te.mi_col_end);
        if got != (t.r0, t.r1, t.c0, t.c1) { return Err(format!("tile {} of rows {:?} and columns {:?} is coded as rows {}..{} and columns {}..{}", n, x.row_starts, x.col_starts, got.0, got.1, got.2, got.3)); }
    }
    seal(&mut coder, &mut out, mark);
    let mut d = Rd::new(&out, start)?;
    let e = ectx.borrow();
    x.lr.reset(e.num_planes);
    let name = format!("frame {}x{}, tile {} (rows {}..{}, columns {}..{}), superblocks of {}", x.f.frame_width, x.f.frame_height, n, t.r0, t.r1, t.c0, t.c1, x.sb4 * 4);
    let f = &x.f;
    d.still = e.disable_cdf_update;
    let mut cdef = cdef_before;
    let found = read_tile(&mut d, &mut x.lr, f, &e, &t, &mut cdef, i).map_err(|m| format!("{}, {}", name, m))?;
    let (sbs, blocks, edges) = (found.sbs, found.blocks, found.edges);
    if cdef != f.cdef_idx {
        let at: Vec<String> = (0..cdef.len()).flat_map(|y| (0..cdef[0].len()).map(move |x| (y, x))).filter(|p| cdef[p.0][p.1] != f.cdef_idx[p.0][p.1]).map(|p| format!("{},{} is {} instead of {}", p.0, p.1, f.cdef_idx[p.0][p.1], cdef[p.0][p.1])).collect();
        return Err(format!("{}: CDEF indices are not a decoder's: {}", name, trunc(&at.join("; "), 200)));
    }
    x.lr.same_refs(&e)?;
    if e.current_q_index as isize != found.q { return Err(format!("{}: the tile's quantizer index is {} instead of {} (the frame's is {})", name, e.current_q_index, found.q, f.quantization_params.base_q_idx)); }
    if e.delta_lf != found.lf { return Err(format!("{}: the tile's loop filter deltas are {:?} instead of {:?}", name, e.delta_lf, found.lf)); }
    if x.lr.seen > 0 { i.label("with restoration units"); }
    if edges > 0 { i.label("cut by the frame edge"); }
    if n > 0 { i.label("not the first tile"); }
    if e.disable_cdf_update { i.label("without adaptation"); }
    i.evals += sbs;
    i.nontrivial(sbs >= 2 || blocks >= 2);
    i.desc(|| format!("{}: {} blocks: {}", name, blocks, trunc(&d.log.join(" "), 300)));
    match d.end(mark, &left) { Ok(()) => Ok(()), Err(m) => Err(format!("{}: {}", name, m)) }
}

/// One superblock anywhere in the frame; its tree is the one a decoder reads.
fn superblock(s: &mut Src, i: &mut Info) -> Res {
    let large = if s.one_in(100) { Size::Large } else { Size::Small };
    let mut x = scene(s, large);
    let (tr, tc) = (s.us(0, x.row_starts.len() - 2), s.us(0, x.col_starts.len() - 2));
    let t = Tile { r0: x.row_starts[tr], r1: x.row_starts[tr + 1], c0: x.col_starts[tc], c1: x.col_starts[tc + 1], sb4: x.sb4, intra: x.e.frame_is_intra };
    if t.intra && s.one_in(3) { segments(s, &mut x.f, &mut x.e); } else { fill(s, &mut x.f); }
    let pick = |s: &mut Src, a: usize, b: usize| a + s.below(((b - a + t.sb4 - 1) / t.sb4) as u64) as usize * t.sb4;
    let r = pick(s, t.r0, t.r1);
    let c = pick(s, t.c0, t.c1);
    x.f.tile_row_start = t.r0;
    x.f.tile_col_start = t.c0;
    for y in 0..x.sb4 / 16 { for z in 0..x.sb4 / 16 { x.f.cdef_idx[r + 16 * y][c + 16 * z] = -1; } }
    let deltas = x.f.delta_q_params.delta_q_present && s.bool();
    x.e.read_deltas = deltas;
    if deltas { x.e.current_q_index = x.e.current_q_index.max(1); }
    let (q, lf) = (x.e.current_q_index, x.e.delta_lf);
    let start = base(s);
    let mark = s.below(1 << 16);
    let cdef_before = x.f.cdef_idx.clone();
    let ectx = Rc::new(RefCell::new(x.e));
    let mut coder = BoolCoder::new();
    coder.init_encoder();
    let mut out = vec![];
    let mut sb = Superblock::new(if x.sb4 == 32 { BlockSize::BLOCK_128X128 } else { BlockSize::BLOCK_64X64 }, c * 4, r * 4);
    let left;
    {
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = *start;
        te.mi_row_start = t.r0; te.mi_row_end = t.r1; te.mi_col_start = t.c0; te.mi_col_end = t.c1;
        te.encode_superblock(&mut sb, &mut x.f, &mut out);
        left = boxed(&te.cdf);
    }
    seal(&mut coder, &mut out, mark);
    let mut d = Rd::new(&out, start)?;
    let e = ectx.borrow();
    let name = format!("frame {}x{}, tile rows {}..{} columns {}..{}, superblock of {} at {},{}", x.f.frame_width, x.f.frame_height, t.r0, t.r1, t.c0, t.c1, x.sb4 * 4, r, c);
    let mut w = Walk::new(&t, &x.f, &e, cdef_before);
    w.deltas = deltas;
    w.q = q as isize;
    w.lf = lf;
    let read = w.part(&mut d, r, c, t.sb4 * 4).map_err(|m| format!("{}: {}", name, m))?;
    let kept = tree(&sb.part_tree, &x.f, r, c);
    if read != kept { return Err(format!("{}: a decoder builds {} but the encoder keeps {}", name, trunc(&format!("{:?}", read), 300), trunc(&format!("{:?}", kept), 300))); }
    if w.cdef != x.f.cdef_idx { return Err(format!("{}: CDEF indices are not a decoder's", name)); }
    if e.current_q_index as isize != w.q || e.delta_lf != w.lf { return Err(format!("{}: the quantizer index and loop filter deltas are {} and {:?} instead of {} and {:?}", name, e.current_q_index, e.delta_lf, w.q, w.lf)); }
    if w.edges > 0 { i.label("cut by the frame edge"); }
    if w.seg_ids > 0 { i.label("segment ids coded"); }
    if w.lf != lf { i.label("loop filter deltas change"); }
    i.evals += 1;
    i.nontrivial(w.blocks >= 2 || w.edges > 0);
    i.desc(|| format!("{}: {:?}: {}", name, trunc(&format!("{:?}", read), 200), trunc(&d.log.join(" "), 200)));
    let _ = (x.rows, x.cols);
    match d.end(mark, &left) { Ok(()) => Ok(()), Err(m) => Err(format!("{}: {}", name, m)) }
}

/// Where the tiles of a frame are, as a decoder knows it.
pub struct Layout { pub row_starts: Vec<usize>, pub col_starts: Vec<usize>, pub sb4: usize, pub intra: bool, pub size_bytes: usize }

/// What a decoder finds in a tile group.
pub struct Group { pub present: bool, pub a: usize, pub b: usize, pub blocks: usize, pub sizes: Vec<usize>, pub seen: String, pub last: Option<(isize, [isize; 4])> }

/// Reads the payload of a tile group.
pub fn read_group(name: &str, bits: &[u8], lay: &Layout, f: &Frame, e: &EncoderContext, lr: &mut p_lr::Lr, cdef: &mut Vec<Vec<isize>>, i: &mut Info) -> Result<Group, String> {
    let (nr, nc) = (lay.row_starts.len() - 1, lay.col_starts.len() - 1);
    let n = nr * nc;
    let mut at = 0;
    let mut get = |n: usize| -> Result<usize, String> {
        if at + n > bits.len() { return Err(format!("{}: ends after {} bits", name, bits.len())); }
        at += n;
        Ok(bits[at - n..at].iter().fold(0, |v, b| 2 * v + *b as usize))
    };
    let log2 = |n: usize| { let mut k = 0; while 1usize << k < n { k += 1; } k };
    let (mut present, mut a, mut b) = (false, 0, n - 1);
    if n > 1 {
        present = get(1)? == 1;
        if present { let w = log2(nr) + log2(nc); a = get(w)?; b = get(w)?; }
    }
    if a > b || b >= n { return Err(format!("{}: a decoder reads tiles {} to {} of {}", name, a, b, n)); }
    while at % 8 != 0 { if bits[at] != 0 { return Err(format!("{}: alignment with a one bit", name)); } at += 1; }
    let mut g = Group { present, a, b, blocks: 0, sizes: vec![], seen: String::new(), last: None };
    for k in a..b + 1 {
        let len = if k == b { bits.len() - at } else {
            let mut v = 0;
            for j in 0..lay.size_bytes {
                if at + 8 > bits.len() { return Err(format!("{}: ends inside the size of tile {}", name, k)); }
                v |= bits[at..at + 8].iter().fold(0, |v, b| 2 * v + *b as usize) << (8 * j);
                at += 8;
            }
            8 * (v + 1)
        };
        if at + len > bits.len() { return Err(format!("{}: tile {} of {} bytes, but only {} are left", name, k, len / 8, (bits.len() - at) / 8)); }
        if len < 16 { return Err(format!("{}: tile {} of {} bytes", name, k, len / 8)); }
        let mut d = Rd::new(&bits[at..at + len], &default_cdf)?;
        d.still = e.disable_cdf_update;
        let (tr, tc) = (k / nc, k % nc);
        let t = Tile { r0: lay.row_starts[tr], r1: lay.row_starts[tr + 1], c0: lay.col_starts[tc], c1: lay.col_starts[tc + 1], sb4: lay.sb4, intra: lay.intra };
        let r = read_tile(&mut d, lr, f, e, &t, cdef, i).map_err(|m| format!("{}, tile {}: {}", name, k, m))?;
        g.blocks += r.blocks;
        g.last = Some((r.q, r.lf));
        if len > d.pos() + 24 { return Err(format!("{}: tile {} has {} bytes, but a decoder needs {} bits", name, k, len / 8, d.pos())); }
        if g.seen.len() < 200 { g.seen += &d.tail(); }
        g.sizes.push(len / 8);
        at += len;
    }
    Ok(g)
}

/// A tile group: where it starts and ends, the sizes of its tiles and the tiles themselves.
fn group(s: &mut Src, i: &mut Info) -> Res { group_of(s, i, Size::Small) }

fn large_group(s: &mut Src, i: &mut Info) -> Res { group_of(s, i, Size::Large) }

fn many_group(s: &mut Src, i: &mut Info) -> Res { group_of(s, i, Size::Many) }

fn group_of(s: &mut Src, i: &mut Info, large: Size) -> Res {
    let mut x = scene(s, large);
    let (nr, nc) = (x.row_starts.len() - 1, x.col_starts.len() - 1);
    let n = nr * nc;
    let tile = |k: usize, intra: bool| { let (tr, tc) = (k / nc, k % nc); Tile { r0: x.row_starts[tr], r1: x.row_starts[tr + 1], c0: x.col_starts[tc], c1: x.col_starts[tc + 1], sb4: x.sb4, intra } };
    let explicit = s.bool();
    x.f.tile_groups = if explicit { vec![0] } else { vec![] };
    let (a, b) = if !explicit || n == 1 { (0, n - 1) } else { let a = s.us(0, n - 1); (a, s.us(a, n - 1)) };
    // what was there before must not matter where the group is the whole frame
    x.e.tg_start = if explicit && n > 1 { a } else { s.us(0, 3) };
    x.e.tg_end = if explicit && n > 1 { b } else { s.us(0, 3) };
    x.e.tile_num = s.us(0, 5);
    x.e.tile_size_bytes = if x.f.frame_width <= 70 && x.f.frame_height <= 70 { s.us(1, 4) } else { s.us(2, 4) };
    x.e.seen_frame_header = true;
    let intra = x.e.frame_is_intra;
    if intra && s.one_in(3) { segments(s, &mut x.f, &mut x.e); } else { fill(s, &mut x.f); }
    let mut cdef = x.f.cdef_idx.clone();
    let name = format!("frame {}x{} of {} by {} tiles, tiles {} to {}{}", x.f.frame_width, x.f.frame_height, nr, nc, a, b, if explicit { "" } else { " (whole frame)" });
    let ectx = Rc::new(RefCell::new(x.e));
    let mut coder = BoolCoder::new();
    let mut wr = BinaryWriter::file("/dev/null").unwrap();
    let mut bits = vec![];
    let mut obu = OBU::OBU_TILE_GROUP(x.f);
    {
        let mut enc = OBUEncoder::new(&ectx, &mut wr, &mut coder);
        enc.encode_obu(&mut obu, &mut bits);
    }
    let f = match obu { OBU::OBU_TILE_GROUP(f) => f, _ => unreachable!() };
    let e = ectx.borrow();
    if bits.len() % 8 != 0 { return Err(format!("{}: {} bits are not a whole number of bytes", name, bits.len())); }
    if bits[..8] != [0, 0, 1, 0, 0, 0, 0, 0] { return Err(format!("{}: not the header of a tile group", name)); }
    let lay = Layout { row_starts: x.row_starts.clone(), col_starts: x.col_starts.clone(), sb4: x.sb4, intra, size_bytes: e.tile_size_bytes };
    let g = read_group(&name, &bits[8..], &lay, &f, &e, &mut x.lr, &mut cdef, i)?;
    if n > 1 && g.present != explicit { return Err(format!("{}: the flag for the first and last tile is {}", name, g.present)); }
    if (g.a, g.b) != (a, b) { return Err(format!("{}: a decoder reads tiles {} to {}", name, g.a, g.b)); }
    if (e.tg_start, e.tg_end) != (a, b) { return Err(format!("{}: the group is kept as {} to {}", name, e.tg_start, e.tg_end)); }
    if let Some((q, lf)) = g.last { if e.current_q_index as isize != q || e.delta_lf != lf { return Err(format!("{}: the quantizer index and loop filter deltas are {} and {:?} instead of {} and {:?}", name, e.current_q_index, e.delta_lf, q, lf)); } }
    let (blocks, sizes, seen) = (g.blocks, g.sizes, g.seen);
    if cdef != f.cdef_idx { return Err(format!("{}: CDEF indices are not a decoder's", name)); }
    if e.seen_frame_header != (b != n - 1) { return Err(format!("{}: the frame is {} after the group", name, if e.seen_frame_header { "still open" } else { "closed" })); }
    if sizes.iter().any(|n| *n > 256) { i.label("a tile of more than 256 bytes"); }
    if sizes.iter().any(|n| *n > 4096) { i.label("a tile of more than 4096 bytes"); }
    if b > a { i.label("several tiles"); }
    if nr > 16 || nc > 16 { i.label("more than 16 rows or columns of tiles"); }
    if a >= 32 && b < n - 1 { i.label("first tile beyond the 32nd"); }
    if n > 64 { i.label("more than 64 tiles"); }
    if b > 255 { i.label("last tile beyond the 256th"); }
    if b + 1 < n || a > 0 { i.label("part of the frame"); }
    if e.disable_cdf_update { i.label("without adaptation"); }
    i.evals += (b - a + 1) as u64;
    i.nontrivial(b > a || blocks >= 2);
    i.desc(|| format!("{}: tiles of {:?} bytes: {}", name, sizes, trunc(&seen, 200)));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29", level: "exploration",
        rule: "a tile of at least two superblocks or blocks (tiles), a superblock of several blocks or at a frame edge (superblocks)",
        assumptions: vec!["the caller has allocated the frame's superblocks, unit grids and CDEF indices", "the trees a tile is coded with are new ones (segment 0, quantizer index 0, no deltas); other block headers are decided by C24; with segmentation every position of the frame holds mode info", "tiles start at superblocks"],
        subs: vec![
            Sub::random("whole tiles", 10_000, 200_000, whole_tile),
            Sub::random("large tiles", 60, 3_000, large_tile),
            Sub::random("tiles in frames of many tiles", 120, 10_000, many_tile),
            Sub::random("tiles in wide and high frames", 300, 6_000, far_tile),
            Sub::random("single superblocks", 6_000, 200_000, superblock),
        ],
    }, Prop {
        id: "C30", level: "exploration",
        rule: "a group of at least two tiles or two blocks",
        assumptions: vec!["the caller has allocated the frame's superblocks, unit grids and CDEF indices, and the size of a tile fits the announced number of bytes", "new trees (segment 0, quantizer index 0); tiles start at superblocks; with segmentation every position of the frame holds mode info"],
        subs: vec![
            Sub::random("tile groups", 8_000, 200_000, group),
            Sub::random("groups of large tiles", 60, 3_000, large_group),
            Sub::random("frames of many tiles", 240, 10_000, many_group),
        ],
    }]
}
