//! C27: loop restoration units.
use crate::cdfs::*;
use crate::geo::*;
use crate::rd::*;
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::block::{LRUnit, Superblock};
use av1enc::verif::constants::*;
use av1enc::verif::constants::FrameRestorationType::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::Frame;
use av1enc::verif::tile_encoder::TileEncoder;
use harness::engine::*;
use std::cell::RefCell;
use std::rc::Rc;

const W_MIN: [isize; 3] = [-5, -23, -17];
const W_MAX: [isize; 3] = [10, 8, 46];
const W_K: [usize; 3] = [1, 2, 3];
const W_MID: [isize; 3] = [3, -7, 15];
const X_MID: [isize; 2] = [-32, 31];
const X_MIN: [isize; 2] = [-96, -32];
const X_MAX: [isize; 2] = [31, 95];

fn nothing(set: usize, i: usize) -> bool { if i == 0 { (10..14).contains(&set) } else { set >= 14 } }

/// A value between low and high (inclusive), coded relative to a reference.
fn subexp(d: &mut Rd, what: &str, low: isize, high: isize, k: usize, r: isize) -> Result<isize, String> {
    let mx = (high + 1 - low) as usize;
    let r = (r - low) as usize;
    let mut i = 0;
    let mut mk = 0;
    let v = loop {
        let b = if i > 0 { k + i - 1 } else { k };
        if mx <= mk + 3 * (1 << b) { break mk + d.ns(what, mx - mk)?; }
        if d.lit(what, 1)? == 0 { break mk + d.lit(what, b)?; }
        mk += 1 << b;
        i += 1;
    };
    // values nearest to the reference come first
    let near = |r: usize, v: usize| -> usize { if v > 2 * r { v } else if v & 1 == 1 { r - (v + 1) / 2 } else { r + v / 2 } };
    let x = if 2 * r <= mx { near(r, v) } else { mx - 1 - near(mx - 1 - r, v) };
    Ok(x as isize + low)
}

struct Unit { plane: usize, row: usize, col: usize, kind: FrameRestorationType, wiener: [[isize; 3]; 2], set: usize, xqd: [isize; 2] }

/// The restoration units of a frame, superblock by superblock, and the references a decoder keeps.
pub struct Lr { units: Vec<(usize, usize, Vec<Unit>)>, rw: [[[isize; 3]; 2]; 3], rx: [[isize; 2]; 3], sb4: usize, pub seen: usize, pub restored: usize }

/// Restoration parameters and units for a frame whose size, subsampling and superblocks are set already.
pub fn setup(s: &mut Src, f: &mut Frame, e: &mut EncoderContext) -> Lr {
    let w = f.frame_width;
    let big = e.use_128x128_superblock;
    let (ssx, ssy) = (f.subsampling_x, f.subsampling_y);
    f.use_superres = s.one_in(3);
    e.superres_denom = if f.use_superres { s.us(9, 16) } else { 8 };
    // the frame is coded downscaled; its width before that
    e.upscaled_width = if f.use_superres {
        let mut up = w * e.superres_denom / 8;
        while (up * 8 + e.superres_denom / 2) / e.superres_denom < w { up += 1; }
        up
    } else { w };
    let size = if big { s.pick(&[128usize, 256]) } else { s.pick(&[64usize, 128, 256]) };
    let uvshift = s.us(0, (ssx && ssy) as usize);
    e.loop_restoration_size = [size, size >> uvshift, size >> uvshift];
    for p in 0..3 { e.frame_restoration_type[p] = s.pick(&[RESTORE_NONE, RESTORE_WIENER, RESTORE_SGRPROJ, RESTORE_SWITCHABLE]); }
    // references: those of a tile start, or of the units before
    let fresh = s.bool();
    let coef = |s: &mut Src, lo: isize, hi: isize| s.biased_range(lo as i64, hi as i64) as isize;
    for p in 0..3 { for k in 0..2 {
        e.ref_sgr_xqd[p][k] = if fresh { X_MID[k] } else { coef(s, X_MIN[k], X_MAX[k]) };
        for j in 0..3 { e.ref_lr_wiener[p][k][j] = if fresh { W_MID[j] } else { coef(s, W_MIN[j], W_MAX[j]) }; }
    } }
    alloc(s, f, e)
}

/// The superblocks and restoration units of a frame whose restoration parameters are known.
pub fn alloc(s: &mut Src, f: &mut Frame, e: &EncoderContext) -> Lr {
    let (w, h) = (f.frame_width, f.frame_height);
    let big = e.use_128x128_superblock;
    let sb4 = if big { 32 } else { 16 };
    let (rows, cols) = (2 * ((h + 7) / 8), 2 * ((w + 7) / 8));
    let (ssx, ssy) = (f.subsampling_x, f.subsampling_y);
    let coef = |s: &mut Src, lo: isize, hi: isize| s.biased_range(lo as i64, hi as i64) as isize;
    // which units start in which superblock
    let planes = e.num_planes;
    let mut count = [(0, 0); 3];
    for p in 0..planes {
        let (sx, sy) = if p == 0 { (0, 0) } else { (ssx as usize, ssy as usize) };
        let u = e.loop_restoration_size[p];
        let n = |x: usize| ((x + u / 2) / u).max(1);
        count[p] = (n((h + sy) >> sy), n((e.upscaled_width + sx) >> sx));
    }
    let (srows, scols) = ((rows + sb4 - 1) / sb4, (cols + sb4 - 1) / sb4);
    let mut units: Vec<(usize, usize, Vec<Unit>)> = vec![];
    f.superblocks = vec![];
    for sr in 0..srows {
        let mut line = vec![];
        for sc in 0..scols {
            let mut sb = Superblock::new(if big { BlockSize::BLOCK_128X128 } else { BlockSize::BLOCK_64X64 }, sc * sb4 * 4, sr * sb4 * 4);
            let mut list = vec![];
            for p in 0..3 {
                let mut grid: Vec<Vec<LRUnit>> = vec![];
                if p < planes && e.frame_restoration_type[p] != RESTORE_NONE {
                    let (sx, sy) = if p == 0 { (0, 0) } else { (ssx as usize, ssy as usize) };
                    let u = e.loop_restoration_size[p];
                    // units whose first sample (in the upscaled frame) lies in this superblock
                    let den = if f.use_superres { e.superres_denom } else { 8 };
                    let in_rows: Vec<usize> = (0..count[p].0).filter(|k| { let y = k * u; y >= sr * sb4 * (4 >> sy) && y < (sr + 1) * sb4 * (4 >> sy) }).collect();
                    let in_cols: Vec<usize> = (0..count[p].1).filter(|k| { let x = k * u * 8; x >= sc * sb4 * (4 >> sx) * den && x < (sc + 1) * sb4 * (4 >> sx) * den }).collect();
                    for &y in &in_rows {
                        let mut g = vec![];
                        for &x in &in_cols {
                            let kind = match e.frame_restoration_type[p] {
                                RESTORE_SWITCHABLE => s.pick(&[RESTORE_NONE, RESTORE_WIENER, RESTORE_SGRPROJ]),
                                k => if s.one_in(3) { RESTORE_NONE } else { k },
                            };
                            let mut un = Unit { plane: p, row: y, col: x, kind, wiener: [[0; 3]; 2], set: s.below(16) as usize, xqd: [0; 2] };
                            for a in 0..2 { un.xqd[a] = coef(s, X_MIN[a], X_MAX[a]); for b in 0..3 { un.wiener[a][b] = coef(s, W_MIN[b], W_MAX[b]); } }
                            g.push(LRUnit { use_wiener: kind == RESTORE_WIENER, use_sgrproj: kind == RESTORE_SGRPROJ, restoration_type: kind, lr_sgr_set: un.set, lr_wiener: un.wiener, lr_sgr_xqd: un.xqd });
                            list.push(un);
                        }
                        grid.push(g);
                    }
                }
                sb.lr_units.push(grid);
            }
            line.push(sb);
            units.push((sr, sc, list));
        }
        f.superblocks.push(line);
    }
    f.lr_type = (0..3).map(|p| vec![vec![RESTORE_SWITCHABLE; count[p].1]; count[p].0]).collect();
    f.lr_wiener = (0..3).map(|p| vec![vec![vec![vec![99; 3]; 2]; count[p].1]; count[p].0]).collect();
    f.lr_sgr_set = (0..3).map(|p| vec![vec![99; count[p].1]; count[p].0]).collect();
    f.lr_sgr_xqd = (0..3).map(|p| vec![vec![vec![999; 2]; count[p].1]; count[p].0]).collect();
    Lr { units, rw: e.ref_lr_wiener, rx: e.ref_sgr_xqd, sb4, seen: 0, restored: 0 }
}

impl Lr {
    /// What a decoder starts a tile with.
    pub fn reset(&mut self, planes: usize) { for p in 0..planes { self.rw[p] = [W_MID; 2]; self.rx[p] = X_MID; } }
    pub fn same_refs(&self, e: &EncoderContext) -> Res {
        if e.ref_lr_wiener != self.rw || e.ref_sgr_xqd != self.rx { return Err("the references kept for the next restoration unit are not a decoder's".into()); }
        Ok(())
    }
    /// Reads the units of one superblock and compares them.
    pub fn read(&mut self, d: &mut Rd, f: &Frame, e: &EncoderContext, sr: usize, sc: usize, i: &mut Info) -> Res {
        if f.allow_intrabc { return Ok(()); }
        let (rw, rx) = (&mut self.rw, &mut self.rx);
        let list = &self.units.iter().find(|u| u.0 == sr && u.1 == sc).unwrap().2;
        for u in list {
            let p = u.plane;
            if e.frame_restoration_type[p] == RESTORE_NONE { continue; }
            let name = format!("frame {}x{} (upscaled width {}), superblock {},{} of {} samples, plane {}, unit {},{} of size {}", f.frame_width, f.frame_height, e.upscaled_width, sr, sc, self.sb4 * 4, p, u.row, u.col, e.loop_restoration_size[p]);
            let fail = |d: &Rd, m: String| -> Res { Err(d.err(format!("{}: {}", name, m))) };
            let kind = match e.frame_restoration_type[p] {
                RESTORE_WIENER => if d.sym("use_wiener", |c| &mut c.use_wiener[..])? == 1 { RESTORE_WIENER } else { RESTORE_NONE },
                RESTORE_SGRPROJ => if d.sym("use_sgrproj", |c| &mut c.use_sgrproj[..])? == 1 { RESTORE_SGRPROJ } else { RESTORE_NONE },
                _ => [RESTORE_NONE, RESTORE_WIENER, RESTORE_SGRPROJ][d.sym("restoration_type", |c| &mut c.restoration_type[..])?],
            };
            if kind != u.kind { return fail(&d, format!("type {} at a decoder, but {} here", kind as usize, u.kind as usize)); }
            if f.lr_type[p][u.row][u.col] != kind { return fail(&d, format!("type {} stored as {}", kind as usize, f.lr_type[p][u.row][u.col] as usize)); }
            self.seen += 1;
            if kind != RESTORE_NONE { self.restored += 1; }
            if kind == RESTORE_WIENER {
                for a in 0..2 {
                    for b in 0..3 {
                        let v = if p > 0 && b == 0 { 0 } else {
                            let v = subexp(d, "wiener", W_MIN[b], W_MAX[b], W_K[b], rw[p][a][b])?;
                            if v != u.wiener[a][b] { return fail(&d, format!("Wiener coefficient {},{} is {} at a decoder, but {} here (reference {})", a, b, v, u.wiener[a][b], rw[p][a][b])); }
                            rw[p][a][b] = v;
                            v
                        };
                        if f.lr_wiener[p][u.row][u.col][a][b] != v { return fail(&d, format!("Wiener coefficient {},{} stored as {} instead of {}", a, b, f.lr_wiener[p][u.row][u.col][a][b], v)); }
                    }
                }
            } else if kind == RESTORE_SGRPROJ {
                let set = d.lit("lr_sgr_set", 4)?;
                if set != u.set || f.lr_sgr_set[p][u.row][u.col] != set { return fail(&d, format!("filter set {} at a decoder, but {} here, stored as {}", set, u.set, f.lr_sgr_set[p][u.row][u.col])); }
                for a in 0..2 {
                    let v = if nothing(set, a) {
                        i.label("one filter of the set is off");
                        if a == 0 { 0 } else { (128 - rx[p][0]).max(X_MIN[1]).min(X_MAX[1]) }
                    } else {
                        let v = subexp(d, "sgrproj", X_MIN[a], X_MAX[a], 4, rx[p][a])?;
                        if v != u.xqd[a] { return fail(&d, format!("weight {} is {} at a decoder, but {} here (reference {})", a, v, u.xqd[a], rx[p][a])); }
                        v
                    };
                    rx[p][a] = v;
                    if f.lr_sgr_xqd[p][u.row][u.col][a] != v { return fail(&d, format!("weight {} stored as {} instead of {}", a, f.lr_sgr_xqd[p][u.row][u.col][a], v)); }
                }
            }
        }
        Ok(())
    }
}

fn units(s: &mut Src, i: &mut Info) -> Res {
    let size = if s.bool() { (s.us(1, 200), s.us(1, 200)) } else { (s.us(1, 520), s.us(1, 420)) };
    units_of(s, i, size)
}
fn units_far(s: &mut Src, i: &mut Info) -> Res { let size = far(s, 32768); units_of(s, i, size) }

fn units_of(s: &mut Src, i: &mut Info, (w, h): (usize, usize)) -> Res {
    let mut f = new_frame(w, h);
    let mut e = EncoderContext::new();
    e.use_128x128_superblock = s.bool();
    e.num_planes = if s.one_in(5) { 1 } else { 3 };
    let (ssx, ssy) = s.pick(&[(true, true), (false, false), (true, false)]);
    f.subsampling_x = ssx;
    f.subsampling_y = ssy;
    f.allow_intrabc = s.one_in(12);
    let big = e.use_128x128_superblock;
    let mut lr = setup(s, &mut f, &mut e);
    let start = base(s);
    let mark = s.below(1 << 16);
    let ectx = Rc::new(RefCell::new(e));
    let mut coder = BoolCoder::new();
    coder.init_encoder();
    let mut out = vec![];
    let left;
    let order: Vec<(usize, usize)> = lr.units.iter().map(|u| (u.0, u.1)).collect();
    {
        let mut te = TileEncoder::new(&ectx, &mut coder);
        te.cdf = *start;
        te.mi_row_end = f.mi_rows();
        te.mi_col_end = f.mi_cols();
        for &(sr, sc) in &order {
            te.encode_lr(&mut out, &mut f, sr * lr.sb4, sc * lr.sb4, if big { BlockSize::BLOCK_128X128 } else { BlockSize::BLOCK_64X64 });
        }
        left = boxed(&te.cdf);
    }
    seal(&mut coder, &mut out, mark);
    let mut d = Rd::new(&out, start)?;
    let e = ectx.borrow();
    for &(sr, sc) in &order { lr.read(&mut d, &f, &e, sr, sc, i)?; }
    lr.same_refs(&e)?;
    if f.use_superres && lr.seen > 0 { i.label("superres"); }
    if lr.seen > 6 { i.label("many units"); }
    i.evals += lr.seen as u64;
    i.nontrivial(lr.seen >= 2 && lr.restored > 0);
    i.desc(|| format!("{}x{}, {} units: {}", w, h, lr.seen, trunc(&d.log.join(" "), 300)));
    d.end(mark, &left)
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C27", level: "exploration",
        rule: "at least two units, one of them restored",
        assumptions: vec!["the caller has allocated the frame's superblocks and unit grids", "restoration units are at least as large as a superblock's chroma, coefficients within their ranges"],
        subs: vec![Sub::random("units of whole frames", 300_000, 1_500_000, units),
            Sub::random("units of wide and high frames", 1_000, 20_000, units_far)],
    }]
}
