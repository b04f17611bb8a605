//! C26: the candidate vectors of a block.
use crate::geo::*;
use crate::p_block::{env, env_of, mv, Env, Mv, Prec};
use crate::rd::{rf, Mi};
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::block::PartitionTree;
use av1enc::verif::common::MotionVector;
use av1enc::verif::constants::*;
use av1enc::verif::constants::RefFrame::*;
use av1enc::verif::tile_encoder::TileEncoder;
use harness::engine::*;
use std::rc::Rc;

fn lower(p: Prec, v: isize) -> isize {
    if p.hp { return v; }
    if p.whole { return v.signum() * ((v.abs() + 3) / 8 * 8); }
    v / 2 * 2 // to the next even value towards 0
}
fn lowered(p: Prec, v: Mv) -> Mv { (lower(p, v.0), lower(p, v.1)) }
fn round_shift(v: isize, n: u32) -> isize { let h = 1isize << (n - 1); if v < 0 { -((-v + h) >> n) } else { (v + h) >> n } }
fn side(m: BlockSize) -> (usize, usize) { let b = BS.iter().find(|b| b.0 == m).unwrap(); (b.1, b.2) }
fn is_new(m: YMode) -> bool { let k = YM.iter().position(|y| *y == m).unwrap(); [17, 20, 21, 22, 23, 25].contains(&k) }

#[derive(Default)]
struct Model { stack: Vec<[Mv; 2]>, weight: Vec<usize>, new: usize, close: usize, zero: usize, globals: [Mv; 2] }

struct At<'a> { e: &'a Env, r: usize, c: usize, w4: usize, h4: usize, refs: [RefFrame; 2], compound: bool }

impl<'a> At<'a> {
    fn inside(&self, r: isize, c: isize) -> bool {
        r >= self.e.r0 as isize && r < self.e.r1 as isize && c >= self.e.c0 as isize && c < self.e.c1 as isize
    }
    fn at(&self, r: isize, c: isize) -> Mi { if self.inside(r, c) { self.e.f.mis[r as usize][c as usize] } else { None } }
    fn gm(&self, k: usize) -> usize { self.e.ectx.borrow().gm_type[rf(self.refs[k]) as usize] }

    fn global(&self, k: usize) -> Mv {
        let x = self.e.ectx.borrow();
        let n = rf(self.refs[k]) as usize;
        let g = x.gm_params[n];
        let v = match x.gm_type[n] {
            0 => (0, 0),
            1 => (g[0] >> 13, g[1] >> 13), // the first parameter moves rows, the second columns
            _ => {
                let px = (self.c * 4 + self.w4 * 2 - 1) as isize;
                let py = (self.r * 4 + self.h4 * 2 - 1) as isize;
                let xc = (g[2] - 65536) * px + g[3] * py + g[0];
                let yc = g[4] * px + (g[5] - 65536) * py + g[1];
                if self.e.prec.hp { (round_shift(yc, 13), round_shift(xc, 13)) } else { (round_shift(yc, 14) * 2, round_shift(xc, 14) * 2) }
            }
        };
        lowered(self.e.prec, v)
    }
    fn push(&self, m: &mut Model, v: [Mv; 2], w: usize) {
        let n = 1 + self.compound as usize;
        match m.stack.iter().position(|x| x[..n] == v[..n]) {
            Some(k) => m.weight[k] += w,
            None => if m.stack.len() < 8 { m.stack.push(v); m.weight.push(w); }
        }
    }
    /// Whether the block matched.
    fn candidate(&self, m: &mut Model, b: &ModeInfo, w: usize) -> bool {
        if !b.is_inter { return false; }
        let k = YM.iter().position(|y| *y == b.y_mode).unwrap();
        let mut hit = false;
        if self.compound {
            if b.ref_frame != self.refs { return false; }
            let mut v = [mv(&b.mvs[0]), mv(&b.mvs[1])];
            for i in 0..2 {
                if k == 24 && self.gm(i) > 1 { v[i] = m.globals[i]; }
                v[i] = lowered(self.e.prec, v[i]);
            }
            self.push(m, v, w);
            if is_new(b.y_mode) { m.new += 1; }
            return true;
        }
        for i in 0..2 {
            if b.ref_frame[i] != self.refs[0] { continue; }
            hit = true;
            let (bw, bh) = side(b.mi_size);
            let v = if (k == 16 || k == 24) && self.gm(0) > 1 && bw.min(bh) >= 8 { m.globals[0] } else { mv(&b.mvs[i]) };
            self.push(m, [lowered(self.e.prec, v), (0, 0)], w);
            if is_new(b.y_mode) { m.new += 1; }
        }
        hit
    }
    fn model(&self) -> Model {
        let mut m = Model::default();
        for k in 0..1 + self.compound as usize { m.globals[k] = self.global(k); }
        let (r, c) = (self.r as isize, self.c as isize);
        // along the row above and the column to the left, block by block
        let mut walk = |m: &mut Model, above: bool| -> bool {
            let (n4, limit) = if above { (self.w4, self.e.cols - self.c) } else { (self.h4, self.e.rows - self.r) };
            let mut i = 0;
            let mut hit = false;
            while i < n4.min(limit).min(16) {
                let (y, x) = if above { (r - 1, c + i as isize) } else { (r + i as isize, c - 1) };
                let b = match self.at(y, x) { Some(b) => b, None => break };
                let (bw, bh) = side(b.mi_size);
                let mut len = n4.min(if above { bw } else { bh } / 4);
                if n4 >= 16 { len = len.max(4); }
                hit |= self.candidate(m, &b, 2 * len);
                i += len;
            }
            hit
        };
        let mut above = walk(&mut m, true);
        let left = walk(&mut m, false);
        if self.w4.max(self.h4) <= 16 {
            if let Some(b) = self.at(r - 1, c + self.w4 as isize) { above |= self.candidate(&mut m, &b, 4); }
        }
        m.close = above as usize + left as usize;
        for w in m.weight.iter_mut() { *w += 640; }
        if self.e.f.use_ref_frame_mvs {
            let step = |n: usize| if n >= 16 { 4 } else { 2 };
            let x = self.e.ectx.borrow();
            for dr in (0..self.h4.min(16)).step_by(step(self.h4)) {
                for dc in (0..self.w4.min(16)).step_by(step(self.w4)) {
                    let (y, z) = ((self.r + dr) | 1, (self.c + dc) | 1);
                    if !self.inside(y as isize, z as isize) { continue; }
                    if dr == 0 && dc == 0 { m.zero = 1; }
                    let mut v = [(0, 0); 2];
                    let mut known = true;
                    for k in 0..1 + self.compound as usize {
                        let q = x.motion_field_mvs[rf(self.refs[k]) as usize][y / 2][z / 2];
                        if q.x == -32768 { known = false; }
                        v[k] = lowered(self.e.prec, mv(&q));
                    }
                    if !known { continue; }
                    if dr == 0 && dc == 0 {
                        let far = (0..1 + self.compound as usize).any(|k| (v[k].0 - m.globals[k].0).abs() >= 16 || (v[k].1 - m.globals[k].1).abs() >= 16);
                        m.zero = far as usize;
                    }
                    self.push(&mut m, v, 2);
                }
            }
        }
        m
    }
}

fn stack(s: &mut Src, i: &mut Info) -> Res { let e = env(s, true); stack_of(s, i, e) }
fn stack_far(s: &mut Src, i: &mut Info) -> Res { let size = far(s, 65536); let e = env_of(s, true, size); stack_of(s, i, e) }

fn stack_of(s: &mut Src, i: &mut Info, mut e: Env) -> Res {
    let refs = match s.below(4) {
        0 | 1 => [RF[s.us(2, 8)], NONE],
        2 => s.pick(&[[LAST_FRAME, LAST2_FRAME], [LAST_FRAME, LAST3_FRAME], [LAST_FRAME, GOLDEN_FRAME], [BWDREF_FRAME, ALTREF_FRAME]]),
        _ => [RF[s.us(2, 5)], RF[s.us(6, 8)]],
    };
    let mut compound = rf(refs[1]) > 0;
    let mut refs = refs;
    let mut bs = s.below(22) as usize;
    if BS[bs].1.max(BS[bs].2) > e.sb4 * 4 { bs = s.us(0, 11); }
    // as many candidates as there can be: 8x8 blocks all around a block of 32x32
    let crowded = compound && s.one_in(5);
    if crowded { bs = BS.iter().position(|b| b.1 == 32 && b.2 == 32).unwrap(); }
    if BS[bs].1.min(BS[bs].2) < 8 { compound = false; refs[1] = NONE; }
    let (w4, h4) = (BS[bs].1 / 4, BS[bs].2 / 4);
    let mut r = s.us(e.r0, e.r1 - 1) / h4 * h4;
    let mut c = s.us(e.c0, e.c1 - 1) / w4 * w4;
    if r < e.r0 { r = e.r0; }
    if c < e.c0 { c = e.c0; }
    // neighbours that often share the references, with few or many different vectors
    let few = s.bool();
    let rich = crowded || s.one_in(4); // nearly all share them, and hardly any two have the same vector
    let pool: Vec<ModeInfo> = (0..s.us(1, if few { 3 } else { 12 })).map(|_| {
        let mut m = gen_mi(s);
        if rich { for _ in 0..4 { if !m.is_inter { m = gen_mi(s); } } }
        if m.is_inter {
            let small = side(m.mi_size).0.min(side(m.mi_size).1) < 8;
            match if rich && !s.one_in(8) { 1 } else { s.below(4) } {
                0 => {}
                1 if compound => { m.ref_frame = refs; m.single = false; m.y_mode = YM[s.us(18, 25)]; }
                1 | 2 => { m.ref_frame = [refs[0], if s.one_in(4) { INTRA_FRAME } else { NONE }]; m.single = true; m.y_mode = YM[s.us(14, 17)]; }
                _ => { m.ref_frame = [RF[s.us(2, 8)], refs[0]]; m.single = false; m.y_mode = YM[s.us(18, 25)]; }
            }
            if small && rf(m.ref_frame[1]) > 0 { m.ref_frame[1] = NONE; m.single = true; m.y_mode = YM[s.us(14, 17)]; }
            if s.bool() { for k in 0..2 { m.mvs[k] = MotionVector::new(s.range(-12, 12) as isize, s.range(-1, 1) as isize); } }
            for k in 0..2 { m.mvs[k] = MotionVector::new(m.mvs[k].x / 2, m.mvs[k].y / 2); }
        }
        m
    }).collect();
    let mut g = Rng::new(s.u64());
    let fine = s.bool();
    for y in e.r0..e.r1 { for x in e.c0..e.c1 {
        let mut m = pool[(g.next() % pool.len() as u64) as usize];
        if fine && m.is_inter && rf(m.ref_frame[1]) <= 0 { m.mi_size = BS[[0, 3, 1, 2][(g.next() % 4) as usize]].0; }
        if rich && m.is_inter { for k in 0..2 { m.mvs[k] = MotionVector::new((g.next() % 64) as isize - 32, (g.next() % 64) as isize - 32); } }
        if crowded && m.is_inter && g.next() % 32 != 0 {
            if rf(m.ref_frame[1]) <= 0 { m.y_mode = YM[18 + (g.next() % 8) as usize]; }
            m.ref_frame = refs; m.single = false; m.mi_size = BlockSize::BLOCK_8X8;
        }
        e.f.mis[y][x] = Some(m);
    } }
    // what lies above and to the right may not be coded yet
    if r > e.r0 && s.bool() { for x in c + w4..e.c1 { e.f.mis[r - 1][x] = None; } }
    // a temporal vector near the global one
    let want = {
        let at = At { e: &e, r, c, w4, h4, refs, compound };
        let v = [at.global(0), if compound { at.global(1) } else { (0, 0) }];
        if s.bool() {
            for k in 0..1 + compound as usize {
                let d = (s.range(-17, 17) as isize, s.range(-17, 17) as isize);
                e.ectx.borrow_mut().motion_field_mvs[rf(refs[k]) as usize][(r | 1) / 2][(c | 1) / 2] = MotionVector::new(v[k].1 + d.1, v[k].0 + d.0);
            }
        }
        At { e: &e, r, c, w4, h4, refs, compound }.model()
    };
    let mut coder = BoolCoder::new();
    coder.init_encoder();
    let ectx = Rc::clone(&e.ectx);
    let mut te = TileEncoder::new(&ectx, &mut coder);
    te.mi_row_start = e.r0; te.mi_row_end = e.r1; te.mi_col_start = e.c0; te.mi_col_end = e.c1;
    te.mi_row = r; te.mi_col = c; te.mi_size = BS[bs].0; te.avail_u = r > e.r0; te.avail_l = c > e.c0;
    // what an earlier block left behind
    if s.bool() {
        te.num_mv_found = s.us(0, 8); te.new_mv_count = s.us(0, 9); te.found_match = s.bool(); te.close_matches = s.us(0, 2); te.zero_mv_context = s.us(0, 1);
        for k in 0..8 { te.weight_stack[k] = s.us(0, 700); for j in 0..2 { te.ref_stack_mv[k][j] = MotionVector::new(s.range(-12, 12) as isize, s.range(-1, 1) as isize); } }
    }
    let mut t = PartitionTree::new(BS[bs].0);
    t.ref_frame = refs;
    t.is_inter = true;
    te.find_mv_stack(compound, &mut e.f, &mut t);
    let n = 1 + compound as usize;
    let what = format!("{} at {},{} in tile rows {}..{} columns {}..{}, references {:?}", bname(bs), r, c, e.r0, e.r1, e.c0, e.c1, [rf(refs[0]), rf(refs[1])]);
    for k in 0..n { if mv(&te.global_mvs[k]) != want.globals[k] { return Err(format!("{}: global vector {} is {:?} instead of {:?} (type {}, parameters {:?})", what, k, mv(&te.global_mvs[k]), want.globals[k], ectx.borrow().gm_type[rf(refs[k]) as usize], ectx.borrow().gm_params[rf(refs[k]) as usize])); } }
    let got: Vec<Vec<Mv>> = te.ref_stack_mv[..te.num_mv_found.min(8)].iter().map(|x| x[..n].iter().map(mv).collect()).collect();
    let exp: Vec<Vec<Mv>> = want.stack.iter().map(|x| x[..n].to_vec()).collect();
    if got != exp { return Err(format!("{}: candidates {:?} instead of {:?}", what, got, exp)); }
    if te.weight_stack[..exp.len()] != want.weight[..] { return Err(format!("{}: weights {:?} instead of {:?}", what, &te.weight_stack[..exp.len()], want.weight)); }
    if te.new_mv_count != want.new { return Err(format!("{}: {} neighbours with new vectors instead of {}", what, te.new_mv_count, want.new)); }
    if te.close_matches != want.close { return Err(format!("{}: close matches {} instead of {}", what, te.close_matches, want.close)); }
    if te.zero_mv_context != want.zero { return Err(format!("{}: context of zero_mv {} instead of {}", what, te.zero_mv_context, want.zero)); }
    if exp.len() == 8 { i.label("stack full"); }
    if want.weight.len() == 8 && want.weight[7] >= 640 { i.label("eight nearest candidates"); }
    if compound { i.label("compound"); }
    if crowded && exp.len() == 8 && want.weight[7] >= 640 { i.label("compound, stack full of nearest candidates"); }
    if want.weight.iter().any(|w| *w < 640) { i.label("temporal candidate"); }
    if want.weight.iter().any(|w| *w > 640 + 64) { i.label("merged candidates"); }
    i.nontrivial(exp.len() >= 2);
    i.desc(|| format!("{}: candidates {:?} weights {:?}", what, exp, want.weight));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26", level: "exploration",
        rule: "at least two candidates",
        assumptions: vec!["all blocks of the tile above and to the left are coded; those above and to the right may not be", "blocks with a side of 4 have no compound references", "temporal vectors are absent in both components or in none"],
        subs: vec![Sub::random("candidates of generated neighbourhoods", 360_000, 3_000_000, stack),
            Sub::random("candidates in wide and high frames", 1_000, 20_000, stack_far)],
    }]
}
