//! C20: syntax elements whose distribution depends on the blocks above and to the left.
use harness::engine::*;
use crate::cdfs::*;
use crate::geo::*;
use av1enc::verif::constants::*;
use av1enc::verif::constants::RefFrame::*;
use av1enc::verif::constants::BlockSize::*;
use av1enc::verif::constants::TxSize::*;
use av1enc::verif::frame::Frame;

/// A frame in which every position holds some mode info, and the block at (row, col) has the given neighbours.
pub struct Near { pub f: Frame, pub row: usize, pub col: usize, pub above: Option<ModeInfo>, pub left: Option<ModeInfo>, pub cur: ModeInfo }

fn near_end(s: &mut Src, n: usize) -> usize { if s.one_in(4) { n - 1 } else { s.us(0, n - 1) } }

pub fn scene(s: &mut Src) -> Near {
    let size = match s.below(100) { 0 => (s.us(41, 900), s.us(1, 20)), 1 => (s.us(1, 20), s.us(41, 900)), 2 => (s.us(41, 200), s.us(41, 200)), 3 => s.pick(&[(4200, 8), (8, 4200)]), _ => (s.us(1, 40), s.us(1, 40)) };
    scene_of(s, size)
}

fn scene_of(s: &mut Src, (w, h): (usize, usize)) -> Near {
    let mut f = new_frame(w, h);
    let (rows, cols) = (2 * ((h + 7) / 8), 2 * ((w + 7) / 8));
    let (row, col) = (near_end(s, rows), near_end(s, cols));
    // decoys everywhere else: a few infos, repeated
    let few: Vec<Option<ModeInfo>> = (0..3).map(|_| Some(gen_mi(s))).collect();
    let k = s.us(0, 2);
    for r in 0..rows { for c in 0..cols { f.mis[r][c] = few[(r * 7 + c * 3 + k) % 3]; } }
    let cur = gen_mi(s);
    f.mis[row][col] = Some(cur);
    let mut near = |s: &mut Src| -> Option<ModeInfo> {
        match s.below(8) {
            0 => None,
            1 => { // the neighbour shares the current block's references
                let mut m = gen_mi(s);
                if cur.is_inter == m.is_inter && cur.single == m.single { m.ref_frame = cur.ref_frame; }
                Some(m)
            }
            _ => Some(gen_mi(s)),
        }
    };
    let above = if row == 0 { None } else { near(s) };
    let left = if col == 0 { None } else { near(s) };
    if row > 0 { f.mis[row - 1][col] = above; }
    if col > 0 { f.mis[row][col - 1] = left; }
    Near { f, row, col, above, left, cur }
}

fn rf(r: RefFrame) -> isize { r as isize }
fn back(r: RefFrame) -> bool { rf(r) >= 5 }
fn intra(m: &ModeInfo) -> bool { rf(m.ref_frame[0]) <= 0 }
fn single(m: &ModeInfo) -> bool { rf(m.ref_frame[1]) <= 0 }
fn count(n: &Near, r: &[RefFrame]) -> usize {
    [&n.above, &n.left].iter().map(|m| match m { Some(m) => m.ref_frame.iter().filter(|x| r.contains(x)).count(), None => 0 }).sum()
}
/// context from two groups of references: which one the neighbours use more
fn versus(n: &Near, a: &[RefFrame], b: &[RefFrame]) -> usize {
    match count(n, a).cmp(&count(n, b)) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, std::cmp::Ordering::Greater => 2 }
}
fn samedir(a: RefFrame, b: RefFrame) -> bool { rf(a) > 0 && rf(b) > 0 && back(a) == back(b) }
fn bsz(m: &ModeInfo) -> (usize, usize) { let b = BS.iter().find(|b| b.0 == m.mi_size).unwrap(); (b.1, b.2) }
fn tsz(m: &ModeInfo) -> (usize, usize) { let b = TS.iter().find(|b| b.0 == m.tx_size).unwrap(); (b.1, b.2) }

const N: u64 = 29;
const NAMES: [&str; N as usize] = ["tx_depth", "txfm_split", "seg_id_predicted", "is_inter", "comp_mode", "skip_mode", "skip", "comp_ref", "comp_ref_p1",
    "comp_ref_p2", "comp_bwdref", "comp_bwdref_p1", "single_ref_p1", "single_ref_p2", "single_ref_p3", "single_ref_p4", "single_ref_p5",
    "single_ref_p6", "uni_comp_ref", "uni_comp_ref_p1", "uni_comp_ref_p2", "comp_ref_type", "comp_group_idx", "compound_idx", "interp_filter",
    "has_palette_y", "txfm_split", "comp_ref_type", "interp_filter"];

fn element(e: u64, n: &mut Near, s: &mut Src, w: &mut W) -> Res {
    let (row, col) = (n.row, n.col);
    let (a, l) = (n.above, n.left);
    let bit = s.us(0, 1);
    let fwd = [LAST_FRAME, LAST2_FRAME, LAST3_FRAME, GOLDEN_FRAME];
    let bwd = [BWDREF_FRAME, ALTREF2_FRAME, ALTREF_FRAME];
    let what = format!("{} at {},{} above {} left {}", NAMES[e as usize], row, col, show(&a), show(&l));
    macro_rules! bitref { ($f:ident, $x:expr, |$c:ident, $k:ident| $leaf:expr) => {{
        let $k = $x;
        w.c.$f(&mut w.out, &mut w.a, bit, &mut n.f, row, col);
        w.expect(what, bit, |$c| &mut $leaf[..])
    }} }
    match e {
        0 => {
            let t = s.below(19) as usize;
            let depth = s.us(1, 4);
            let v = s.us(0, if depth == 1 { 1 } else { 2 });
            w.c.encode_tx_depth(&mut w.out, &mut w.a, row, col, TS[t].0, depth, &mut n.f, v);
            let aw = a.map(|m| if m.is_inter { bsz(&m).0 } else { tsz(&m).0 }).unwrap_or(0);
            let lh = l.map(|m| if m.is_inter { bsz(&m).1 } else { tsz(&m).1 }).unwrap_or(0);
            let x = (aw >= TS[t].1) as usize + (lh >= TS[t].2) as usize;
            let what = format!("{} largest {} depth {}", what, tname(t), depth);
            match depth {
                4 => w.expect(what, v, |c| &mut c.tx_64x64[x][..]), 3 => w.expect(what, v, |c| &mut c.tx_32x32[x][..]),
                2 => w.expect(what, v, |c| &mut c.tx_16x16[x][..]), _ => w.expect(what, v, |c| &mut c.tx_8x8[x][..]),
            }
        }
        1 | 26 => {
            // a transform inside the block: at its top or left edge, or further in
            let b = s.us(1, 21);
            let t = s.below(19) as usize;
            if TS[t].1 > BS[b].1 || TS[t].2 > BS[b].2 { return Ok(()); }
            let (rows, cols) = (n.f.mis.len(), n.f.mis[0].len());
            let r = if s.bool() { row } else { s.us(row, rows - 1) };
            let k = if s.bool() { col } else { s.us(col, cols - 1) };
            let up = if r > 0 { n.f.mis[r - 1][k] } else { None };
            let le = if k > 0 { n.f.mis[r][k - 1] } else { None };
            w.c.encode_txfm_split(&mut w.out, &mut w.a, r, k, row, col, &mut n.f, TS[t].0, BS[b].0, bit);
            let aw = if r == row { up.map(|m| if m.skip && m.is_inter { bsz(&m).0 } else { tsz(&m).0 }).unwrap_or(64) } else { tsz(&up.unwrap()).0 };
            let lh = if k == col { le.map(|m| if m.skip && m.is_inter { bsz(&m).1 } else { tsz(&m).1 }).unwrap_or(64) } else { tsz(&le.unwrap()).1 };
            let max = lg(BS[b].1.max(BS[b].2).min(64)) - 2;
            let x = if tx_sqr_up(t) != max && max > 1 { 3 } else { 0 } + (4 - max) * 6 + (aw < TS[t].1) as usize + (lh < TS[t].2) as usize;
            let what = format!("txfm_split of {} in {} at {},{} (block at {},{}) above {} left {}", tname(t), bname(b), r, k, row, col, show(&up), show(&le));
            w.expect(what, bit, |c| &mut c.txfm_split[x][..])
        }
        2 => {
            let x = a.map(|m| m.seg_id_predicted).unwrap_or(0) + l.map(|m| m.seg_id_predicted).unwrap_or(0);
            w.c.encode_seg_id_predicted(&mut w.out, &mut w.a, bit, row, col, &mut n.f);
            w.expect(what, bit, |c| &mut c.segment_id_predicted[x][..])
        }
        3 => {
            let x = match (&a, &l) {
                (Some(a), Some(l)) => if intra(a) && intra(l) { 3 } else if intra(a) || intra(l) { 1 } else { 0 },
                (Some(m), None) | (None, Some(m)) => if intra(m) { 2 } else { 0 },
                _ => 0,
            };
            w.c.encode_is_inter(&mut w.out, &mut w.a, bit == 1, row, col, &mut n.f);
            w.expect(what, bit, |c| &mut c.is_inter[x][..])
        }
        4 => {
            let x = match (&a, &l) {
                (Some(a), Some(l)) => match (single(a), single(l)) {
                    (true, true) => (back(a.ref_frame[0]) != back(l.ref_frame[0])) as usize,
                    (true, false) => 2 + (back(a.ref_frame[0]) || intra(a)) as usize,
                    (false, true) => 2 + (back(l.ref_frame[0]) || intra(l)) as usize,
                    _ => 4,
                },
                (Some(m), None) | (None, Some(m)) => if single(m) { back(m.ref_frame[0]) as usize } else { 3 },
                _ => 1,
            };
            bitref!(encode_comp_mode, x, |c, k| c.comp_mode[k])
        }
        5 => bitref!(encode_skip_mode, a.map(|m| m.skip_mode).unwrap_or(0) + l.map(|m| m.skip_mode).unwrap_or(0), |c, k| c.skip_mode[k]),
        6 => bitref!(encode_skip, a.map(|m| m.skip as usize).unwrap_or(0) + l.map(|m| m.skip as usize).unwrap_or(0), |c, k| c.skip[k]),
        7 => bitref!(encode_comp_ref, versus(n, &fwd[..2], &fwd[2..]), |c, k| c.comp_ref[k][0]),
        8 => bitref!(encode_comp_ref_p1, versus(n, &fwd[..1], &fwd[1..2]), |c, k| c.comp_ref[k][1]),
        9 => bitref!(encode_comp_ref_p2, versus(n, &fwd[2..3], &fwd[3..]), |c, k| c.comp_ref[k][2]),
        10 => bitref!(encode_comp_bwdref, versus(n, &bwd[..2], &bwd[2..]), |c, k| c.comp_bwd_ref[k][0]),
        11 => bitref!(encode_comp_bwdref_p1, versus(n, &bwd[..1], &bwd[1..2]), |c, k| c.comp_bwd_ref[k][1]),
        12 => bitref!(encode_single_ref_p1, versus(n, &fwd, &bwd), |c, k| c.single_ref[k][0]),
        13 => bitref!(encode_single_ref_p2, versus(n, &bwd[..2], &bwd[2..]), |c, k| c.single_ref[k][1]),
        14 => bitref!(encode_single_ref_p3, versus(n, &fwd[..2], &fwd[2..]), |c, k| c.single_ref[k][2]),
        15 => bitref!(encode_single_ref_p4, versus(n, &fwd[..1], &fwd[1..2]), |c, k| c.single_ref[k][3]),
        16 => bitref!(encode_single_ref_p5, versus(n, &fwd[2..3], &fwd[3..]), |c, k| c.single_ref[k][4]),
        17 => bitref!(encode_single_ref_p6, versus(n, &bwd[..1], &bwd[1..2]), |c, k| c.single_ref[k][5]),
        18 => bitref!(encode_uni_comp_ref, versus(n, &fwd, &bwd), |c, k| c.uni_comp_ref[k][0]),
        19 => bitref!(encode_uni_comp_ref_p1, versus(n, &fwd[1..2], &fwd[2..]), |c, k| c.uni_comp_ref[k][1]),
        20 => bitref!(encode_uni_comp_ref_p2, versus(n, &fwd[2..3], &fwd[3..]), |c, k| c.uni_comp_ref[k][2]),
        21 | 27 => {
            let comp = |m: &Option<ModeInfo>| m.map(|m| !intra(&m) && !single(&m)).unwrap_or(false);
            let uni = |m: &Option<ModeInfo>| comp(m) && m.map(|m| samedir(m.ref_frame[0], m.ref_frame[1])).unwrap();
            let inter = |m: &Option<ModeInfo>| m.map(|m| !intra(&m)).unwrap_or(false);
            let (ca, cl, ua, ul) = (comp(&a), comp(&l), uni(&a), uni(&l));
            let x = if inter(&a) && inter(&l) {
                let (ra, rl) = (a.unwrap().ref_frame[0], l.unwrap().ref_frame[0]);
                let same = samedir(ra, rl) as usize;
                match (ca, cl) {
                    (false, false) => 1 + 2 * same,
                    (false, true) => if ul { 3 + same } else { 1 },
                    (true, false) => if ua { 3 + same } else { 1 },
                    (true, true) => match (ua, ul) {
                        (false, false) => 0,
                        (true, true) => 3 + ((ra == BWDREF_FRAME) == (rl == BWDREF_FRAME)) as usize,
                        _ => 2,
                    },
                }
            } else if a.is_some() && l.is_some() {
                if ca { 1 + 2 * ua as usize } else if cl { 1 + 2 * ul as usize } else { 2 }
            } else if ca { 4 * ua as usize } else if cl { 4 * ul as usize } else { 2 };
            bitref!(encode_comp_ref_type, x, |c, k| c.comp_ref_type[k])
        }
        22 => {
            let f = |m: &Option<ModeInfo>| m.map(|m| if !single(&m) { m.comp_group_idx } else if m.ref_frame[0] == ALTREF_FRAME { 3 } else { 0 }).unwrap_or(0);
            bitref!(encode_comp_group_idx, (f(&a) + f(&l)).min(5), |c, k| c.comp_group_idx[k])
        }
        23 => {
            let on = !s.one_in(6);
            let bits = s.us(1, 8);
            let hints: Vec<usize> = (0..8).map(|_| s.below(1 << bits) as usize).collect();
            let cur = s.below(1 << bits) as usize;
            let mut refs = [s.us(1, 7), s.us(1, 7)];
            let mut hints = hints;
            if s.one_in(3) { // the two references at equal distance on either side, around the wrap
                let d = s.below(1 << (bits - 1)) as usize;
                if refs[0] == refs[1] { refs[1] = refs[0] % 7 + 1; }
                hints[refs[0]] = (cur + d) % (1 << bits);
                hints[refs[1]] = (cur + (1 << bits) - d) % (1 << bits);
            }
            let dist = |h: usize| -> i64 { // shortest way around the circle of order hints, half-way counting as behind
                if !on { return 0; }
                let m = 1i64 << bits;
                let d = (h as i64 - cur as i64).rem_euclid(m);
                (if d >= m / 2 { d - m } else { d }).abs()
            };
            let f = |m: &Option<ModeInfo>| m.map(|m| if !single(&m) { m.compound_idx } else { (m.ref_frame[0] == ALTREF_FRAME) as usize }).unwrap_or(0);
            let x = if dist(hints[refs[0]]) == dist(hints[refs[1]]) { 3 } else { 0 } + f(&a) + f(&l);
            w.c.encode_compound_idx(&mut w.out, &mut w.a, bit, &hints, cur, &[RF[refs[0] + 1], RF[refs[1] + 1]], &mut n.f, row, col, on, bits);
            w.expect(format!("{} order hints {:?} current {} of {} bits, references {:?}", what, hints, cur, bits, refs), bit, |c| &mut c.compound_idx[x][..])
        }
        24 | 28 => {
            let v = s.us(0, 2);
            let dir = s.us(0, 1);
            let me = n.cur.ref_frame;
            let f = |m: &Option<ModeInfo>| m.map(|m| if m.ref_frame.contains(&me[0]) { m.interp_filter[dir] as usize } else { 3 }).unwrap_or(3);
            let (fl, fa) = (f(&l), f(&a));
            let x = (dir * 2 + (rf(me[1]) > 0) as usize) * 4 + if fl == fa { fl } else if fl == 3 { fa } else if fa == 3 { fl } else { 3 };
            w.c.encode_interp_filter(&mut w.out, &mut w.a, IF[v], &mut n.f, row, col, dir);
            w.expect(format!("{} own {} direction {}", what, show(&Some(n.cur)), dir), v, |c| &mut c.interp_filter[x][..])
        }
        _ => {
            let k = s.us(0, 6);
            let p = |m: &Option<ModeInfo>| m.map(|m| (m.palette_size[0] > 0) as usize).unwrap_or(0);
            let x = p(&a) + p(&l);
            w.c.encode_has_palette_y(&mut w.out, &mut w.a, bit, &mut n.f, row, col, k);
            w.expect(what, bit, |c| &mut c.palette_y_mode[k][x][..])
        }
    }
}

fn all_infos(f: &Frame) -> u64 {
    let mut v = vec![];
    for r in &f.mis { for m in r { match m {
        None => v.push(u64::MAX),
        Some(m) => {
            v.push(m.mi_size as u64 | (m.tx_size as u64) << 8 | (m.tx_type as u64) << 16 | (m.y_mode as u64) << 24 | (m.is_inter as u64) << 32 | (m.skip as u64) << 33 | (m.single as u64) << 34 | (m.intra as u64) << 35
                | (m.seg_id_predicted as u64) << 36 | (m.skip_mode as u64) << 38 | (m.comp_group_idx as u64) << 40 | (m.compound_idx as u64) << 42 | (m.segment_id as u64) << 44 | ((m.interp_filter[0] as u64) << 50) | ((m.interp_filter[1] as u64) << 54));
            v.push((m.ref_frame[0] as isize + 1) as u64 | ((m.ref_frame[1] as isize + 1) as u64) << 8);
            for p in 0..3 { v.push(m.level_context[p] as u64 | (m.dc_context[p] as u64) << 16 | (m.palette_size[p] as u64) << 32); }
            for k in 0..2 { v.push(m.mvs[k].x as u64); v.push(m.mvs[k].y as u64); }
        }
    } } }
    hash64(&v)
}

fn near(s: &mut Src, i: &mut Info) -> Res { let n = scene(s); near_of(s, i, n) }
fn near_far(s: &mut Src, i: &mut Info) -> Res { let size = far(s, 65536); let n = scene_of(s, size); near_of(s, i, n) }

fn near_of(s: &mut Src, i: &mut Info, mut n: Near) -> Res {
    let mut w = W::new(s);
    let k = s.us(1, 10);
    let before = all_infos(&n.f);
    for _ in 0..k {
        let e = s.below(N);
        element(e, &mut n, s, &mut w)?;
    }
    i.evals += k as u64;
    if n.above.is_some() && n.left.is_some() { i.label("both neighbours"); }
    if n.above.is_none() && n.left.is_none() { i.label("no neighbour"); }
    i.nontrivial(w.len() >= 2 && (n.above.is_some() || n.left.is_some()));
    i.desc(|| w.log());
    let after = all_infos(&n.f);
    if before != after { return Err("coding an element changed the mode info of the frame".into()); }
    w.finish()
}

pub fn props() -> Vec<Prop> {
    let _ = (BLOCK_4X4, TX_4X4);
    vec![Prop {
        id: "C20", level: "exploration",
        rule: "at least two elements coded next to at least one available neighbour",
        assumptions: vec!["mode infos whose fields belong together (intra, inter-intra, single or compound references, their modes and flags)", "order hints of 1 to 8 bits"],
        subs: vec![Sub::random("elements next to generated neighbours", 400_000, 8_000_000, near),
            Sub::random("elements in wide and high frames", 1_000, 20_000, near_far)],
    }]
}
