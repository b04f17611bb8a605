//! C21: the elements of a block of coefficients.
use harness::engine::*;
use crate::cdfs::*;
use crate::geo::*;
use av1enc::verif::constants::*;
use av1enc::verif::frame::Frame;

struct Blk { f: Frame, row: usize, col: usize, plane: usize, t: usize, x4: usize, y4: usize, lossless: bool, inter: bool, reduced: bool, uv: usize, ty: TxType, ssx: bool, ssy: bool,
    bs: usize, above: Option<ModeInfo>, left: Option<ModeInfo> }

fn blk(s: &mut Src) -> Blk {
    let size = match s.below(100) { 0 => (s.us(81, 900), s.us(1, 40)), 1 => (s.us(1, 40), s.us(81, 900)), _ => (s.us(1, 80), s.us(1, 80)) };
    blk_of(s, size)
}

fn blk_of(s: &mut Src, (w, h): (usize, usize)) -> Blk {
    let mut f = new_frame(w, h);
    let (ssx, ssy) = s.pick(&[(true, true), (false, false), (true, false)]);
    f.subsampling_x = ssx; f.subsampling_y = ssy;
    let (rows, cols) = (2 * ((h + 7) / 8), 2 * ((w + 7) / 8));
    let plane = s.us(0, 2);
    let (mut row, mut col) = (s.us(0, rows - 1), s.us(0, cols - 1));
    // the chroma of a pair of 4-sample blocks belongs to the second, which is at an odd position
    if plane > 0 && !s.one_in(3) { row &= !1; col &= !1; }
    let above = if row == 0 || s.one_in(8) { None } else { Some(gen_mi(s)) };
    let left = if col == 0 || s.one_in(8) { None } else { Some(gen_mi(s)) };
    let inside: Vec<ModeInfo> = (0..4).map(|_| gen_mi(s)).collect();
    for r in 0..rows { for c in 0..cols {
        f.mis[r][c] = if r >= row && c >= col { Some(inside[(r * 3 + c * 5) % 4]) } else if r < row && c >= col { above } else if c < col && r >= row { left } else { Some(inside[(r + c) % 4]) };
    } }
    // a block and a transform that fits its residual in this plane
    let mut bs = s.below(22) as usize;
    while residual(bs, plane, ssx, ssy).is_none() { bs = (bs + 1) % 22; }
    let rb = BS[residual(bs, plane, ssx, ssy).unwrap()];
    let fit: Vec<usize> = (0..19).filter(|t| TS[*t].1 <= rb.1 && TS[*t].2 <= rb.2).collect();
    let t = if s.one_in(3) { tx_of(rb.1.min(64), rb.2.min(64)).unwrap_or(0) } else { s.pick(&fit) };
    let (sx, sy) = if plane > 0 { (ssx as usize, ssy as usize) } else { (0, 0) };
    let x4 = s.us(col >> sx, (cols >> sx) - 1);
    let y4 = s.us(row >> sy, (rows >> sy) - 1);
    let (lossless, inter, reduced, uv) = (s.one_in(8), s.bool(), s.one_in(4), s.us(0, 13));
    let ty = { let at = |r: usize, c: usize| f.mis[r][c].unwrap().tx_type;
        derive_tx_type(plane, t, x4, y4, ssx, ssy, lossless, inter, reduced, uv, row, col, &at) };
    Blk { f, row, col, plane, t, x4, y4, lossless, inter, reduced, uv, ty, ssx, ssy, bs, above, left }
}

fn quant(s: &mut Src, n: usize, signed: bool) -> Vec<isize> {
    let dense = s.us(1, 6);
    let top = s.pick(&[1i64, 2, 3, 4, 14, 15, 16, 40, 300, 5000, 70_000, 1 << 20]);
    let mut r = Rng::new(s.u64());
    (0..n).map(|_| if r.next() as usize % 6 >= dense { 0 } else { let v = 1 + (r.next() % top as u64) as isize; if signed && r.next() & 1 == 1 { -v } else { v } }).collect()
}

const SIG: [[(usize, usize); 5]; 3] = [[(0, 1), (1, 0), (1, 1), (0, 2), (2, 0)], [(0, 1), (1, 0), (0, 2), (0, 3), (0, 4)], [(1, 0), (0, 1), (2, 0), (3, 0), (4, 0)]];
const MAG: [[(usize, usize); 3]; 3] = [[(0, 1), (1, 0), (1, 1)], [(0, 1), (1, 0), (0, 2)], [(0, 1), (1, 0), (2, 0)]];

fn element(e: u64, b: &mut Blk, s: &mut Src, w: &mut W, i: &mut Info) -> Res {
    let (t, p, pt) = (b.t, b.plane, (b.plane > 0) as usize);
    let tc = (tx_sqr(t) + tx_sqr_up(t) + 1) >> 1;
    let (tw, th) = (TS[t].1, TS[t].2);
    let cls = tx_class(b.ty);
    let adj = tx_adjusted(t);
    let (aw, ah) = (TS[adj].1, TS[adj].2);
    let (cols, rows) = if p > 0 { (b.f.mis[0].len() >> b.ssx as usize, b.f.mis.len() >> b.ssy as usize) } else { (b.f.mis[0].len(), b.f.mis.len()) };
    let base = format!("plane {} tx {} in {} at {},{} type {} lossless {} inter {} reduced {} uv mode {}", p, tname(t), bname(b.bs), b.y4, b.x4,
        TT.iter().position(|x| *x == b.ty).unwrap(), b.lossless, b.inter, b.reduced, b.uv);
    if cls != 0 { i.label("one-dimensional transform"); }
    if tw == 64 || th == 64 { i.label("64-sample transform"); }
    macro_rules! eob { ($f:ident, $leaf:ident, $n:expr) => {{
        let v = s.us(0, $n);
        w.c.$f(&mut w.out, &mut w.a, v, &mut b.f, b.row, b.col, YM[b.uv], b.lossless, b.inter, b.reduced, p, TS[t].0, b.x4, b.y4, pt);
        w.expect(format!("{} {}", stringify!($leaf), base), v, |c| &mut c.$leaf[0][pt][(cls != 0) as usize][..])
    }} }
    match e {
        0 | 1 => {
            let v = s.us(0, 1);
            w.c.encode_all_zero(&mut w.out, &mut w.a, v, p, TS[t].0, tc, &mut b.f, BS[b.bs].0, b.row, b.col, tw / 4, th / 4, b.x4, b.y4);
            let rb = BS[residual(b.bs, p, b.ssx, b.ssy).unwrap()];
            let g = |m: &Option<ModeInfo>| m.map(|m| (m.level_context[p].min(255), m.dc_context[p])).unwrap_or((0, 0));
            let ((la, da), (ll, dl)) = (g(&b.above), g(&b.left));
            let x = if p == 0 {
                let (lo, hi) = (la.min(ll), la.max(ll));
                if rb.1 == tw && rb.2 == th { 0 } else if hi == 0 { 1 } else if lo == 0 { if hi > 3 { 3 } else { 2 } } else if hi <= 3 { 4 } else if lo <= 3 { 5 } else { 6 }
            } else {
                7 + (la != 0 || da != 0) as usize + (ll != 0 || dl != 0) as usize + if rb.1 * rb.2 > tw * th { 3 } else { 0 }
            };
            w.expect(format!("all_zero {} above {:?} left {:?}", base, (la, da), (ll, dl)), v, |c| &mut c.txb_skip[0][tc][x][..])
        }
        2 => eob!(encode_eob_pt_16, eob_pt_16, 4),
        3 => eob!(encode_eob_pt_32, eob_pt_32, 5),
        4 => eob!(encode_eob_pt_64, eob_pt_64, 6),
        5 => eob!(encode_eob_pt_128, eob_pt_128, 7),
        6 => eob!(encode_eob_pt_256, eob_pt_256, 8),
        7 => eob!(encode_eob_pt_512, eob_pt_512, 9),
        8 => eob!(encode_eob_pt_1024, eob_pt_1024, 10),
        9 => {
            let (v, k) = (s.us(0, 1), s.us(0, 11));
            w.c.encode_eob_extra(&mut w.out, &mut w.a, v, tc, pt, k);
            w.expect(format!("eob_extra {} of eob_pt {}", base, k), v, |c| &mut c.eob_extra[0][tc][pt][k][..])
        }
        10 | 11 | 12 => {
            let q = quant(s, aw * ah, true);
            let n = aw * ah;
            let (r, k) = match s.below(4) { 0 => (0, 0), 1 => (s.us(0, 4).min(ah - 1), s.us(0, 4).min(aw - 1)), 2 => (s.us(0, ah - 1), s.us(0, aw - 1)), _ => (ah - 1 - s.us(0, 3), aw - 1 - s.us(0, 3)) };
            let pos = r * aw + k;
            let c = s.us(0, 3);
            let mut scan = vec![0usize; c + 1 + s.us(0, 2)];
            for (j, x) in scan.iter_mut().enumerate() { *x = (pos + j * 7 + 1) % n; }
            scan[c] = pos;
            let v = s.us(0, 3);
            w.c.encode_coeff_base(&mut w.out, &mut w.a, v, TS[t].0, tc, pt, p, b.x4, b.y4, &scan, c, &mut b.f, b.lossless, b.inter, b.reduced, YM[b.uv], b.row, b.col, &q);
            let mag: usize = SIG[cls].iter().map(|(dr, dc)| if r + dr < ah && k + dc < aw { (q[(r + dr) * aw + k + dc].abs() as usize).min(3) } else { 0 }).sum();
            let m = ((mag + 1) >> 1).min(4);
            let x = match cls { 0 => if pos == 0 { 0 } else { m + base_offset(t, r, k) }, 1 => m + [26, 31, 36][k.min(2)], _ => m + [26, 31, 36][r.min(2)] };
            w.expect(format!("coeff_base {} at row {} column {} with neighbours adding up to {}", base, r, k, mag), v, |z| &mut z.coeff_base[0][tc][pt][x][..])
        }
        13 | 14 => {
            let n = aw * ah;
            let c = match s.below(4) { 0 => 0, 1 => (n / 8 + s.us(0, 2)).saturating_sub(1), 2 => (n / 4 + s.us(0, 2)).saturating_sub(1), _ => s.us(0, n - 1) }.min(n - 1);
            let scan: Vec<usize> = (0..n).collect();
            let q = vec![0isize; n];
            let v = s.us(0, 2);
            w.c.encode_coeff_base_eob(&mut w.out, &mut w.a, v, TS[t].0, tc, pt, p, b.x4, b.y4, &scan, c, &mut b.f, b.lossless, b.inter, b.reduced, YM[b.uv], b.row, b.col, &q);
            let x = if c == 0 { 0 } else if c <= n / 8 { 1 } else if c <= n / 4 { 2 } else { 3 };
            w.expect(format!("coeff_base_eob {} at scan position {} of {}", base, c, n), v, |z| &mut z.coeff_base_eob[0][tc][pt][x][..])
        }
        15 | 16 => {
            let v = s.us(0, 1);
            w.c.encode_dc_sign(&mut w.out, &mut w.a, v, pt, &mut b.f, p, b.row, b.col, tw / 4, th / 4, b.x4, b.y4);
            let g = |m: &Option<ModeInfo>, n: usize| m.map(|m| match m.dc_context[p] { 1 => -(n as i64), 2 => n as i64, _ => 0 }).unwrap_or(0);
            let sum = g(&b.above, (tw / 4).min(cols - b.x4)) + g(&b.left, (th / 4).min(rows - b.y4));
            let x = if sum < 0 { 1 } else if sum > 0 { 2 } else { 0 };
            w.expect(format!("dc_sign {} with neighbours adding up to {}", base, sum), v, |c| &mut c.dc_sign[0][pt][x][..])
        }
        17 | 18 | 19 => {
            let q = quant(s, aw * ah, false);
            let (r, k) = match s.below(4) { 0 => (0, 0), 1 => (s.us(0, 2), s.us(0, 2)), 2 => (s.us(0, ah - 1), s.us(0, aw - 1)), _ => (ah - 1 - s.us(0, 3), aw - 1 - s.us(0, 3)) };
            let pos = r * aw + k;
            let v = s.us(0, 3);
            w.c.encode_coeff_br(&mut w.out, &mut w.a, v, &mut b.f, tc, b.lossless, b.inter, b.reduced, YM[b.uv], pos, pt, TS[t].0, b.x4, b.y4, p, &q, b.row, b.col);
            let mag: usize = MAG[cls].iter().map(|(dr, dc)| if r + dr < ah && k + dc < aw { (q[(r + dr) * aw + k + dc] as usize).min(15) } else { 0 }).sum();
            let m = ((mag + 1) >> 1).min(6);
            let near = match cls { 0 => r < 2 && k < 2, 1 => k == 0, _ => r == 0 };
            let x = if pos == 0 { m } else if near { m + 7 } else { m + 14 };
            w.expect(format!("coeff_br {} at row {} column {} with neighbours adding up to {}", base, r, k, mag), v, |z| &mut z.coeff_br[0][tc.min(3)][pt][x][..])
        }
        20 | 21 => {
            let set = tx_set(t, false, b.reduced);
            if set == Set::DctOnly { return Ok(()); }
            let m = members(set);
            let v = s.below(m.len() as u64) as usize;
            let (filter, fm, y) = (s.one_in(3), s.us(0, 4), s.us(0, 12));
            w.c.encode_intra_tx_type(&mut w.out, &mut w.a, m[v], set_number(set), TS[t].0, filter, fm, YM[y]);
            let dir = if filter { [0usize, 1, 2, 6, 0][fm] } else { y };
            let k = tx_sqr(t);
            let what = format!("intra_tx_type of {} in {:?}, filter {} {}, mode {}", tname(t), set, filter, fm, y);
            if set == Set::Intra1 { w.expect(what, v, |c| &mut c.intra_tx_type_set1[k][dir][..]) } else { w.expect(what, v, |c| &mut c.intra_tx_type_set2[k][dir][..]) }
        }
        _ => {
            let set = tx_set(t, true, b.reduced);
            if set == Set::DctOnly { return Ok(()); }
            let m = members(set);
            let v = s.below(m.len() as u64) as usize;
            w.c.encode_inter_tx_type(&mut w.out, &mut w.a, m[v], TS[t].0, set_number(set));
            let k = tx_sqr(t);
            let what = format!("inter_tx_type of {} in {:?}", tname(t), set);
            match set { Set::Inter1 => w.expect(what, v, |c| &mut c.inter_tx_type_set1[k][..]), Set::Inter2 => w.expect(what, v, |c| &mut c.inter_tx_type_set2[k][..]),
                _ => w.expect(what, v, |c| &mut c.inter_tx_type_set3[k][..]) }
        }
    }
}

fn coefs(s: &mut Src, i: &mut Info) -> Res { let w = W::new(s); let b = blk(s); coefs_of(s, i, w, b) }
fn coefs_far(s: &mut Src, i: &mut Info) -> Res { let w = W::new(s); let size = far(s, 65536); let b = blk_of(s, size); coefs_of(s, i, w, b) }

fn coefs_of(s: &mut Src, i: &mut Info, mut w: W, mut b: Blk) -> Res {
    let k = s.us(1, 10);
    let odd = b.plane > 0 && (b.row | b.col) & 1 == 1;
    if odd { i.label("chroma of an odd position"); }
    for _ in 0..k { let mut e = s.below(24); if odd && [0, 1, 15, 16].contains(&e) { e += 2; } element(e, &mut b, s, &mut w, i)?; }
    i.evals += k as u64;
    i.nontrivial(w.len() >= 2);
    i.desc(|| w.log());
    w.finish()
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21", level: "exploration",
        rule: "at least two elements coded for one transform block",
        assumptions: vec!["distributions of the first quantizer range, the only one the encoder uses", "transforms that fit their block; every neighbouring position along an edge has the same contexts, the granularity the encoder keeps",
            "coefficient magnitudes, without sign, for coeff_br"],
        subs: vec![Sub::random("elements of generated transform blocks", 400_000, 8_000_000, coefs),
            Sub::random("elements in wide and high frames", 1_000, 20_000, coefs_far)],
    }]
}
