//! C19: syntax elements whose distribution depends on the arguments only.
use harness::engine::*;
use crate::cdfs::*;
use crate::geo::*;
use av1enc::verif::constants::*;

pub fn joint(i: usize) -> MvJoint {
    match i { 0 => MvJoint::MV_JOINT_ZERO, 1 => MvJoint::MV_JOINT_HNZVZ, 2 => MvJoint::MV_JOINT_HZVNZ, _ => MvJoint::MV_JOINT_HNZVNZ }
}

pub const N: u64 = 55;
/// One element: chosen by number, coded by the code under test, stated by the syntax.
fn element(e: u64, s: &mut Src, w: &mut W, i: &mut Info) -> Res {
    let bs = s.below(22) as usize;
    let b = BS[bs].0;
    let mictx = [0usize, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0];
    macro_rules! one { ($what:expr, $sym:expr, |$c:ident| $leaf:expr) => {{ i.evals += 1; w.expect($what, $sym, |$c| &mut $leaf[..]) }} }
    match e {
        0 => {
            let (y, a, l) = (s.us(0, 12), s.us(0, 12), s.us(0, 12));
            w.c.encode_intra_frame_y_mode(&mut w.out, &mut w.a, YM[y], YM[a], YM[l]);
            one!(format!("intra_frame_y_mode above {} left {}", a, l), y, |c| c.intra_frame_y_mode[mictx[a]][mictx[l]])
        }
        1 => {
            let y = s.us(0, 12);
            w.c.encode_y_mode(&mut w.out, &mut w.a, YM[y], b);
            one!(format!("y_mode of {}", bname(bs)), y, |c| c.y_mode[group(bs)])
        }
        2 | 3 => {
            let lossless = s.bool();
            let (ssx, ssy) = s.pick(&[(true, true), (false, false), (true, false)]);
            let y = s.us(0, 12);
            let big = BS[bs].1.max(BS[bs].2) > 32;
            let res = residual(bs, 1, ssx, ssy);
            if lossless && res.is_none() { return Ok(()); }
            let cfl = if lossless { res == Some(0) } else { !big };
            let u = s.us(0, if cfl { 13 } else { 12 });
            w.c.encode_uv_mode(&mut w.out, &mut w.a, YM[u], YM[y], b, lossless, ssx, ssy);
            let what = format!("uv_mode of {} under luma mode {}, lossless {}, subsampling {}/{}", bname(bs), y, lossless, ssx, ssy);
            if cfl { i.label("cfl allowed"); one!(what, u, |c| c.uv_mode_cfl_allowed[y]) } else { one!(what, u, |c| c.uv_mode_cfl_not_allowed[y]) }
        }
        4 => {
            let (m, d) = (s.us(1, 8), s.us(0, 6));
            w.c.encode_angle_delta_y(&mut w.out, &mut w.a, YM[m], d);
            one!(format!("angle_delta_y of mode {}", m), d, |c| c.angle_delta[m - 1])
        }
        5 => {
            let (m, d) = (s.us(1, 8), s.us(0, 6));
            w.c.encode_angle_delta_uv(&mut w.out, &mut w.a, YM[m], d);
            one!(format!("angle_delta_uv of mode {}", m), d, |c| c.angle_delta[m - 1])
        }
        6 | 7 => {
            let side = s.pick(&[8usize, 16, 32, 64, 128]);
            let b = BS[bs_of(side, side).unwrap()].0;
            let (a, l) = (s.bool(), s.bool());
            let p = s.us(0, match side { 8 => 3, 128 => 7, _ => 9 });
            w.c.encode_partition(&mut w.out, &mut w.a, b, a, l, PARTS[p]);
            let x = 2 * l as usize + a as usize;
            let what = format!("partition of {} above {} left {}", side, a, l);
            match side {
                8 => one!(what, p, |c| c.partition_w8[x]),
                16 => one!(what, p, |c| c.partition_w16[x]),
                32 => one!(what, p, |c| c.partition_w32[x]),
                64 => one!(what, p, |c| c.partition_w64[x]),
                _ => one!(what, p, |c| c.partition_w128[x]),
            }
        }
        8 | 9 => {
            let side = s.pick(&[16usize, 32, 64, 128]);
            let b = BS[bs_of(side, side).unwrap()].0;
            let (a, l) = (s.bool(), s.bool());
            let x = 2 * l as usize + a as usize;
            let cdf: Vec<i32> = match side {
                16 => w.b.partition_w16[x].to_vec(), 32 => w.b.partition_w32[x].to_vec(), 64 => w.b.partition_w64[x].to_vec(), _ => w.b.partition_w128[x].to_vec() };
            let p = |k: usize| cdf[k] - if k > 0 { cdf[k - 1] } else { 0 };
            // of the partitions, those that split in the direction the edge demands
            let horz = e == 8;
            let mut parts = if horz { vec![2, 3, 4, 6, 7] } else { vec![1, 3, 4, 5, 6] };
            if side != 128 { parts.push(if horz { 9 } else { 8 }); }
            let psum: i32 = parts.into_iter().map(p).sum();
            let bit = s.us(0, 1);
            if psum <= 0 || psum >= 32768 { return Ok(()); }
            i.evals += 1;
            let v = vec![32768 - psum, 32768, 0];
            if horz {
                w.c.encode_split_or_horz(&mut w.out, &mut w.a, b, a, l, bit as i32);
                w.expect_fixed(format!("split_or_horz of {} above {} left {}", side, a, l), bit, v)
            } else {
                w.c.encode_split_or_vert(&mut w.out, &mut w.a, b, a, l, bit as i32);
                w.expect_fixed(format!("split_or_vert of {} above {} left {}", side, a, l), bit, v)
            }
        }
        10 | 11 => {
            let top = if s.bool() { 2 } else { 7 };
            let (u, l, ul) = (s.range(0, top), s.range(0, top), s.range(0, top));
            // a position outside the frame has no id; the corner has none unless both sides have one
            let (u, l, ul) = match s.below(6) { 0 => (-1, l, -1), 1 => (u, -1, -1), 2 => (-1, -1, -1), 3 => (u, l, -1), _ => (u, l, ul) };
            let id = s.us(0, 7);
            w.c.encode_segment_id(&mut w.out, &mut w.a, id, u as isize, l as isize, ul as isize);
            let x = if ul < 0 { 0 } else if ul == u && ul == l { 2 } else if ul == u || ul == l || u == l { 1 } else { 0 };
            one!(format!("segment_id above {} left {} corner {}", u, l, ul), id, |c| c.segment_id[x])
        }
        12 => { let (v, x) = (s.us(0, 1), s.us(0, 5)); w.c.encode_new_mv(&mut w.out, &mut w.a, v, x); one!(format!("new_mv {}", x), v, |c| c.new_mv[x]) }
        13 => { let (v, x) = (s.us(0, 1), s.us(0, 1)); w.c.encode_zero_mv(&mut w.out, &mut w.a, v, x); one!(format!("zero_mv {}", x), v, |c| c.zero_mv[x]) }
        14 => { let (v, x) = (s.us(0, 1), s.us(0, 5)); w.c.encode_ref_mv(&mut w.out, &mut w.a, v, x); one!(format!("ref_mv {}", x), v, |c| c.ref_mv[x]) }
        15 => {
            let stack: Vec<usize> = (0..8).map(|_| s.us(0, 2)).collect();
            let (v, k) = (s.us(0, 1), s.us(0, 7));
            w.c.encode_drl_mode(&mut w.out, &mut w.a, v, k, &stack);
            one!(format!("drl_mode {} of {:?}", k, stack), v, |c| c.drl_mode[stack[k]])
        }
        16 => { let v = s.us(0, 1); w.c.encode_use_filter_intra(&mut w.out, &mut w.a, v, bs); one!(format!("use_filter_intra {}", bname(bs)), v, |c| c.filter_intra[bs]) }
        17 => { let v = s.us(0, 4); w.c.encode_filter_intra_mode(&mut w.out, &mut w.a, v); one!("filter_intra_mode".into(), v, |c| c.filter_intra_mode) }
        18 | 19 => {
            let (r, n, v) = (s.us(0, 5), s.us(0, 5), s.us(0, 7));
            w.c.encode_compound_mode(&mut w.out, &mut w.a, v, r, n);
            let x = [[0usize, 1, 1, 1, 1], [1, 2, 3, 4, 4], [4, 4, 5, 6, 7]][r >> 1][n.min(4)];
            one!(format!("compound_mode ref_mv {} new_mv {}", r, n), v, |c| c.compound_mode[x])
        }
        20 => { let v = s.us(0, 2); w.c.encode_motion_mode(&mut w.out, &mut w.a, v, b); one!(format!("motion_mode {}", bname(bs)), v, |c| c.motion_mode[bs]) }
        21 => { let (v, m) = (s.us(0, 3), s.us(0, 1)); w.c.encode_mv_joint(&mut w.out, &mut w.a, joint(v), m); one!(format!("mv_joint {}", m), v, |c| c.mv_joint[m]) }
        22 => { let (v, m, k) = (s.us(0, 1), s.us(0, 1), s.us(0, 1)); w.c.encode_mv_sign(&mut w.out, &mut w.a, v, m, k); one!(format!("mv_sign {} {}", m, k), v, |c| c.mv_sign[m][k]) }
        23 => { let (v, m, k) = (s.us(0, 10), s.us(0, 1), s.us(0, 1)); w.c.encode_mv_class(&mut w.out, &mut w.a, v, m, k); one!(format!("mv_class {} {}", m, k), v, |c| c.mv_class[m][k]) }
        24 => { let (v, m, k) = (s.us(0, 1), s.us(0, 1), s.us(0, 1)); w.c.encode_mv_class0_bit(&mut w.out, &mut w.a, v, m, k); one!(format!("mv_class0_bit {} {}", m, k), v, |c| c.mv_class0_bit[m][k]) }
        25 => {
            // three symbols and a fourth, as the fractional part has a half, a quarter and both
            let (v, m, k, z) = (s.us(0, 3), s.us(0, 1), s.us(0, 1), s.us(0, 1));
            w.c.encode_mv_class0_fr(&mut w.out, &mut w.a, v, z, m, k);
            one!(format!("mv_class0_fr {} {} {}", m, k, z), v, |c| c.mv_class0_fr[m][k][z])
        }
        26 => { let (v, m, k) = (s.us(0, 1), s.us(0, 1), s.us(0, 1)); w.c.encode_mv_class0_hp(&mut w.out, &mut w.a, v, m, k); one!(format!("mv_class0_hp {} {}", m, k), v, |c| c.mv_class0_hp[m][k]) }
        27 => { let (v, m, k) = (s.us(0, 3), s.us(0, 1), s.us(0, 1)); w.c.encode_mv_fr(&mut w.out, &mut w.a, v, m, k); one!(format!("mv_fr {} {}", m, k), v, |c| c.mv_fr[m][k]) }
        28 => { let (v, m, k) = (s.us(0, 1), s.us(0, 1), s.us(0, 1)); w.c.encode_mv_hp(&mut w.out, &mut w.a, v, m, k); one!(format!("mv_hp {} {}", m, k), v, |c| c.mv_hp[m][k]) }
        29 => { let (v, m, k, n) = (s.us(0, 1), s.us(0, 1), s.us(0, 1), s.us(0, 9)); w.c.encode_mv_bit(&mut w.out, &mut w.a, v, n, m, k); one!(format!("mv_bit {} {} {}", m, k, n), v, |c| c.mv_bit[m][k][n]) }
        30 => { let (v, z) = (s.us(0, 1), s.us(0, 8)); w.c.encode_has_palette_uv(&mut w.out, &mut w.a, v, z); one!(format!("has_palette_uv, {} luma colours", z), v, |c| c.palette_uv_mode[(z > 0) as usize]) }
        31 => { let (v, x) = (s.us(0, 6), s.us(0, 6)); w.c.encode_palette_size_y_minus_2(&mut w.out, &mut w.a, v, x); one!(format!("palette_size_y {}", x), v, |c| c.palette_y_size[x]) }
        32 => { let (v, x) = (s.us(0, 6), s.us(0, 6)); w.c.encode_palette_size_uv_minus_2(&mut w.out, &mut w.a, v, x); one!(format!("palette_size_uv {}", x), v, |c| c.palette_uv_size[x]) }
        33 | 34 | 35 => {
            let n = s.us(2, 8);
            let (h, x) = s.pick(&[(2usize, 0usize), (5, 4), (6, 3), (7, 2), (8, 1)]);
            let v = s.us(0, n - 1);
            if s.bool() {
                w.c.encode_palette_color_idx_y(&mut w.out, &mut w.a, v, h, n);
                let what = format!("palette_color_idx_y of {} colours, hash {}", n, h);
                match n {
                    2 => one!(what, v, |c| c.palette_size_2_y_color[x]), 3 => one!(what, v, |c| c.palette_size_3_y_color[x]),
                    4 => one!(what, v, |c| c.palette_size_4_y_color[x]), 5 => one!(what, v, |c| c.palette_size_5_y_color[x]),
                    6 => one!(what, v, |c| c.palette_size_6_y_color[x]), 7 => one!(what, v, |c| c.palette_size_7_y_color[x]),
                    _ => one!(what, v, |c| c.palette_size_8_y_color[x]),
                }
            } else {
                w.c.encode_palette_color_idx_uv(&mut w.out, &mut w.a, v, h, n);
                let what = format!("palette_color_idx_uv of {} colours, hash {}", n, h);
                match n {
                    2 => one!(what, v, |c| c.palette_size_2_uv_color[x]), 3 => one!(what, v, |c| c.palette_size_3_uv_color[x]),
                    4 => one!(what, v, |c| c.palette_size_4_uv_color[x]), 5 => one!(what, v, |c| c.palette_size_5_uv_color[x]),
                    6 => one!(what, v, |c| c.palette_size_6_uv_color[x]), 7 => one!(what, v, |c| c.palette_size_7_uv_color[x]),
                    _ => one!(what, v, |c| c.palette_size_8_uv_color[x]),
                }
            }
        }
        36 => { let v = s.us(0, 3); w.c.encode_delta_q_abs(&mut w.out, &mut w.a, v); one!("delta_q_abs".into(), v, |c| c.delta_q) }
        37 | 38 => {
            let (v, multi, k) = (s.us(0, 3), s.bool(), s.us(0, 3));
            w.c.encode_delta_lf_abs(&mut w.out, &mut w.a, v, multi as usize, k);
            if multi { one!(format!("delta_lf_abs {} of several", k), v, |c| c.delta_lf_multi[k]) } else { one!("delta_lf_abs".into(), v, |c| c.delta_lf) }
        }
        39 => { let v = s.us(0, 1); w.c.encode_compound_type(&mut w.out, &mut w.a, v, b); one!(format!("compound_type {}", bname(bs)), v, |c| c.compound_type[bs]) }
        40 => { let v = s.us(0, 1); w.c.encode_interintra(&mut w.out, &mut w.a, v, b); one!(format!("interintra {}", bname(bs)), v, |c| c.inter_intra[group(bs)]) }
        41 => { let v = s.us(0, 3); w.c.encode_interintra_mode(&mut w.out, &mut w.a, v, b); one!(format!("interintra_mode {}", bname(bs)), v, |c| c.inter_intra_mode[group(bs)]) }
        42 => { let v = s.us(0, 15); w.c.encode_wedge_index(&mut w.out, &mut w.a, v, b); one!(format!("wedge_index {}", bname(bs)), v, |c| c.wedge_index[bs]) }
        43 => { let v = s.us(0, 1); w.c.encode_wedge_interintra(&mut w.out, &mut w.a, v, b); one!(format!("wedge_interintra {}", bname(bs)), v, |c| c.wedge_inter_intra[bs]) }
        44 => { let v = s.us(0, 1); w.c.encode_use_obmc(&mut w.out, &mut w.a, v, b); one!(format!("use_obmc {}", bname(bs)), v, |c| c.use_obmc[bs]) }
        45 => { let v = s.us(0, 7); w.c.encode_cfl_alpha_signs(&mut w.out, &mut w.a, v); one!("cfl_alpha_signs".into(), v, |c| c.cfl_sign) }
        46 | 47 => {
            // signs of the two chroma planes: 0 none, 1 negative, 2 positive, not both none
            let (u, v) = (s.us(1, 2), s.us(0, 2));
            let a = s.us(0, 15);
            w.c.encode_cfl_alpha_u(&mut w.out, &mut w.a, a, u * 3 + v - 1);
            one!(format!("cfl_alpha_u of signs {},{}", u, v), a, |c| c.cfl_alpha[(u - 1) * 3 + v])
        }
        48 | 49 => {
            let (u, v) = (s.us(0, 2), s.us(1, 2));
            let a = s.us(0, 15);
            w.c.encode_cfl_alpha_v(&mut w.out, &mut w.a, a, u * 3 + v - 1);
            one!(format!("cfl_alpha_v of signs {},{}", u, v), a, |c| c.cfl_alpha[(v - 1) * 3 + u])
        }
        50 => { let v = s.us(0, 1); w.c.encode_use_wiener(&mut w.out, &mut w.a, v); one!("use_wiener".into(), v, |c| c.use_wiener) }
        51 => { let v = s.us(0, 1); w.c.encode_use_sgrproj(&mut w.out, &mut w.a, v); one!("use_sgrproj".into(), v, |c| c.use_sgrproj) }
        52 => { let v = s.us(0, 2); w.c.encode_restoration_type(&mut w.out, &mut w.a, v); one!("restoration_type".into(), v, |c| c.restoration_type) }
        _ => { // a literal between the elements: even odds, nothing adapts
            let n = s.us(1, 8) as u8;
            let v = s.below(1 << n);
            w.c.encode_literal(&mut w.out, v, n);
            w.expect_literal("a literal", v, n as u32);
            w.same()
        }
    }
}

fn sequences(s: &mut Src, i: &mut Info) -> Res {
    let mut w = W::new(s);
    let n = if s.one_in(15) { s.us(13, 120) } else { s.us(1, 12) };
    let mut kinds = std::collections::BTreeSet::new();
    for _ in 0..n {
        let e = s.below(N);
        kinds.insert(e);
        element(e, s, &mut w, i)?;
    }
    i.nontrivial = kinds.len() >= 3 && w.len() >= 3;
    i.desc(|| w.log());
    w.finish()
}

/// The same element again and again: the adapted distribution is the one used next.
fn repeats(s: &mut Src, i: &mut Info) -> Res {
    let mut w = W::new(s);
    let e = s.below(N - 2);
    let n = if s.one_in(30) { s.us(61, 400) } else { s.us(2, 60) };
    for _ in 0..n { element(e, s, &mut w, i)?; }
    i.nontrivial = w.len() >= 10;
    i.desc(|| format!("{} times element {}", n, e));
    w.finish()
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19", level: "exploration",
        rule: "a sequence of at least three elements of three different kinds (mixed sequences), or at least ten symbols of one kind (repetitions)",
        assumptions: vec!["arguments within the ranges the syntax allows: modes of the element's alphabet, block sizes that exist, neighbouring segment ids of which the corner exists only where both sides do"],
        subs: vec![
            Sub::random("mixed sequences", 250_000, 5_000_000, sequences),
            Sub::random("repetitions", 60_000, 1_200_000, repeats),
        ],
    }]
}
