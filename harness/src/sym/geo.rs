//! Block and transform geometry, modes and mode info, written from the AV1 syntax.
#![allow(dead_code)]
use av1enc::verif::common::MotionVector;
use av1enc::verif::constants::*;
use av1enc::verif::constants::BlockSize::*;
use av1enc::verif::constants::InterpFilter::*;
use av1enc::verif::constants::RefFrame::*;
use av1enc::verif::constants::TxSize::*;
use av1enc::verif::constants::TxType::*;
use av1enc::verif::constants::YMode::*;
use av1enc::verif::frame::Frame;
use harness::engine::*;

pub const BS: [(BlockSize, usize, usize); 22] = [
    (BLOCK_4X4, 4, 4), (BLOCK_4X8, 4, 8), (BLOCK_8X4, 8, 4), (BLOCK_8X8, 8, 8), (BLOCK_8X16, 8, 16), (BLOCK_16X8, 16, 8),
    (BLOCK_16X16, 16, 16), (BLOCK_16X32, 16, 32), (BLOCK_32X16, 32, 16), (BLOCK_32X32, 32, 32), (BLOCK_32X64, 32, 64),
    (BLOCK_64X32, 64, 32), (BLOCK_64X64, 64, 64), (BLOCK_64X128, 64, 128), (BLOCK_128X64, 128, 64), (BLOCK_128X128, 128, 128),
    (BLOCK_4X16, 4, 16), (BLOCK_16X4, 16, 4), (BLOCK_8X32, 8, 32), (BLOCK_32X8, 32, 8), (BLOCK_16X64, 16, 64), (BLOCK_64X16, 64, 16)];
pub const TS: [(TxSize, usize, usize); 19] = [
    (TX_4X4, 4, 4), (TX_8X8, 8, 8), (TX_16X16, 16, 16), (TX_32X32, 32, 32), (TX_64X64, 64, 64), (TX_4X8, 4, 8), (TX_8X4, 8, 4),
    (TX_8X16, 8, 16), (TX_16X8, 16, 8), (TX_16X32, 16, 32), (TX_32X16, 32, 16), (TX_32X64, 32, 64), (TX_64X32, 64, 32),
    (TX_4X16, 4, 16), (TX_16X4, 16, 4), (TX_8X32, 8, 32), (TX_32X8, 32, 8), (TX_16X64, 16, 64), (TX_64X16, 64, 16)];
pub const TT: [TxType; 16] = [DCT_DCT, ADST_DCT, DCT_ADST, ADST_ADST, FLIPADST_DCT, DCT_FLIPADST, FLIPADST_FLIPADST, ADST_FLIPADST,
    FLIPADST_ADST, IDTX, V_DCT, H_DCT, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST];
/// all modes: 0..=12 intra, 13 chroma from luma, 14..=17 single inter, 18..=25 compound inter
pub const YM: [YMode; 26] = [DC_PRED, V_PRED, H_PRED, D45_PRED, D135_PRED, D113_PRED, D157_PRED, D203_PRED, D67_PRED, SMOOTH_PRED,
    SMOOTH_V_PRED, SMOOTH_H_PRED, PAETH_PRED, UV_CFL_PRED, NEARESTMV, NEARMV, GLOBALMV, NEWMV, NEAREST_NEARESTMV, NEAR_NEARMV,
    NEAREST_NEWMV, NEW_NEARESTMV, NEAR_NEWMV, NEW_NEARMV, GLOBAL_GLOBALMV, NEW_NEWMV];
pub const RF: [RefFrame; 9] = [NONE, INTRA_FRAME, LAST_FRAME, LAST2_FRAME, LAST3_FRAME, GOLDEN_FRAME, BWDREF_FRAME, ALTREF2_FRAME, ALTREF_FRAME];
pub const IF: [InterpFilter; 4] = [EIGHTTAP, EIGHTTAP_SMOOTH, EIGHTTAP_SHARP, BILINEAR];
pub const PARTS: [Partition; 10] = [Partition::PARTITION_NONE, Partition::PARTITION_HORZ, Partition::PARTITION_VERT, Partition::PARTITION_SPLIT,
    Partition::PARTITION_HORZ_A, Partition::PARTITION_HORZ_B, Partition::PARTITION_VERT_A, Partition::PARTITION_VERT_B,
    Partition::PARTITION_HORZ_4, Partition::PARTITION_VERT_4];

pub fn lg(x: usize) -> usize { let mut n = 0; while x >> (n + 1) > 0 { n += 1; } n }
pub fn bname(i: usize) -> String { format!("{}x{}", BS[i].1, BS[i].2) }
pub fn tname(i: usize) -> String { format!("{}x{}", TS[i].1, TS[i].2) }

/// luma size group of a block: by its smaller side
pub fn group(i: usize) -> usize { (lg(BS[i].1.min(BS[i].2)) - 2).min(3) }

/// index of the transform size of this shape
pub fn tx_of(w: usize, h: usize) -> Option<usize> { TS.iter().position(|t| t.1 == w && t.2 == h) }
pub fn bs_of(w: usize, h: usize) -> Option<usize> { BS.iter().position(|t| t.1 == w && t.2 == h) }

/// the block a plane's residual covers; None where the format does not allow the shape
pub fn residual(i: usize, plane: usize, ssx: bool, ssy: bool) -> Option<usize> {
    let (_, w, h) = BS[i];
    if plane == 0 || !ssx && !ssy { return Some(i); }
    if ssx && ssy {
        return bs_of((w / 2).max(4), (h / 2).max(4));
    }
    if ssx { // 4:2:2 has no chroma blocks for upright shapes
        if h > w { return None; }
        return bs_of((w / 2).max(4), h);
    }
    None
}

pub fn tx_sqr(t: usize) -> usize { lg(TS[t].1.min(TS[t].2)) - 2 }
pub fn tx_sqr_up(t: usize) -> usize { lg(TS[t].1.max(TS[t].2)) - 2 }

/// 0 two-dimensional, 1 horizontal, 2 vertical
pub fn tx_class(t: TxType) -> usize {
    match t {
        V_DCT | V_ADST | V_FLIPADST => 2,
        H_DCT | H_ADST | H_FLIPADST => 1,
        _ => 0,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Set { DctOnly, Intra1, Intra2, Inter1, Inter2, Inter3 }

pub fn tx_set(t: usize, inter: bool, reduced: bool) -> Set {
    let (s, up) = (tx_sqr(t), tx_sqr_up(t));
    if up > 3 { return Set::DctOnly; }
    if inter {
        if reduced || up == 3 { Set::Inter3 } else if s == 2 { Set::Inter2 } else { Set::Inter1 }
    } else {
        if up == 3 { Set::DctOnly } else if reduced || s == 2 { Set::Intra2 } else { Set::Intra1 }
    }
}

/// the types of a set, in the order of their symbols
pub fn members(set: Set) -> Vec<TxType> {
    match set {
        Set::DctOnly => vec![DCT_DCT],
        Set::Intra1 => vec![IDTX, DCT_DCT, V_DCT, H_DCT, ADST_ADST, ADST_DCT, DCT_ADST],
        Set::Intra2 => vec![IDTX, DCT_DCT, ADST_ADST, ADST_DCT, DCT_ADST],
        Set::Inter1 => vec![IDTX, V_DCT, H_DCT, V_ADST, H_ADST, V_FLIPADST, H_FLIPADST, DCT_DCT, ADST_DCT, DCT_ADST, FLIPADST_DCT,
            DCT_FLIPADST, ADST_ADST, FLIPADST_FLIPADST, ADST_FLIPADST, FLIPADST_ADST],
        Set::Inter2 => vec![IDTX, V_DCT, H_DCT, DCT_DCT, ADST_DCT, DCT_ADST, FLIPADST_DCT, DCT_FLIPADST, ADST_ADST, FLIPADST_FLIPADST,
            ADST_FLIPADST, FLIPADST_ADST],
        Set::Inter3 => vec![IDTX, DCT_DCT],
    }
}

/// number of the set as the code names it
pub fn set_number(set: Set) -> usize {
    match set { Set::DctOnly => TX_SET_DCTONLY, Set::Intra1 => TX_SET_INTRA_1, Set::Intra2 => TX_SET_INTRA_2,
        Set::Inter1 => TX_SET_INTER_1, Set::Inter2 => TX_SET_INTER_2, Set::Inter3 => TX_SET_INTER_3 }
}

/// default transform type of a chroma mode
pub fn mode_tx(m: usize) -> TxType {
    match m { 0 | 3 | 13 => DCT_DCT, 1 | 5 | 8 | 10 => ADST_DCT, 2 | 6 | 7 | 11 => DCT_ADST, _ => ADST_ADST }
}

/// transform type a decoder derives; `at` gives the stored type of a 4x4 position (row, column)
pub fn derive_tx_type(plane: usize, t: usize, bx: usize, by: usize, ssx: bool, ssy: bool, lossless: bool, inter: bool, reduced: bool,
                      uv: usize, row: usize, col: usize, at: &dyn Fn(usize, usize) -> TxType) -> TxType {
    if lossless || tx_sqr_up(t) > 3 { return DCT_DCT; }
    let set = tx_set(t, inter, reduced);
    let ty = if plane == 0 { at(by, bx) }
        else if inter { at(row.max(by << ssy as usize), col.max(bx << ssx as usize)) }
        else { mode_tx(uv) };
    if members(set).contains(&ty) { ty } else { DCT_DCT }
}

/// the transform actually stored for 64-sample sides
pub fn tx_adjusted(t: usize) -> usize { tx_of(TS[t].1.min(32), TS[t].2.min(32)).unwrap() }

/// context offset of a coefficient position in a two-dimensional transform
pub fn base_offset(t: usize, row: usize, col: usize) -> usize {
    let (_, w, h) = TS[t];
    if row == 0 && col == 0 { return 0; }
    if w < h && row < 2 { 11 }
    else if w > h && col < 2 { 16 }
    else if row + col < 2 { 1 } else if row + col < 4 { 6 } else { 21 }
}

pub fn fresh_mi() -> ModeInfo {
    ModeInfo { mi_size: BLOCK_8X8, tx_size: TX_4X4, tx_type: DCT_DCT, is_inter: false, skip: false, intra: true, single: true,
        seg_id_predicted: 0, skip_mode: 0, ref_frame: [INTRA_FRAME, NONE], interp_filter: [EIGHTTAP; 2], level_context: [0; 3],
        dc_context: [0; 3], palette_size: [0; 3], comp_group_idx: 0, compound_idx: 0, segment_id: 0, y_mode: DC_PRED,
        mvs: [MotionVector::new(0, 0); 2] }
}

/// A mode info whose fields belong together: intra, inter-intra, single or compound inter.
pub fn gen_mi(s: &mut Src) -> ModeInfo {
    let mut m = fresh_mi();
    let b = s.below(22) as usize;
    m.mi_size = BS[b].0;
    m.tx_size = TS[s.below(19) as usize].0;
    m.tx_type = TT[s.below(16) as usize];
    m.skip = s.bool();
    m.seg_id_predicted = s.below(2) as usize;
    m.segment_id = s.below(8) as usize;
    m.interp_filter = [IF[s.below(4) as usize], IF[s.below(4) as usize]];
    for p in 0..3 {
        m.level_context[p] = match s.below(4) { 0 => 0, 1 => s.us(0, 5), 2 => s.us(0, 63), _ => s.us(0, 300) };
        m.dc_context[p] = s.us(0, 2);
    }
    match s.below(5) {
        0 | 1 => { // intra
            m.y_mode = YM[s.below(13) as usize];
            if s.bool() { m.palette_size = [s.us(0, 8), s.us(0, 8), 0]; }
        }
        2 => { // single inter
            m.is_inter = true; m.intra = false;
            m.ref_frame = [RF[s.us(2, 8)], if s.one_in(4) { INTRA_FRAME } else { NONE }];
            m.y_mode = YM[s.us(14, 17)];
        }
        _ => { // compound
            m.is_inter = true; m.intra = false; m.single = false;
            m.ref_frame = [RF[s.us(2, 8)], RF[s.us(2, 8)]];
            m.y_mode = YM[s.us(18, 25)];
            m.comp_group_idx = s.us(0, 1);
            m.compound_idx = s.us(0, 1);
            m.skip_mode = s.us(0, 1);
        }
    }
    if m.is_inter {
        for k in 0..2 {
            let (x, y) = (gen_mv(s), gen_mv(s));
            m.mvs[k] = MotionVector::new(x, y);
        }
    }
    m
}

pub fn gen_mv(s: &mut Src) -> isize {
    match s.below(4) { 0 => s.range(-3, 3) as isize, 1 => s.range(-20, 20) as isize, 2 => s.range(-2, 2) as isize * 8, _ => s.biased_range(-16383, 16383) as isize }
}

pub fn show(m: &Option<ModeInfo>) -> String {
    match m {
        None => "none".into(),
        Some(m) => format!("{{{} tx {} inter {} refs {},{} mode {} skip {} mvs ({},{}) ({},{})}}", bname(BS.iter().position(|b| b.0 == m.mi_size).unwrap()),
            tname(TS.iter().position(|b| b.0 == m.tx_size).unwrap()), m.is_inter, m.ref_frame[0] as isize, m.ref_frame[1] as isize,
            YM.iter().position(|y| *y == m.y_mode).unwrap(), m.skip, m.mvs[0].x, m.mvs[0].y, m.mvs[1].x, m.mvs[1].y),
    }
}

pub fn new_frame(w: usize, h: usize) -> Frame { Frame::new(FrameType::INTER_FRAME, w, h) }

/// A frame that is wide or high, up to the format's limit, and small in the other direction.
pub fn far(s: &mut Src, most: usize) -> (usize, usize) {
    let short = s.us(1, 140);
    // every order of magnitude, and just above each power of two
    let k = s.us(9, 16);
    let long = if s.bool() { s.us(1 << (k - 1), 1 << k) } else { (1usize << (k - 1)) + s.us(0, 300) }.min(most);
    if s.bool() { (long, short) } else { (short, long) }
}
