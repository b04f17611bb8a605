//! The set of adaptive distributions, seen as named leaves.
#![allow(dead_code)]
use harness::engine::*;
use harness::refcoder::*;
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::cdf::{default_cdf, CDF};
use std::sync::OnceLock;

/// Visits every distribution (innermost array) of a field.
pub trait Leaves { fn visit(&mut self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &mut [i32])); }
impl<const N: usize> Leaves for [i32; N] {
    fn visit(&mut self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &mut [i32])) { f(path, &mut self[..]) }
}
impl<T: Leaves, const N: usize> Leaves for [T; N] {
    fn visit(&mut self, path: &mut Vec<usize>, f: &mut dyn FnMut(&[usize], &mut [i32])) {
        for i in 0..N { path.push(i); self[i].visit(path, f); path.pop(); }
    }
}

macro_rules! fields { ($($n:ident)*) => {
    pub const FIELDS: &[&str] = &[$(stringify!($n)),*];
    pub fn for_each_leaf(c: &mut CDF, f: &mut dyn FnMut(&'static str, &[usize], &mut [i32])) {
        $( c.$n.visit(&mut vec![], &mut |p, l| f(stringify!($n), p, l)); )*
    }
} }
fields! {
    intra_frame_y_mode
    y_mode
    uv_mode_cfl_not_allowed
    uv_mode_cfl_allowed
    angle_delta
    intrabc
    partition_w8
    partition_w16
    partition_w32
    partition_w64
    partition_w128
    tx_8x8
    tx_16x16
    tx_32x32
    tx_64x64
    txfm_split
    filter_intra_mode
    filter_intra
    segment_id
    segment_id_predicted
    mv_class0_hp
    mv_hp
    mv_sign
    mv_bit
    mv_class0_bit
    new_mv
    zero_mv
    ref_mv
    drl_mode
    is_inter
    comp_mode
    skip_mode
    skip
    comp_ref
    comp_bwd_ref
    single_ref
    compound_mode
    interp_filter
    motion_mode
    mv_joint
    mv_class
    mv_class0_fr
    mv_fr
    palette_y_size
    palette_uv_size
    palette_size_2_y_color
    palette_size_3_y_color
    palette_size_4_y_color
    palette_size_5_y_color
    palette_size_6_y_color
    palette_size_7_y_color
    palette_size_8_y_color
    palette_size_2_uv_color
    palette_size_3_uv_color
    palette_size_4_uv_color
    palette_size_5_uv_color
    palette_size_6_uv_color
    palette_size_7_uv_color
    palette_size_8_uv_color
    palette_y_mode
    palette_uv_mode
    delta_q
    delta_lf
    delta_lf_multi
    intra_tx_type_set1
    intra_tx_type_set2
    inter_tx_type_set1
    inter_tx_type_set2
    inter_tx_type_set3
    compound_idx
    comp_group_idx
    compound_type
    inter_intra
    inter_intra_mode
    wedge_index
    wedge_inter_intra
    use_obmc
    comp_ref_type
    uni_comp_ref
    cfl_sign
    cfl_alpha
    use_wiener
    use_sgrproj
    restoration_type
    txb_skip
    eob_pt_16
    eob_pt_32
    eob_pt_64
    eob_pt_128
    eob_pt_256
    eob_pt_512
    eob_pt_1024
    eob_extra
    dc_sign
    coeff_base_eob
    coeff_base
    coeff_br
}

pub fn raw(c: &CDF) -> &[u8] { unsafe { std::slice::from_raw_parts(c as *const CDF as *const u8, std::mem::size_of::<CDF>()) } }

pub fn boxed(c: &CDF) -> Box<CDF> { Box::new(*c) }

/// Where two sets differ, by name.
pub fn diff(a: &CDF, b: &CDF) -> Vec<String> {
    let mut va: Vec<(String, Vec<i32>)> = vec![];
    let mut out = vec![];
    for_each_leaf(&mut *boxed(a), &mut |n, p, l| va.push((format!("{}{:?}", n, p), l.to_vec())));
    let mut i = 0;
    for_each_leaf(&mut *boxed(b), &mut |_, _, l| { if va[i].1 != l { out.push(format!("{}: {:?} instead of {:?}", va[i].0, va[i].1, l)); } i += 1; });
    out
}

/// A set in which every distribution is different (and valid, with some use counts).
fn randomised(seed: u64) -> Box<CDF> {
    let mut r = Rng::new(hash64(&[seed, 77]));
    let mut c = boxed(&default_cdf);
    for_each_leaf(&mut c, &mut |_, _, l| {
        let n = l.len() - 1;
        let mut v: Vec<i32> = vec![];
        while v.len() < n - 1 {
            let x = 1 + (r.next() % 32767) as i32;
            if !v.contains(&x) { v.push(x); }
        }
        v.sort();
        l[..n - 1].copy_from_slice(&v);
        l[n - 1] = 32768;
        l[n] = (r.next() % 33) as i32;
        debug_assert!(valid(l).is_ok());
    });
    c
}

const POOL: usize = 48;
static CACHE: OnceLock<Vec<Box<CDF>>> = OnceLock::new();
pub fn pool(i: usize) -> &'static CDF {
    &CACHE.get_or_init(|| (0..POOL as u64).map(randomised).collect())[i % POOL]
}

/// One symbol stream written by the code under test (distributions `a`) next to what a
/// decoder following the syntax would do (distributions `b`).
pub struct W { pub c: BoolCoder, pub out: Vec<u8>, pub a: Box<CDF>, pub b: Box<CDF>, steps: Vec<(Vec<i32>, usize, String)> }

impl W {
    pub fn new(s: &mut Src) -> W {
        let base = if s.one_in(5) { &default_cdf } else { pool(s.below(POOL as u64) as usize) };
        let mut c = BoolCoder::new();
        c.init_encoder();
        W { c, out: vec![], a: boxed(base), b: boxed(base), steps: vec![] }
    }
    /// The element just coded must have been `sym` under this distribution, and only it may have adapted.
    pub fn expect<F: FnOnce(&mut CDF) -> &mut [i32]>(&mut self, what: String, sym: usize, f: F) -> Res {
        let l = f(&mut self.b);
        assert!(sym < l.len() - 1, "generator: symbol {} of {}", sym, l.len() - 1);
        self.steps.push((l.to_vec(), sym, what));
        adapt(l, sym);
        self.same()
    }
    /// A bit coded with fixed even odds; nothing adapts.
    pub fn expect_fixed(&mut self, what: String, sym: usize, cdf: Vec<i32>) -> Res {
        self.steps.push((cdf, sym, what));
        self.same()
    }
    pub fn expect_literal(&mut self, what: &str, v: u64, n: u32) {
        for i in (0..n).rev() { self.steps.push((bool_cdf(128), ((v >> i) & 1) as usize, format!("bit {} of {}", i, what))); }
    }
    pub fn same(&self) -> Res {
        if raw(&self.a) == raw(&self.b) { return Ok(()); }
        let d = diff(&self.a, &self.b);
        Err(format!("{}: distributions after it are not what a decoder has: {}", self.steps.last().map(|x| x.2.as_str()).unwrap_or("nothing coded"), trunc(&d.join("; "), 500)))
    }
    /// Ends the stream and decodes it with the decoder's own distributions.
    pub fn finish(mut self) -> Res {
        self.same()?;
        self.c.exit_encoder(&mut self.out);
        let mut d = RefDec::new(&self.out)?;
        for (cdf, sym, what) in &self.steps {
            match d.decode(cdf) {
                Ok(x) if x == *sym => {}
                Ok(x) => return Err(format!("{}: a decoder reads {} instead of {}", what, x, sym)),
                Err(e) => return Err(format!("{}: {}", what, e)),
            }
        }
        Ok(())
    }
    pub fn len(&self) -> usize { self.steps.len() }
    pub fn log(&self) -> String { self.steps.iter().map(|x| format!("{}={}", x.2, x.1)).collect::<Vec<_>>().join(", ") }
}
