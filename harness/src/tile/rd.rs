//! Reading a tile's symbols back the way a decoder does.
#![allow(dead_code)]
use crate::cdfs::*;
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::cdf::{default_cdf, CDF};
use av1enc::verif::constants::*;
use av1enc::verif::constants::RefFrame::*;
use harness::engine::*;
use harness::refcoder::*;

pub struct Rd<'a> { d: RefDec<'a>, pub c: Box<CDF>, pub log: Vec<String>, /// distributions are not adapted
    pub still: bool }

impl<'a> Rd<'a> {
    pub fn new(bits: &'a [u8], base: &CDF) -> Result<Rd<'a>, String> { Ok(Rd { d: RefDec::new(bits)?, c: boxed(base), log: vec![], still: false }) }
    fn say(&mut self, what: &str, v: usize) { if self.log.len() < 400 { self.log.push(format!("{}={}", what, v)); } }
    pub fn tail(&self) -> String { let n = self.log.len(); self.log[n.saturating_sub(14)..].join(" ") }
    pub fn err(&self, m: String) -> String { format!("{} (read so far: .. {})", m, self.tail()) }
    pub fn sym<F: FnOnce(&mut CDF) -> &mut [i32]>(&mut self, what: &str, f: F) -> Result<usize, String> {
        let l = f(&mut self.c);
        let r = self.d.decode(l);
        let v = match r { Ok(v) => { if !self.still { adapt(l, v); } v } Err(e) => { let e = self.err(format!("{}: {}", what, e)); return Err(e); } };
        self.say(what, v);
        Ok(v)
    }
    /// A symbol of a distribution that does not adapt.
    pub fn fixed(&mut self, what: &str, cdf: &[i32]) -> Result<usize, String> {
        match self.d.decode(cdf) { Ok(v) => { self.say(what, v); Ok(v) } Err(e) => Err(self.err(format!("{}: {}", what, e))) }
    }
    pub fn lit(&mut self, what: &str, n: usize) -> Result<usize, String> {
        let mut v = 0;
        for _ in 0..n { v = 2 * v + match self.d.decode(&bool_cdf(128)) { Ok(v) => v, Err(e) => return Err(self.err(format!("{}: {}", what, e))) }; }
        self.say(what, v);
        Ok(v)
    }
    /// A value below n, in as few bits as possible.
    pub fn ns(&mut self, what: &str, n: usize) -> Result<usize, String> {
        let mut w = 0;
        while n >> w > 0 { w += 1; }
        let m = (1usize << w) - n;
        let v = self.lit(what, w - 1)?;
        if v < m { return Ok(v); }
        let x = self.lit(what, 1)?;
        Ok((v << 1) - m + x)
    }
    pub fn pos(&self) -> usize { self.d.pos }
    /// The end: the mark written after everything else, and the distributions both sides are left with.
    pub fn end(mut self, mark: u64, left: &CDF) -> Res {
        let v = self.lit("mark", 16)? as u64;
        if v != mark { return Err(self.err(format!("more or less was written than a decoder reads: the mark after it is {:#x} instead of {:#x}", v, mark))); }
        if raw(&self.c) != raw(left) {
            let e = trunc(&diff(left, &self.c).join("; "), 500);
            return Err(self.err(format!("the distributions left over are not a decoder's: {}", e)));
        }
        Ok(())
    }
}

pub fn base(s: &mut Src) -> &'static CDF { if s.one_in(5) { &default_cdf } else { pool(s.below(48) as usize) } }

/// Ends a stream with a mark that a decoder reads back only if it has read everything before it.
pub fn seal(c: &mut BoolCoder, out: &mut Vec<u8>, mark: u64) {
    c.encode_literal(out, mark, 16);
    c.exit_encoder(out);
}

// ------------------------------------------------------------ contexts from the blocks above and to the left

pub type Mi = Option<ModeInfo>;
pub fn rf(r: RefFrame) -> isize { r as isize }
pub fn back(r: RefFrame) -> bool { rf(r) >= 5 }
pub fn intra(m: &ModeInfo) -> bool { rf(m.ref_frame[0]) <= 0 }
pub fn single(m: &ModeInfo) -> bool { rf(m.ref_frame[1]) <= 0 }
fn count(a: &Mi, l: &Mi, r: &[RefFrame]) -> usize {
    [a, l].iter().map(|m| match m { Some(m) => m.ref_frame.iter().filter(|x| r.contains(x)).count(), None => 0 }).sum()
}
fn versus(a: &Mi, l: &Mi, x: &[RefFrame], y: &[RefFrame]) -> usize {
    match count(a, l, x).cmp(&count(a, l, y)) { std::cmp::Ordering::Less => 0, std::cmp::Ordering::Equal => 1, std::cmp::Ordering::Greater => 2 }
}
fn samedir(a: RefFrame, b: RefFrame) -> bool { rf(a) > 0 && rf(b) > 0 && back(a) == back(b) }

pub fn is_inter_ctx(a: &Mi, l: &Mi) -> usize {
    match (a, l) {
        (Some(a), Some(l)) => if intra(a) && intra(l) { 3 } else if intra(a) || intra(l) { 1 } else { 0 },
        (Some(m), None) | (None, Some(m)) => if intra(m) { 2 } else { 0 },
        _ => 0,
    }
}
pub fn comp_mode_ctx(a: &Mi, l: &Mi) -> usize {
    match (a, l) {
        (Some(a), Some(l)) => match (single(a), single(l)) {
            (true, true) => (back(a.ref_frame[0]) != back(l.ref_frame[0])) as usize,
            (true, false) => 2 + (back(a.ref_frame[0]) || intra(a)) as usize,
            (false, true) => 2 + (back(l.ref_frame[0]) || intra(l)) as usize,
            _ => 4,
        },
        (Some(m), None) | (None, Some(m)) => if single(m) { back(m.ref_frame[0]) as usize } else { 3 },
        _ => 1,
    }
}
pub fn comp_ref_type_ctx(a: &Mi, l: &Mi) -> usize {
    let comp = |m: &Mi| m.map(|m| !intra(&m) && !single(&m)).unwrap_or(false);
    let uni = |m: &Mi| comp(m) && m.map(|m| samedir(m.ref_frame[0], m.ref_frame[1])).unwrap();
    let inter = |m: &Mi| m.map(|m| !intra(&m)).unwrap_or(false);
    let (ca, cl, ua, ul) = (comp(a), comp(l), uni(a), uni(l));
    if inter(a) && inter(l) {
        let (ra, rl) = (a.unwrap().ref_frame[0], l.unwrap().ref_frame[0]);
        let same = samedir(ra, rl) as usize;
        match (ca, cl) {
            (false, false) => 1 + 2 * same,
            (false, true) => if ul { 3 + same } else { 1 },
            (true, false) => if ua { 3 + same } else { 1 },
            (true, true) => match (ua, ul) {
                (false, false) => 0,
                (true, true) => 3 + ((ra == BWDREF_FRAME) == (rl == BWDREF_FRAME)) as usize,
                _ => 2,
            },
        }
    } else if a.is_some() && l.is_some() {
        if ca { 1 + 2 * ua as usize } else if cl { 1 + 2 * ul as usize } else { 2 }
    } else if ca { 4 * ua as usize } else if cl { 4 * ul as usize } else { 2 }
}

/// The reference frames of an inter block without segment features.
pub fn read_refs(d: &mut Rd, a: &Mi, l: &Mi, may_compound: bool) -> Result<[RefFrame; 2], String> {
    let f = [LAST_FRAME, LAST2_FRAME, LAST3_FRAME, GOLDEN_FRAME];
    let b = [BWDREF_FRAME, ALTREF2_FRAME, ALTREF_FRAME];
    macro_rules! bit { ($name:expr, $x:expr, |$c:ident, $k:ident| $leaf:expr) => {{ let $k = $x; d.sym($name, |$c| &mut $leaf[..])? == 1 }} }
    let v = |x: &[RefFrame], y: &[RefFrame]| versus(a, l, x, y);
    if may_compound && bit!("comp_mode", comp_mode_ctx(a, l), |c, k| c.comp_mode[k]) {
        if !bit!("comp_ref_type", comp_ref_type_ctx(a, l), |c, k| c.comp_ref_type[k]) {
            if bit!("uni_comp_ref", v(&f, &b), |c, k| c.uni_comp_ref[k][0]) { return Ok([BWDREF_FRAME, ALTREF_FRAME]); }
            if !bit!("uni_comp_ref_p1", v(&f[1..2], &f[2..]), |c, k| c.uni_comp_ref[k][1]) { return Ok([LAST_FRAME, LAST2_FRAME]); }
            return Ok([LAST_FRAME, if bit!("uni_comp_ref_p2", v(&f[2..3], &f[3..]), |c, k| c.uni_comp_ref[k][2]) { GOLDEN_FRAME } else { LAST3_FRAME }]);
        }
        let first = if !bit!("comp_ref", v(&f[..2], &f[2..]), |c, k| c.comp_ref[k][0]) {
            if bit!("comp_ref_p1", v(&f[..1], &f[1..2]), |c, k| c.comp_ref[k][1]) { LAST2_FRAME } else { LAST_FRAME }
        } else if bit!("comp_ref_p2", v(&f[2..3], &f[3..]), |c, k| c.comp_ref[k][2]) { GOLDEN_FRAME } else { LAST3_FRAME };
        let second = if bit!("comp_bwdref", v(&b[..2], &b[2..]), |c, k| c.comp_bwd_ref[k][0]) { ALTREF_FRAME }
            else if bit!("comp_bwdref_p1", v(&b[..1], &b[1..2]), |c, k| c.comp_bwd_ref[k][1]) { ALTREF2_FRAME } else { BWDREF_FRAME };
        return Ok([first, second]);
    }
    let one = if bit!("single_ref_p1", v(&f, &b), |c, k| c.single_ref[k][0]) {
        if bit!("single_ref_p2", v(&b[..2], &b[2..]), |c, k| c.single_ref[k][1]) { ALTREF_FRAME }
        else if bit!("single_ref_p6", v(&b[..1], &b[1..2]), |c, k| c.single_ref[k][5]) { ALTREF2_FRAME } else { BWDREF_FRAME }
    } else if bit!("single_ref_p3", v(&f[..2], &f[2..]), |c, k| c.single_ref[k][2]) {
        if bit!("single_ref_p5", v(&f[2..3], &f[3..]), |c, k| c.single_ref[k][4]) { GOLDEN_FRAME } else { LAST3_FRAME }
    } else if bit!("single_ref_p4", v(&f[..1], &f[1..2]), |c, k| c.single_ref[k][3]) { LAST2_FRAME } else { LAST_FRAME };
    Ok([one, NONE])
}

/// One difference of a motion vector, as (row, column).
pub fn read_mv_diff(d: &mut Rd, ctx: usize, whole: bool, hp: bool) -> Result<(isize, isize), String> {
    let joint = d.sym("mv_joint", |c| &mut c.mv_joint[ctx][..])?;
    let mut v = [0isize; 2];
    for comp in 0..2 {
        if comp == 0 && joint & 2 == 0 || comp == 1 && joint & 1 == 0 { continue; }
        let sign = d.sym("mv_sign", |c| &mut c.mv_sign[ctx][comp][..])?;
        let class = d.sym("mv_class", |c| &mut c.mv_class[ctx][comp][..])?;
        let mut int = 0;
        let (mut fr, mut lo) = (3, 1);
        if class == 0 {
            int = d.sym("mv_class0_bit", |c| &mut c.mv_class0_bit[ctx][comp][..])?;
            if !whole { fr = d.sym("mv_class0_fr", |c| &mut c.mv_class0_fr[ctx][comp][int][..])?; }
            if hp { lo = d.sym("mv_class0_hp", |c| &mut c.mv_class0_hp[ctx][comp][..])?; }
        } else {
            for k in 0..class { int |= d.sym("mv_bit", |c| &mut c.mv_bit[ctx][comp][k][..])? << k; }
            int += 1 << class; // a class starts where the one below it ends
            if !whole { fr = d.sym("mv_fr", |c| &mut c.mv_fr[ctx][comp][..])?; }
            if hp { lo = d.sym("mv_hp", |c| &mut c.mv_hp[ctx][comp][..])?; }
        }
        let mag = (8 * int + 2 * fr + lo + 1) as isize;
        v[comp] = if sign == 1 { -mag } else { mag };
    }
    Ok((v[0], v[1]))
}
