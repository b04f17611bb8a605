//! C05-C08: raw descriptors and integer helpers.
use harness::bits::*;
use harness::engine::*;
use harness::{check, check_eq};
use av1enc::bool_coder::BoolCoder;

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Uvlc(u32),
    Le(u64, u8),
    Leb(u64),
    Su(i64, u8),
    Ns(u64, u64),
    F(u32, u8),
    Bit(u8),
    Align,
}

fn mask(n: u32) -> u64 { if n >= 64 { u64::MAX } else { (1u64 << n) - 1 } }

pub fn gen_desc(s: &mut Src) -> D {
    match s.below(8) {
        0 => D::Uvlc(s.biased(u32::MAX as u64) as u32),
        1 => { let n = s.us(1, 8) as u8; D::Le(s.biased(mask(8 * n as u32)), n) }
        2 => D::Leb(s.biased((1u64 << 56) - 1)),
        3 => { let n = s.us(1, 62) as u8; let h = 1i64 << (n - 1); D::Su(s.biased_range(-h, h - 1), n) }
        4 => { let n = s.biased((1u64 << 62) - 1) + 1; D::Ns(s.biased(n - 1), n) }
        5 => { let n = s.us(0, 32) as u8; D::F(s.biased(mask(n as u32)) as u32, n) }
        6 => D::Bit(s.below(2) as u8),
        _ => D::Align,
    }
}

pub fn put(c: &mut BoolCoder, d: &D, out: &mut Vec<u8>) {
    match d {
        D::Uvlc(v) => c.encode_uvlc(out, *v),
        D::Le(v, n) => c.encode_le(out, *v, *n),
        D::Leb(v) => c.encode_leb128(out, *v),
        D::Su(v, n) => c.encode_su(out, *v, *n),
        D::Ns(v, n) => c.encode_ns(out, *v, *n),
        D::F(v, n) => c.push_bits_with_size(out, *v, *n),
        D::Bit(b) => c.push_bit(out, *b),
        D::Align => c.push_bits_align(out),
    }
}

/// Reads back with the crate's readers (fixed-width fields have no reader of their own there).
fn get(c: &mut BoolCoder, d: &D, q: &mut std::collections::VecDeque<u8>, total: usize) -> Result<D, String> {
    Ok(match d {
        D::Uvlc(_) => D::Uvlc(c.decode_uvlc(q)),
        D::Le(_, n) => D::Le(c.decode_le(q, *n), *n),
        D::Leb(_) => D::Leb(c.decode_leb128(q)),
        D::Su(_, n) => D::Su(c.decode_su(q, *n), *n),
        D::Ns(_, n) => D::Ns(c.decode_ns(q, *n), *n),
        D::F(_, n) => { let mut x = 0u64; for _ in 0..*n { x = x << 1 | q.pop_front().ok_or("out of bits".to_string())? as u64; } D::F(x as u32, *n) }
        D::Bit(_) => D::Bit(q.pop_front().ok_or("out of bits".to_string())?),
        D::Align => { while (total - q.len()) % 8 != 0 { let b = q.pop_front().ok_or("out of bits".to_string())?; check_eq!(b, 0u8, "alignment padding bit"); } D::Align }
    })
}

fn refput(w: &mut BitW, d: &D) {
    match d {
        D::Uvlc(v) => w.uvlc(*v as u64),
        D::Le(v, n) => w.le(*v, *n as usize),
        D::Leb(v) => w.leb128(*v),
        D::Su(v, n) => w.su(*v, *n as usize),
        D::Ns(v, n) => w.ns(*v, *n),
        D::F(v, n) => w.f(*v as u64, *n as usize),
        D::Bit(b) => w.f(*b as u64, 1),
        D::Align => while w.0.len() % 8 != 0 { w.0.push(0) },
    }
}

fn sequence(s: &mut Src, i: &mut Info) -> Res {
    let n = if s.one_in(200) { s.us(100, 600) } else { s.us(0, 24) };
    let ds: Vec<D> = (0..n).map(|_| gen_desc(s)).collect();
    seq_check(&ds, i)
}

fn seq_check(ds: &[D], i: &mut Info) -> Res {
    let mut c = BoolCoder::new();
    let mut out = vec![];
    let mut ends = vec![];
    for d in ds { put(&mut c, d, &mut out); ends.push(out.len()); }
    i.nontrivial(ds.len() >= 3);
    i.desc(|| format!("{:?} -> {}", ds, show_bits(&out)));
    let mut q = queue(&out);
    for (k, d) in ds.iter().enumerate() {
        let g = get(&mut c, d, &mut q, out.len())?;
        check_eq!(g, *d, "value {}", k);
        check_eq!(out.len() - q.len(), ends[k], "bits consumed after value {} ({:?})", k, d);
    }
    Ok(())
}

fn one_value(d: D) -> Res {
    let mut c = BoolCoder::new();
    let mut out = vec![1, 0, 1]; // a prefix the writer must leave alone
    put(&mut c, &d, &mut out);
    check!(out[..3] == [1, 0, 1], "writing {:?} changed earlier bits", d);
    let tail = [1u8, 1, 0, 1, 0, 0, 1];
    let mut q = queue(&out[3..]);
    for t in tail.iter() { q.push_back(*t); }
    let g = match d { D::F(..) | D::Bit(..) | D::Align => return Ok(()), _ => get(&mut c, &d, &mut q, 0)? };
    check_eq!(g, d, "read back");
    let rest: Vec<u8> = q.into_iter().collect();
    check_eq!(rest, tail.to_vec(), "bits after {:?}", d);
    Ok(())
}

/// `pre` bits are in the buffer already.
fn wire(c: &mut BoolCoder, pre: &[u8], d: &D) -> Res {
    let mut out = pre.to_vec();
    put(c, d, &mut out);
    let mut w = BitW(pre.to_vec());
    refput(&mut w, d);
    check!(out == w.0, "{:?} is written as {} but its code is {}", d, show_bits(&out), show_bits(&w.0));
    Ok(())
}

/// Non-canonical but legal inputs of the readers.
fn reader_wire(s: &mut Src, i: &mut Info) -> Res {
    let mut c = BoolCoder::new();
    let k = s.below(6);
    if k >= 4 { // any value in its shortest form
        let d = loop { let d = gen_desc(s); match d { D::F(..) | D::Bit(..) | D::Align => continue, _ => break d } };
        let mut w = BitW::default();
        refput(&mut w, &d);
        let tail: Vec<u8> = (0..s.us(0, 9)).map(|_| s.below(2) as u8).collect();
        let mut q = queue(&w.0); q.extend(tail.iter());
        let g = get(&mut c, &d, &mut q, 0)?;
        i.nontrivial(true);
        i.desc(|| format!("{} = {:?}", show_bits(&w.0), d));
        check!(g == d, "{} is read as {:?} instead of {:?}", show_bits(&w.0), g, d);
        check_eq!(q.len(), tail.len(), "bits left after {}", show_bits(&w.0));
        return Ok(());
    }
    let mut w = BitW::default();
    let tail: Vec<u8> = (0..s.us(0, 9)).map(|_| s.below(2) as u8).collect();
    let (name, want, got, left) = match k {
        0 => { // leb128 padded with continuation bytes of value 0, up to 8 bytes
            let v = s.biased((1u64 << 56) - 1);
            let min = (1..=8).find(|b| v < 1u64.checked_shl(7 * *b as u32).unwrap_or(u64::MAX)).unwrap_or(8);
            let n = s.us(min, 8);
            for b in 0..n { let x = (v >> (7 * b)) & 127; w.f(if b + 1 < n { x | 128 } else { x }, 8); }
            let mut q = queue(&w.0); q.extend(tail.iter());
            if n > min { i.label("leb128 longer than minimal"); }
            let g = c.decode_leb128(&mut q);
            ("leb128", v as i128, g as i128, q.len())
        }
        1 => { // uvlc with more than 32 leading zeros
            let z = s.us(32, 70);
            w.f(0, 35.min(z)); if z > 35 { w.f(0, z - 35); }
            w.f(1, 1);
            let mut q = queue(&w.0); q.extend(tail.iter());
            i.label("uvlc with >=32 leading zeros");
            let g = c.decode_uvlc(&mut q);
            ("uvlc", u32::MAX as i128, g as i128, q.len())
        }
        2 => {
            let n = s.us(1, 62); let v = s.biased(mask(n as u32));
            w.f(v, n);
            let mut q = queue(&w.0); q.extend(tail.iter());
            let want = BitR::new(&w.0).su(n)?;
            let g = c.decode_su(&mut q, n as u8);
            ("su", want as i128, g as i128, q.len())
        }
        _ => {
            let n = s.us(1, 8); let v = s.biased(mask(8 * n as u32));
            w.le(v, n);
            let mut q = queue(&w.0); q.extend(tail.iter());
            let g = c.decode_le(&mut q, n as u8);
            ("le", v as i128, g as i128, q.len())
        }
    };
    i.nontrivial(true);
    i.desc(|| format!("{} {} = {}", name, show_bits(&w.0), want));
    check_eq!(got, want, "{} {}", name, show_bits(&w.0));
    check_eq!(left, tail.len(), "bits left after {} {}", name, show_bits(&w.0));
    Ok(())
}

fn truncated(s: &mut Src, i: &mut Info) -> Res {
    let d = loop { let d = gen_desc(s); match d { D::F(..) | D::Bit(..) | D::Align => continue, D::Ns(_, 1) => continue, _ => break d } };
    let mut c = BoolCoder::new();
    let mut out = vec![];
    put(&mut c, &d, &mut out);
    let cut = s.us(0, out.len() - 1);
    i.nontrivial(true);
    if cut == 0 { i.label("empty input"); }
    i.desc(|| format!("{:?} = {} cut to {} bits", d, show_bits(&out), cut));
    let mut q = queue(&out[..cut]);
    let r = catch(|| get(&mut BoolCoder::new(), &d, &mut q, 0));
    match r {
        Err(_) => Ok(()),
        // a prefix of the code of an n-range value can itself be a complete code
        Ok(Ok(D::Ns(v, n))) => {
            let mut w = BitW::default();
            w.ns(v, n);
            check!(w.0.len() == cut && w.0[..] == out[..cut], "{:?} cut to {} of {} bits was read as {}", d, cut, out.len(), v);
            Ok(())
        }
        Ok(g) => Err(format!("{:?} cut to {} of {} bits was read as {:?} instead of being refused", d, cut, out.len(), g)),
    }
}

fn msb(k: u64, i: &mut Info) -> Res {
    use av1enc::util::*;
    // 65536 values of msb16 exhaustively; the wider ones on every bit position with every 8-bit pattern around it
    let n = k as u16;
    let exp = |x: u64| if x == 0 { 0u8 } else { 63 - x.leading_zeros() as u8 };
    check_eq!(msb16(n), exp(n as u64), "msb16({})", n);
    check_eq!(msb32(n as u32), exp(n as u64), "msb32({})", n);
    check_eq!(msb32((n as u32) << 16 | 0xffff), exp(((n as u64) << 16) | 0xffff), "msb32({:#x})", (n as u32) << 16 | 0xffff);
    check_eq!(msb32((n as u32) << 16), exp((n as u64) << 16), "msb32({:#x})", (n as u32) << 16);
    for sh in [0u32, 1, 8, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48].iter() {
        let x = (n as u64) << sh;
        check_eq!(msb64(x), exp(x), "msb64({:#x})", x);
        let y = x | mask(*sh);
        check_eq!(msb64(y), exp(y), "msb64({:#x})", y);
        if x > 0 { check_eq!(av1enc::verif::FloorLog2(x), exp(x) as u64, "FloorLog2({:#x})", x); }
        if *sh <= 16 { check_eq!(msb32(y as u32), exp(y as u32 as u64), "msb32({:#x})", y as u32); }
    }
    i.evals(40);
    i.nontrivial(n > 0);
    i.desc(|| format!("{:#x} at 13 bit positions", n));
    Ok(())
}

fn msb_random(s: &mut Src, i: &mut Info) -> Res {
    use av1enc::util::*;
    let exp = |x: u64| if x == 0 { 0u8 } else { 63 - x.leading_zeros() as u8 };
    for _ in 0..16 {
        let x = s.biased(u64::MAX);
        let y = s.biased(u32::MAX as u64) as u32;
        check_eq!(msb64(x), exp(x), "msb64({:#x})", x);
        check_eq!(msb32(y), exp(y as u64), "msb32({:#x})", y);
        if x > 0 { check_eq!(av1enc::verif::FloorLog2(x), exp(x) as u64, "FloorLog2({:#x})", x); }
        i.nontrivial(true);
        i.desc(|| format!("{:#x}, {:#x}", x, y));
    }
    i.evals(47);
    Ok(())
}

fn arith(s: &mut Src, i: &mut Info) -> Res {
    use av1enc::verif as v;
    let lim = if s.bool() { 1i64 << 40 } else { 1i64 << 61 };
    let x = s.biased_range(-lim, lim);
    let y = s.biased_range(-lim, lim);
    let z = s.biased_range(-lim, lim);
    let n = if s.bool() { s.us(0, 20) } else { s.us(0, 60) } as u32;
    i.nontrivial(x != 0);
    i.desc(|| format!("x={} y={} z={} n={}", x, y, z, n));
    check_eq!(v::Abs(x), x.abs(), "Abs({})", x);
    check_eq!(v::Min(x, y), x.min(y), "Min({},{})", x, y);
    check_eq!(v::Max(x, y), x.max(y), "Max({},{})", x, y);
    check_eq!(v::Clip1(x), x.max(0).min(255), "Clip1({})", x);
    let (lo, hi) = (x.min(y), x.max(y));
    check_eq!(v::Clip3(lo, hi, z), z.max(lo).min(hi), "Clip3({},{},{})", lo, hi, z);
    // round half up: floor(x/2^n + 1/2)
    let d = 1i128 << n;
    let r = if n == 0 { x as i128 } else { (2 * x as i128 + d).div_euclid(2 * d) };
    check_eq!(v::Round2(x, n) as i128, r, "Round2({},{})", x, n);
    let ra = if n == 0 { x.abs() as i128 } else { (2 * x.abs() as i128 + d).div_euclid(2 * d) };
    let rs = if x < 0 { -ra } else { ra };
    check_eq!(v::Round2Signed(x, n) as i128, rs, "Round2Signed({},{})", x, n);
    i.evals(6);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05", level: "exploration",
            rule: "A case is a sequence of up to 24 values written with any mix of the variable-length, little-endian, LEB128, signed, non-symmetric and fixed-width writers plus alignment, read back in order with exact bit consumption checked after each; non-trivial with at least 3 values. Sweeps enumerate all small values and widths with bits around them.",
            assumptions: vec!["widths and values within what the writer documents: LEB128 below 2^56, signed width 1..62, range size 1..2^48"],
            subs: vec![
                Sub::random("sequence", 500_000, 10_000_000, sequence),
                Sub::exhaustive("uvlc-small", 20_000, 400_000, |k, i| { i.nontrivial(true); i.desc(|| format!("uvlc {}", k)); one_value(D::Uvlc(k as u32))?; one_value(D::Uvlc(u32::MAX - k as u32)) }),
                Sub::exhaustive("su-all", 2u64.pow(13), 2u64.pow(17), |k, i| {
                    // all values of every width up to 12 (16): width n covers k in 2^n..2^(n+1)
                    if k < 2 { return Ok(()); }
                    let n = 63 - k.leading_zeros();
                    let v = (k - (1 << n)) as i64 - (1i64 << (n - 1));
                    i.nontrivial(true); i.desc(|| format!("su({}) {}", n, v));
                    one_value(D::Su(v, n as u8))
                }),
                Sub::exhaustive("ns-all", 300, 1500, |k, i| { let n = k + 1; for v in 0..n { one_value(D::Ns(v, n))?; i.evals(1); } i.nontrivial(true); i.desc(|| format!("ns({}) all values", n)); Ok(()) }),
                Sub::exhaustive("leb-le", 70_000, 2_200_000, |k, i| { i.nontrivial(true); i.desc(|| format!("leb128/le {}", k)); one_value(D::Leb(k))?; one_value(D::Leb((1u64 << 56) - 1 - k))?; for n in 1..9u8 { one_value(D::Le(k & mask(8 * n as u32), n))?; one_value(D::Le((k.rotate_right(8) ^ k) & mask(8 * n as u32), n))?; } Ok(()) }),
            ],
        },
        Prop {
            id: "C06", level: "exploration",
            rule: "A case is one value and descriptor; the bits written must equal the code the AV1 specification defines for it (independent writer), which is also the shortest form, and the readers must accept every legal longer form. Non-trivial: every case.",
            assumptions: vec!["descriptor definitions of AV1 spec section 4.10"],
            subs: vec![
                Sub::random("writer", 1_500_000, 20_000_000, |s, i| { let d = gen_desc(s); i.nontrivial(true); i.desc(|| format!("{:?}", d)); { let mut c = BoolCoder::new(); let n = if s.bool() { 0 } else { s.us(0, 20) }; let pre: Vec<u8> = (0..n).map(|_| s.below(2) as u8).collect(); wire(&mut c, &pre, &d)?; let e = gen_desc(s); wire(&mut c, &pre, &e) } }),
                Sub::random("reader", 800_000, 10_000_000, reader_wire),
                Sub::exhaustive("fixed-width", 33 * 64, 33 * 64, |k, i| {
                    let n = (k / 64) as u8; let b = (k % 64) as u32;
                    let v = if b < 32 { 1u64 << b } else { u32::MAX as u64 >> (b - 32) } & mask(n as u32);
                    i.nontrivial(true); i.desc(|| format!("f({}) {:#x}", n, v));
                    wire(&mut BoolCoder::new(), &[], &D::F(v as u32, n))
                }),
                Sub::exhaustive("align", 65, 1025, |k, i| {
                    let mut out: Vec<u8> = (0..k).map(|j| (j % 3 == 0) as u8).collect();
                    let before = out.clone();
                    BoolCoder::new().push_bits_align(&mut out);
                    i.nontrivial(true); i.desc(|| format!("align after {} bits", k));
                    check_eq!(out.len(), (k as usize + 7) / 8 * 8, "length after alignment of {} bits", k);
                    check!(out[..before.len()] == before[..] && out[before.len()..].iter().all(|b| *b == 0), "alignment of {} bits changed data or did not pad with zeros", k);
                    Ok(())
                }),
            ],
        },
        Prop {
            id: "C07", level: "exploration",
            rule: "A case is a valid encoding (one descriptor value, or a whole symbol stream) cut short anywhere before the last bit its decoding needs; reading it must be refused (panic) in bounded time, never produce a value. Non-trivial: descriptors always; streams when the cut falls inside the coded symbols.",
            assumptions: vec!["refusal in this crate is a failed assertion (panic)", "a case that burns 20 s of CPU time is reported as not terminating"],
            subs: vec![
                Sub::random("descriptors", 600_000, 5_000_000, truncated),
                Sub::random("streams", 150_000, 2_000_000, crate::p_coder::truncated),
            ],
        },
        Prop {
            id: "C08", level: "exploration",
            rule: "Every 16-bit value at 13 bit positions (exhaustive for the 16-bit function), boundary-biased 32/64-bit values, and boundary-biased signed operands for the rounding/clipping helpers, against definitions over wide integers. Non-trivial: non-zero operand.",
            assumptions: vec!["the macro helpers are instantiated at 64-bit integers"],
            subs: vec![
                Sub::exhaustive("msb", 65536, 65536, msb),
                Sub::random("msb-wide", 300_000, 3_000_000, msb_random),
                Sub::random("arith", 2_000_000, 20_000_000, arith),
            ],
        },
    ]
}
