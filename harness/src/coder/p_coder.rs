//! C01-C04, C07 (symbol streams): the adaptive symbol coder.
use harness::bits::*;
use harness::engine::*;
use harness::refcoder::*;
use harness::{check, check_eq};
use av1enc::bool_coder::BoolCoder;

#[derive(Clone, Debug)]
pub enum Op {
    Sym(usize, usize),          // distribution index, symbol
    Bit(i32, u8),               // probability, bit
    Bits(i32, Vec<u8>),         // batch sharing one adapting probability
    Lit(u64, u8),
}

#[derive(Clone, Debug)]
pub struct Prog { pub cdfs: Vec<Vec<i32>>, pub ops: Vec<Op> }

/// Any valid distribution over n symbols: strictly increasing boundaries.
pub fn gen_cdf(s: &mut Src, n: usize) -> Vec<i32> {
    let mut v: Vec<i32> = vec![];
    match s.below(5) {
        0 => { for i in 0..n - 1 { v.push((32768 * (i as i32 + 1)) / n as i32); } }
        1 => { // random increasing set
            let mut prev = 0i64;
            for i in 0..n - 1 {
                let room = 32767 - prev - (n as i64 - 2 - i as i64);
                let d = s.range(1, room.max(1));
                let d = if s.bool() { d.min(1 + room / 4) } else { d };
                prev += d;
                v.push(prev as i32);
            }
        }
        2 => { // one symbol takes (almost) everything, the rest the minimum
            let big = s.below(n as u64) as usize;
            for i in 0..n - 1 { v.push(if i < big { i as i32 + 1 } else { 32768 - (n - 1 - i) as i32 }); }
        }
        3 => { // geometric
            let mut left = 32768i32;
            let mut acc = 0;
            for i in 0..n - 1 {
                let g = (left / 2).max(1).min(left - (n - 1 - i) as i32);
                acc += g;
                left -= g;
                v.push(acc);
            }
        }
        _ => { // boundary values near a chosen point
            let c = s.range(n as i64, 32767 - n as i64) as i32;
            for i in 0..n - 1 { v.push((c + i as i32).min(32768 - (n - 1 - i) as i32)); }
        }
    }
    v.push(32768);
    let count = match s.below(3) { 0 => 0, 1 => s.range(0, 32), _ => s.range(29, 32) } as i32;
    v.push(count);
    debug_assert!(valid(&v).is_ok());
    v
}

/// Symbol choice policy: uniform, always the likely one, always the unlikely one, a fixed one.
fn gen_symbol(s: &mut Src, cdf: &[i32], policy: u64) -> usize {
    let n = cdf.len() - 1;
    match policy {
        0 => s.below(n as u64) as usize,
        1 => { // by probability
            let x = s.below(32768) as i32;
            (0..n).find(|i| x < cdf[*i]).unwrap_or(n - 1)
        }
        2 => 0,
        3 => n - 1,
        4 => { // least likely
            let mut best = 0; let mut bp = i32::MAX;
            for i in 0..n { let p = cdf[i] - if i > 0 { cdf[i - 1] } else { 0 }; if p < bp { bp = p; best = i; } }
            best
        }
        _ => { // most likely
            let mut best = 0; let mut bp = -1;
            for i in 0..n { let p = cdf[i] - if i > 0 { cdf[i - 1] } else { 0 }; if p > bp { bp = p; best = i; } }
            best
        }
    }
}

pub fn gen_len(s: &mut Src, max: usize) -> usize {
    match s.below(4) { 0 => s.us(0, 3), 1 => s.us(0, 20), 2 => s.us(0, max / 4), _ => s.us(0, max) }
}

pub fn gen_prog(s: &mut Src, maxops: usize) -> Prog {
    let k = s.us(1, 4);
    let mut cdfs = vec![];
    for _ in 0..k { let n = s.us(2, 16); cdfs.push(gen_cdf(s, n)); }
    let nops = gen_len(s, maxops);
    let mut model = cdfs.clone();
    let mut ops = vec![];
    let mut policy = s.below(6);
    let mix = s.below(3);
    for _ in 0..nops {
        if s.one_in(16) { policy = s.below(6); }
        let kind = match mix { 0 => 0, 1 => s.weighted(&[6, 2, 1, 1]), _ => s.below(4) as usize };
        ops.push(match kind {
            0 => {
                let i = s.below(k as u64) as usize;
                let y = gen_symbol(s, &model[i], policy);
                adapt(&mut model[i], y);
                Op::Sym(i, y)
            }
            1 => Op::Bit(s.range(0, 255) as i32, s.below(2) as u8),
            2 => { let n = s.us(0, 12); let p = s.range(0, 255) as i32; let v = (0..n).map(|_| s.below(2) as u8).collect(); Op::Bits(p, v) }
            _ => { let n = s.us(0, 64) as u8; let v = s.u64(); Op::Lit(if n == 64 { v } else { v & ((1u64 << n) - 1) }, n) }
        });
    }
    Prog { cdfs, ops }
}

pub fn encode_ops(c: &mut BoolCoder, p: &Prog, out: &mut Vec<u8>) -> Vec<Vec<i32>> {
    let mut cdfs = p.cdfs.clone();
    for op in &p.ops {
        match op {
            Op::Sym(i, y) => c.encode_symbol(*y as i32, out, &mut cdfs[*i]),
            Op::Bit(pr, b) => c.encode_symbolp(*b, out, *pr),
            Op::Bits(pr, v) => c.encode_symbols(v, out, *pr),
            Op::Lit(v, n) => c.encode_literal(out, *v, *n),
        }
    }
    cdfs
}

/// Feeds every elementary symbol of the program to `f(symbol, distribution before)`.
pub fn each_symbol<F: FnMut(usize, &[i32]) -> Res>(p: &Prog, mut f: F) -> Res {
    let mut cdfs = p.cdfs.clone();
    for op in &p.ops {
        match op {
            Op::Sym(i, y) => { f(*y, &cdfs[*i])?; adapt(&mut cdfs[*i], *y); }
            Op::Bit(pr, b) => f(*b as usize, &bool_cdf(*pr))?,
            Op::Bits(pr, v) => { let mut c = bool_cdf(*pr); for b in v { f(*b as usize, &c)?; adapt(&mut c, *b as usize); } }
            Op::Lit(v, n) => { for i in (0..*n).rev() { f(((v >> i) & 1) as usize, &bool_cdf(128))?; } }
        }
    }
    Ok(())
}

fn encode(c: &mut BoolCoder, p: &Prog) -> (Vec<u8>, Vec<Vec<i32>>) {
    let mut out = vec![];
    c.init_encoder();
    let cd = encode_ops(c, p, &mut out);
    c.exit_encoder(&mut out);
    (out, cd)
}

fn decode_ops(c: &mut BoolCoder, p: &Prog, q: &mut std::collections::VecDeque<u8>) -> Result<Vec<Vec<i32>>, String> {
    let mut cdfs = p.cdfs.clone();
    for (k, op) in p.ops.iter().enumerate() {
        match op {
            Op::Sym(i, y) => { let g = c.decode_symbol(q, &mut cdfs[*i]); check_eq!(g, *y as u64, "symbol {} (distribution {})", k, i); }
            Op::Bit(pr, b) => { let g = c.decode_symbolp(q, *pr); check_eq!(g, *b as u64, "bool {} (p={})", k, pr); }
            Op::Bits(pr, v) => { let mut o = vec![]; c.decode_symbols(q, &mut o, v.len() as i32, *pr); check_eq!(o, *v, "bool run {} (p={})", k, pr); }
            Op::Lit(v, n) => { let g = c.decode_literal(q, *n); check_eq!(g, *v, "literal {} of {} bits", k, n); }
        }
    }
    Ok(cdfs)
}

fn roundtrip(p: &Prog) -> Res {
    let mut c = BoolCoder::new();
    let (bits, ecdfs) = encode(&mut c, p);
    check!(bits.len() % 8 == 0, "the stream has {} bits, not a whole number of bytes", bits.len());
    check!(bits.iter().all(|b| *b < 2), "the stream holds something other than bits");
    let mut d = BoolCoder::new();
    let mut q = queue(&bits);
    d.init_decoder(&mut q, (bits.len() / 8) as u32);
    let dcdfs = decode_ops(&mut d, p, &mut q)?;
    check_eq!(dcdfs, ecdfs, "distributions after decoding differ from those after encoding");
    // the same stream must decode with an independent decoder
    let mut r = RefDec::new(&bits)?;
    let mut k = 0;
    each_symbol(p, |y, cdf| {
        let g = r.decode(cdf).map_err(|e| format!("reference decoder, elementary symbol {}: {}", k, e))?;
        check_eq!(g, y, "reference decoder, elementary symbol {}", k);
        k += 1;
        Ok(())
    })?;
    Ok(())
}

fn nsyms(p: &Prog) -> usize { let mut n = 0; let _ = each_symbol(p, |_, _| { n += 1; Ok(()) }); n }

fn max_pending(p: &Prog) -> usize {
    let mut e = Carry::new();
    let mut m = 0;
    let _ = each_symbol(p, |y, c| { e = e.step(y, c); m = m.max(e.pending); Ok(()) });
    m
}

fn describe(p: &Prog) -> String { trunc(&format!("{:?}", p), 500) }

/// A program whose symbols keep the coder's carry undecided for a long run, then
/// resolve it one way or the other.
pub fn gen_carry_prog(s: &mut Src, target: usize) -> Prog {
    let k = s.us(1, 2);
    let mut cdfs = vec![];
    for _ in 0..k { let n = s.us(2, 16); let mut c = gen_cdf(s, n); if s.bool() { let m = c.len(); c[m - 1] = 32; } cdfs.push(c); }
    let lead = s.us(0, 8);
    let mut model = cdfs.clone();
    let mut e = Carry::new();
    let mut ops = vec![];
    for _ in 0..lead {
        let i = s.below(k as u64) as usize;
        let y = gen_symbol(s, &model[i], 0);
        e = e.step(y, &model[i]);
        adapt(&mut model[i], y);
        ops.push(Op::Sym(i, y));
    }
    let mut guard = 0;
    while e.pending < target && guard < 3 * target + 60 {
        guard += 1;
        let i = s.below(k as u64) as usize;
        let n = model[i].len() - 1;
        // symbols that keep the carry open and lengthen the run of held-back bits
        let good = |f: &Carry| f.open() && !f.carried && f.pending > e.pending;
        let cands: Vec<usize> = (0..n).filter(|y| good(&e.step(*y, &model[i]))).collect();
        if !cands.is_empty() && !s.one_in(8) {
            let y = cands[s.below(cands.len() as u64) as usize];
            e = e.step(y, &model[i]);
            adapt(&mut model[i], y);
            ops.push(Op::Sym(i, y));
            continue;
        }
        // otherwise a static bool whose probability does it
        let start = s.below(256) as i32;
        let mut best: Option<(i32, usize, Carry)> = None;
        for d in 0..64 {
            let p = (start + d * 37) % 256;
            for b in 0..2 {
                let f = e.step(b, &bool_cdf(p));
                if good(&f) && best.map(|x| f.pending > x.2.pending).unwrap_or(true) { best = Some((p, b, f)); }
            }
            if best.is_some() && d >= 8 { break; }
        }
        match best {
            Some((p, b, f)) => { e = f; ops.push(Op::Bit(p, b as u8)); }
            None => { let b = s.below(2) as usize; e = e.step(b, &bool_cdf(128)); ops.push(Op::Lit(b as u64, 1)); }
        }
    }
    let tail = s.us(0, 6);
    for _ in 0..tail {
        let i = s.below(k as u64) as usize;
        let y = match s.below(3) { 0 => 0, 1 => model[i].len() - 2, _ => gen_symbol(s, &model[i], 0) };
        e = e.step(y, &model[i]);
        adapt(&mut model[i], y);
        ops.push(Op::Sym(i, y));
    }
    Prog { cdfs, ops }
}

/// Keeps a carry undecided for as long as asked: every step takes the part of the interval in which
/// the deciding point lies, split so that it stays well inside.
fn gen_carry_long(s: &mut Src, target: usize) -> Prog {
    let k = s.us(1, 2);
    let cdfs: Vec<Vec<i32>> = (0..k).map(|_| { let n = s.us(2, 16); gen_cdf(s, n) }).collect();
    let mut model = cdfs.clone();
    let mut e = Carry::new();
    let mut ops = vec![];
    let mut seed = Rng::new(s.u64()); // one choice for the whole run
    let mut step = 0;
    while e.pending < target && step < 8 * target + 200 {
        step += 1;
        let i = (seed.next() % k as u64) as usize;
        if seed.next() % 4 == 0 {
            let n = model[i].len() - 1;
            let best = (0..n).map(|y| (y, e.step(y, &model[i]))).filter(|(_, f)| f.open() && !f.carried && f.pending > e.pending && f.centre() > 3000).max_by_key(|(_, f)| f.pending);
            if let Some((y, f)) = best { e = f; adapt(&mut model[i], y); ops.push(Op::Sym(i, y)); continue; }
        }
        let mut best: Option<(i32, usize, Carry)> = None;
        let start = seed.next() as i32 & 255;
        for d in 0..256 {
            if d >= 8 && best.map(|x| x.2.centre() > 3000).unwrap_or(false) { break; }
            let p = (start + 101 * d) % 256;
            for b in 0..2 {
                let f = e.step(b, &bool_cdf(p));
                if f.carried || !f.open() || f.pending < e.pending { continue; }
                let score = |c: &Carry| c.centre() + 5000 * (c.pending - e.pending).min(3) as i64;
                if best.map(|x| score(&f) > score(&x.2)).unwrap_or(true) { best = Some((p, b, f)); }
            }
        }
        match best {
            Some((p, b, f)) => { e = f; ops.push(Op::Bit(p, b as u8)); }
            None => { let b = (seed.next() & 1) as usize; e = e.step(b, &bool_cdf(128)); ops.push(Op::Lit(b as u64, 1)); }
        }
    }
    let tail = s.us(0, 6);
    for _ in 0..tail {
        let i = s.below(k as u64) as usize;
        let y = match s.below(3) { 0 => 0, 1 => model[i].len() - 2, _ => gen_symbol(s, &model[i], 0) };
        adapt(&mut model[i], y);
        ops.push(Op::Sym(i, y));
    }
    Prog { cdfs, ops }
}

fn long_prog(s: &mut Src, n: usize) -> Prog {
    // few draws, many operations: repeat a short pattern
    let base = gen_prog(s, 24);
    let mut ops = vec![];
    if !base.ops.is_empty() { while ops.len() < n { ops.extend(base.ops.iter().cloned()); } }
    Prog { cdfs: base.cdfs, ops }
}

/// Largest cost of a symbol of weight `gap`/32768 above its information content,
/// given that the coder sees only the top 8 bits of its range.
fn rounding(gap: usize) -> f64 {
    use std::sync::OnceLock;
    static T: OnceLock<Vec<f64>> = OnceLock::new();
    T.get_or_init(|| (0..32769usize).map(|g| {
        if g == 0 { return 0.0; }
        let mut m = 0f64;
        for a in 128..256usize {
            let full = g as f64 * (256 * a + 255) as f64 / 32768.0;
            m = m.max((full / ((g * a) / 128) as f64).log2());
        }
        m
    }).collect())[gap]
}

fn code_length(p: &Prog, i: &mut Info) -> Res {
    let (bits, _) = encode(&mut BoolCoder::new(), p);
    let mut ideal = 0f64;
    let mut extra = 0f64;
    let mut n = 0usize;
    let mut e = RefEnc::new();
    each_symbol(p, |y, c| {
        e.encode(y, c);
        let w = c[y] - if y > 0 { c[y - 1] } else { 0 };
        ideal += 15.0 - (w as f64).log2();
        extra += rounding(w as usize);
        n += 1;
        Ok(())
    })?;
    i.nontrivial(n >= 20);
    i.desc(|| format!("{} symbols, information content {:.1} bits, stream {} bits", n, ideal, bits.len()));
    // ending a stream costs at most 16 bits plus padding to a byte
    let bound = ideal + extra + 16.0 + 7.0 + 0.01;
    check!(bits.len() as f64 <= bound, "{} symbols with {:.2} bits of information took {} bits (bound {:.2})", n, ideal, bits.len(), bound);
    // a decoder shifts in that many bits for the symbols
    check!(bits.len() <= e.shifts + 15 + 7, "{} symbols for which a decoder shifts in {} bits took {} bits", n, e.shifts, bits.len());
    Ok(())
}

// --- C02: histories of a coder object

#[derive(Clone, Debug)]
enum Step { Stream(Prog), Raw(Vec<u8>), Desc(u32) }

fn history(s: &mut Src, info: &mut Info) -> Res {
    let many = s.one_in(40);
    let n = if many { s.us(10, 60) } else { s.us(1, 6) };
    let mut steps = vec![];
    for _ in 0..n {
        steps.push(match s.weighted(&[5, 1, 1]) {
            0 => Step::Stream(if s.one_in(6) { let t = s.us(1, 40); gen_carry_prog(s, t) } else { gen_prog(s, if many { 12 } else { 60 }) }),
            1 => { let k = s.us(0, 5); Step::Raw((0..k).map(|_| s.below(256) as u8).collect()) }
            _ => Step::Desc(s.biased(u32::MAX as u64) as u32),
        });
    }
    run_history(s, info, steps)
}

/// Streams of up to 90 kB, so that every counter a stream keeps is taken past 8 and 16 bits.
fn history_long(s: &mut Src, info: &mut Info) -> Res {
    let n = s.us(2, 3);
    let mut steps = vec![];
    for _ in 0..n {
        let len = match s.below(4) { 0 => s.us(1, 60), 1 => s.us(1000, 8000), 2 => s.us(8000, 40000), _ => s.us(130_000, 180_000) };
        let k = s.us(1, 3);
        steps.push(Step::Stream(long_prog(s, len)));
        steps.push(Step::Raw((0..k).map(|_| s.below(256) as u8).collect()));
    }
    run_history(s, info, steps)
}

fn run_history(s: &mut Src, info: &mut Info, steps: Vec<Step>) -> Res {
    // one encoder object for the whole history, everything appended to one buffer
    let mut enc = BoolCoder::new();
    let mut out: Vec<u8> = vec![];
    let mut sizes = vec![];
    for st in &steps {
        let start = out.len();
        match st {
            Step::Stream(p) => { enc.init_encoder(); encode_ops(&mut enc, p, &mut out); enc.exit_encoder(&mut out); }
            Step::Raw(b) => { let bits = bytes_to_bits(b); enc.push_bits(&mut out, &bits); }
            Step::Desc(v) => { enc.encode_uvlc(&mut out, *v); enc.push_bits_align(&mut out); }
        }
        check!(out.len() % 8 == 0, "after {:?} the output has {} bits, not a whole number of bytes", trunc(&format!("{:?}", st), 200), out.len());
        if let Step::Stream(p) = st {
            if s.one_in(4) {
                // the same object reads the stream back before it goes on writing
                info.label("reading between writing");
                let mut q = queue(&out[start..]);
                enc.init_decoder(&mut q, ((out.len() - start) / 8) as u32);
                let part = s.us(0, p.ops.len());
                let sub = Prog { cdfs: p.cdfs.clone(), ops: p.ops[..part].to_vec() };
                decode_ops(&mut enc, &sub, &mut q)?;
                if s.bool() { enc.exit_decoder(&mut q); check!(q.is_empty(), "{} bits left after a stream was read between writing", q.len()); }
            }
            let (fresh, _) = encode(&mut BoolCoder::new(), p);
            check!(out[start..] == fresh[..], "the stream differs from the one a fresh coder produces ({} vs {} bits)", out.len() - start, fresh.len());
        }
        sizes.push((out.len() - start) / 8);
    }
    let streams = steps.iter().filter(|x| matches!(x, Step::Stream(p) if !p.ops.is_empty())).count();
    info.nontrivial(streams >= 2);
    if streams >= 2 { info.label("two or more non-empty streams on one coder"); }
    info.desc(|| trunc(&format!("{:?}", steps), 600));
    // one decoder object for the whole history; sometimes leave a stream early
    let mut dec = if s.bool() { enc } else { BoolCoder::new() };
    let mut q = queue(&out);
    let mut left = out.len();
    for (k, st) in steps.iter().enumerate() {
        let sz = sizes[k];
        match st {
            Step::Stream(p) => {
                dec.init_decoder(&mut q, sz as u32);
                let part = if s.one_in(3) && !p.ops.is_empty() { info.label("stream left early"); s.us(0, p.ops.len() - 1) } else { p.ops.len() };
                let sub = Prog { cdfs: p.cdfs.clone(), ops: p.ops[..part].to_vec() };
                decode_ops(&mut dec, &sub, &mut q)?;
                dec.exit_decoder(&mut q);
            }
            Step::Raw(b) => { for x in b { let mut v = 0u8; for _ in 0..8 { v = v << 1 | q.pop_front().ok_or("queue empty".to_string())?; } check_eq!(v, *x, "raw byte"); } }
            Step::Desc(v) => { let g = dec.decode_uvlc(&mut q); check_eq!(g, *v, "uvlc between streams"); while q.len() % 8 != 0 { q.pop_front(); } }
        }
        left -= sz * 8;
        check!(q.len() == left, "step {} of {}: after leaving a {}-byte stream {} bits remain, expected {}", k, steps.len(), sz, q.len(), left);
    }
    Ok(())
}

// --- C03: adaptation

fn adaptation(s: &mut Src, info: &mut Info) -> Res {
    let n = s.us(2, 16);
    let cdf0 = gen_cdf(s, n);
    let len = match s.below(3) { 0 => s.us(1, 8), 1 => s.us(1, 80), _ => s.us(33, 400) };
    let policy = s.below(6);
    let fixed = s.below(n as u64) as usize;
    let mut model = cdf0.clone();
    let mut ecdf = cdf0.clone();
    let mut enc = BoolCoder::new();
    let mut bits = vec![];
    let mut syms = vec![];
    let mut after = vec![];
    let still = s.one_in(8);
    enc.disable_cdf_update = s.bool(); // a new stream adapts whatever the last one did
    enc.init_encoder();
    if still { enc.disable_cdf_update = true; }
    for k in 0..len {
        let y = if policy == 2 { fixed } else { gen_symbol(s, &model, policy) };
        let before = model.clone();
        enc.encode_symbol(y as i32, &mut bits, &mut ecdf);
        if !still { adapt(&mut model, y); }
        check_eq!(ecdf, model, "encoder's distribution over {} symbols after symbol {} = {} (was {:?})", n, k, y, before);
        valid(&ecdf).map_err(|e| format!("distribution {:?} (from {:?} by coding {}): {}", ecdf, before, y, e))?;
        syms.push(y);
        after.push(ecdf.clone());
    }
    enc.exit_encoder(&mut bits);
    let mut dcdf = cdf0.clone();
    let mut dec = BoolCoder::new();
    let mut q = queue(&bits);
    dec.disable_cdf_update = s.bool();
    dec.init_decoder(&mut q, (bits.len() / 8) as u32);
    if still { dec.disable_cdf_update = true; info.label("adaptation disabled"); }
    for k in 0..len {
        let g = dec.decode_symbol(&mut q, &mut dcdf);
        check_eq!(g, syms[k] as u64, "decoded symbol {}", k);
        check_eq!(dcdf, after[k], "decoder's distribution after symbol {}", k);
    }
    info.nontrivial(len >= 2);
    if cdf0[n] + len as i32 > 32 { info.label("crosses the 32-symbol rate change"); }
    if cdf0[n] == 0 { info.label("starts unadapted"); }
    info.desc(|| format!("N={} from {:?}, symbols {:?}", n, cdf0, &syms[..syms.len().min(20)]));
    Ok(())
}

/// Several streams on one encoder and one decoder, with adaptation on or off, over distributions
/// that live on from stream to stream, with bools and literals in between.
fn adapt_session(s: &mut Src, info: &mut Info) -> Res {
    let k = s.us(1, 4);
    let cdfs: Vec<Vec<i32>> = (0..k).map(|_| { let n = s.us(2, 16); gen_cdf(s, n) }).collect();
    let (mut model, mut ec, mut dc) = (cdfs.clone(), cdfs.clone(), cdfs.clone());
    let (mut enc, mut dec) = (BoolCoder::new(), BoolCoder::new());
    let streams = s.us(1, 4);
    let mut changed = false;
    let (mut on, mut off) = (0, 0);
    for t in 0..streams {
        let still = s.one_in(3);
        if still { off += 1 } else { on += 1 }
        let len = match s.below(3) { 0 => s.us(0, 8), 1 => s.us(0, 40), _ => s.us(20, 120) };
        let policy = s.below(6);
        enc.init_encoder();
        if still { enc.disable_cdf_update = true; }
        let mut out = vec![];
        let mut ops = vec![];
        let mut states = vec![];
        for j in 0..len {
            let op = match s.weighted(&[6, 1, 1, 1]) {
                0 => { let i = s.below(k as u64) as usize; Op::Sym(i, gen_symbol(s, &model[i], policy)) }
                1 => Op::Bit(s.range(0, 255) as i32, s.below(2) as u8),
                2 => { let n = s.us(0, 12); Op::Bits(s.range(0, 255) as i32, (0..n).map(|_| s.below(2) as u8).collect()) }
                _ => { let n = s.us(0, 40) as u8; Op::Lit(s.u64() & ((1u64 << n) - 1), n) }
            };
            match &op {
                Op::Sym(i, y) => { enc.encode_symbol(*y as i32, &mut out, &mut ec[*i]); if !still { adapt(&mut model[*i], *y); changed = true; } }
                Op::Bit(p, b) => enc.encode_symbolp(*b, &mut out, *p),
                Op::Bits(p, v) => enc.encode_symbols(v, &mut out, *p),
                Op::Lit(v, n) => enc.encode_literal(&mut out, *v, *n),
            }
            check_eq!(ec, model, "stream {} (adaptation {}): the encoder's distributions after element {} ({:?})", t, if still { "off" } else { "on" }, j, op);
            ops.push(op);
            states.push(model.clone());
        }
        enc.exit_encoder(&mut out);
        check_eq!(ec, model, "stream {}: the encoder's distributions after its end", t);
        let mut q = queue(&out);
        dec.init_decoder(&mut q, (out.len() / 8) as u32);
        if still { dec.disable_cdf_update = true; }
        for (j, op) in ops.iter().enumerate() {
            match op {
                Op::Sym(i, y) => { let g = dec.decode_symbol(&mut q, &mut dc[*i]); check_eq!(g, *y as u64, "stream {}: symbol {}", t, j); }
                Op::Bit(p, b) => { let g = dec.decode_symbolp(&mut q, *p); check_eq!(g, *b as u64, "stream {}: bool {}", t, j); }
                Op::Bits(p, v) => { let mut o = vec![]; dec.decode_symbols(&mut q, &mut o, v.len() as i32, *p); check_eq!(o, *v, "stream {}: bool run {}", t, j); }
                Op::Lit(v, n) => { let g = dec.decode_literal(&mut q, *n); check_eq!(g, *v, "stream {}: literal {}", t, j); }
            }
            check_eq!(dc, states[j], "stream {} (adaptation {}): the decoder's distributions after element {} ({:?})", t, if still { "off" } else { "on" }, j, op);
        }
        dec.exit_decoder(&mut q);
    }
    info.nontrivial(changed);
    if on > 0 && off > 0 { info.label("streams with and without adaptation"); }
    info.desc(|| format!("{} distributions over {} streams, {} of them without adaptation", k, streams, off));
    Ok(())
}

/// exhaustive part of C03: every alphabet size, every symbol, every count, on a grid of distributions
fn adapt_grid(k: u64, info: &mut Info) -> Res {
    let n = 2 + (k / 33) as usize;
    let count = (k % 33) as i32;
    let mut s = Src::random(hash64(&[0xADA9, k]));
    for shape in 0..12 {
        let mut base = gen_cdf(&mut s, n);
        base[n] = count;
        for y in 0..n {
            let mut a = base.clone();
            let mut b = base.clone();
            let mut c = BoolCoder::new();
            let mut o = vec![];
            c.init_encoder();
            c.encode_symbol(y as i32, &mut o, &mut a);
            c.exit_encoder(&mut o);
            adapt(&mut b, y);
            check_eq!(a, b, "N={} count={} shape {} symbol {} from {:?}: encoder", n, count, shape, y, base);
            let mut d = base.clone();
            let mut q = queue(&o);
            let mut dc = BoolCoder::new();
            dc.init_decoder(&mut q, (o.len() / 8) as u32);
            let g = dc.decode_symbol(&mut q, &mut d);
            check_eq!(g, y as u64, "decoded symbol");
            check_eq!(d, b, "N={} count={} shape {} symbol {} from {:?}: decoder", n, count, shape, y, base);
            info.evals(1);
        }
    }
    info.nontrivial(true);
    info.desc(|| format!("N={} count={}, 12 distributions, every symbol", n, count));
    Ok(())
}

/// Literals read on after the last symbol: each needs a bit, so that the input has to run out.
fn past_the_end(s: &mut Src, info: &mut Info, p: &Prog, bits: &[u8]) -> Res {
    info.label("read beyond the end");
    info.nontrivial(nsyms(p) > 0);
    let n = s.us(1, 64) as u8;
    info.desc(|| format!("stream of {} bits, then literals of {} bits: {}", bits.len(), n, describe(p)));
    let mut q = queue(bits);
    let mut d = BoolCoder::new();
    d.init_decoder(&mut q, (bits.len() / 8) as u32);
    decode_ops(&mut d, p, &mut q)?;
    let left = q.len();
    // a literal's bit may cost slightly less than one bit of stream, so leave room
    let k = (left + left / 8 + 64) / n as usize + 2;
    let r = catch(|| { for _ in 0..k { d.decode_literal(&mut q, n); } });
    check!(r.is_err(), "{} literals of {} bits were read from the {} bits left after the last symbol", k, n, left);
    Ok(())
}

pub fn truncated(s: &mut Src, info: &mut Info) -> Res {
    let p = if s.one_in(8) { let t = s.us(1, 40); gen_carry_prog(s, t) } else { gen_prog(s, 40) };
    let (bits, _) = encode(&mut BoolCoder::new(), &p);
    let mut e = RefEnc::new();
    each_symbol(&p, |y, c| { e.encode(y, c); Ok(()) })?;
    let needed = 15 + e.shifts;
    check!(needed <= bits.len(), "stream shorter ({} bits) than its symbols need ({})", bits.len(), needed);
    if s.one_in(6) { return past_the_end(s, info, &p, &bits); }
    let cut = s.us(0, needed - 1);
    // the size announced for the stream: the one it has, the one that is left, or anything
    let sz = match s.below(4) { 0 | 1 => bits.len() / 8, 2 => cut / 8, _ => s.us(0, 40) };
    info.nontrivial(nsyms(&p) > 0 && cut >= 15);
    if cut >= 15 { info.label("cut inside the symbols"); }
    info.desc(|| format!("stream of {} bits cut to {}: {}", bits.len(), cut, describe(&p)));
    let r = catch(|| {
        let mut q = queue(&bits[..cut]);
        let mut d = BoolCoder::new();
        d.init_decoder(&mut q, sz as u32);
        decode_ops(&mut d, &p, &mut q)
    });
    check!(r.is_err(), "decoding {} symbols that need {} bits from {} bits went through without being refused", nsyms(&p), needed, cut);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01", level: "exploration",
            rule: "A case is a program of adaptive symbols (alphabets 2..16, arbitrary valid starting distributions and counts), static bools, bool runs and literals, coded as one stream and decoded by the crate's decoder and by an independent decoder; non-trivial when at least 8 elementary symbols are coded. The 'carry' cases are steered by a model of the coder so that a carry stays undecided for a chosen number of bits; 'carry-long' takes that to 132 000 bits; 'long' cases repeat a pattern for thousands of symbols.",
            assumptions: vec!["starting distributions are strictly increasing and end at 32768, as every table in the crate does"],
            subs: vec![
                Sub::random("mixed", 120_000, 6_000_000, |s, i| {
                    let p = gen_prog(s, 120);
                    i.nontrivial(nsyms(&p) >= 8);
                    i.desc(|| describe(&p));
                    for o in &p.ops { match o { Op::Lit(_, n) if *n > 32 => { i.label("literal over 32 bits"); break; } _ => {} } }
                    roundtrip(&p)
                }),
                Sub::random("carry", 30_000, 1_500_000, |s, i| {
                    let t = match s.below(4) { 0 => s.us(1, 20), 1 => s.us(1, 80), 2 => s.us(20, 300), _ => s.us(250, 700) };
                    let p = gen_carry_prog(s, t);
                    let m = max_pending(&p);
                    i.nontrivial(m >= 8);
                    if m >= 16 { i.label("carry undecided over >=16 bits"); }
                    if m >= 64 { i.label("carry undecided over >=64 bits"); }
                    if m >= 256 { i.label("carry undecided over >=256 bits"); }
                    i.desc(|| format!("carry undecided over {} bits: {}", m, describe(&p)));
                    roundtrip(&p)
                }),
                Sub::random("carry-long", 12, 600, |s, i| {
                    // runs past what 15, 16 and 17-bit counters hold
                    let t = s.pick(&[5_000usize, 32_000, 33_500, 66_500, 66_500, 132_500]);
                    let p = gen_carry_long(s, t);
                    let m = max_pending(&p);
                    i.nontrivial(m >= 4_000);
                    if m >= 4_096 { i.label("carry undecided over >=4096 bits"); }
                    if m >= 65_536 { i.label("carry undecided over >=65536 bits"); }
                    i.desc(|| format!("carry undecided over {} bits: {}", m, describe(&p)));
                    roundtrip(&p)
                }),
                Sub::random("long", 200, 20_000, |s, i| {
                    let n = s.us(2_000, 20_000);
                    let p = long_prog(s, n);
                    i.nontrivial(p.ops.len() >= 1000);
                    i.desc(|| format!("{} operations repeating {}", p.ops.len(), describe(&Prog { cdfs: p.cdfs.clone(), ops: p.ops.iter().take(24).cloned().collect() })));
                    roundtrip(&p)
                }),
                Sub::exhaustive("bools", 256 * 16, 256 * 16, |k, i| {
                    // every probability, every pattern of 4 bits, as single bools and as a run
                    let p = (k / 16) as i32;
                    let v: Vec<u8> = (0..4).map(|j| ((k >> j) & 1) as u8).collect();
                    let mut ops: Vec<Op> = v.iter().map(|b| Op::Bit(p, *b)).collect();
                    ops.push(Op::Bits(p, v.clone()));
                    ops.push(Op::Lit(k % 16, 4));
                    i.nontrivial(true);
                    i.desc(|| format!("{:?}", ops));
                    roundtrip(&Prog { cdfs: vec![], ops })
                }),
            ],
        },
        Prop {
            id: "C02", level: "exploration",
            rule: "A case is a history on one coder object: several symbol streams interleaved with raw bytes and descriptors in one buffer, then decoded by one object that may leave a stream early. Non-trivial when the history holds at least two non-empty streams.",
            assumptions: vec![],
            subs: vec![Sub::random("history", 200_000, 5_000_000, history), Sub::random("history-long", 64, 4_000, history_long)],
        },
        Prop {
            id: "C03", level: "exploration",
            rule: "A case drives one distribution (2..16 symbols, any valid start, any adaptation count) with a symbol sequence under one of six policies and compares encoder and decoder distributions with an independent model after every symbol; non-trivial when at least two symbols are coded. A session does so for up to four streams, with adaptation on or off, over one to four distributions that live on, with bools and literals in between (non-trivial: something adapted). The grid enumerates alphabet sizes x counts x symbols.",
            assumptions: vec!["the adaptation rule is the one of the crate's AV1 draft: rate 4 + (count>31) + floor(log2 N), floor 32 per symbol"],
            subs: vec![
                Sub::exhaustive("grid", 15 * 33, 15 * 33, adapt_grid),
                Sub::random("sequence", 160_000, 4_000_000, adaptation),
                Sub::random("session", 60_000, 2_000_000, adapt_session),
            ],
        },
        Prop {
            id: "C04", level: "exploration",
            rule: "A case is a symbol program; its stream length is compared with the information content of its symbols under the adapting distributions (model). Non-trivial when at least 20 elementary symbols are coded.",
            assumptions: vec!["bound: information content, plus per symbol what an 8-bit view of the range can cost (0.011 bits for likely symbols, up to 1 bit for the rarest), plus 16 bits to end the stream, rounded up to a byte"],
            subs: vec![
                Sub::random("length", 300_000, 4_000_000, |s, i| { let p = gen_prog(s, 150); code_length(&p, i) }),
                Sub::random("length-long", 300, 20_000, |s, i| { let n = s.us(2000, 20000); let p = long_prog(s, n); code_length(&p, i) }),
                Sub::random("length-skewed", 20_000, 800_000, |s, i| {
                    // one very likely symbol repeated: must approach zero bits per symbol
                    let n = s.us(2, 16);
                    let c = gen_cdf(s, n);
                    let len = s.us(20, 400);
                    let y = s.below(n as u64) as usize;
                    let p = Prog { cdfs: vec![c], ops: (0..len).map(|_| Op::Sym(0, y)).collect() };
                    code_length(&p, i)
                }),
            ],
        },
    ]
}
