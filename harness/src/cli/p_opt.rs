//! C09: command-line options, in process, against a model of the documented option list.
use av1enc::verif::option::{CommandOption, Config};
use harness::engine::*;
use harness::{check, check_eq};

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub input: Option<String>,
    pub output: Option<String>,
    pub frames: u64,
    pub size: (Option<u64>, Option<u64>),
    pub rate: (u64, u64),
}

pub enum Verdict { Accept(Model), Reject(&'static str), Help }

pub fn number(t: &str) -> Option<u64> {
    let d = t.strip_prefix('+').unwrap_or(t);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None; }
    let mut v = 0u128;
    for c in d.bytes() {
        v = v * 10 + (c - b'0') as u128;
        if v > u64::MAX as u128 { return None; }
    }
    Some(v as u64)
}

/// What the option list documents: `--name value` or `-short value`, the last value of an option counts.
pub fn model(args: &[String]) -> Verdict {
    let mut m = Model { input: None, output: None, frames: 4294967295, size: (None, None), rate: (30, 1) };
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        let opt = match a.as_str() {
            "--help" | "-h" => return Verdict::Help,
            "--input" | "-i" => 0,
            "--output" | "-o" => 1,
            "--frames" | "-fr" => 2,
            "--size" | "-s" => 3,
            "--framerate" | "-r" => 4,
            _ => return Verdict::Reject("unknown option"),
        };
        let v = match args.get(i + 1) { Some(v) => v, None => return Verdict::Reject("value missing") };
        match opt {
            0 => m.input = Some(v.clone()),
            1 => m.output = Some(v.clone()),
            2 => match number(v) { Some(n) => m.frames = n, None => return Verdict::Reject("bad number") },
            3 => {
                let p: Vec<&str> = v.split('x').collect();
                if p.len() != 2 { return Verdict::Reject("bad size"); }
                match (number(p[0]), number(p[1])) { (Some(w), Some(h)) => m.size = (Some(w), Some(h)), _ => return Verdict::Reject("bad size") }
            }
            _ => {
                if let Some(n) = number(v) { m.rate = (n, 1); }
                else {
                    let p: Vec<&str> = v.split('/').collect();
                    if p.len() != 2 { return Verdict::Reject("bad frame rate"); }
                    match (number(p[0]), number(p[1])) { (Some(n), Some(d)) if d > 0 => m.rate = (n, d), _ => return Verdict::Reject("bad frame rate") }
                }
            }
        }
        i += 2;
    }
    Verdict::Accept(m)
}

/// Why a parsed configuration cannot be run, if so.
pub fn invalid(m: &Model) -> Option<&'static str> {
    if m.input.is_none() { return Some("no input"); }
    if m.output.is_none() { return Some("no output"); }
    match m.size {
        (Some(w), Some(h)) if w > 0 && w < 8192 && h > 0 && h < 8192 => {}
        _ => return Some("size missing or outside 1..8191"),
    }
    if m.rate.0 == 0 { return Some("frame rate zero"); }
    None
}

fn text(s: &mut Src) -> String {
    let n = s.us(0, 6);
    (0..n).map(|_| s.pick(&['a', '0', '7', '-', 'x', '/', ' ', '.', '=', '+', 'é', '漢', '\u{1F600}', '\n', '5'])).collect()
}

pub fn num_text(s: &mut Src, max: u64) -> String {
    let v = s.biased(max);
    match s.below(12) { 0 => format!("0{}", v), 1 => format!("+{}", v), _ => v.to_string() }
}

/// A number, size or rate, mostly broken: known ways, or a good one with a character changed, inserted or left out.
pub fn bad_number(s: &mut Src) -> String {
    if s.one_in(3) {
        let (a, b) = (num_text(s, 9000), num_text(s, 9000));
        let good = match s.below(3) { 0 => a, 1 => format!("{}x{}", a, b), _ => format!("{}/{}", a, b) };
        let mut c: Vec<char> = good.chars().collect();
        let x = s.pick(&['0', '9', 'x', '/', '-', '+', '.', ' ', 'a', 'X', ',', 'e', '_', '\u{e9}', ':', '\u{0}']);
        let x = if x == '\u{0}' { '\t' } else { x };
        let k = if s.one_in(3) { s.us(0, 1).min(c.len()) } else { s.us(0, c.len()) };
        match s.below(3) { 0 => c.insert(k, x), 1 => { if k < c.len() { c[k] = x; } else { c.push(x); } } _ => { if k < c.len() { c.remove(k); } else { c.pop(); } } }
        return c.into_iter().collect();
    }
    s.pick(&["", "-1", "abc", "1.5", "18446744073709551616", "99999999999999999999999", "0x10", " 5", "5 ", "5x", "x5", "5x5x5", "5X5", "1/2/3", "/1", "1/", "1/0", "0/0", "+", "１２", "1e3", "--5", "5/-1", "x", "/", "1:2", "5 6", "\t5", "5\n", "1_0", "٣", "0b1", "1x2/3", "2/3x4", "4x4 ", "4 x4", "4×4", "NaN", "inf", "+-1", "++1", "-0", "1//2", "1/2/", "/1/2", "x1x2", "1x2x", "1x/2", "1xx2", "30000/1001 ", "1,5", "0xffx1", "1.0/1", "4294967296x", "∞"]).to_string()
}

/// Almost an option name.
pub fn near_name(s: &mut Src) -> String {
    let o = s.us(0, 5);
    let (l, sh) = if o < 5 { NAMES[o] } else { ("--help", "-h") };
    let base: String = if s.bool() { l.to_string() } else { sh.to_string() };
    match s.below(8) {
        0 => base[..base.len() - 1].to_string(),
        1 => format!("{}{}", base, s.pick(&["s", " ", "x", "=", "=5", "1", "é", "\n", "-"])),
        2 => base.to_uppercase(),
        3 => l[1..].to_string(),            // the long name with one dash
        4 => format!("-{}", sh),            // the short name with two
        5 => base.trim_start_matches('-').to_string(),
        6 => format!("{}{}", s.pick(&["-", "--", " ", "+", "/", "—"]), base),
        _ => { let mut c: Vec<char> = base.chars().collect(); let k = s.us(0, c.len() - 1); c[k] = s.pick(&['a', 'z', '-', 'i', 'o', '5', 'ſ']); c.into_iter().collect() }
    }
}

pub const NAMES: [(&str, &str); 5] = [("--input", "-i"), ("--output", "-o"), ("--frames", "-fr"), ("--size", "-s"), ("--framerate", "-r")];

pub fn gen_args(s: &mut Src, malformed: bool) -> Vec<String> {
    let mut v = vec![];
    let n = if s.one_in(20) { s.us(8, 40) } else { s.us(0, 8) };
    for _ in 0..n {
        if malformed && s.one_in(24) { v.push(near_name(s)); if s.bool() { v.push("5".to_string()); } continue; }
        if malformed && s.one_in(16) { v.push(text(s)); continue; }
        if malformed && s.one_in(24) { v.push(s.pick(&["-", "--", "", "-x", "--inputs", "-I", "--Input", "input", "-input", "--i", "—input", "-s=5x5", "--size=5x5", "-fr1"]).to_string()); continue; }
        let o = s.us(0, 4);
        v.push(if s.bool() { NAMES[o].0.to_string() } else { NAMES[o].1.to_string() });
        if malformed && s.one_in(20) { continue; }
        let bad = malformed && s.one_in(5);
        v.push(match o {
            0 | 1 => s.pick(&["a.yuv", "stdin", "stdout", "", "-i", "--output", "-", "dir/b c.obu", "ü", "30", "-h", "--help", "漢字.obu"]).to_string(),
            _ if bad => bad_number(s),
            2 => num_text(s, u64::MAX),
            3 => { let (a, b) = if s.one_in(4) { (u64::MAX, 9000) } else { (9000, 9000) }; format!("{}x{}", num_text(s, a), num_text(s, b)) }
            _ => if s.bool() { num_text(s, u64::MAX) } else { let m = if s.bool() { 200 } else { u64::MAX }; format!("{}/{}", num_text(s, m), num_text(s, m)) },
        });
    }
    v
}

fn parse(args: &[String]) -> Result<(Result<Vec<String>, String>, Config), String> {
    let mut c = Config::default();
    CommandOption::init_config(&mut c);
    let a = args.to_vec();
    let r = catch(|| CommandOption::parse(a, &mut c))?;
    Ok((r, c))
}

fn seen(c: &Config) -> Model {
    let r = c.framerate.as_ref().map(|r| (*r.numer() as u64, *r.denom() as u64)).unwrap_or((0, 0));
    Model { input: c.input.clone(), output: c.output.clone(), frames: c.frames.map(|x| x as u64).unwrap_or(u64::MAX), size: (c.frame_width.map(|x| x as u64), c.frame_height.map(|x| x as u64)), rate: r }
}

fn same(a: &Model, b: &Model) -> bool {
    a.input == b.input && a.output == b.output && a.frames == b.frames && a.size == b.size
        && a.rate.0 as u128 * b.rate.1 as u128 == b.rate.0 as u128 * a.rate.1 as u128
}

fn compare(args: &[String], info: &mut Info) -> Res {
    info.desc(|| format!("{:?}", args));
    match model(args) {
        Verdict::Help => Ok(()), // ends the process; checked on the program itself
        Verdict::Reject(why) => {
            info.label("rejected");
            let (r, _) = parse(args)?;
            check!(r.is_err(), "{:?} was accepted ({})", args, why);
            Ok(())
        }
        Verdict::Accept(m) => {
            info.label("accepted");
            let (r, c) = parse(args)?;
            check!(r.is_ok(), "{:?} was refused: {:?}", args, r);
            let got = seen(&c);
            check!(same(&got, &m), "{:?} gave {:?}, expected {:?}", args, got, m);
            let v = catch(|| CommandOption::validate_config(&c))?;
            match invalid(&m) {
                Some(why) => { info.label("invalid configuration"); check!(v.is_err(), "{:?}: the configuration passed validation ({})", args, why); }
                None => { info.label("runnable"); check!(v.is_ok(), "{:?}: the configuration was refused: {:?}", args, v); }
            }
            Ok(())
        }
    }
}

fn well_formed(s: &mut Src, info: &mut Info) -> Res {
    let a = gen_args(s, false);
    info.nontrivial(a.len() >= 4);
    compare(&a, info)
}

fn malformed(s: &mut Src, info: &mut Info) -> Res {
    let a = gen_args(s, true);
    info.nontrivial(!a.is_empty());
    compare(&a, info)
}

/// One option of each kind: every order and spelling gives the same configuration.
fn orders(s: &mut Src, info: &mut Info) -> Res {
    let w = s.range(1, 8191);
    let h = s.range(1, 8191);
    let (n, d) = (s.range(1, 240000), s.range(1, 1001));
    let rate = if s.bool() { format!("{}", n) } else { format!("{}/{}", n, d) };
    let vals = ["in.yuv".to_string(), "out.obu".to_string(), num_text(s, 1000), format!("{}x{}", w, h), rate];
    let mut first: Option<Model> = None;
    info.nontrivial(true);
    info.desc(|| format!("{:?} in all 120 orders", vals));
    let mut perm = vec![];
    fn heap(k: usize, a: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k <= 1 { out.push(a.clone()); return; }
        for i in 0..k { heap(k - 1, a, out); if k % 2 == 0 { a.swap(i, k - 1); } else { a.swap(0, k - 1); } }
    }
    heap(5, &mut vec![0, 1, 2, 3, 4], &mut perm);
    for p in perm {
        let mut a = vec![];
        for o in p.iter() {
            a.push(if s.bool() { NAMES[*o].0 } else { NAMES[*o].1 }.to_string());
            a.push(vals[*o].clone());
        }
        let (r, c) = parse(&a)?;
        check!(r.is_ok(), "{:?} was refused: {:?}", a, r);
        let m = seen(&c);
        check_eq!(m.size, (Some(w as u64), Some(h as u64)), "size from {:?}", a);
        match first { None => first = Some(m), Some(ref f) => check!(same(f, &m), "{:?} gave {:?}, another order gave {:?}", a, m, f) }
        check!(CommandOption::validate_config(&c).is_ok(), "{:?} was found invalid", a);
        info.evals(1);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C09", level: "exploration",
        rule: "A case is an argument list built from the documented options in both spellings with repeated, boundary and (in 'malformed') broken values, unknown options and missing values; the parsed configuration and the validation verdict are compared with a model of the documented list. Non-trivial: at least two options (well-formed), any argument (malformed); 'orders' tries one list in all 120 orders.",
        assumptions: vec!["numbers follow Rust's unsigned parsing: optional '+', decimal digits, at most 2^64-1"],
        subs: vec![
            Sub::random("well-formed", 200_000, 3_000_000, well_formed),
            Sub::random("malformed", 300_000, 6_000_000, malformed),
            Sub::random("orders", 300, 20_000, orders),
        ],
    }]
}
