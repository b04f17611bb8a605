//! C23: the distributions a stream starts with.
use harness::engine::*;
use harness::refcoder::*;
use crate::cdfs::*;
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::cdf::default_cdf;
use std::sync::OnceLock;

pub fn dump() -> String {
    let mut o = String::new();
    for_each_leaf(&mut *boxed(&default_cdf), &mut |n, p, l| {
        let p: Vec<String> = p.iter().map(|x| x.to_string()).collect();
        let l: Vec<String> = l.iter().map(|x| x.to_string()).collect();
        o.push_str(&format!("{} {} {}\n", n, if p.is_empty() { "-".into() } else { p.join(".") }, l.join(" ")));
    });
    o
}

type Leaf = (String, Vec<i32>);
static PINNED: OnceLock<Vec<Leaf>> = OnceLock::new();
static NOW: OnceLock<Vec<Leaf>> = OnceLock::new();
fn parse(t: &str) -> Vec<Leaf> {
    t.lines().map(|l| { let mut w = l.split(' '); let k = format!("{} {}", w.next().unwrap(), w.next().unwrap()); (k, w.map(|x| x.parse().unwrap()).collect()) }).collect()
}
fn pinned() -> &'static Vec<Leaf> { PINNED.get_or_init(|| parse(include_str!("../../data/default_cdf.txt"))) }
fn now() -> &'static Vec<Leaf> { NOW.get_or_init(|| parse(&dump())) }

/// one distribution: well formed, unused, and the one a decoder starts with
fn each(k: u64, i: &mut Info) -> Res {
    let (a, b) = (now(), pinned());
    if k as usize >= a.len().max(b.len()) { return Ok(()); }
    if a.len() != b.len() { return Err(format!("{} distributions instead of {}", a.len(), b.len())); }
    let ((na, la), (nb, lb)) = (&a[k as usize], &b[k as usize]);
    if na != nb { return Err(format!("distribution {} instead of {}", na, nb)); }
    i.nontrivial(true);
    i.desc(|| format!("{}: {:?}", na, la));
    if la != lb { return Err(format!("{} starts as {:?}, at a decoder as {:?}", na, la, lb)); }
    valid(la).map_err(|e| format!("{}: {}", na, e))?;
    if *la.last().unwrap() != 0 { return Err(format!("{} starts with a use count", na)); }
    Ok(())
}

/// symbols coded from the start distributions come back at a decoder that starts with its own
fn coded(s: &mut Src, i: &mut Info) -> Res {
    let (a, b) = (now(), pinned());
    let n = s.us(1, 6);
    let mut c = BoolCoder::new();
    c.init_encoder();
    let mut out = vec![];
    let mut steps = vec![];
    for run in 0..n {
        let k = s.below(a.len() as u64) as usize;
        let mut l = a[k].1.clone();
        for _ in 0..s.us(1, 8) {
            let y = s.below(l.len() as u64 - 1) as usize;
            c.encode_symbol(y as i32, &mut out, &mut l);
            steps.push((k, y, run));
        }
    }
    c.exit_encoder(&mut out);
    let mut d = RefDec::new(&out)?;
    let mut k = 0;
    let mut runs = 0;
    let mut at = usize::MAX;
    let mut l: Vec<i32> = vec![];
    while k < steps.len() {
        let (leaf, y, run) = steps[k];
        if run != at { l = b[leaf].1.clone(); at = run; runs += 1; }
        let x = d.decode(&l)?;
        if x != y { return Err(format!("{}: a decoder reads {} instead of {}", b[leaf].0, x, y)); }
        adapt(&mut l, y);
        k += 1;
    }
    i.evals += steps.len() as u64;
    i.nontrivial(runs > 1);
    i.desc(|| format!("{:?}", steps.iter().map(|(k, y, _)| format!("{}={}", a[*k].0, y)).collect::<Vec<_>>()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let n = pinned().len().max(now().len()) as u64;
    vec![Prop {
        id: "C23", level: "exploration",
        rule: "every distribution counts once; of the coded sequences those that use several distributions",
        assumptions: vec!["the start distributions of the decoder are those of the pinned tree, kept in data/default_cdf.txt"],
        subs: vec![
            Sub::exhaustive("every start distribution", n, n, each),
            Sub::random("symbols coded from the start distributions", 40_000, 1_000_000, coded),
        ],
    }]
}
