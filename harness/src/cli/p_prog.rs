//! C10 and C16: the av1enc program itself.
use crate::p_io::Tmp;
use crate::p_opt::{bad_number, near_name, gen_args, invalid, model, Verdict, NAMES};
use harness::av1;
use harness::bits::*;
use harness::engine::*;
use harness::{check, check_eq};
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub enum In { Null, Data { bytes: Vec<u8>, chunk: usize, hold_open: bool }, Broken { bytes: Vec<u8> } }
pub enum Out { Pipe, Full, Closed }

pub struct Run { pub code: Option<i32>, pub signal: Option<i32>, pub stdout: Vec<u8>, pub stderr: String, pub timed_out: bool }

const WALL: u64 = 90; // only ends a run that is blocked; loops are ended by the CPU limit

pub fn bin() -> String { std::env::var("AV1ENC_BIN").expect("AV1ENC_BIN") }

pub fn run(args: &[OsString], dir: &str, input: In, out: Out) -> Result<Run, String> { run_as(args, dir, input, out, None).map_err(|e| e.1) }

/// Runs the program, as another user if asked to. An error says whether it could not be started at all.
pub fn run_as(args: &[OsString], dir: &str, input: In, out: Out, user: Option<(&str, u32)>) -> Result<Run, (bool, String)> {
    let program = user.map(|u| u.0.to_string()).unwrap_or_else(bin);
    let mut c = Command::new(&program);
    if let Some((_, id)) = user { c.uid(id).gid(id); }
    let mut socket = None;
    c.args(args).current_dir(dir).env_clear();
    c.stdin(match input { In::Null => Stdio::null(), In::Data { .. } => Stdio::piped(), In::Broken { .. } => {
        // a socket whose other end goes away with unread data: its reader gets what was written, then an error
        let (a, mut b) = std::os::unix::net::UnixStream::pair().map_err(|e| (true, e.to_string()))?;
        b.write_all(&[0]).map_err(|e| (true, e.to_string()))?;
        socket = Some(a);
        Stdio::from(std::os::fd::OwnedFd::from(b))
    } });
    c.stdout(match out { Out::Pipe | Out::Closed => Stdio::piped(), Out::Full => Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| (true, e.to_string()))?) });
    if let Out::Closed = out {
        // a pipe nobody reads from
        let mut fds = [0i32; 2];
        if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 { return Err((true, "pipe".to_string())); }
        unsafe { libc::close(fds[0]); }
        c.stdout(unsafe { <Stdio as std::os::unix::io::FromRawFd>::from_raw_fd(fds[1]) });
    }
    c.stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            for (r, v) in [(libc::RLIMIT_CPU, 20u64), (libc::RLIMIT_AS, 4u64 << 30), (libc::RLIMIT_FSIZE, 64u64 << 20), (libc::RLIMIT_CORE, 0)].iter() {
                let l = libc::rlimit { rlim_cur: *v, rlim_max: *v };
                libc::setrlimit(*r, &l);
            }
            Ok(())
        });
    }
    let mut p = c.spawn().map_err(|e| (true, format!("cannot start {}: {}", program, e)))?;
    drop(c);
    let mut held = None;
    let feeder = match input {
        In::Null => None,
        In::Broken { bytes } => {
            let mut w = socket.take().unwrap();
            Some(std::thread::spawn(move || { let _ = w.write_all(&bytes); drop(w); }))
        }
        In::Data { bytes, chunk, hold_open } => {
            let mut w = p.stdin.take().unwrap();
            let (tx, rx) = std::sync::mpsc::channel::<()>();
            held = Some(tx);
            Some(std::thread::spawn(move || {
                for x in bytes.chunks(chunk.max(1)) { if w.write_all(x).is_err() { return; } }
                if hold_open { let _ = rx.recv(); } // until the process has ended
                drop(w);
            }))
        }
    };
    let so = p.stdout.take();
    let t1 = std::thread::spawn(move || { let mut v = vec![]; if let Some(mut o) = so { let _ = o.read_to_end(&mut v); } v });
    let mut se = p.stderr.take().unwrap();
    let t2 = std::thread::spawn(move || { let mut v = vec![]; let _ = se.read_to_end(&mut v); v });
    let t0 = Instant::now();
    let mut timed_out = false;
    let mut nap = 200u64;
    let st = loop {
        match p.try_wait().map_err(|e| (false, e.to_string()))? {
            Some(s) => break s,
            None => {
                if t0.elapsed() > Duration::from_secs(WALL) { timed_out = true; let _ = p.kill(); break p.wait().map_err(|e| (false, e.to_string()))?; }
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap * 2).min(20_000);
            }
        }
    };
    drop(held);
    if let Some(f) = feeder { let _ = f.join(); }
    Ok(Run { code: st.code(), signal: st.signal(), stdout: t1.join().unwrap_or_default(), stderr: String::from_utf8_lossy(&t2.join().unwrap_or_default()).to_string(), timed_out })
}

fn os(a: &[String]) -> Vec<OsString> { a.iter().map(|x| OsString::from(x.clone())).collect() }

fn ended(r: &Run) -> Res {
    check!(!r.timed_out, "the program did not end");
    check!(r.signal.is_none(), "the program was ended by signal {:?}{}", r.signal, if r.signal == Some(libc::SIGXCPU) || r.signal == Some(libc::SIGKILL) { " (CPU limit: endless loop)" } else { "" });
    check!(!r.stderr.contains("panicked at"), "the program panicked: {}", trunc(&r.stderr, 400));
    Ok(())
}

// ---- C10

/// Argument lists, mostly broken; values naming files always stay inside the scratch directory.
fn refuse(s: &mut Src, info: &mut Info) -> Res {
    let d = Tmp::new("c10");
    std::fs::create_dir_all(&d.0).unwrap();
    let mut a = os(&sanitize(gen_args(s, true)));
    let mut mkdir = false;
    if s.bool() {
        // a complete command line with one thing wrong, so that only that thing can be the reason
        let w = s.us(1, 64);
        let mut parts: Vec<Vec<String>> = vec![
            vec!["-i".into(), "in.yuv".into()], vec!["-o".into(), "out.obu".into()],
            vec!["-s".into(), format!("{}x{}", w, w)], vec!["-fr".into(), "1".into()], vec!["-r".into(), "25".into()],
        ];
        match s.below(14) {
            9 | 11 | 12 | 13 => { let k = s.us(2, 4); parts[k][1] = bad_number(s); }
            10 => { let k = s.us(0, 5); let mut v = vec![near_name(s)]; if s.bool() { v.push(s.pick(&["5", "5x5", "a.yuv"]).to_string()); } parts.insert(k, v); }
            0 => { let k = s.us(0, 2); parts.remove(k); }
            1 => { let v = s.pick(&["0x16", "16x0", "8192x16", "16x8192", "0x0", "99999999999999999999x1", "16", "x", "16x", "-1x5", "16x16x16", "65552x16", "16x65552", "4294967312x16"]); parts[2][1] = v.to_string(); }
            2 => { let v = s.pick(&["0", "0/1", "1/0", "0/0", "a", "", "1/2/3", "-5"]); parts[4][1] = v.to_string(); }
            3 => { let v = s.pick(&["-1", "x", "", "1.5"]); parts[3][1] = v.to_string(); }
            4 => { let k = s.us(0, 5); let v = s.pick(&["bogus", "-z", "--sizes", "-", "--", "", "é", "-é", "--é", "=", "漢"]); parts.insert(k, vec![v.to_string()]); }
            5 => { parts[0][1] = "missing.yuv".to_string(); }
            6 => { parts[1][1] = s.pick(&["no/such/dir/out.obu", ".", "dir"]).to_string(); mkdir = parts[1][1] == "dir"; }
            7 => { let k = s.us(0, 4); let p = parts.remove(k); parts.push(vec![p[0].clone()]); }
            _ => { let k = s.us(0, 5); parts.insert(k, vec![s.pick(&["--help", "-h"]).to_string()]); }
        }
        a = os(&parts.concat());
        info.label("complete but for one thing");
    }
    let mut raw = false;
    if s.one_in(6) {
        let k = s.us(0, a.len());
        let n = s.us(1, 4);
        let mut b: Vec<u8> = (0..n).map(|_| match s.range(1, 255) as u8 { b'/' => b'.', x => x }).collect(); // no paths outside the scratch directory
        if s.bool() { let mut t = b"-i".to_vec(); t.extend(&b); b = t; }
        a.insert(k, OsString::from_vec(b));
        raw = true;
    }
    if mkdir { std::fs::create_dir(format!("{}/dir", d.0)).unwrap(); }
    std::fs::write(format!("{}/in.yuv", d.0), vec![0x55u8; 64 * 64 * 2]).unwrap();
    let before = b"contents that must survive".to_vec();
    let exists = s.bool();
    if exists { std::fs::write(format!("{}/out.obu", d.0), &before).unwrap(); }
    info.nontrivial(!a.is_empty());
    info.desc(|| format!("{:?}", a));
    let strs: Option<Vec<String>> = a.iter().map(|x| x.clone().into_string().ok()).collect();
    if raw { info.label("arbitrary bytes"); }
    let verdict = match &strs {
        None => Err("not Unicode"),
        Some(v) => match model(v) {
            Verdict::Help => Ok(None),
            Verdict::Reject(w) => Err(w),
            Verdict::Accept(m) => match invalid(&m) { Some(w) if !v.is_empty() => Err(w), _ => Ok(Some(m)) },
        },
    };
    let r = run(&a, &d.0, In::Data { bytes: vec![], chunk: 1, hold_open: false }, Out::Pipe)?;
    ended(&r).map_err(|e| format!("{:?}: {}", a, e))?;
    let list = || { let mut v: Vec<String> = std::fs::read_dir(&d.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect(); v.sort(); v };
    let untouched = || -> Res {
        let mut exp = vec!["in.yuv".to_string()];
        if mkdir { exp.insert(0, "dir".to_string()); }
        if exists { exp.push("out.obu".to_string()); }
        check_eq!(list(), exp, "{:?}: files after a refused command line", a);
        if exists { check!(std::fs::read(format!("{}/out.obu", d.0)).unwrap() == before, "{:?}: a refused command line changed the output file", a); }
        check!(std::fs::read(format!("{}/in.yuv", d.0)).unwrap() == vec![0x55u8; 64 * 64 * 2], "{:?}: the input file was changed", a);
        Ok(())
    };
    match verdict {
        Err(why) => {
            info.label("refused");
            check!(r.code != Some(0), "{:?} ended with success ({})", a, why);
            check!(r.stdout.is_empty(), "{:?}: a refused command line wrote {} bytes to standard output", a, r.stdout.len());
            check!(r.stderr.contains("error"), "{:?}: no error message: {:?}", a, r.stderr);
            untouched()?;
        }
        Ok(None) => {
            info.label("help");
            check_eq!(r.code, Some(0), "{:?}: exit status of help", a);
            let t = String::from_utf8_lossy(&r.stdout).to_string();
            for (l, sh) in NAMES.iter() { check!(t.contains(l) && t.contains(sh), "{:?}: help does not mention {} ({})", a, l, sh); }
            untouched()?;
        }
        Ok(Some(m)) => {
            if a.is_empty() { check_eq!(r.code, Some(0), "exit status without arguments"); untouched()?; return Ok(()); }
            // runnable: refused only if a file cannot be opened, and then without touching the output
            let input = m.input.clone().unwrap();
            let output = m.output.clone().unwrap();
            let can_in = input == "stdin" || input == "in.yuv" || (input == "out.obu" && exists);
            let can_out = output == "stdout" || !(output.is_empty() || output.contains('/') || output == "." || mkdir);
            if !can_in {
                info.label("input cannot be opened");
                check!(r.code != Some(0), "{:?} ended with success although its input cannot be opened", a);
                check!(r.stdout.is_empty(), "{:?}: wrote to standard output although its input cannot be opened", a);
                untouched()?;
            } else if !can_out {
                info.label("output cannot be created");
                check!(r.code != Some(0), "{:?} ended with success although its output cannot be created", a);
            } else {
                info.label("accepted");
                check_eq!(r.code, Some(0), "{:?}: exit status ({})", a, trunc(&r.stderr, 200));
            }
        }
    }
    Ok(())
}

/// Lists of many thousand options: the last value of each counts, or the last one is wrong.
fn long(s: &mut Src, info: &mut Info) -> Res {
    let d = Tmp::new("c10");
    std::fs::create_dir_all(&d.0).unwrap();
    let n = s.us(500, 30_000);
    let (w, h) = (s.us(1, 32), s.us(1, 32));
    let pool: Vec<[String; 2]> = (0..s.us(1, 4)).map(|_| match s.below(5) {
        0 => ["-fr".to_string(), format!("{}", s.us(0, 9))],
        1 => ["--size".to_string(), format!("{}x{}", s.us(0, 9000), s.us(0, 9000))],
        2 => ["-o".to_string(), "wrong.obu".to_string()],
        3 => ["-i".to_string(), "missing.yuv".to_string()],
        _ => ["-r".to_string(), format!("{}/{}", s.us(0, 99), s.us(1, 99))],
    }).collect();
    let mut a: Vec<String> = vec![];
    for k in 0..n { a.extend(pool[k % pool.len()].iter().cloned()); }
    for p in [["-i".to_string(), "in.yuv".to_string()], ["-o".to_string(), "out.obu".to_string()], ["-s".to_string(), format!("{}x{}", w, h)], ["-fr".to_string(), "1".to_string()], ["-r".to_string(), "25".to_string()]].iter() { a.extend(p.iter().cloned()); }
    let bad = match s.below(4) { 0 => Some("bogus"), 1 => Some("-fr"), 2 => Some("--none"), _ => None };
    if let Some(b) = bad { a.push(b.to_string()); }
    info.nontrivial(true);
    let name = format!("{} options, first {:?}, then a complete list{}", n + 5, pool, bad.map_or(String::new(), |b| format!(" and {:?}", b)));
    info.desc(|| name.clone());
    std::fs::write(format!("{}/in.yuv", d.0), vec![0x55u8; 32 * 32 * 2]).unwrap();
    let r = run(&os(&a), &d.0, In::Null, Out::Pipe)?;
    ended(&r).map_err(|e| format!("{}: {}", name, e))?;
    let out = format!("{}/out.obu", d.0);
    check!(!std::path::Path::new(&format!("{}/wrong.obu", d.0)).exists(), "{}: an output that was replaced by a later one was created", name);
    if bad.is_some() {
        info.label("refused");
        check!(r.code != Some(0), "{} ended with success", name);
        check!(r.stderr.contains("error"), "{}: no error message", name);
        check!(!std::path::Path::new(&out).exists(), "{}: a refused command line created its output", name);
        return Ok(());
    }
    info.label("accepted");
    check_eq!(r.code, Some(0), "{}: exit status ({})", name, trunc(&r.stderr, 200));
    check_stream(&std::fs::read(&out).map_err(|e| format!("{}: no output: {}", name, e))?, w, h).map_err(|e| format!("{}: {}", name, e))
}

/// Files that cannot be opened, for the user the program runs as.
fn files(s: &mut Src, info: &mut Info) -> Res {
    use std::os::unix::fs::{symlink, PermissionsExt};
    let d = Tmp::new("c10f");
    std::fs::create_dir_all(&d.0).unwrap();
    let at = |n: &str| format!("{}/{}", d.0, n);
    let mode = |n: &str, m: u32| std::fs::set_permissions(at(n), std::fs::Permissions::from_mode(m)).unwrap();
    let nobody = s.bool();
    let (w, h) = (s.us(1, 16), s.us(1, 16));
    let data = content(s.u64(), frame_bytes(w, h));
    let long = "n".repeat(s.us(256, 600));
    // what the input and the output are, and whether root and others can open them
    let (iname, ibad) = match s.below(11) {
        0 | 1 | 2 => ("in.yuv".to_string(), (false, false)),
        3 => ("locked.yuv".to_string(), (false, true)),
        4 => ("private/in.yuv".to_string(), (false, true)),
        5 => ("missing.yuv".to_string(), (true, true)),
        6 => ("dangling".to_string(), (true, true)),
        7 => ("loop".to_string(), (true, true)),
        8 => (long.clone(), (true, true)),
        9 => ("in.yuv/in.yuv".to_string(), (true, true)),
        _ => ("link.yuv".to_string(), (false, false)),
    };
    let (oname, obad) = match s.below(11) {
        0 | 1 => ("free/out.obu".to_string(), (false, false)),
        2 => ("free/old.obu".to_string(), (false, false)),
        3 => ("readonly.obu".to_string(), (false, true)),
        4 => ("private/out.obu".to_string(), (false, true)),
        5 => ("closed/out.obu".to_string(), (false, true)),
        6 => ("free".to_string(), (true, true)),
        7 => ("loop".to_string(), (true, true)),
        8 => (long.clone(), (true, true)),
        9 => ("in.yuv/out.obu".to_string(), (true, true)),
        _ => ("nowhere/out.obu".to_string(), (true, true)),
    };
    let old = b"contents that must survive".to_vec();
    for x in ["in.yuv", "locked.yuv"].iter() { std::fs::write(at(x), &data).unwrap(); }
    for x in ["private", "closed", "free"].iter() { std::fs::create_dir(at(x)).unwrap(); }
    std::fs::write(at("private/in.yuv"), &data).unwrap();
    std::fs::write(at("free/old.obu"), &old).unwrap();
    std::fs::write(at("readonly.obu"), &old).unwrap();
    symlink("gone", at("dangling")).unwrap();
    symlink("loop", at("loop")).unwrap();
    symlink("in.yuv", at("link.yuv")).unwrap();
    let program = at("av1enc");
    if std::fs::hard_link(bin(), &program).is_err() { std::fs::copy(bin(), &program).map_err(|e| e.to_string())?; }
    mode("in.yuv", 0o644); mode("locked.yuv", 0o000); mode("readonly.obu", 0o444); mode("private", 0o700); mode("closed", 0o755); mode("free", 0o777); mode("free/old.obu", 0o666);
    std::fs::set_permissions(&d.0, std::fs::Permissions::from_mode(0o755)).unwrap();
    let (bad_in, bad_out) = if nobody { (ibad.1, obad.1) } else { (ibad.0, obad.0) };
    let list = || { let mut v = vec![];
        for x in ["", "private", "closed", "free"].iter() { for e in std::fs::read_dir(at(x)).unwrap() { let e = e.unwrap(); let t = e.file_type().unwrap();
            v.push((format!("{}/{}", x, e.file_name().to_string_lossy()), if t.is_file() && e.file_name() != "av1enc" { std::fs::read(e.path()).unwrap() } else { vec![] })); } }
        v.sort(); v };
    let before = list();
    let a: Vec<String> = vec!["-i".into(), iname.clone(), "-s".into(), format!("{}x{}", w, h), "-o".into(), oname.clone()];
    let what = format!("{:?} as {}", a, if nobody { "an unprivileged user" } else { "root" });
    info.desc(|| what.clone());
    info.nontrivial(bad_in || bad_out);
    let r = match run_as(&os(&a), &d.0, In::Null, Out::Pipe, if nobody { Some((&program, 65534)) } else { None }) {
        Ok(r) => r,
        Err((true, _)) if nobody => { info.label("the user cannot be changed here"); return Ok(()); }
        Err((_, e)) => return Err(e),
    };
    ended(&r).map_err(|e| format!("{}: {}", what, e))?;
    if bad_in || bad_out {
        info.label(if bad_in { "input cannot be opened" } else { "output cannot be created" });
        check!(r.code != Some(0), "{} ended with success although its {} cannot be opened", what, if bad_in { "input" } else { "output" });
        check!(r.stdout.is_empty(), "{}: wrote to standard output", what);
        check!(r.stderr.contains("error"), "{}: no error message: {:?}", what, r.stderr);
        let after = list();
        check!(after == before, "{}: files were changed: {:?} became {:?}", what, before.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>(), after.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>());
        return Ok(());
    }
    info.label("both can be opened");
    check_eq!(r.code, Some(0), "{}: exit status ({})", what, trunc(&r.stderr, 200));
    check_stream(&std::fs::read(at(&oname)).map_err(|e| format!("{}: no output: {}", what, e))?, w, h).map_err(|e| format!("{}: {}", what, e))?;
    check!(std::fs::read(at(&iname)).unwrap() == data, "{}: the input was changed", what);
    Ok(())
}

/// The generic generator's file names, kept relative to the scratch directory.
fn sanitize(v: Vec<String>) -> Vec<String> { v.into_iter().map(|x| if x.starts_with('/') { format!(".{}", x) } else { x }).collect() }

// ---- C16

fn frame_bytes(w: usize, h: usize) -> usize { w * h + 2 * ((w + 1) / 2) * ((h + 1) / 2) }

fn gen_size(s: &mut Src) -> (usize, usize) {
    match s.below(5) {
        0 => (s.us(1, 8), s.us(1, 8)),
        1 => (s.us(1, 80), s.us(1, 80)),
        2 => { let w = s.biased(8190) as usize + 1; (w, s.us(1, 3)) }
        3 => { let h = s.biased(8190) as usize + 1; (s.us(1, 3), h) }
        _ => { let k = s.pick(&[16usize, 32, 64, 128, 176, 256]); let d = s.us(0, 2); ((k + d).saturating_sub(1).max(1), s.us(1, 40)) }
    }
}

fn content(seed: u64, len: usize) -> Vec<u8> {
    // now and then one byte value throughout
    if seed % 5 == 0 { return vec![[0u8, 255, 10, 13, 26, 128, 4][(seed / 5 % 7) as usize]; len]; }
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len { v.extend_from_slice(&r.next().to_le_bytes()); }
    v.truncate(len);
    v
}

/// The whole stream: one temporal unit holding one sequence header for WxH 8-bit 4:2:0 video.
pub fn check_stream(b: &[u8], w: usize, h: usize) -> Res {
    let tus = av1::annexb(b)?;
    check_eq!(tus.len(), 1, "temporal units in the stream");
    check_eq!(tus[0].len(), 1, "frame units in the temporal unit");
    check_eq!(tus[0][0].len(), 1, "OBUs in the frame unit");
    let o = &tus[0][0][0];
    check_eq!(o.header.kind, 1, "type of the OBU");
    let bits = bytes_to_bits(&o.payload);
    let mut r = BitR::new(&bits);
    let s = av1::seq(&mut r)?;
    av1::trailing(&mut r)?;
    check_eq!((s.width, s.height), (w as u64, h as u64), "frame size in the sequence header");
    check_eq!((s.profile, s.still, s.bit_depth, s.mono, s.sub_x, s.sub_y), (0, false, 8, false, true, true), "profile, still, bit depth, monochrome, subsampling");
    check_eq!(s.ops.len(), 1, "operating points");
    check_eq!(s.ops[0].idc, 0, "operating point");
    Ok(())
}

fn encode(s: &mut Src, info: &mut Info) -> Res {
    let d = Tmp::new("c16");
    std::fs::create_dir_all(&d.0).unwrap();
    let (w, h) = gen_size(s);
    let fb = frame_bytes(w, h);
    let whole = if s.one_in(8) { 0 } else { s.us(1, 4) };
    let part = match s.below(4) { 0 => 0, 1 => fb - 1, 2 => s.us(0, fb - 1), _ => 1.min(fb - 1) };
    let mut limit = if s.one_in(3) { None } else { Some(s.us(0, 5) as u64) };
    if s.one_in(8) { limit = Some(s.pick(&[4294967295, 4294967296, u64::MAX])); }
    let data = content(s.u64(), whole * fb + part);
    let via_stdin = s.bool();
    let to_stdout = s.bool();
    let exists = s.bool();
    // with the limit reached exactly, the producer may keep its end open: the program must not wait for more
    let hold = via_stdin && part == 0 && limit == Some(whole as u64) && s.bool();
    let mut parts = vec![
        vec!["i", "--input", "-i"], vec!["o", "--output", "-o"], vec!["s", "--size", "-s"],
    ];
    if limit.is_some() { parts.push(vec!["f", "--frames", "-fr"]); }
    if s.bool() { parts.push(vec!["r", "--framerate", "-r"]); }
    let mut a: Vec<String> = vec![];
    while !parts.is_empty() {
        let k = s.below(parts.len() as u64) as usize;
        let p = parts.remove(k);
        a.push(p[s.us(1, 2)].to_string());
        a.push(match p[0] {
            "i" => if via_stdin { "stdin".to_string() } else { "in.yuv".to_string() },
            "o" => if to_stdout { "stdout".to_string() } else { "out.obu".to_string() },
            "s" => format!("{}x{}", w, h),
            "f" => limit.unwrap().to_string(),
            _ => s.pick(&["25", "30000/1001", "24/1", "1"]).to_string(),
        });
    }
    info.nontrivial(whole > 0 && limit != Some(0));
    info.label(if via_stdin { "from standard input" } else { "from a file" });
    info.label(if to_stdout { "to standard output" } else { "to a file" });
    if hold { info.label("producer keeps the pipe open"); }
    if w % 2 == 1 || h % 2 == 1 { info.label("odd size"); }
    info.desc(|| format!("{:?}, {} frames and {} bytes of input{}", a, whole, part, if hold { ", pipe held open" } else { "" }));
    if !via_stdin { std::fs::write(format!("{}/in.yuv", d.0), &data).unwrap(); }
    if exists { std::fs::write(format!("{}/out.obu", d.0), vec![0xEEu8; 5000]).unwrap(); }
    let chunk = if s.bool() { 65536 } else { s.us(1, 5000) };
    let r = run(&os(&a), &d.0, if via_stdin { In::Data { bytes: data, chunk, hold_open: hold } } else { In::Null }, Out::Pipe)?;
    ended(&r).map_err(|e| format!("{:?} with {} frames and {} bytes: {}", a, whole, part, e))?;
    check_eq!(r.code, Some(0), "{:?}: exit status ({})", a, trunc(&r.stderr, 200));
    let out = if to_stdout { r.stdout } else {
        check!(r.stdout.is_empty(), "{:?}: {} bytes on standard output although the stream goes to a file", a, r.stdout.len());
        std::fs::read(format!("{}/out.obu", d.0)).map_err(|e| format!("{:?}: no output: {}", a, e))?
    };
    if whole == 0 || limit == Some(0) {
        info.label("no frame to encode");
        check_eq!(out.len(), 0, "{:?}: bytes written for no frame at all", a);
    } else {
        check_stream(&out, w, h).map_err(|e| format!("{:?}: {} (stream {:02x?})", a, e, &out[..out.len().min(40)]))?;
    }
    Ok(())
}

/// Streams of very many small frames, and frames as large as films have.
fn extreme(s: &mut Src, info: &mut Info) -> Res {
    let d = Tmp::new("c16x");
    std::fs::create_dir_all(&d.0).unwrap();
    let big = s.bool();
    let ((w, h), whole) = if big {
        let z = s.pick(&[(1920usize, 1080usize), (1280, 720), (4096, 2160), (8191, 1023), (1023, 8191), (2047, 2049), (720, 576), (8191, 2048), (3001, 2999)]);
        (z, s.us(1, 2))
    } else {
        ((s.us(1, 3), s.us(1, 3)), match s.below(3) { 0 => s.us(250, 300), 1 => s.us(1000, 5000), _ => s.us(65_530, 66_000) })
    };
    let fb = frame_bytes(w, h);
    let part = if s.bool() { 0 } else { s.us(0, fb - 1) };
    let data = content(s.u64(), whole * fb + part);
    let limit = match s.below(3) { 0 => None, 1 => Some(whole), _ => Some(whole + s.us(0, 2) - 1) };
    let via_stdin = s.bool();
    // the limit is reached: the program must not wait for more
    let hold = via_stdin && limit.map(|l| l <= whole).unwrap_or(false);
    let mut a: Vec<String> = vec!["-i".into(), if via_stdin { "stdin".into() } else { "in.yuv".into() }, "-s".into(), format!("{}x{}", w, h), "-o".into(), "out.obu".into()];
    if let Some(l) = limit { a.push("-fr".into()); a.push(l.to_string()); }
    info.nontrivial(true);
    info.label(if big { "large frames" } else { "many frames" });
    if hold { info.label("producer keeps the pipe open"); }
    info.desc(|| format!("{:?}, {} frames and {} bytes of input", a, whole, part));
    if !via_stdin { std::fs::write(format!("{}/in.yuv", d.0), &data).unwrap(); }
    let total = data.len();
    let r = run(&os(&a), &d.0, if via_stdin { In::Data { bytes: data, chunk: 65536, hold_open: hold } } else { In::Null }, Out::Pipe)?;
    ended(&r).map_err(|e| format!("{:?} with {} frames and {} bytes: {}", a, whole, part, e))?;
    check_eq!(r.code, Some(0), "{:?} with {} bytes: exit status ({})", a, total, trunc(&r.stderr, 200));
    let out = std::fs::read(format!("{}/out.obu", d.0)).map_err(|e| e.to_string())?;
    if limit == Some(0) { check_eq!(out.len(), 0, "bytes written for no frame at all"); return Ok(()); }
    check_stream(&out, w, h).map_err(|e| format!("{:?}: {} (stream {:02x?})", a, e, &out[..out.len().min(40)]))
}

/// The output device accepts nothing: the program must not claim success.
fn device_full(s: &mut Src, info: &mut Info) -> Res {
    let d = Tmp::new("c16f");
    std::fs::create_dir_all(&d.0).unwrap();
    let (w, h) = (s.us(1, 40), s.us(1, 40));
    let n = s.us(1, 3);
    let data = content(s.u64(), n * frame_bytes(w, h));
    std::fs::write(format!("{}/in.yuv", d.0), &data).unwrap();
    let to_stdout = s.bool();
    let closed = to_stdout && s.bool();
    let mut a: Vec<String> = vec!["-i".into(), "in.yuv".into(), "-s".into(), format!("{}x{}", w, h), "-o".into(), if to_stdout { "stdout".into() } else { "/dev/full".into() }];
    if s.bool() { a.push("-fr".into()); a.push(n.to_string()); }
    info.nontrivial(true);
    info.label(if closed { "a pipe nobody reads" } else { "a full device" });
    info.desc(|| format!("{:?} on {}", a, if closed { "a pipe nobody reads" } else { "a full device" }));
    let r = run(&os(&a), &d.0, In::Null, if closed { Out::Closed } else if to_stdout { Out::Full } else { Out::Pipe })?;
    check!(!r.timed_out && (r.signal.is_none() || (closed && r.signal == Some(libc::SIGPIPE))), "{:?}: the program did not end by itself ({:?})", a, r.signal);
    if closed && r.signal.is_some() { return Ok(()); }
    check!(r.code != Some(0), "{:?}: the output could not be written and the program ended with success", a);
    check!(!r.stderr.is_empty(), "{:?}: nothing on standard error", a);
    Ok(())
}

/// Input that opens but cannot be read (a directory): the program must not claim success.
fn unreadable(s: &mut Src, info: &mut Info) -> Res {
    let d = Tmp::new("c16u");
    std::fs::create_dir_all(format!("{}/sub", d.0)).unwrap();
    let i = s.pick(&[".", "sub"]);
    let to_stdout = s.bool();
    let mut a: Vec<String> = vec!["-i".into(), i.into(), "-s".into(), format!("{}x{}", s.us(1, 70), s.us(1, 70)), "-o".into(), if to_stdout { "stdout".into() } else { "out.obu".into() }];
    if s.bool() { a.push("-fr".into()); a.push(s.us(1, 4).to_string()); }
    info.nontrivial(true);
    info.desc(|| format!("{:?}", a));
    let r = run(&os(&a), &d.0, In::Null, Out::Pipe)?;
    check!(!r.timed_out && r.signal.is_none(), "{:?}: the program did not end by itself ({:?})", a, r.signal);
    check!(r.code != Some(0), "{:?}: the input could not be read and the program ended with success", a);
    check!(r.stderr.contains("error") || r.stderr.contains("panicked"), "{:?}: nothing on standard error", a);
    Ok(())
}

/// Input that fails after some data: the program must not claim to have encoded everything.
fn broken_input(s: &mut Src, info: &mut Info) -> Res {
    let d = Tmp::new("c16b");
    std::fs::create_dir_all(&d.0).unwrap();
    let (w, h) = if s.one_in(6) { (s.us(100, 700), s.us(100, 400)) } else { gen_size(s) };
    let fb = frame_bytes(w, h);
    let whole = s.us(0, 4);
    let part = match s.below(4) { 0 => 0, 1 => fb - 1, 2 => s.us(0, fb - 1), _ => s.pick(&[w * h, w * h - 1, (w * h + 1).min(fb - 1), (w * h + fb) / 2]) };
    let limit = match s.below(4) { 0 => None, 1 => Some(whole), _ => Some(s.us(0, 6)) };
    let data = content(s.u64(), whole * fb + part);
    let to_stdout = s.bool();
    let mut a: Vec<String> = vec!["-i".into(), "stdin".into(), "-s".into(), format!("{}x{}", w, h), "-o".into(), if to_stdout { "stdout".into() } else { "out.obu".into() }];
    if let Some(l) = limit { a.push("-fr".into()); a.push(l.to_string()); }
    let what = format!("{:?}, {} frames and {} bytes, then a read error", a, whole, part);
    info.desc(|| what.clone());
    let r = run(&os(&a), &d.0, In::Broken { bytes: data }, Out::Pipe)?;
    check!(!r.timed_out && r.signal.is_none(), "{}: the program did not end by itself ({:?})", what, r.signal);
    if limit.map(|l| l <= whole) == Some(true) {
        info.label("enough frames before the error");
        check_eq!(r.code, Some(0), "{}: exit status ({})", what, trunc(&r.stderr, 200));
        let out = if to_stdout { r.stdout } else { std::fs::read(format!("{}/out.obu", d.0)).map_err(|e| e.to_string())? };
        if limit == Some(0) { check_eq!(out.len(), 0, "{}: bytes written for no frame at all", what); return Ok(()); }
        return check_stream(&out, w, h).map_err(|e| format!("{}: {}", what, e));
    }
    info.nontrivial(true);
    info.label(if whole > 0 { "error after whole frames" } else { "error in the first frame" });
    check!(r.code != Some(0), "{}: the input could not be read to its end and the program ended with success", what);
    check!(r.stderr.contains("error") || r.stderr.contains("panicked"), "{}: nothing on standard error", what);
    Ok(())
}

/// Same command line, same output; content, framing of the input and output kind do not matter.
fn same_output(s: &mut Src, info: &mut Info) -> Res {
    let d = Tmp::new("c16s");
    std::fs::create_dir_all(&d.0).unwrap();
    let (w, h) = gen_size(s);
    let n = s.us(1, 3);
    let data = content(s.u64(), n * frame_bytes(w, h));
    std::fs::write(format!("{}/in.yuv", d.0), &data).unwrap();
    let size = format!("{}x{}", w, h);
    info.nontrivial(true);
    info.desc(|| format!("{} frames of {} five ways", n, size));
    let lim = s.us(1, 4).to_string();
    let mut order = vec![0usize, 1, 2, 3, 4];
    for k in (1..5).rev() { let j = s.us(0, k); order.swap(k, j); }
    let long = s.below(32);
    let go = |i: &str, o: &str, data: In| -> Result<Vec<u8>, String> { go1(&[("-s", &size), ("-i", i), ("-o", o), ("-fr", &lim), ("-r", "25")], &d.0, o, data) };
    fn go1(opts: &[(&str, &str)], d: &str, o: &str, data: In) -> Result<Vec<u8>, String> {
        let a = os(&opts.iter().flat_map(|(k, v)| vec![k.to_string(), v.to_string()]).collect::<Vec<_>>());
        let r = run(&a, d, data, Out::Pipe)?;
        ended(&r)?;
        check_eq!(r.code, Some(0), "{:?}: exit status ({})", a, trunc(&r.stderr, 200));
        if o == "stdout" { Ok(r.stdout) } else { std::fs::read(format!("{}/{}", d, o)).map_err(|e| e.to_string()) }
    }
    let first = go("in.yuv", "a.obu", In::Null)?;
    check_stream(&first, w, h)?;
    let chunk = s.us(1, 3000);
    check!(go("in.yuv", "a.obu", In::Null)? == first, "a second run over its own output gave a different stream");
    check!(go("in.yuv", "stdout", In::Null)? == first, "the stream on standard output differs from the one in a file");
    check!(go("stdin", "b.obu", In::Data { bytes: data, chunk, hold_open: false })? == first, "the stream from standard input differs from the one from a file");
    let all = [("-s", "--size", size.as_str()), ("-i", "--input", "in.yuv"), ("-o", "--output", "c.obu"), ("-fr", "--frames", lim.as_str()), ("-r", "--framerate", "25")];
    let opts: Vec<(&str, &str)> = order.iter().map(|k| (if long >> k & 1 == 1 { all[*k].1 } else { all[*k].0 }, all[*k].2)).collect();
    check!(go1(&opts, &d.0, "c.obu", In::Null)? == first, "the stream differs with the options given as {:?}", opts);
    info.evals(4);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10", level: "exploration",
            rule: "A case runs the program on an argument list: random mixes of options, broken values, unknown names and arbitrary bytes, or a complete command line with exactly one thing wrong ('long lists': complete or broken lists of 500 to 30000 options; 'files': inputs and outputs that root or an unprivileged user cannot open, among others that can be). A model of the documented options says whether it must be refused. Non-trivial: at least one argument.",
            assumptions: vec!["refused means: non-zero exit status, a message on standard error, nothing on standard output"],
            subs: vec![Sub::random("argv", 9_000, 150_000, refuse), Sub::random("long lists", 40, 2_000, long), Sub::random("files", 600, 12_000, files)],
        },
        Prop {
            id: "C16", level: "fault_enumeration",
            rule: "A case runs the program on generated raw video (odd, tiny and extreme sizes, partial last frames, any content) with options in any order and spelling, file or pipe on either side, and reads the stream back with an independent parser; 'device-full' injects a write failure, 'unreadable' a read failure, 'broken-input' one after any number of bytes; 'extreme' has tens of thousands of small frames or very large ones; 'same-output' compares five ways to encode the same video. Non-trivial: there is at least one frame to encode.",
            assumptions: vec!["a run that uses 20 s of CPU time or is blocked for 90 s counts as not ending"],
            subs: vec![
                Sub::random("encode", 2_500, 100_000, encode),
                Sub::random("extreme", 48, 1_500, extreme),
                Sub::random("device-full", 300, 10_000, device_full),
                Sub::random("unreadable", 60, 600, unreadable),
                Sub::random("broken-input", 400, 12_000, broken_input),
                Sub::random("same-output", 250, 10_000, same_output),
            ],
        },
    ]
}
