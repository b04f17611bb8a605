//! C11 (bit writer) and C12 (plane reader).
use av1enc::verif::binary_reader::BinaryReader;
use av1enc::verif::binary_writer::BinaryWriter;
use harness::engine::*;
use harness::{check, check_eq};
use std::io::{BufRead, Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

pub fn scratch() -> String { std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".to_string()) }

pub struct Tmp(pub String);
impl Tmp {
    pub fn new(tag: &str) -> Tmp {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = format!("{}/{}-{}-{}", scratch(), tag, std::process::id(), N.fetch_add(1, Ordering::SeqCst));
        Tmp(p)
    }
}
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); let _ = std::fs::remove_dir_all(&self.0); } }

#[derive(Debug, Clone)]
enum W { Bit(u8), Bits(Vec<u8>), Align, Flush, Bytes(Vec<u8>) }

fn gen_writes(s: &mut Src) -> Vec<W> {
    let n = s.us(0, 20);
    let mut at = 0usize;
    let mut v = vec![];
    for _ in 0..n {
        let w = match s.below(6) {
            0 => W::Bit(s.below(2) as u8),
            1 | 2 => { let k = match s.below(12) { 0 => s.us(0, 3000), 1 => s.us(60_000, 70_000), _ => s.us(0, 40) }; let m = s.u64(); W::Bits((0..k).map(|i| ((m.rotate_left(i as u32 * 7) >> (i % 61)) & 1) as u8).collect()) }
            3 => W::Align,
            4 => W::Flush,
            // whole bytes only make sense on a byte boundary
            _ => if at % 8 == 0 { if s.below(8) == 0 { let (k, m) = (s.us(8000, 40_000), s.u64()); W::Bytes((0..k).map(|i| (m.rotate_left(i as u32 % 64) >> 5) as u8).collect()) } else { let k = s.us(0, 30); W::Bytes((0..k).map(|_| s.below(256) as u8).collect()) } } else { W::Align },
        };
        at += match &w { W::Bit(_) => 1, W::Bits(b) => b.len(), W::Align => (8 - at % 8) % 8, W::Flush => 0, W::Bytes(b) => 8 * b.len() };
        v.push(w);
    }
    v
}

fn packed(ws: &[W]) -> Vec<u8> {
    let mut bits: Vec<u8> = vec![];
    for w in ws {
        match w {
            W::Bit(b) => bits.push(*b),
            W::Bits(b) => bits.extend(b),
            W::Align => while bits.len() % 8 != 0 { bits.push(0) },
            W::Flush => {}
            W::Bytes(b) => bits.extend(harness::bits::bytes_to_bits(b)),
        }
    }
    bits.chunks(8).filter(|c| c.len() == 8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | b)).collect()
}

fn do_writes(w: &mut BinaryWriter, ws: &[W]) -> Result<(), String> {
    for x in ws {
        match x {
            W::Bit(b) => w.write_bit(*b),
            W::Bits(b) => w.write_bits(b),
            W::Align => w.byte_align(),
            W::Flush => w.flush().map_err(|e| format!("flush: {}", e))?,
            W::Bytes(b) => w.write_all(b).map_err(|e| format!("write: {}", e))?,
        }
    }
    Ok(())
}

fn writer(s: &mut Src, info: &mut Info) -> Res {
    let ws = gen_writes(s);
    let t = Tmp::new("w");
    if s.bool() { std::fs::write(&t.0, vec![0xAAu8; 100_000]).unwrap(); info.label("output existed before"); }
    let exp = packed(&ws);
    info.nontrivial(exp.len() >= 2);
    info.desc(|| trunc(&format!("{:?}", ws), 400));
    {
        let mut w = BinaryWriter::file(&t.0).map_err(|e| format!("cannot create the output: {}", e))?;
        do_writes(&mut w, &ws)?;
        w.flush().map_err(|e| format!("flush: {}", e))?;
    }
    let got = std::fs::read(&t.0).map_err(|e| e.to_string())?;
    same_bytes(&got, &exp)
}

/// Output that accepts nothing: the loss must surface before or at flush.
fn full(s: &mut Src, info: &mut Info) -> Res {
    let ws = gen_writes(s);
    let exp = packed(&ws);
    info.nontrivial(!exp.is_empty());
    info.desc(|| trunc(&format!("device full: {:?}", ws), 400));
    let r = catch(|| -> Result<(), String> {
        let mut w = BinaryWriter::file("/dev/full").map_err(|e| e.to_string())?;
        do_writes(&mut w, &ws)?;
        w.flush().map_err(|e| e.to_string())
    });
    let failed = match r { Err(_) => true, Ok(Err(_)) => true, Ok(Ok(())) => false };
    if exp.is_empty() { check!(!failed, "writing nothing failed"); } else { check!(failed, "{} bytes were lost on a full device and no error was reported", exp.len()); }
    Ok(())
}

/// Standard input or output (fd 0 or 1) connected to another file for a while. Only in serial sub-checks.
struct Redirect { fd: i32, saved: i32 }
impl Redirect {
    fn new(fd: i32, to: i32) -> Redirect {
        unsafe {
            let saved = libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 10);
            libc::dup2(to, fd);
            Redirect { fd, saved }
        }
    }
}
impl Drop for Redirect {
    fn drop(&mut self) {
        // what this case left in the process-wide buffer must not reach the next one
        let null = std::fs::OpenOptions::new().read(true).write(true).open("/dev/null").unwrap();
        unsafe { libc::dup2(null.as_raw_fd(), self.fd); }
        if self.fd == 0 { let _ = std::io::copy(&mut std::io::stdin().lock(), &mut std::io::sink()); }
        else { let _ = std::io::stdout().flush(); }
        unsafe { if self.saved >= 0 { libc::dup2(self.saved, self.fd); libc::close(self.saved); } }
    }
}

/// The same histories on standard output.
fn writer_std(s: &mut Src, info: &mut Info) -> Res {
    let ws = gen_writes(s);
    let exp = packed(&ws);
    let broken = s.one_in(4);
    info.nontrivial(exp.len() >= 2);
    info.desc(|| trunc(&format!("standard output{}: {:?}", if broken { ", device full" } else { "" }, ws), 400));
    let t = Tmp::new("wo");
    let path = if broken { info.label("full device"); "/dev/full".to_string() } else { t.0.clone() };
    let file = std::fs::OpenOptions::new().write(true).create(!broken).open(&path).map_err(|e| e.to_string())?;
    let r = {
        let _on = Redirect::new(1, file.as_raw_fd());
        let stdout = std::io::stdout();
        catch(|| -> Result<(), String> {
            let mut w = BinaryWriter::standard(&stdout);
            do_writes(&mut w, &ws)?;
            w.flush().map_err(|e| format!("flush: {}", e))
        })
    };
    if broken {
        let failed = !matches!(r, Ok(Ok(())));
        if exp.is_empty() { check!(!failed, "writing nothing failed"); } else { check!(failed, "{} bytes were lost on a full device and no error was reported", exp.len()); }
        return Ok(());
    }
    r.unwrap_or_else(Err)?;
    same_bytes(&std::fs::read(&t.0).map_err(|e| e.to_string())?, &exp)
}

/// An output that takes some bytes and then no more.
fn writer_limit(s: &mut Src, info: &mut Info) -> Res {
    let ws = gen_writes(s);
    let exp = packed(&ws);
    let limit = match s.below(4) { 0 => s.us(0, exp.len()), 1 => exp.len().saturating_sub(s.us(0, 3)), 2 => (8192 * s.us(0, 6)).min(exp.len() + 1), _ => exp.len() + s.us(0, 3) };
    info.nontrivial(limit > 0 && limit < exp.len());
    info.desc(|| trunc(&format!("output of at most {} bytes: {:?}", limit, ws), 400));
    let t = Tmp::new("wl");
    let mut old: libc::rlimit = unsafe { std::mem::zeroed() };
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit { rlim_cur: limit as u64, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &new);
    }
    let r = catch(|| -> Result<(), String> {
        let mut w = BinaryWriter::file(&t.0).map_err(|e| e.to_string())?;
        do_writes(&mut w, &ws)?;
        w.flush().map_err(|e| e.to_string())
    });
    unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &old); }
    let failed = !matches!(r, Ok(Ok(())));
    if exp.len() > limit {
        info.label("output ends early");
        check!(failed, "{} of {} bytes fitted and no error was reported", limit, exp.len());
        return Ok(());
    }
    r.unwrap_or_else(Err)?;
    same_bytes(&std::fs::read(&t.0).map_err(|e| e.to_string())?, &exp)
}

fn same_bytes(got: &[u8], exp: &[u8]) -> Res {
    check_eq!(got.len(), exp.len(), "bytes in the output");
    if let Some(k) = (0..got.len()).find(|k| got[*k] != exp[*k]) { return Err(format!("byte {} of {} is {:#04x}, expected {:#04x}", k, got.len(), got[k], exp[k])); }
    Ok(())
}

// ---- reader

#[derive(Debug, Clone, Copy)]
enum R { Plane8(usize), Plane16(usize), PlaneU16(usize), Raw(usize), Peek(usize) }

fn gen_reads(s: &mut Src, len: usize) -> Vec<R> {
    let mut left = len as i64 + 2000;
    let mut v = vec![];
    while left > 0 && v.len() < 24 {
        let k = match s.below(6) { 0 => s.us(0, 3), 1 => s.us(1, 200), 2 => s.us(8000, 8400), 3 => s.us(4000, 4200), 4 => s.us(1, 30000), _ => s.us(1, 2000) };
        left -= k as i64;
        v.push(match s.below(8) { 0 => R::Raw(k), 1 => R::Peek(k.min(20)), 2 | 3 => R::Plane8(k), 4 => R::PlaneU16(k), _ => R::Plane16(k) });
    }
    v.push(R::Plane16(5));
    v.push(R::Plane16(0));
    v
}

fn content(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len { v.extend_from_slice(&r.next().to_le_bytes()); }
    v.truncate(len);
    v
}

fn check_reads(r: &mut BinaryReader, data: &[u8], rs: &[R]) -> Res {
    let mut pos = 0usize;
    for (k, op) in rs.iter().enumerate() {
        let left = data.len() - pos;
        let (got, n): (Vec<i64>, usize) = match *op {
            R::Plane8(n) => { let mut v = vec![1u8; n]; let c = r.read_to_vec(&mut v).map_err(|e| e.to_string())?; (v.into_iter().map(|x| x as i64).collect(), c) }
            R::Plane16(n) => { let mut v = vec![-7i16; n]; let c = r.read_to_vec(&mut v).map_err(|e| e.to_string())?; (v.into_iter().map(|x| x as i64).collect(), c) }
            R::PlaneU16(n) => { let mut v = vec![7u16; n]; let c = r.read_to_vec(&mut v).map_err(|e| e.to_string())?; (v.into_iter().map(|x| x as i64).collect(), c) }
            R::Raw(n) => { let mut v = vec![0u8; n]; let c = loop { match r.read(&mut v) { Ok(c) => break c, Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {} Err(e) => return Err(e.to_string()) } }; v.truncate(c); pos_check(data, pos, &v, k)?; check!(c > 0 || n == 0 || left == 0, "step {}: an empty read before the end of input", k); pos += c; continue; }
            R::Peek(n) => { while matches!(r.fill_buf(), Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted) {} let c = { let b = r.fill_buf().map_err(|e| e.to_string())?; check!(!b.is_empty() || left == 0, "step {}: an empty buffer before the end of input", k); let c = b.len().min(n); pos_check(data, pos, &b[..c], k)?; c }; r.consume(c); pos += c; continue; }
        };
        let want = match *op { R::Plane8(n) | R::Plane16(n) | R::PlaneU16(n) => n, _ => 0 };
        check_eq!(n, want.min(left), "step {} ({:?}) at byte {} of {}: number of samples read", k, op, pos, data.len());
        check_eq!(got.len(), want, "step {}: length of the plane", k);
        if let Some(j) = (0..n).find(|j| got[*j] != data[pos + *j] as i64) {
            return Err(format!("step {} ({:?}): sample {} is {}, byte {} of the input is {}", k, op, j, got[j], pos + j, data[pos + j]));
        }
        pos += n;
    }
    Ok(())
}

fn pos_check(data: &[u8], pos: usize, v: &[u8], k: usize) -> Res {
    check!(pos + v.len() <= data.len() && data[pos..pos + v.len()] == *v, "step {}: {} bytes at {} differ from the input", k, v.len(), pos);
    Ok(())
}

fn gen_len(s: &mut Src) -> usize {
    match s.below(5) { 0 => s.us(0, 20), 1 => s.us(8100, 8300), 2 => s.us(16300, 16500), 3 => s.us(0, 4000), _ => s.us(0, 60000) }
}

fn reader_file(s: &mut Src, info: &mut Info) -> Res {
    let data = content(s.u64(), gen_len(s));
    let rs = gen_reads(s, data.len());
    info.nontrivial(data.len() > 1);
    info.desc(|| trunc(&format!("{} bytes from a file: {:?}", data.len(), rs), 300));
    let t = Tmp::new("r");
    std::fs::write(&t.0, &data).unwrap();
    let mut r = BinaryReader::file(&t.0).map_err(|e| e.to_string())?;
    check_reads(&mut r, &data, &rs)
}

/// Planes as large as those of big frames, read from a file.
fn reader_large(s: &mut Src, info: &mut Info) -> Res {
    let size = |s: &mut Src| -> usize {
        let e = s.us(16, 22);
        match s.below(3) { 0 => (1usize << e) - 1 + s.us(0, 2), 1 => (1usize << e) + s.us(0, (1usize << e) - 1), _ => s.us(1, 2048) * s.us(1, 2048) }
    };
    let n = size(s);
    let seed = s.u64();
    let (rs, len) = match s.below(3) {
        // one frame: a plane and two of a quarter
        0 => (vec![R::Plane16(n), R::Plane16(n / 4), R::Plane16(n / 4)], n + n / 4 * 2 + s.us(0, 9)),
        1 => (vec![R::Plane8(n), R::PlaneU16(n), R::Plane8(5)], n + s.us(0, n)),
        _ => { let k = s.us(0, 70000); (vec![R::Raw(k), R::Plane16(n), R::Plane16(7)], n + s.us(0, k)) }
    };
    let data = content(seed, len);
    info.nontrivial(n > 60000);
    info.label(if n >= 1 << 20 { "plane of a million samples or more" } else { "plane below a million samples" });
    info.desc(|| format!("{} bytes from a file: {:?}", data.len(), rs));
    let t = Tmp::new("r");
    std::fs::write(&t.0, &data).unwrap();
    let mut r = BinaryReader::file(&t.0).map_err(|e| e.to_string())?;
    check_reads(&mut r, &data, &rs)
}

/// Input that arrives in pieces: every piece is written only once the reader has taken the one before it,
/// so each read sees at most one piece.
fn reader_pipe(s: &mut Src, info: &mut Info) -> Res {
    let seed = s.u64() >> 8;
    let style = s.below(4);
    // now and then planes of a larger frame in many small pieces
    let long = s.one_in(25);
    let data = content(seed, if long { s.us(60_000, 400_000) } else { gen_len(s).min(40000) });
    let rs = if long {
        info.label("large planes in pieces");
        let n = s.us(data.len() / 4, data.len() / 2);
        match s.below(3) { 0 => vec![R::Plane16(n), R::Plane16(n / 2), R::Plane16(n / 2)], 1 => vec![R::Plane8(data.len() - n), R::Plane8(n)], _ => { let k = s.us(0, 9); vec![R::Plane16(k), R::Plane16(data.len() - k), R::PlaneU16(5)] } }
    } else { gen_reads(s, data.len()) };
    let mut pieces = vec![];
    let mut at = 0;
    while at < data.len() && pieces.len() < if long { 160 } else { 60 } {
        let k = match style { 0 => s.us(1, 16), 1 => s.us(1, 4096), 2 => s.us(4000, 9000), _ => s.us(1, 60000) }.min(data.len() - at);
        pieces.push((at, at + k));
        at += k;
    }
    if at < data.len() { pieces.push((at, data.len())); }
    info.nontrivial(pieces.len() >= 2);
    info.desc(|| trunc(&format!("{} bytes in {} pieces: {:?}", data.len(), pieces.len(), rs), 300));
    let mut fds = [0i32; 2];
    check!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "pipe");
    let (rd, wr) = (fds[0], fds[1]);
    let mut w = unsafe { std::fs::File::from_raw_fd(wr) };
    let keep = unsafe { std::fs::File::from_raw_fd(rd) };
    let stop = Arc::new(AtomicBool::new(false));
    let stop2 = stop.clone();
    let d2 = data.clone();
    let opened = BinaryReader::file(&format!("/proc/self/fd/{}", rd));
    // signals arriving while the reader waits must not be taken for the end of input
    let signals = if s.one_in(3) { info.label("reads interrupted by signals"); s.us(1, 3) as u64 } else { 0 };
    extern "C" fn nothing(_: i32) {}
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nothing as extern "C" fn(i32) as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut()); // without SA_RESTART
    }
    let reader = unsafe { libc::pthread_self() };
    let h = std::thread::spawn(move || {
        unsafe { let fl = libc::fcntl(wr, libc::F_GETFL); libc::fcntl(wr, libc::F_SETFL, fl | libc::O_NONBLOCK); }
        'all: for (i, (a, b)) in pieces.into_iter().enumerate() {
            let mut at = a;
            if signals > 0 && i < 12 && (i as u64 + seed) % (signals + 1) > 0 {
                // give the reader time to block
                for _ in 0..6 { if stop2.load(Ordering::SeqCst) { break 'all; } std::thread::sleep(std::time::Duration::from_micros(15)); unsafe { libc::pthread_kill(reader, libc::SIGUSR1); } }
            }
            while at < b {
                if stop2.load(Ordering::SeqCst) { break 'all; }
                match w.write(&d2[at..b]) { Ok(n) => at += n, Err(_) => std::thread::yield_now() }
            }
            loop {
                let mut n: i32 = 0;
                unsafe { libc::ioctl(wr, libc::FIONREAD, &mut n) };
                if n == 0 { break; }
                if stop2.load(Ordering::SeqCst) { break 'all; }
                std::thread::yield_now();
            }
        }
        drop(w);
    });
    let res = match opened {
        Ok(mut r) => catch(|| check_reads(&mut r, &data, &rs)).unwrap_or_else(|e| Err(e)),
        Err(e) => Err(format!("cannot open the pipe: {}", e)),
    };
    stop.store(true, Ordering::SeqCst);
    let _ = h.join();
    drop(keep);
    res
}

/// Standard input: a file, or a socket that gives some data and then an error.
fn reader_std(s: &mut Src, info: &mut Info) -> Res {
    let data = content(s.u64(), gen_len(s));
    let rs = gen_reads(s, data.len());
    let stdin = std::io::stdin();
    if s.bool() {
        info.nontrivial(data.len() > 1);
        info.desc(|| trunc(&format!("{} bytes from standard input: {:?}", data.len(), rs), 300));
        let t = Tmp::new("ri");
        std::fs::write(&t.0, &data).unwrap();
        let file = std::fs::File::open(&t.0).map_err(|e| e.to_string())?;
        let _on = Redirect::new(0, file.as_raw_fd());
        return catch(|| { let mut r = BinaryReader::standard(&stdin); check_reads(&mut r, &data, &rs) }).unwrap_or_else(Err);
    }
    info.label("input that breaks");
    info.desc(|| trunc(&format!("{} bytes from standard input, then an error: {:?}", data.len(), rs), 300));
    let (mut a, mut b) = std::os::unix::net::UnixStream::pair().map_err(|e| e.to_string())?;
    b.write_all(&[0]).map_err(|e| e.to_string())?; // never read: its loss is what the other side is told
    let d2 = data.clone();
    let _on = Redirect::new(0, b.as_raw_fd());
    let h = std::thread::spawn(move || { let _ = a.write_all(&d2); drop(a); });
    let mut met = false;
    let res = catch(|| -> Res {
        let mut r = BinaryReader::standard(&stdin);
        let mut pos = 0;
        for op in rs.iter() {
            let n = match *op { R::Plane8(n) | R::Plane16(n) | R::PlaneU16(n) | R::Raw(n) | R::Peek(n) => n };
            let left = data.len() - pos;
            let mut v = vec![-7i16; n];
            match r.read_to_vec(&mut v) {
                Ok(c) => {
                    check!(n <= left, "a plane of {} samples with {} bytes before a read error gave {} samples and no error", n, left, c);
                    check_eq!(c, n, "number of samples read at byte {} of {}", pos, data.len());
                    if let Some(j) = (0..n).find(|j| v[*j] != data[pos + *j] as i16) { return Err(format!("sample {} is {}, byte {} of the input is {}", j, v[j], pos + j, data[pos + j])); }
                    pos += n;
                }
                Err(e) => {
                    check!(n > left, "a plane of {} samples with {} bytes before the read error was not read: {}", n, left, e);
                    met = true;
                    return Ok(());
                }
            }
        }
        Ok(())
    }).unwrap_or_else(Err);
    info.nontrivial(met && data.len() > 1);
    unsafe { libc::shutdown(b.as_raw_fd(), libc::SHUT_RDWR); } // the writer may still have data
    drop(b);
    drop(_on);
    let _ = h.join();
    res
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11", level: "exploration",
            rule: "A case is a sequence of up to 20 single bits, bit runs (up to 70000 bits), alignments, flushes and aligned byte writes to a file that may exist already; the file is compared with an independent packing. In 'full' the output device accepts nothing, in 'limited output' only so many bytes; 'standard output' is redirected to a file or a full device. Non-trivial: at least two bytes result ('full': at least one; 'limited output': the output ends part-way).",
            assumptions: vec!["whole bytes are only written on a byte boundary", "an error may surface as a failed assertion (panic), as write errors do in this crate"],
            subs: vec![
                Sub::random("pack", 30_000, 400_000, writer),
                Sub::random("full", 12_000, 200_000, full),
                Sub::random("standard output", 3_000, 40_000, writer_std).serial(),
                Sub::random("limited output", 3_000, 40_000, writer_limit).serial(),
            ],
        },
        Prop {
            id: "C12", level: "exploration",
            rule: "A case is an input of up to 60000 bytes and a sequence of plane reads of mixed sizes and sample types, raw reads and peeks running past its end; from a regular file, or from a pipe fed in pieces, each piece sent only when the one before it has been taken and some reads interrupted by signals; 'large' reads planes of up to eight million samples; 'standard input' is a redirected file or a socket that gives its data and then an error. Non-trivial: at least two bytes (file, standard input; the error met), two pieces (pipe), a plane of more than 60000 samples (large).",
            assumptions: vec!["samples past the end of input are unspecified; the returned count tells how many are valid"],
            subs: vec![
                Sub::random("file", 12_000, 400_000, reader_file),
                Sub::random("pipe", 6_000, 200_000, reader_pipe),
                Sub::random("large", 64, 2_000, reader_large),
                Sub::random("standard input", 2_000, 40_000, reader_std).serial(),
            ],
        },
    ]
}
