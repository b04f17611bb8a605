//! C14 (framing) and C15 (metadata, padding, delimiters).
use crate::p_fh::{gen_want, to_frame};
use crate::p_seq::{adopt, gen_seq, payloads};
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::obu::*;
use av1enc::verif::obu_encoder::OBUEncoder;
use harness::av1;
use harness::bits::*;
use harness::engine::*;
use harness::{check, check_eq};
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

use MetaData::*;
use ScalabilityModeIdc::*;
use OBU::*;

pub struct Tmp(pub String);
impl Tmp {
    pub fn new() -> Tmp {
        static N: AtomicU64 = AtomicU64::new(0);
        Tmp(format!("{}/obu-{}-{}", std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".to_string()), std::process::id(), N.fetch_add(1, Ordering::SeqCst)))
    }
}
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }

const MODES: [ScalabilityModeIdc; 15] = [SCALABILITY_L1T2, SCALABILITY_L1T3, SCALABILITY_L2T1, SCALABILITY_L2T2, SCALABILITY_L2T3, SCALABILITY_S2T1, SCALABILITY_S2T2, SCALABILITY_S2T3, SCALABILITY_L2T1h, SCALABILITY_L2T2h, SCALABILITY_L2T3h, SCALABILITY_S2T1h, SCALABILITY_S2T2h, SCALABILITY_S2T3h, SCALABILITY_SS];

/// Stands for a field whose value is left open.
const ANY: u64 = u64::MAX;

fn f(v: &mut Vec<(u64, usize)>, x: u64, n: usize) { v.push((x, n)); }

/// Metadata and the fixed-width fields that must follow its type.
fn gen_meta(s: &mut Src) -> (MetaData, u64, Vec<(u64, usize)>) {
    let mut x = vec![];
    match s.below(5) {
        0 => {
            let cc = if s.one_in(12) { 255 } else { s.biased(254) as u16 };
            f(&mut x, cc as u64, 8);
            if cc == 255 { f(&mut x, ANY, 8); } // an extension byte, for which the type has no field
            let n = if s.one_in(30) { if s.one_in(20) { if s.one_in(20) { s.us(65500, 70000) } else { s.us(3001, 20000) } } else { s.us(41, 3000) } } else { s.us(0, 40) };
            let pb: Vec<u16> = (0..n).map(|_| s.below(256) as u16).collect();
            for b in &pb { f(&mut x, *b as u64, 8); }
            (METADATA_TYPE_ITUT_T35 { country_code: cc, payload_bytes: pb }, 4, x)
        }
        1 => {
            let (a, b) = (s.biased(65535) as u16, s.biased(65535) as u16);
            f(&mut x, a as u64, 16);
            f(&mut x, b as u64, 16);
            (METADATA_TYPE_HDR_CLL { max_cll: a, max_fall: b }, 1, x)
        }
        2 => {
            let mut px = [0u16; 3];
            let mut py = [0u16; 3];
            for i in 0..3 { px[i] = s.biased(65535) as u16; py[i] = s.biased(65535) as u16; f(&mut x, px[i] as u64, 16); f(&mut x, py[i] as u64, 16); }
            let (wx, wy) = (s.biased(65535) as u16, s.biased(65535) as u16);
            let (lx, ln) = (s.biased(u32::MAX as u64) as u32, s.biased(u32::MAX as u64) as u32);
            f(&mut x, wx as u64, 16);
            f(&mut x, wy as u64, 16);
            f(&mut x, lx as u64, 32);
            f(&mut x, ln as u64, 32);
            (METADATA_TYPE_HDR_MDCV { primary_chromaticity_x: px, primary_chromaticity_y: py, white_point_chromaticity_x: wx, white_point_chromaticity_y: wy, luminance_max: lx, luminance_min: ln }, 2, x)
        }
        3 => {
            let m = if s.bool() { 14 } else { s.us(0, 14) };
            f(&mut x, m as u64, 8);
            if m < 14 { return (METADATA_TYPE_SCALABILITY { mode_idc: MODES[m], structure: None }, 3, x); }
            let layers = s.us(1, 4);
            let (has_dim, mut has_desc) = (s.bool(), s.bool());
            if !has_dim && !has_desc { has_desc = true; } // the number of layers is taken from these lists
            let groups = if s.bool() { 0 } else if s.one_in(6) { 255 } else { s.us(1, 20) };
            f(&mut x, layers as u64 - 1, 2);
            f(&mut x, has_dim as u64, 1);
            f(&mut x, has_desc as u64, 1);
            f(&mut x, (groups > 0) as u64, 1);
            f(&mut x, 0, 3);
            let mut st = ScalabilityStructure { spatial_layer_dimensions: vec![], spatial_layer_descriptions: vec![], temporal_groups: vec![] };
            if has_dim { for _ in 0..layers { let (w, h) = (s.biased(65535), s.biased(65535)); f(&mut x, w, 16); f(&mut x, h, 16); st.spatial_layer_dimensions.push(SpatialLayerDimension { max_width: w as u16, max_height: h as u16 }); } }
            if has_desc { for _ in 0..layers { let r = s.below(256); f(&mut x, r, 8); st.spatial_layer_descriptions.push(SpatialLayerDescription { ref_id: r as u8 }); } }
            if groups > 0 {
                f(&mut x, groups as u64, 8);
                for _ in 0..groups {
                    let (t, a, b, n) = (s.below(8), s.below(2), s.below(2), s.below(8));
                    f(&mut x, t, 3);
                    f(&mut x, a, 1);
                    f(&mut x, b, 1);
                    f(&mut x, n, 3);
                    let d: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
                    for k in &d { f(&mut x, *k as u64, 8); }
                    st.temporal_groups.push(TemporalGroup { temporal_id: t as u8, temporal_switching_up_point_flag: a as u8, spatial_switching_up_point_flag: b as u8, ref_pic_diffs: d });
                }
            }
            (METADATA_TYPE_SCALABILITY { mode_idc: SCALABILITY_SS, structure: Some(st) }, 3, x)
        }
        _ => {
            let ct = s.below(32);
            // how many of seconds, minutes, hours are known before the first unknown one; the syntax has no room for those after it
            let k = s.below(4);
            let (gap_min, gap_hr) = (k < 1 && s.one_in(3), k < 2 && s.one_in(3));
            let (sec, min, hr) = (s.below(60), s.below(60), s.below(24));
            let tol = if s.bool() { 0 } else { s.below(32) };
            let tov = if tol == 0 { 0 } else { s.biased((1 << tol) - 1) };
            f(&mut x, ct, 5);
            f(&mut x, (k == 3) as u64, 1);
            f(&mut x, 0, 1);
            f(&mut x, 0, 1);
            f(&mut x, 0, 9);
            if k == 3 { f(&mut x, sec, 6); f(&mut x, min, 6); f(&mut x, hr, 5); }
            else {
                f(&mut x, (k >= 1) as u64, 1);
                if k >= 1 {
                    f(&mut x, sec, 6);
                    f(&mut x, (k >= 2) as u64, 1);
                    if k >= 2 { f(&mut x, min, 6); f(&mut x, 0, 1); }
                }
            }
            f(&mut x, tol, 5);
            if tol > 0 { f(&mut x, tov, tol as usize); }
            (METADATA_TYPE_TIMECODE { counting_type: ct as u8, seconds: if k >= 1 { Some(sec as u8) } else { None }, minutes: if k >= 2 || gap_min { Some(min as u8) } else { None }, hours: if k == 3 || gap_hr { Some(hr as u8) } else { None }, time_offset_length: tol as u8, time_offset_value: tov as u32 }, 5, x)
        }
    }
}

fn check_meta(bits: &[u8], kind: u64, x: &[(u64, usize)]) -> Res {
    let mut r = BitR::new(bits);
    check_eq!(r.leb128()?, kind, "metadata type");
    for (k, (v, n)) in x.iter().enumerate() {
        let got = r.f(*n)?;
        if *v != ANY { check_eq!(got, *v, "field {} ({} bits) of metadata type {}", k, n, kind); }
    }
    check_eq!(r.left(), 0, "bits after the last field of metadata type {}", kind);
    Ok(())
}

fn metadata(s: &mut Src, info: &mut Info) -> Res {
    let (m, kind, x) = gen_meta(s);
    info.nontrivial(x.len() >= 2);
    info.label(match kind { 1 => "light level", 2 => "mastering display", 3 => "scalability", 4 => "ITU-T T.35", _ => "time code" });
    info.desc(|| trunc(&format!("type {}: (value, bits) {:?}", kind, x), 300));
    let b = payloads(EncoderContext::new(), &mut [OBU_METADATA(m)]);
    check_meta(&b[0], kind, &x)
}

/// Several units coded by one encoder, after one another in one buffer: each is what it is on its own.
fn mixed(s: &mut Src, info: &mut Info) -> Res {
    let n = if s.one_in(20) { s.us(5, 40) } else { s.us(2, 5) };
    let lead = s.us(0, 9);
    info.nontrivial(true);
    let mut w = BinaryWriter::file("/dev/null").unwrap();
    let mut c = BoolCoder::new();
    let ctx = Rc::new(RefCell::new(EncoderContext::new()));
    let mut enc = OBUEncoder::new(&ctx, &mut w, &mut c);
    let mut b: Vec<u8> = (0..lead).map(|i| (i & 1) as u8).collect();
    let mut d = vec![];
    for k in 0..n {
        let before = b.clone();
        let r = match s.below(8) {
            0 => { if info.want_desc { d.push("delimiter".to_string()); } enc.encode_obu_payload(&mut OBU_TEMPORAL_DELIMITER, &mut b); if b.len() == before.len() { Ok(()) } else { Err("a temporal delimiter has a payload".to_string()) } }
            1 => {
                let p = s.us(0, 50);
                if info.want_desc { d.push(format!("padding {}", p)); }
                enc.encode_obu_payload(&mut OBU_PADDING(p as u32), &mut b);
                if b.len() == before.len() + 8 * p { Ok(()) } else { Err(format!("padding of {} bytes takes {} bits", p, b.len() - before.len())) }
            }
            _ => {
                let (m, kind, x) = gen_meta(s);
                if info.want_desc { d.push(trunc(&format!("type {}: {:?}", kind, x), 120)); }
                enc.encode_obu_payload(&mut OBU_METADATA(m), &mut b);
                check_meta(&b[before.len().min(b.len())..], kind, &x)
            }
        };
        info.desc = d.join("; ");
        r.map_err(|e| format!("unit {}: {}", k, e))?;
        check!(b[..before.len()] == before[..], "unit {} changed what was in the buffer", k);
        info.evals(1);
    }
    Ok(())
}

fn padding_large(s: &mut Src, info: &mut Info) -> Res {
    let k = match s.below(4) { 0 => s.us(65_530, 65_545), 1 => s.us(16_380, 16_390), 2 => s.us(8_180, 8_200), _ => s.us(20_000, 200_000) };
    padding(k as u64, info)
}

fn padding(k: u64, info: &mut Info) -> Res {
    info.nontrivial(k > 0);
    info.desc(|| format!("padding {}", k));
    let b = payloads(EncoderContext::new(), &mut [OBU_PADDING(k as u32), OBU_TEMPORAL_DELIMITER]);
    check_eq!(b[0].len(), 8 * k as usize, "bits of a padding payload of {} bytes", k);
    check!(b[0].iter().all(|x| *x <= 1), "an element of the bit stream is not a bit");
    check_eq!(b[1].len(), 0, "bits of a temporal delimiter payload");
    Ok(())
}

// ---- C14

pub enum Want { Seq(av1::Seq), Delim, Pad(u32), Meta(u64, Vec<(u64, usize)>), Frame(Vec<u8>) }

pub fn gen_obu(s: &mut Src, first: bool) -> (OBU, Want, Option<EncoderContext>) {
    match if first { 0 } else { s.below(3) } {
        0 if first => { let (q, e, x) = gen_seq(s); (OBU_SEQUENCE_HEADER(q), Want::Seq(x), Some(e)) }
        0 => (OBU_TEMPORAL_DELIMITER, Want::Delim, None),
        1 => {
            // sizes around the places where the size fields grow by a byte
            let n = match s.below(6) { 0 => s.us(118, 132), 1 => s.us(16370, 16390), 2 => s.us(0, 3), 3 => s.us(0, 2000), _ => s.us(0, 300) };
            (OBU_PADDING(n as u32), Want::Pad(n as u32), None)
        }
        _ => { let (m, k, x) = gen_meta(s); (OBU_METADATA(m), Want::Meta(k, x), None) }
    }
}

pub fn show_want(w: &Want) -> String {
    match w { Want::Seq(x) => format!("sequence header {}x{}", x.width, x.height), Want::Delim => "delimiter".to_string(), Want::Pad(n) => format!("padding {}", n), Want::Meta(k, x) => format!("metadata {} with {} fields", k, x.len()), Want::Frame(b) => format!("frame header of {} bits", b.len()) }
}

pub fn check_obu(o: &av1::Obu, w: &Want) -> Res {
    check!(!o.header.extension, "an OBU extension is announced");
    let bits = bytes_to_bits(&o.payload);
    match w {
        Want::Delim => { check_eq!(o.header.kind, 2, "OBU type of a temporal delimiter"); check_eq!(o.payload.len(), 0, "payload bytes of a temporal delimiter"); }
        Want::Pad(n) => {
            check_eq!(o.header.kind, 15, "OBU type of padding");
            if *n == 0 { check!(o.payload.is_empty() || o.payload == [0x80], "empty padding has payload {:02x?}", o.payload); }
            else {
                check_eq!(o.payload.len(), *n as usize + 1, "payload bytes of padding {} with its trailing bits", n);
                check_eq!(o.payload[*n as usize], 0x80, "trailing byte of padding {}", n);
            }
        }
        Want::Meta(k, x) => {
            check_eq!(o.header.kind, 5, "OBU type of metadata");
            let used = BitR::new(&bits).leb128().map(|_| 8).unwrap_or(0) + x.iter().map(|(_, n)| *n).sum::<usize>();
            check!(bits.len() >= used, "metadata payload of {} bits, {} expected", bits.len(), used);
            check_meta(&bits[..used], *k, x)?;
            av1::trailing(&mut BitR { b: &bits, pos: used })?;
        }
        Want::Frame(b) => {
            check_eq!(o.header.kind, 3, "OBU type of a frame header");
            check!(bits.len() > b.len() && bits[..b.len()] == b[..], "frame header payload of {} bits differs from the {} bits coded for it", bits.len(), b.len());
            av1::trailing(&mut BitR { b: &bits, pos: b.len() })?;
        }
        Want::Seq(x) => {
            check_eq!(o.header.kind, 1, "OBU type of a sequence header");
            let mut r = BitR::new(&bits);
            let got = av1::seq(&mut r)?;
            check!(got == *x, "sequence header read back differs: {:?}, expected {:?}", got, x);
            av1::trailing(&mut r)?;
        }
    }
    Ok(())
}

/// A session of temporal units written to a file.
fn session(s: &mut Src, info: &mut Info) -> Res { let n = if s.one_in(12) { s.us(7, 60) } else { s.us(1, 6) }; session_of(s, info, n) }
fn session_long(s: &mut Src, info: &mut Info) -> Res { let n = s.us(250, 1200); session_of(s, info, n) }

fn session_of(s: &mut Src, info: &mut Info, n: usize) -> Res {
    let with_seq = s.bool();
    info.nontrivial(n >= 2);
    let t = Tmp::new();
    let mut wants = vec![];
    {
        let mut w = BinaryWriter::file(&t.0).map_err(|e| e.to_string())?;
        {
            let mut c = BoolCoder::new();
            let ctx = Rc::new(RefCell::new(EncoderContext::new()));
            let mut enc = OBUEncoder::new(&ctx, &mut w, &mut c);
            // a second encoder in the same state tells the payload bits of frame headers
            let mut w2 = BinaryWriter::file("/dev/null").unwrap();
            let mut c2 = BoolCoder::new();
            let ctx2 = Rc::new(RefCell::new(EncoderContext::new()));
            let mut twin = OBUEncoder::new(&ctx2, &mut w2, &mut c2);
            let mut x: Option<av1::Seq> = None;
            let mut open = false;
            for k in 0..n {
                let kind = if k == 0 && with_seq { 0 } else { s.below(12) };
                if kind == 0 && with_seq {
                    let from = s.rec.len();
                    let (q, e, y) = gen_seq(s);
                    let (q2, e2, _) = gen_seq(&mut s.again(from));
                    adopt(&mut ctx.borrow_mut(), e);
                    adopt(&mut ctx2.borrow_mut(), e2);
                    twin.encode_obu_payload(&mut OBU_SEQUENCE_HEADER(q2), &mut vec![]);
                    enc.encode_temporal_unit(&mut OBU_SEQUENCE_HEADER(q));
                    wants.push(Want::Seq(y.clone()));
                    x = Some(y);
                } else if kind <= 2 && x.is_some() && !open {
                    let y = x.as_ref().unwrap();
                    let q = gen_want(s, y);
                    let f = to_frame(&q, y, &mut ctx.borrow_mut());
                    let f2 = to_frame(&q, y, &mut ctx2.borrow_mut());
                    let mut b = vec![];
                    twin.encode_obu_payload(&mut OBU_FRAME_HEADER(f2), &mut b);
                    enc.encode_temporal_unit(&mut OBU_FRAME_HEADER(f));
                    info.label("frame header");
                    open = !q.show_existing;
                    wants.push(Want::Frame(b));
                } else {
                    let (mut o, w, _) = gen_obu(s, false);
                    if let Want::Delim = w { open = false; twin.encode_obu_payload(&mut OBU_TEMPORAL_DELIMITER, &mut vec![]); }
                    enc.encode_temporal_unit(&mut o);
                    wants.push(w);
                }
                if info.want_desc { info.desc = trunc(&wants.iter().map(show_want).collect::<Vec<_>>().join(", "), 900); }
            }
        }
        w.flush().map_err(|e| e.to_string())?;
    }
    let b = std::fs::read(&t.0).map_err(|e| e.to_string())?;
    let tus = av1::annexb(&b).map_err(|e| format!("the stream ({} bytes) cannot be split into units: {}", b.len(), e))?;
    check_eq!(tus.len(), n, "temporal units in the stream");
    for (k, tu) in tus.iter().enumerate() {
        check_eq!(tu.len(), 1, "frame units in temporal unit {}", k);
        check_eq!(tu[0].len(), 1, "OBUs in temporal unit {}", k);
        check_obu(&tu[0][0], &wants[k]).map_err(|e| format!("temporal unit {}: {}", k, e))?;
    }
    Ok(())
}

/// One OBU at a time: header bits, then exactly the payload, then trailing bits to the byte boundary.
fn single(s: &mut Src, info: &mut Info) -> Res {
    let first = s.one_in(4);
    let (mut o, w, e) = gen_obu(s, first);
    info.nontrivial(true);
    info.desc(|| show_want(&w));
    let mut wr = BinaryWriter::file("/dev/null").unwrap();
    let mut c = BoolCoder::new();
    let ctx = Rc::new(RefCell::new(e.unwrap_or_else(EncoderContext::new)));
    let mut enc = OBUEncoder::new(&ctx, &mut wr, &mut c);
    let mut bits = vec![];
    enc.encode_obu(&mut o, &mut bits);
    check_eq!(bits.len() % 8, 0, "bits beyond a whole number of bytes in an OBU");
    let bytes: Vec<u8> = bits.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | b)).collect();
    check!(!bytes.is_empty(), "an OBU without a header");
    check_obu(&av1::obu(&bytes)?, &w)
}

/// Header of every OBU kind, including those whose payload needs a frame.
fn headers(k: u64, info: &mut Info) -> Res {
    use av1enc::verif::constants::FrameType::KEY_FRAME;
    use av1enc::verif::frame::Frame;
    use av1enc::verif::sequence_header::SequenceHeader;
    let fr = || Frame::new(KEY_FRAME, 16, 16);
    let (mut o, kind) = match k {
        0 => (OBU_SEQUENCE_HEADER(SequenceHeader::new(16, 16)), 1),
        1 => (OBU_TEMPORAL_DELIMITER, 2),
        2 => (OBU_FRAME_HEADER(fr()), 3),
        3 => (OBU_TILE_GROUP(fr()), 4),
        4 => (OBU_METADATA(METADATA_TYPE_HDR_CLL { max_cll: 1, max_fall: 2 }), 5),
        5 => (OBU_FRAME { frame: fr() }, 6),
        6 => (OBU_REDUNDANT_FRAME_HEADER, 7),
        _ => (OBU_PADDING(3), 15),
    };
    info.nontrivial(true);
    info.desc(|| format!("header of OBU type {}", kind));
    let mut wr = BinaryWriter::file("/dev/null").unwrap();
    let mut c = BoolCoder::new();
    let ctx = Rc::new(RefCell::new(EncoderContext::new()));
    let mut enc = OBUEncoder::new(&ctx, &mut wr, &mut c);
    for pre in 0..3usize {
        let mut bits = vec![1u8; 8 * pre];
        enc.encode_obu_header(&mut o, &mut bits);
        check!(bits[..8 * pre].iter().all(|b| *b == 1), "the header changed what was in the buffer");
        let mut r = BitR::new(&bits[8 * pre..]);
        check_eq!(r.f(1)?, 0, "forbidden bit of OBU type {}", kind);
        check_eq!(r.f(4)?, kind, "OBU type");
        check_eq!(r.f(1)?, 0, "extension flag of OBU type {}", kind);
        check_eq!(r.f(1)?, 0, "size flag of OBU type {} (sizes are carried by the framing)", kind);
        check_eq!(r.f(1)?, 0, "reserved bit of OBU type {}", kind);
        check_eq!(r.left(), 0, "bits after the header of OBU type {}", kind);
    }
    Ok(())
}

/// Every payload size across a growth of the size fields.
fn growth(k: u64, info: &mut Info) -> Res {
    let base = [0u64, 115, 16365, 2097135][(k / 32) as usize] + k % 32;
    info.nontrivial(true);
    info.desc(|| format!("a temporal unit with {} bytes of padding", base));
    let t = Tmp::new();
    {
        let mut w = BinaryWriter::file(&t.0).map_err(|e| e.to_string())?;
        {
            let mut c = BoolCoder::new();
            let ctx = Rc::new(RefCell::new(EncoderContext::new()));
            let mut enc = OBUEncoder::new(&ctx, &mut w, &mut c);
            enc.encode_temporal_unit(&mut OBU_PADDING(base as u32));
            enc.encode_temporal_unit(&mut OBU_TEMPORAL_DELIMITER);
        }
        w.flush().map_err(|e| e.to_string())?;
    }
    let b = std::fs::read(&t.0).map_err(|e| e.to_string())?;
    let tus = av1::annexb(&b)?;
    check_eq!(tus.len(), 2, "temporal units");
    check_obu(&tus[0][0][0], &Want::Pad(base as u32))?;
    check_obu(&tus[1][0][0], &Want::Delim)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14", level: "exploration",
            rule: "A case is a session of 1 to 60 temporal units (sequence headers, frame headers compared with the payload bits of a second encoder in the same state, delimiters, padding of sizes around the growth points of the size fields, metadata) written to a file and split again by an independent Annex B reader; 'single' looks at one OBU; 'headers' enumerates the OBU kinds; 'growth' enumerates payload sizes around 1, 2 and 3-byte sizes. Non-trivial: two or more units (session), always otherwise.",
            assumptions: vec!["one OBU per temporal unit, as the encoder's interface offers", "tile group, frame and redundant frame header payloads are not implemented in the encoder; only their headers are checked"],
            subs: vec![
                Sub::random("session", 10_000, 300_000, session),
                Sub::random("long session", 24, 1_000, session_long),
                Sub::random("single", 30_000, 500_000, single),
                Sub::exhaustive("headers", 8, 8, headers),
                Sub::exhaustive("growth", 128, 128, growth),
            ],
        },
        Prop {
            id: "C15", level: "exploration",
            rule: "A case is one metadata unit of any of the five types with every field drawn from its whole range; its payload is read back field by field. 'mixed' codes several units one after the other into one buffer with one encoder; 'padding' enumerates padding sizes and 'padding-large' draws large ones. Non-trivial: at least two fields.",
            assumptions: vec!["ITU-T T.35 country codes below 255 (255 needs an extension byte the type cannot carry)", "layer lists of a scalability structure have one entry per layer or none"],
            subs: vec![
                Sub::random("metadata", 800_000, 6_000_000, metadata),
                Sub::random("mixed", 150_000, 2_000_000, mixed),
                Sub::random("padding-large", 60, 3_000, padding_large),
                Sub::exhaustive("padding", 3_000, 20_000, padding),
            ],
        },
    ]
}
