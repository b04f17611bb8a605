//! Independent readers of the bit stream: Annex B framing, OBU header, sequence header.
//! The sequence header syntax is the one of the AV1 draft this encoder follows (timing
//! information after the color config, then the operating points' decoder models).
use crate::bits::*;

#[derive(Debug, PartialEq, Clone)]
pub struct ObuHeader { pub forbidden: u64, pub kind: u64, pub extension: bool, pub has_size: bool, pub reserved: u64 }

/// A unit read from an Annex B stream.
#[derive(Debug, Clone)]
pub struct Obu { pub header: ObuHeader, pub payload: Vec<u8> }

fn leb(b: &[u8], pos: &mut usize, what: &str) -> Result<usize, String> {
    let mut v = 0u64;
    for i in 0..8 {
        if *pos >= b.len() { return Err(format!("the stream ends inside {}", what)); }
        let x = b[*pos];
        *pos += 1;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 { return Ok(v as usize); }
    }
    Err(format!("{} takes more than 8 bytes", what))
}

/// Every temporal unit as a list of frame units, each a list of OBUs; the whole input must be used.
pub fn annexb(b: &[u8]) -> Result<Vec<Vec<Vec<Obu>>>, String> {
    let mut pos = 0;
    let mut tus = vec![];
    while pos < b.len() {
        let tu = leb(b, &mut pos, "temporal_unit_size")?;
        let tend = pos + tu;
        if tend > b.len() { return Err(format!("temporal_unit_size {} at byte {} runs past the end ({} bytes)", tu, pos, b.len())); }
        let mut fus = vec![];
        while pos < tend {
            let fu = leb(b, &mut pos, "frame_unit_size")?;
            let fend = pos + fu;
            if fend > tend { return Err(format!("frame_unit_size {} at byte {} runs past its temporal unit", fu, pos)); }
            let mut obus = vec![];
            while pos < fend {
                let n = leb(b, &mut pos, "obu_length")?;
                let oend = pos + n;
                if oend > fend { return Err(format!("obu_length {} at byte {} runs past its frame unit", n, pos)); }
                if n == 0 { return Err("obu_length 0".to_string()); }
                obus.push(obu(&b[pos..oend])?);
                pos = oend;
            }
            fus.push(obus);
        }
        tus.push(fus);
    }
    Ok(tus)
}

pub fn obu(b: &[u8]) -> Result<Obu, String> {
    let bits = bytes_to_bits(b);
    let mut r = BitR::new(&bits);
    let header = ObuHeader { forbidden: r.f(1)?, kind: r.f(4)?, extension: r.flag()?, has_size: r.flag()?, reserved: r.f(1)? };
    if header.forbidden != 0 { return Err("obu_forbidden_bit is set".to_string()); }
    if header.reserved != 0 { return Err("obu_reserved_1bit is set".to_string()); }
    let mut at = 1;
    if header.extension { at += 1; }
    let mut payload = b[at.min(b.len())..].to_vec();
    if header.has_size {
        let mut pos = 0;
        let n = leb(&payload, &mut pos, "obu_size")?;
        if pos + n != payload.len() { return Err(format!("obu_size {} but {} bytes follow", n, payload.len() - pos)); }
        payload = payload[pos..].to_vec();
    }
    Ok(Obu { header, payload })
}

/// What is left after the payload must be a one bit and zeros up to the end, within a byte.
pub fn trailing(r: &mut BitR) -> Result<(), String> {
    let n = r.left();
    if n == 0 || n > 8 { return Err(format!("{} bits are left for the trailing bits, expected 1 to 8", n)); }
    if r.bit()? != 1 { return Err("the trailing one bit is 0".to_string()); }
    while r.left() > 0 { if r.bit()? != 0 { return Err("a trailing zero bit is 1".to_string()); } }
    Ok(())
}

#[derive(Debug, PartialEq, Clone, Default)]
pub struct OpPoint { pub idc: u64, pub level: u64, pub tier: Option<bool> }
#[derive(Debug, PartialEq, Clone, Default)]
pub struct Timing { pub units: u64, pub scale: u64, pub equal: bool, pub ticks: Option<u64> }
#[derive(Debug, PartialEq, Clone, Default)]
pub struct DecModel { pub bitrate_scale: u64, pub buffer_scale: u64, pub delay_len: u64, pub decoding_tick: u64, pub removal_len: u64, pub presentation_len: u64 }
#[derive(Debug, PartialEq, Clone, Default)]
pub struct OpParams { pub bitrate: u64, pub buffer: u64, pub cbr: bool, pub dec_delay: u64, pub enc_delay: u64, pub low_delay: bool }
#[derive(Debug, PartialEq, Clone, Default)]
pub struct OpModel { pub idc: u64, pub display_delay: Option<u64>, pub params: Option<OpParams> }

#[derive(Debug, PartialEq, Clone, Default)]
pub struct Seq {
    pub profile: u64,
    pub still: bool,
    pub ops: Vec<OpPoint>,
    pub width_bits: u64,
    pub height_bits: u64,
    pub width: u64,
    pub height: u64,
    pub frame_id: Option<(u64, u64)>, // delta length, additional length
    pub sb128: bool,
    pub filter_intra: bool,
    pub intra_edge: bool,
    pub interintra: bool,
    pub masked: bool,
    pub warped: bool,
    pub dual: bool,
    pub order_hint_bits: u64, // 0: order hints off
    pub jnt: bool,
    pub ref_mvs: bool,
    pub screen: u64, // 0, 1 or 2 = chosen per frame
    pub int_mv: u64,
    pub superres: bool,
    pub cdef: bool,
    pub restoration: bool,
    pub bit_depth: u64,
    pub mono: bool,
    pub color_desc: Option<(u64, u64, u64)>,
    pub full_range: bool,
    pub sub_x: bool,
    pub sub_y: bool,
    pub chroma_pos: u64,
    pub separate_uv: bool,
    pub timing: Option<Timing>,
    pub dec_model: Option<DecModel>,
    pub op_models: Vec<OpModel>,
    pub film_grain: bool,
}

pub fn seq(r: &mut BitR) -> Result<Seq, String> {
    let mut s = Seq { profile: r.f(3)?, still: r.flag()?, ..Default::default() };
    if r.flag()? { return Err("reduced_still_picture_header is set".to_string()); }
    let n = r.f(5)? + 1;
    for _ in 0..n {
        let idc = r.f(12)?;
        let level = r.f(5)?;
        let tier = if level > 7 { Some(r.flag()?) } else { None };
        s.ops.push(OpPoint { idc, level, tier });
    }
    s.width_bits = r.f(4)? + 1;
    s.height_bits = r.f(4)? + 1;
    s.width = r.f(s.width_bits as usize)? + 1;
    s.height = r.f(s.height_bits as usize)? + 1;
    if r.flag()? { let d = r.f(4)? + 2; let a = r.f(3)? + 1; s.frame_id = Some((d, a)); }
    s.sb128 = r.flag()?;
    s.filter_intra = r.flag()?;
    s.intra_edge = r.flag()?;
    s.interintra = r.flag()?;
    s.masked = r.flag()?;
    s.warped = r.flag()?;
    s.dual = r.flag()?;
    let order = r.flag()?;
    if order { s.jnt = r.flag()?; s.ref_mvs = r.flag()?; }
    s.screen = if r.flag()? { 2 } else { r.f(1)? };
    s.int_mv = if s.screen > 0 { if r.flag()? { 2 } else { r.f(1)? } } else { 2 };
    if order { s.order_hint_bits = r.f(3)? + 1; }
    s.superres = r.flag()?;
    s.cdef = r.flag()?;
    s.restoration = r.flag()?;
    // color config
    let high = r.flag()?;
    let twelve = if s.profile == 2 && high { r.flag()? } else { false };
    s.bit_depth = if twelve { 12 } else if high { 10 } else { 8 };
    s.mono = if s.profile == 1 { false } else { r.flag()? };
    if r.flag()? { s.color_desc = Some((r.f(8)?, r.f(8)?, r.f(8)?)); }
    if s.mono {
        s.full_range = r.flag()?;
        s.sub_x = true;
        s.sub_y = true;
    } else if s.color_desc == Some((1, 13, 0)) {
        s.full_range = true;
        s.separate_uv = r.flag()?;
    } else {
        s.full_range = r.flag()?;
        match s.profile {
            0 => { s.sub_x = true; s.sub_y = true; }
            1 => {}
            _ => if s.bit_depth == 12 {
                s.sub_x = r.flag()?;
                if s.sub_x { s.sub_y = r.flag()?; }
            } else { s.sub_x = true; }
        }
        if s.sub_x && s.sub_y { s.chroma_pos = r.f(2)?; }
        s.separate_uv = r.flag()?;
    }
    if r.flag()? {
        let mut t = Timing { units: r.f(32)?, scale: r.f(32)?, equal: r.flag()?, ticks: None };
        if t.equal { t.ticks = Some(r.uvlc()? + 1); }
        s.timing = Some(t);
        if r.flag()? {
            s.dec_model = Some(DecModel { bitrate_scale: r.f(4)?, buffer_scale: r.f(4)?, delay_len: r.f(5)? + 1, decoding_tick: r.f(32)?, removal_len: r.f(5)? + 1, presentation_len: r.f(5)? + 1 });
        }
    }
    if r.flag()? {
        let n = r.f(5)? + 1;
        for _ in 0..n {
            let idc = r.f(12)?;
            let display_delay = if r.flag()? { Some(r.f(4)? + 1) } else { None };
            let mut params = None;
            if let Some(ref d) = s.dec_model {
                if r.flag()? {
                    let k = d.delay_len as usize;
                    params = Some(OpParams { bitrate: r.uvlc()? + 1, buffer: r.uvlc()? + 1, cbr: r.flag()?, dec_delay: r.f(k)?, enc_delay: r.f(k)?, low_delay: r.flag()? });
                }
            }
            s.op_models.push(OpModel { idc, display_delay, params });
        }
    }
    s.film_grain = r.flag()?;
    Ok(s)
}
