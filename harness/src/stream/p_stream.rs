//! C31: whole sessions: the frames of a stream are found and read from what the stream says.
use crate::geo::new_frame;
use crate::p_fh::{gen_want, to_frame};
use crate::p_lr;
use crate::p_obu::{check_obu, gen_obu, show_want, Tmp, Want as Other};
use crate::p_seq::{adopt, gen_seq_of};
use crate::p_walk::{fill, read_group, stored, Layout};
use av1enc::bool_coder::BoolCoder;
use av1enc::verif::binary_writer::BinaryWriter;
use av1enc::verif::constants::FrameRestorationType::*;
use av1enc::verif::encoder::EncoderContext;
use av1enc::verif::frame::Frame;
use av1enc::verif::obu::OBU::*;
use av1enc::verif::obu_encoder::OBUEncoder;
use harness::av1;
use harness::av1fh::{self, tile_log2, Derived, Want};
use harness::bits::*;
use harness::engine::*;
use harness::{check, check_eq};
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

/// What a unit of the stream is.
enum Unit { Other(Other), Header(usize), Group { frame: usize, a: usize, b: usize, explicit: bool, state: (isize, [isize; 4]) } }

/// A frame of the session: what was asked for, what a decoder of its header knows, and what coding has left.
struct Coded { q: Want, x: av1::Seq, d: Derived, left: Option<(Frame, p_lr::Lr)>, closed: bool }

/// A decoder's view after a frame header: the frame, its context and its tiles.
fn decoder(x: &av1::Seq, q: &Want, d: &Derived) -> (Frame, EncoderContext, Layout) {
    let mut f = new_frame(d.width as usize, d.height as usize);
    let mut e = EncoderContext::new();
    f.subsampling_x = x.sub_x;
    f.subsampling_y = x.sub_y;
    f.allow_intrabc = d.intrabc;
    f.use_superres = d.denom != 8;
    f.cdef_params.cdef_bits = if d.cdef_off { 0 } else { tile_log2(1, q.cdef.len() as u64) as u8 };
    f.quantization_params.base_q_idx = q.base_q as u8;
    f.delta_q_params.delta_q_present = d.delta_q.is_some();
    f.delta_q_params.delta_q_res = d.delta_q.unwrap_or(0) as u8;
    f.delta_lf_params.delta_lf_present = d.delta_lf.is_some();
    if let Some((r, m)) = d.delta_lf { f.delta_lf_params.delta_lf_res = r as u8; f.delta_lf_params.delta_lf_multi = m; }
    f.segmentation_params.segmentation_enabled = d.seg;
    for i in 0..8 { for j in 0..8 { f.segmentation_params.feature_value[i][j] = d.features[i][j].map(|v| v as isize); } }
    e.last_active_seg_id = d.last_seg as usize;
    e.seg_id_pre_skip = d.seg_pre_skip;
    e.use_128x128_superblock = x.sb128;
    e.num_planes = if x.mono { 1 } else { 3 };
    e.enable_cdef = x.cdef;
    e.coded_lossless = d.coded_lossless;
    e.superres_denom = d.denom as usize;
    e.upscaled_width = d.upscaled as usize;
    e.disable_cdf_update = q.no_cdf_update;
    e.frame_is_intra = d.intra;
    for p in 0..3 { e.frame_restoration_type[p] = [RESTORE_NONE, RESTORE_WIENER, RESTORE_SGRPROJ, RESTORE_SWITCHABLE][*d.lr.get(p).unwrap_or(&0) as usize]; }
    e.loop_restoration_size = [64; 3];
    if let Some((a, b)) = d.lr_sizes { e.loop_restoration_size = [a as usize, b as usize, b as usize]; }
    let v = |a: &Vec<u64>| a.iter().map(|x| *x as usize).collect::<Vec<_>>();
    let l = Layout { row_starts: v(&d.row_starts), col_starts: v(&d.col_starts), sb4: if x.sb128 { 32 } else { 16 }, intra: d.intra, size_bytes: q.tile_size_bytes as usize };
    (f, e, l)
}

/// The grid of CDEF indices, in whole superblocks.
fn cdef_grid(d: &Derived, sb4: usize) -> Vec<Vec<isize>> {
    let up = |n: u64| (2 * ((n as usize + 7) / 8) + sb4 - 1) / sb4 * sb4;
    vec![vec![5; up(d.width)]; up(d.height)]
}

fn session(s: &mut Src, info: &mut Info) -> Res { let frames = if s.one_in(10) { s.us(4, 10) } else { s.us(1, 3) }; session_of(s, info, frames) }
fn session_long(s: &mut Src, info: &mut Info) -> Res { let frames = s.us(40, 140); session_of(s, info, frames) }

fn session_of(s: &mut Src, info: &mut Info, frames: usize) -> Res {
    let t = Tmp::new();
    let mut units: Vec<Unit> = vec![];
    let mut coded: Vec<Coded> = vec![];
    let mut said: Vec<String> = vec![];
    {
        let mut w = BinaryWriter::file(&t.0).map_err(|e| e.to_string())?;
        {
            let mut c = BoolCoder::new();
            let ctx = Rc::new(RefCell::new(EncoderContext::new()));
            let mut enc = OBUEncoder::new(&ctx, &mut w, &mut c);
            // a second encoder in the same state tells what the header of the next frame will say
            let mut w2 = BinaryWriter::file("/dev/null").unwrap();
            let mut c2 = BoolCoder::new();
            let ctx2 = Rc::new(RefCell::new(EncoderContext::new()));
            let mut twin = OBUEncoder::new(&ctx2, &mut w2, &mut c2);
            let mut x = av1::Seq::default();
            let mut open = false;
            for k in 0..frames {
                if k == 0 || s.one_in(5) {
                    if k > 0 { enc.encode_temporal_unit(&mut OBU_TEMPORAL_DELIMITER); units.push(Unit::Other(Other::Delim)); }
                    let from = s.rec.len();
                    let gen = |s: &mut Src| {
                        let side = |s: &mut Src| match s.below(8) { 0 | 1 => s.us(1, 70), 2 | 3 | 4 => s.us(1, 160), 5 | 6 => s.us(1, 330), _ => s.us(1, 700) };
                        let (w, h) = (side(s), side(s));
                        gen_seq_of(s, w, h)
                    };
                    let (q, e, y) = gen(s);
                    let (q2, e2, _) = gen(&mut s.again(from));
                    adopt(&mut ctx.borrow_mut(), e);
                    adopt(&mut ctx2.borrow_mut(), e2);
                    twin.encode_obu_payload(&mut OBU_TEMPORAL_DELIMITER, &mut vec![]);
                    twin.encode_obu_payload(&mut OBU_SEQUENCE_HEADER(q2), &mut vec![]);
                    enc.encode_temporal_unit(&mut OBU_SEQUENCE_HEADER(q));
                    units.push(Unit::Other(Other::Seq(y.clone())));
                    if k > 0 { info.label("changes the sequence header"); }
                    x = y;
                    open = false;
                }
                while s.one_in(6) {
                    let (mut o, u, _) = gen_obu(s, false);
                    if let Other::Delim = u { open = false; }
                    enc.encode_temporal_unit(&mut o);
                    units.push(Unit::Other(u));
                }
                if open || s.one_in(3) { enc.encode_temporal_unit(&mut OBU_TEMPORAL_DELIMITER); units.push(Unit::Other(Other::Delim)); }
                twin.encode_obu_payload(&mut OBU_TEMPORAL_DELIMITER, &mut vec![]);
                let mut q = gen_want(s, &x);
                // the blocks of the walk are of segment 0, and intra coded
                if q.features[0][5].is_some() { q.features[0][5] = Some(0); }
                q.features[0][7] = None;
                if s.bool() { q.frame_type = s.pick(&[av1fh::KEY, av1fh::INTRA_ONLY]); if q.frame_type == av1fh::INTRA_ONLY && q.refresh == 255 { q.refresh = 254; } if !(q.size_override) { q.w = x.width; q.h = x.height; fit(&mut q, &x, s); } }
                q.tile_size_bytes = s.us(if q.w <= 70 && q.h <= 70 { 1 } else { 2 }, 4) as u64;
                let f2 = to_frame(&q, &x, &mut ctx2.borrow_mut());
                let mut f = to_frame(&q, &x, &mut ctx.borrow_mut());
                let mut b = vec![];
                twin.encode_obu_payload(&mut OBU_FRAME_HEADER(f2), &mut b);
                let d = av1fh::check(&mut BitR::new(&b), &x, &q).map_err(|m| format!("frame {}: {}", k, m))?;
                if info.want_desc { said.push(format!("frame of {}x{} type {}{}", q.w, q.h, q.frame_type, if q.show_existing { " (show existing)" } else { "" })); info.desc = trunc(&said.join(", "), 900); }
                let n = coded.len();
                units.push(Unit::Header(n));
                let mut o = OBU_FRAME_HEADER(f);
                enc.encode_temporal_unit(&mut o);
                f = match o { OBU_FRAME_HEADER(f) => f, _ => unreachable!() };
                coded.push(Coded { q, x: x.clone(), d, left: None, closed: false });
                let me = &mut coded[n];
                if me.d.shown_existing { info.label("shows an existing frame"); continue; }
                open = true;
                if s.one_in(12) { info.label("header without tiles"); continue; }
                // what the caller provides for a frame of that header
                let (mut df, de, lay) = decoder(&me.x, &me.q, &me.d);
                let lr = p_lr::alloc(s, &mut df, &de);
                if me.d.seg { stored(s, &mut df, me.d.last_seg as usize); info.label("segments"); } else { fill(s, &mut df); }
                f.mis = df.mis;
                f.superblocks = df.superblocks;
                f.lr_type = df.lr_type;
                f.lr_wiener = df.lr_wiener;
                f.lr_sgr_set = df.lr_sgr_set;
                f.lr_sgr_xqd = df.lr_sgr_xqd;
                f.subsampling_x = me.x.sub_x;
                f.subsampling_y = me.x.sub_y;
                f.cdef_idx = cdef_grid(&me.d, lay.sb4);
                let tiles = (lay.row_starts.len() - 1) * (lay.col_starts.len() - 1);
                let explicit = s.bool();
                let mut a = 0;
                while a < tiles {
                    let b = if explicit { s.us(a, tiles - 1) } else { tiles - 1 };
                    f.tile_groups = if explicit { vec![0] } else { vec![] };
                    if explicit { let mut e = ctx.borrow_mut(); e.tg_start = a; e.tg_end = b; }
                    let mut o = OBU_TILE_GROUP(f);
                    enc.encode_temporal_unit(&mut o);
                    f = match o { OBU_TILE_GROUP(f) => f, _ => unreachable!() };
                    let state = { let e = ctx.borrow(); (e.current_q_index as isize, e.delta_lf) };
                    units.push(Unit::Group { frame: n, a, b, explicit: explicit && tiles > 1, state });
                    if info.want_desc { said.push(format!("tiles {}..{} of {}", a, b, tiles)); info.desc = trunc(&said.join(", "), 900); }
                    if a > 0 { info.label("several groups"); }
                    a = b + 1;
                    let seen = ctx.borrow().seen_frame_header;
                    check_eq!(seen, a < tiles, "frame {} is open after tile {} of {}", k, b, tiles);
                    if a < tiles {
                        if s.one_in(20) { info.label("frame given up"); break; }
                        while s.one_in(5) {
                            let (mut o, u, _) = gen_obu(s, false);
                            if let Other::Delim = u { continue; }
                            enc.encode_temporal_unit(&mut o);
                            units.push(Unit::Other(u));
                        }
                    }
                }
                open = a < tiles;
                me.closed = !open;
                me.left = Some((f, lr));
            }
        }
        w.flush().map_err(|e| e.to_string())?;
    }
    // reading it back
    let b = std::fs::read(&t.0).map_err(|e| e.to_string())?;
    let tus = av1::annexb(&b).map_err(|e| format!("the stream ({} bytes) cannot be split into units: {}", b.len(), e))?;
    check_eq!(tus.len(), units.len(), "temporal units in the stream");
    let mut x: Option<av1::Seq> = None; // the sequence header in force
    let mut cur: Option<(usize, Frame, EncoderContext, Layout, Vec<Vec<isize>>, usize)> = None; // the frame in decoding and its next tile
    let (mut blocks, mut groups) = (0, 0);
    for (k, tu) in tus.iter().enumerate() {
        check!(tu.len() == 1 && tu[0].len() == 1, "temporal unit {} has {} frame units", k, tu.len());
        let o = &tu[0][0];
        let at = |m: String| format!("temporal unit {}: {}", k, m);
        let bits = bytes_to_bits(&o.payload);
        match units[k] {
            Unit::Other(ref w) => {
                check_obu(o, w).map_err(at)?;
                match *w { Other::Seq(_) => x = Some(av1::seq(&mut BitR::new(&bits)).map_err(at)?), Other::Delim => cur = None, _ => () }
            }
            Unit::Header(n) => {
                check_eq!(o.header.kind, 3, "OBU type of temporal unit {}", k);
                check!(cur.is_none(), "temporal unit {} is a frame header inside a frame", k);
                let y = x.as_ref().unwrap();
                let mut r = BitR::new(&bits);
                let d = av1fh::check(&mut r, y, &coded[n].q).map_err(at)?;
                av1::trailing(&mut r).map_err(at)?;
                check!(d == coded[n].d, "temporal unit {}: the header says something else than the same header of a session without tiles", k);
                if !d.shown_existing {
                    let (mut df, de, lay) = decoder(y, &coded[n].q, &d);
                    if let Some((ref f, _)) = coded[n].left { df.mis = f.mis.clone(); df.lr_type = f.lr_type.clone(); df.lr_wiener = f.lr_wiener.clone(); df.lr_sgr_set = f.lr_sgr_set.clone(); df.lr_sgr_xqd = f.lr_sgr_xqd.clone(); }
                    let g = cdef_grid(&d, lay.sb4);
                    cur = Some((n, df, de, lay, g, 0));
                }
            }
            Unit::Group { frame, a, b, explicit, state } => {
                check_eq!(o.header.kind, 4, "OBU type of temporal unit {}", k);
                let tiles;
                {
                    let c = cur.as_mut().unwrap();
                    check_eq!(c.0, frame, "frame of temporal unit {}", k);
                    tiles = (c.3.row_starts.len() - 1) * (c.3.col_starts.len() - 1);
                    let name = format!("temporal unit {} (tile group of a {}x{} frame of {} tiles)", k, c.1.frame_width, c.1.frame_height, tiles);
                    let mut lr = coded[frame].left.as_mut().unwrap();
                    let g = read_group(&name, &bits, &c.3, &c.1, &c.2, &mut lr.1, &mut c.4, info)?;
                    check_eq!((g.present, g.a, g.b), (explicit, a, b), "{}: start and end given, first and last tile", name);
                    check_eq!(g.a, c.5, "{}: first tile", name);
                    if let Some(last) = g.last { check_eq!(state, last, "{}: quantizer index and loop filter deltas after the group", name); }
                    c.5 = g.b + 1;
                    blocks += g.blocks;
                    groups += 1;
                    if c.5 == tiles {
                        let f = &coded[frame].left.as_ref().unwrap().0;
                        check!(c.4 == f.cdef_idx, "{}: CDEF indices are not a decoder's", name);
                    }
                }
                if cur.as_ref().unwrap().5 == tiles { check!(coded[frame].closed, "a decoder has all tiles of the frame before temporal unit {}", k); cur = None; }
            }
        }
    }
    for u in &units { if let Unit::Other(ref w) = *u { if info.want_desc && said.len() < 30 { said.push(show_want(w)); } } }
    info.evals += groups;
    info.nontrivial(blocks > 0 && groups > 0);
    if info.want_desc { info.desc = trunc(&format!("{} ({} bytes)", said.join(", "), b.len()), 900); }
    Ok(())
}

/// Makes the tiles and render size of a request fit its frame size again.
fn fit(q: &mut Want, x: &av1::Seq, s: &mut Src) {
    let denom = if x.superres { q.superres.unwrap_or(8) } else { 8 };
    let l = av1fh::tile_limits((q.w * 8 + denom / 2) / denom, q.h, x.sb128);
    q.cols_log2 = s.range(l.min_cols as i64, l.max_cols as i64) as u64;
    let lo = l.min_tiles.saturating_sub(q.cols_log2);
    q.rows_log2 = if lo >= l.max_rows { lo } else { s.range(lo as i64, l.max_rows as i64) as u64 };
    q.ctx_tile = if q.cols_log2 + q.rows_log2 == 0 { s.biased(63) } else { s.biased((1u64 << (q.cols_log2 + q.rows_log2)) - 1) };
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31", level: "exploration",
        rule: "A case is a session written to a file: sequence header, then frames (header, tile groups), with other units in between, the sequence header changed and frames given up now and then; a reader splits the file and reads every tile group with what it has read before. Non-trivial: at least one tile group with a block.",
        assumptions: vec!["the caller allocates superblocks, unit grids and CDEF indices of the size the frame header gives, and mode info of every position where the frame has segments", "the trees a tile is coded with are new ones (segment 0, quantizer index 0, no deltas, intra coded); uniform tiles", "the size of a tile fits the announced number of bytes"],
        subs: vec![Sub::random("sessions", 8_000, 200_000, session), Sub::random("long sessions", 12, 400, session_long)],
    }]
}
