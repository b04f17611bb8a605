//! C22: block and transform geometry. C28: frames and the small calculations on them.
use harness::engine::*;
use crate::geo::*;
use av1enc::verif::block::*;
use av1enc::verif::common::*;
use av1enc::verif::constants::*;
use av1enc::verif::constants::BlockSize::*;
use av1enc::verif::constants::RefFrame::*;
use av1enc::verif::constants::TxSize::*;
use av1enc::verif::frame::*;

macro_rules! eq { ($a:expr, $b:expr, $($t:tt)*) => {{ let (a, b) = ($a, $b); if a != b { return Err(format!("{}: {:?} instead of {:?}", format!($($t)*), a, b)); } }} }
fn bi(b: BlockSize) -> usize { BS.iter().position(|x| x.0 == b).unwrap_or(22) }
fn ti(t: TxSize) -> usize { TS.iter().position(|x| x.0 == t).unwrap_or(19) }
fn bn(i: usize) -> String { if i < 22 { bname(i) } else { "invalid".into() } }
fn tn(i: usize) -> String { if i < 19 { tname(i) } else { "invalid".into() } }

/// everything known of one block size
fn block(k: u64, i: &mut Info) -> Res {
    let b = k as usize;
    let (id, w, h) = BS[b];
    i.nontrivial(true);
    i.desc(|| format!("block {}", bname(b)));
    eq!(id as usize, b, "number of block size {}", bname(b));
    eq!(block_width[b], w, "width of {}", bname(b));
    eq!(block_height[b], h, "height of {}", bname(b));
    eq!(num_4x4_blocks_wide[b], w / 4, "4x4 columns of {}", bname(b));
    eq!(num_4x4_blocks_high[b], h / 4, "4x4 rows of {}", bname(b));
    eq!(mi_width_log2[b], lg(w / 4), "log2 of the 4x4 columns of {}", bname(b));
    eq!(mi_height_log2[b], lg(h / 4), "log2 of the 4x4 rows of {}", bname(b));
    eq!(size_group[b], group(b), "size group of {}", bname(b));
    for (ssx, ssy) in [(false, false), (true, false), (true, true)] {
        for plane in 0..3 {
            i.evals += 1;
            let g = bi(get_plane_residual_size(id, plane, ssx, ssy));
            let e = residual(b, plane, ssx, ssy).unwrap_or(22);
            eq!(bn(g), bn(e), "plane {} of {} subsampled {},{}", plane, bname(b), ssx, ssy);
        }
    }
    // partitions exist for squares only
    for p in 0..10usize {
        i.evals += 1;
        let want = if w != h { 22 } else {
            let half = w / 2;
            let ok = |x: Option<usize>| x.unwrap_or(22);
            match p {
                0 => b,
                _ if w == 4 => 22,
                1 | 4 | 5 => ok(bs_of(w, half)),
                2 | 6 | 7 => ok(bs_of(half, h)),
                3 => ok(bs_of(half, half)),
                8 => if w == 128 || w == 8 { 22 } else { ok(bs_of(w, w / 4)) },
                _ => if w == 128 || w == 8 { 22 } else { ok(bs_of(w / 4, h)) },
            }
        };
        eq!(bn(bi(partition_subsize[PARTS[p] as usize][b])), bn(want), "partition {} of {}", p, bname(b));
    }
    Ok(())
}

/// everything known of one transform size
fn tx(k: u64, i: &mut Info) -> Res {
    let t = k as usize;
    let (id, w, h) = TS[t];
    i.nontrivial(true);
    i.desc(|| format!("transform {}", tname(t)));
    eq!(id as usize, t, "number of transform size {}", tname(t));
    eq!((tx_width[t], tx_height[t]), (w, h), "sides of {}", tname(t));
    eq!((tx_width_log2[t], tx_height_log2[t]), (lg(w), lg(h)), "log2 of the sides of {}", tname(t));
    eq!(tn(ti(tx_size_sqr[t])), tn(tx_sqr(t)), "square inside {}", tname(t));
    eq!(tn(ti(tx_size_sqr_up[t])), tn(tx_sqr_up(t)), "square around {}", tname(t));
    eq!(tn(ti(adjusted_tx_size[t])), tn(tx_adjusted(t)), "stored size of {}", tname(t));
    eq!(tn(ti(find_tx_size(w, h))), tname(t), "transform of {} by {}", w, h);
    for r in 0..5 { for c in 0..5 {
        if r < h && c < w { eq!(coeff_base_ctx_offset[t][r][c], base_offset(t, r, c), "context offset at {},{} of {}", r, c, tname(t)); }
    } }
    for inter in [false, true] { for reduced in [false, true] {
        let set = tx_set(t, inter, reduced);
        let g = get_tx_set(id, inter, reduced);
        eq!(g, set_number(set), "transform set of {} inter {} reduced {}", tname(t), inter, reduced);
        for (n, ty) in TT.iter().enumerate() {
            i.evals += 1;
            eq!(is_tx_type_in_set(g, *ty, inter), members(set).contains(ty), "type {} in the set of {} inter {} reduced {}", n, tname(t), inter, reduced);
        }
    } }
    Ok(())
}

/// the transform of a shape, including shapes without one
fn shape(k: u64, i: &mut Info) -> Res {
    let (w, h) = ((k / 132) as usize, (k % 132) as usize);
    let e = tx_of(w, h);
    i.nontrivial(e.is_some());
    i.desc(|| format!("transform of {} by {}", w, h));
    eq!(tn(ti(find_tx_size(w, h))), tn(e.unwrap_or(19)), "transform of {} by {}", w, h);
    Ok(())
}

fn types(k: u64, i: &mut Info) -> Res {
    let k = k as usize;
    i.nontrivial(true);
    if k < 16 {
        i.desc(|| format!("class of transform type {}", k));
        eq!(TT[k] as usize, k, "number of transform type {}", k);
        let c = match tx_class(TT[k]) { 0 => TX_CLASS_2D, 1 => TX_CLASS_HORIZ, _ => TX_CLASS_VERT };
        eq!(get_tx_class(TT[k]), c, "class of transform type {}", k);
    } else {
        let m = k - 16;
        i.desc(|| format!("transform type of chroma mode {}", m));
        eq!(mode_to_txfm[YM[m] as usize] as usize, mode_tx(m) as usize, "transform type of chroma mode {}", m);
        if m < 5 { eq!(filter_intra_mode_to_intra_dir[m] as usize, [0, 1, 2, 6, 0][m], "direction of filter intra mode {}", m); }
    }
    Ok(())
}

/// the transform type a decoder derives for a block
fn derived(s: &mut Src, i: &mut Info) -> Res { let size = (s.us(1, 140), s.us(1, 140)); derived_in(s, i, size) }
fn derived_far(s: &mut Src, i: &mut Info) -> Res { let size = far(s, 65536); derived_in(s, i, size) }

fn derived_in(s: &mut Src, i: &mut Info, (w, h): (usize, usize)) -> Res {
    let mut f = new_frame(w, h);
    f.subsampling_x = s.bool();
    f.subsampling_y = f.subsampling_x && s.bool();
    let (ssx, ssy) = (f.subsampling_x, f.subsampling_y);
    let (rows, cols) = (f.mis.len(), f.mis[0].len());
    let few: Vec<ModeInfo> = (0..5).map(|_| gen_mi(s)).collect();
    for r in 0..rows { for c in 0..cols { f.mis[r][c] = Some(few[(r * 3 + c * 7 + r * c) % 5]); } }
    let at: Vec<Vec<TxType>> = f.mis.iter().map(|r| r.iter().map(|m| m.unwrap().tx_type).collect()).collect();
    let mut label = vec![];
    for _ in 0..s.us(1, 6) {
        let plane = s.us(0, 2);
        let t = s.below(19) as usize;
        let (row, col) = (s.us(0, rows - 1), s.us(0, cols - 1));
        // the transform block lies in the block at row, col, counted in the plane's own 4x4 units
        let (sx, sy) = if plane > 0 { (ssx as usize, ssy as usize) } else { (0, 0) };
        let (bx, by) = (s.us(col >> sx, ((col + 16).min(cols - 1)) >> sx), s.us(row >> sy, ((row + 16).min(rows - 1)) >> sy));
        let (lossless, inter, reduced) = (s.one_in(8), s.bool(), s.bool());
        let uv = s.below(14) as usize;
        let g = compute_tx_type(plane, TS[t].0, bx, by, &mut f, lossless, inter, reduced, YM[uv], row, col);
        let e = derive_tx_type(plane, t, bx, by, ssx, ssy, lossless, inter, reduced, uv, row, col, &|r, c| at[r][c]);
        eq!(g as usize, e as usize, "type of the {} at {},{} in plane {} of the block at {},{}: lossless {} inter {} reduced {} chroma mode {} subsampled {},{}",
            tname(t), by, bx, plane, row, col, lossless, inter, reduced, uv, ssx, ssy);
        i.evals += 1;
        label.push(e as usize);
    }
    i.nontrivial(label.iter().any(|x| *x > 0));
    i.desc(|| format!("{}x{}: types {:?}", w, h, label));
    Ok(())
}

// ---- C28

fn layout(k: u64, i: &mut Info) -> Res {
    let (w, h) = (1 + (k / 70) as usize, 1 + (k % 70) as usize);
    one_frame(w, h, i)
}
fn layout_wide(s: &mut Src, i: &mut Info) -> Res {
    let long = s.biased(1 << 16).max(1) as usize;
    let short = s.us(1, 300);
    if s.bool() { one_frame(long, short, i) } else { one_frame(short, long, i) }
}
/// frames of more than 2^24 samples
fn layout_big(s: &mut Src, i: &mut Info) -> Res {
    let w = s.us(4096, 8192);
    one_frame(w, s.us((1 << 24) / w + 1, 8192), i)
}
fn one_frame(w: usize, h: usize, i: &mut Info) -> Res {
    i.nontrivial(w % 8 != 0 || h % 8 != 0);
    i.desc(|| format!("{}x{} frame", w, h));
    let f = new_frame(w, h);
    eq!((f.frame_width, f.frame_height), (w, h), "size of a {}x{} frame", w, h);
    eq!((f.render_width, f.render_height), (w, h), "render size of a {}x{} frame", w, h);
    eq!(f.original_y.len(), w * h, "luma samples of {}x{}", w, h);
    let c = ((w + 1) / 2) * ((h + 1) / 2);
    eq!(f.original_u.len(), c, "U samples of {}x{}", w, h);
    eq!(f.original_v.len(), c, "V samples of {}x{}", w, h);
    let (rows, cols) = (2 * ((h + 7) / 8), 2 * ((w + 7) / 8));
    eq!((f.mi_rows(), f.mi_cols()), (rows, cols), "4x4 rows and columns of {}x{}", w, h);
    eq!(f.mis.len(), rows, "rows of mode info of {}x{}", w, h);
    if f.mis.iter().any(|r| r.len() != cols) { return Err(format!("{}x{}: a row of mode info is not {} wide", w, h, cols)); }
    if f.mis.iter().any(|r| r.iter().any(|m| m.is_some())) { return Err(format!("{}x{}: a new frame already has mode info", w, h)); }
    Ok(())
}

/// lookups next to a position find exactly the stored info and change nothing
fn lookups(s: &mut Src, i: &mut Info) -> Res { let size = (s.us(1, 60), s.us(1, 60)); lookups_in(s, i, size) }
fn lookups_far(s: &mut Src, i: &mut Info) -> Res { let size = far(s, 65536); lookups_in(s, i, size) }

fn lookups_in(s: &mut Src, i: &mut Info, (w, h): (usize, usize)) -> Res {
    let mut f = new_frame(w, h);
    let (rows, cols) = (f.mis.len(), f.mis[0].len());
    let mut want = vec![vec![None; cols]; rows];
    let mut g = Rng::new(s.u64());
    for r in 0..rows { for c in 0..cols { if g.next() % 4 != 0 { let mut m = fresh_mi(); m.level_context[0] = r * 20_000 + c + 1; f.mis[r][c] = Some(m); want[r][c] = Some(r * 20_000 + c + 1); } } }
    let id = |m: Option<ModeInfo>| m.map(|m| m.level_context[0]);
    let mut edge = false;
    for _ in 0..s.us(1, 12) {
        let (r, c) = (s.us(0, rows - 1), s.us(0, cols - 1));
        edge |= r == 0 || c == 0;
        eq!(id(f.get_mi(r, c)), want[r][c], "mode info at {},{}", r, c);
        eq!(id(f.get_above_mi(r, c)), if r == 0 { None } else { want[r - 1][c] }, "mode info above {},{}", r, c);
        eq!(id(f.get_left_mi(r, c)), if c == 0 { None } else { want[r][c - 1] }, "mode info left of {},{}", r, c);
    }
    for r in 0..rows { for c in 0..cols { eq!(id(f.mis[r][c]), want[r][c], "mode info at {},{} afterwards", r, c); } }
    i.nontrivial(edge);
    i.desc(|| format!("{}x{} 4x4 units", cols, rows));
    Ok(())
}

fn tiles(k: u64, i: &mut Info) -> Res {
    let (c, r) = (1 + (k / 64) as usize, 1 + (k % 64) as usize);
    let mut f = new_frame(8, 8);
    f.tile_col_starts = (0..c).collect();
    f.tile_row_starts = (0..r).collect();
    let up = |n: usize| { let mut l = 0; while 1usize << l < n { l += 1; } l };
    eq!((f.tile_cols(), f.tile_rows()), (c, r), "tile columns and rows");
    eq!(f.num_tiles(), c * r, "number of tiles of {} columns and {} rows", c, r);
    eq!((f.tile_cols_log2(), f.tile_rows_log2()), (up(c), up(r)), "log2 of {} tile columns and {} rows", c, r);
    i.nontrivial(c & (c - 1) != 0 || r & (r - 1) != 0);
    i.desc(|| format!("{} by {} tiles", c, r));
    Ok(())
}

/// signed distance of two order hints
fn dist(k: u64, i: &mut Info) -> Res {
    let (a, b) = ((k / 256) as usize, (k % 256) as usize);
    i.desc(|| format!("distance of {} and {}", a, b));
    i.nontrivial(a != b);
    eq!(get_relative_dist(a, b, false, 8), 0, "distance of {} and {} without order hints", a, b);
    for bits in 1..=8usize {
        if a >> bits > 0 || b >> bits > 0 { continue; }
        let n = 1isize << bits;
        // the representative of a - b in -n/2 .. n/2
        let mut d = (a as isize - b as isize).rem_euclid(n);
        if d >= n / 2 { d -= n; }
        i.evals += 1;
        eq!(get_relative_dist(a, b, true, bits), d, "distance of {} and {} in {} bits", a, b, bits);
    }
    Ok(())
}

fn refs(k: u64, i: &mut Info) -> Res {
    let (a, b) = ((k / 9) as usize, (k % 9) as usize);
    i.nontrivial(true);
    i.desc(|| format!("reference frames {} and {}", RF[a] as isize, RF[b] as isize));
    let (x, y) = (RF[a] as isize, RF[b] as isize);
    eq!(x, a as isize - 1, "number of reference frame {}", a);
    eq!(check_backward(RF[a]), x >= 5, "backward {}", x);
    eq!(is_samedir_ref_pair(RF[a], RF[b]), x > 0 && y > 0 && (x >= 5) == (y >= 5), "same direction {} and {}", x, y);
    eq!(ref_count_ctx(a, b), if a < b { 0 } else if a == b { 1 } else { 2 }, "context of counts {} and {}", a, b);
    Ok(())
}

fn counts(s: &mut Src, i: &mut Info) -> Res {
    let mut f = new_frame(s.us(1, 30), s.us(1, 30));
    let (rows, cols) = (f.mis.len(), f.mis[0].len());
    for r in 0..rows { for c in 0..cols { if !s.one_in(5) { f.mis[r][c] = Some(gen_mi(s)); } } }
    let mut seen = 0;
    for _ in 0..s.us(1, 8) {
        let (r, c) = (s.us(0, rows - 1), s.us(0, cols - 1));
        let rf = RF[s.us(0, 8)];
        let mut n = 0;
        if r > 0 { if let Some(m) = f.mis[r - 1][c] { n += m.ref_frame.iter().filter(|x| **x == rf).count(); } }
        if c > 0 { if let Some(m) = f.mis[r][c - 1] { n += m.ref_frame.iter().filter(|x| **x == rf).count(); } }
        seen += n;
        eq!(count_refs(rf, &mut f, r, c), n, "uses of reference {} next to {},{}", rf as isize, r, c);
    }
    let (a, b) = (MotionVector::new(gen_mv(s), gen_mv(s)), MotionVector::new(gen_mv(s), gen_mv(s)));
    let (p, q) = (a + b, a - b);
    eq!((p.x, p.y, q.x, q.y), (a.x + b.x, a.y + b.y, a.x - b.x, a.y - b.y), "sum and difference of ({},{}) and ({},{})", a.x, a.y, b.x, b.y);
    i.nontrivial(seen > 0);
    i.desc(|| format!("{} uses, vectors ({},{}) ({},{})", seen, a.x, a.y, b.x, b.y));
    Ok(())
}

fn gen_tree(s: &mut Src, depth: usize) -> PartitionTree {
    let mut t = PartitionTree::new(BS[s.below(22) as usize].0);
    t.part_type = PARTS[s.below(10) as usize];
    t.segment_id = s.us(0, 7);
    t.skip = s.bool();
    t.cdef_idx = s.range(-1, 7) as isize;
    t.q_index = s.us(0, 255);
    for k in 0..4 { t.delta_lf[k] = s.range(-63, 63) as isize; }
    t.is_inter = s.bool();
    t.ref_frame = [RF[s.us(0, 8)], RF[s.us(0, 8)]];
    if s.bool() { t.comp_mode = CompMode::COMPOUND_REFERENCE; }
    if s.bool() { t.comp_ref_type = CompRefType::BIDIR_COMP_REFERENCE; }
    t.compound_mode = YM[s.us(0, 25)];
    t.new_mv = s.bool(); t.zero_mv = s.bool(); t.ref_mv = s.bool();
    for k in 0..8 { t.drl_mode[k] = s.us(0, 1); }
    t.use_intrabc = s.bool();
    for k in 0..2 { t.mvs[k] = MotionVector::new(gen_mv(s), gen_mv(s)); }
    if depth > 0 { for _ in 0..s.us(0, 4) { let c = gen_tree(s, depth - 1); t.partitions.push(c); } }
    t
}
fn show_tree(t: &PartitionTree) -> String {
    format!("[{} {} {} {} {} {} {:?} {} {},{} {} {} {} {}{}{} {:?} {} ({},{}) ({},{}) {}]", t.part_type as usize, bname(bi(t.bsize)), t.segment_id, t.skip, t.cdef_idx,
        t.q_index, t.delta_lf, t.is_inter, t.ref_frame[0] as isize, t.ref_frame[1] as isize, t.comp_mode as usize, t.comp_ref_type as usize,
        t.compound_mode as usize, t.new_mv as u8, t.zero_mv as u8, t.ref_mv as u8, t.drl_mode, t.use_intrabc, t.mvs[0].x, t.mvs[0].y, t.mvs[1].x, t.mvs[1].y,
        t.partitions.iter().map(show_tree).collect::<String>())
}
/// a copied partition tree equals the original and is independent of it
fn trees(s: &mut Src, i: &mut Info) -> Res {
    let d = s.us(0, 3);
    let mut t = gen_tree(s, d);
    let before = show_tree(&t);
    let copy = t.clone();
    eq!(show_tree(&copy), before.clone(), "copy of a partition tree");
    t.segment_id ^= 1; t.mvs[0].x += 1; t.drl_mode[7] ^= 1;
    if let Some(p) = t.partitions.last_mut() { p.skip = !p.skip; p.partitions.clear(); }
    t.partitions.pop();
    eq!(show_tree(&copy), before, "copy of a partition tree after a change to the original");
    i.nontrivial(copy.partitions.iter().any(|p| !p.partitions.is_empty()));
    i.desc(|| trunc(&show_tree(&copy), 200));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C22", level: "exploration",
            rule: "every block size, transform size and type counts once; of the shapes those that are transforms; of the derived types those other than DCT_DCT",
            assumptions: vec!["4:4:0 subsampling, which AV1 does not have, is left out"],
            subs: vec![
                Sub::exhaustive("every block size", 22, 22, block),
                Sub::exhaustive("every transform size", 19, 19, tx),
                Sub::exhaustive("every shape up to 131x131", 132 * 132, 132 * 132, shape),
                Sub::exhaustive("every transform type and chroma mode", 30, 30, types),
                Sub::random("derived transform types", 200_000, 1_000_000, derived),
                Sub::random("derived transform types in wide and high frames", 600, 10_000, derived_far),
            ] },
        Prop { id: "C28", level: "exploration",
            rule: "frames whose sides are not multiples of 8, lookups at an edge, tile counts that are no powers of two, different hints, trees with grandchildren",
            assumptions: vec!["frame sides up to 8192"],
            subs: vec![
                Sub::exhaustive("every frame up to 70x70", 4900, 4900, layout),
                Sub::random("long frames", 120, 2_000, layout_wide),
                Sub::random("big frames", 5, 100, layout_big).serial(),
                Sub::random("lookups", 20_000, 100_000, lookups),
                Sub::random("lookups in wide and high frames", 300, 6_000, lookups_far),
                Sub::exhaustive("every number of tiles up to 64x64", 4096, 4096, tiles),
                Sub::exhaustive("every pair of order hints", 65536, 65536, dist),
                Sub::exhaustive("every pair of reference frames", 81, 81, refs),
                Sub::random("counted references and vectors", 40_000, 200_000, counts),
                Sub::random("copied partition trees", 20_000, 100_000, trees),
            ] },
    ]
}
