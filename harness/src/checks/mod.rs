use crate::drive::{self, Opts, Style};
use crate::engine::{Ctx, Res};
use crate::genr::hex;
use crate::CheckInfo;

mod api;
mod dec_hist;
mod dec_io;
mod dec_meta;
mod dec_px;
mod enc;
mod live;
mod quant;

pub fn all() -> Vec<CheckInfo> {
    let mut v = vec![];
    v.extend(api::checks());
    v.extend(dec_meta::checks());
    v.extend(dec_px::checks());
    v.extend(dec_hist::checks());
    v.extend(dec_io::checks());
    v.extend(enc::checks());
    v.extend(live::checks());
    v.extend(quant::checks());
    v.sort_by_key(|c| c.id);
    v
}

/// Decodes with the real decoder, compares with the reference model.
pub fn cmp(c: &Ctx, bytes: &[u8], o: &Opts, style: &Style) -> Res {
    c.note("file", || hex(bytes));
    c.note("options", || format!("{o:?} {style:?}"));
    let obs = drive::decode(bytes, o, style)?;
    c.obs(&obs);
    c.steps(obs.frames.len() as u64 + 1);
    let e = drive::expect(bytes, o);
    drive::check(&obs, &e, bytes)?;
    c.validated(1);
    c.outcome(if obs.end == drive::End::Done { "complete" } else { "error" });
    Ok(())
}

pub fn err<T: std::fmt::Debug>(what: &str, e: T) -> String { format!("{what}: {e:?}") }

/// Sets of other options (for `Opts::with`): 16 combinations of RGBA, consistency, unknown blocks and end code check x 4 memory limits.
pub const SETS: usize = 64;
/// With the end code check on, only files whose images all have end codes decode as without it.
pub fn applies(bytes: &[u8], o: &Opts) -> bool {
    !o.endcode || o.skip || crate::model::parse(bytes, &o.ropts()).frames.iter().all(|f| f.has_end_code())
}

/// A file with two images of the pool; `k`: with a global palette of 4, of 256 colours or none.
pub fn pool_file(a: usize, b: usize, k: usize) -> Vec<u8> {
    use crate::genr::*;
    let p = pool();
    let f = match k { 0 => File::new(300, 257, Some(&pal(4, 1))), 1 => File::new(9, 9, Some(&pal(256, 5))).netscape(3), _ => File::new(9, 9, None) };
    with_pics(f, &[&p[a], &p[b]]).end()
}
/// ... with the images and the palette chosen
pub fn pick_pool(c: &Ctx) -> Vec<u8> {
    let n = crate::genr::pool().len();
    pool_file(c.choose(n), c.choose(n), c.choose(3))
}
/// Each of 192 beginnings of a file with its extensions, one or two images, one of 11 things behind the trailer.
pub fn head_n(i: usize, t: usize, two: bool) -> Vec<u8> {
    use crate::genr::*;
    let a = small_pic(i * 7 + t);
    if two { head_file(i, &[a, small_pic(i * 5 + t * 3 + 1)], t) } else { head_file(i, &[a], t) }
}
pub fn pick_head(c: &Ctx) -> (usize, Vec<u8>) {
    let i = c.choose(crate::genr::heads().len());
    let t = c.choose(crate::genr::tails().len());
    (i + t, head_n(i, t, c.flag()))
}

/// What tells the second of two nearly equal images from the first: one pixel, two pixels exchanged,
/// one byte of the palette, one field.
pub struct Twin { pub px: [Vec<u8>; 2], pub pal: [Vec<u8>; 2], pub tr: [Option<u8>; 2], pub il: [bool; 2] }
pub const TWIN_W: usize = 20;
pub fn pick_twin(c: &Ctx) -> Twin {
    use crate::genr::*;
    let n = TWIN_W * TWIN_W;
    let px = pattern(n, 8, 3);
    let p = pal(256, 9);
    let mut t = Twin { px: [px.clone(), px], pal: [p.clone(), p], tr: [Some(7), Some(7)], il: [false; 2] };
    match c.choose(5) {
        0 => { let i = c.choose(n); t.px[1][i] ^= 1 }
        1 => { let i = c.choose(n - 1); t.px[1].swap(i, i + 1) }
        2 => { let i = c.choose(768); t.pal[1][i] ^= 1 }
        3 => { let i = c.choose(255); for k in 0..3 { t.pal[1].swap(i * 3 + k, i * 3 + 3 + k) } }
        _ => match c.choose(4) { 0 => t.tr[1] = Some(8), 1 => t.tr[1] = None, 2 => t.il[1] = true, _ => { t.px[1] = vec![1; n] } },
    }
    if c.flag() { t.px.swap(0, 1); t.pal.swap(0, 1); t.tr.swap(0, 1); t.il.swap(0, 1); }
    t
}
/// A file of first, second, first.
pub fn twin_file(t: &Twin) -> Vec<u8> {
    use crate::genr::*;
    let mut f = File::new(20, 20, None);
    for i in [0, 1, 0] {
        f = f.gce(t.tr[i].map_or(0, |_| 1), 4, t.tr[i].unwrap_or(0));
        let mut x = Img::px(TWIN_W as u16, TWIN_W as u16, 8, &t.px[i]).pal(t.pal[i].clone());
        if t.il[i] { x = x.il(); }
        f = f.img(&x);
    }
    f.end()
}
pub fn twin_frame(t: &Twin, i: usize) -> gif::Frame<'static> {
    gif::Frame { width: TWIN_W as u16, height: TWIN_W as u16, buffer: std::borrow::Cow::Owned(t.px[i].clone()), palette: Some(t.pal[i].clone()), transparent: t.tr[i], interlaced: t.il[i], ..gif::Frame::default() }
}

/// A file in which one of 19 things occurs about 2^8 to 2^16 times; thorough also 2^17 and 2^18.
pub fn pick_count(c: &Ctx) -> (usize, Vec<u8>) {
    use crate::genr::*;
    let k = c.choose(COUNTS.len());
    let i = c.choose(COUNT_NS);
    c.note("counted", || format!("{} {}", count_of(i), COUNTS[k]));
    (k + i, count_file(k, count_of(i)))
}
pub const COUNTED: &str = "19 things (images of 4 sorts, extensions of 3 sorts, unknown blocks, sub-blocks of 7 sorts, clear codes, codes without a clear code, comments between images, bytes behind the trailer) occurring 2^k - 1, 2^k and 2^k + 1 times for k = 8 to 16, then two more images";
/// 67 MB for the largest counted file
pub fn roomy_rgba() -> Opts { Opts { limit: drive::Limit::Bytes(1 << 28), ..drive::PLAIN.unknown().rgba() } }

/// What precedes and surrounds an image, in full combination: (a number to take turns by, the file, whether it is sound: inside of the screen, with a palette and pixels).
pub fn pick_combo(c: &Ctx) -> (usize, Vec<u8>, bool) {
    use crate::genr::*;
    use crate::lzw::{self, STD};
    let ctl = c.choose(97);
    let il = c.flag();
    let lp = c.choose(3);
    let geo = c.choose(6);
    let gp = c.flag();
    let code = c.choose(3);
    let comment = c.flag();
    let before = c.flag();
    let g = pal(16, 3);
    let mut f = File::full(if comment { b"GIF89a" } else { b"GIF87a" }, 6, 6, if gp { Some(&g) } else { None }, 1, 0, 0);
    if before { f = f.gce(0x0D, 300, 2).img(&Img::pat(2, 3, 2, 1).at(1, 0).pal(pal(4, 77))); }
    if ctl > 0 {
        let k = ctl - 1;
        let t = [None, Some(1), Some(255)][k / 16 % 3];
        f = f.gce(((k % 8) << 2 | (k / 8 % 2) << 1) as u8 | t.map_or(0, |_| 1), [0, 258][k / 48], t.unwrap_or(9));
    }
    if comment { f = f.ext(0xFE, &[b"between"]); }
    let (l, t, w, h) = [(1u16, 1u16, 5u16, 5u16), (3, 0, 4, 5), (0, 2, 2, 5), (65535, 65535, 1, 1), (0, 0, 6, 6), (2, 2, 0, 3)][geo];
    let px = pattern(w as usize * h as usize, 3, 9);
    let mut i = Img::raw(w, h, 3, lzw::encode(3, &px, lzw::Strat { end: code != 1, ..STD }));
    if code == 2 { i.flag_bits = 0x38; i.split = Split::Each(1); }
    i.left = l;
    i.top = t;
    i.interlaced = il;
    match lp { 1 => i.lpal = Some(pal(2, 21)), 2 => i.lpal = Some(pal(256, 33)), _ => {} }
    let mut b = f.img(&i).img(&Img::pat(3, 2, 2, 4).pal(pal(4, 90))).end();
    b.push(0x2C);
    (ctl + geo + code, b, (gp || lp > 0) && geo != 3 && geo != 1 && geo != 2)
}
pub const COMBOS: &str = "every combination of a control extension (none, or dispose value 0 to 7, user flag, transparency of none, 1, 255, delay of none, 258), interlacing, local palette of none, 2, 256 colours, 6 positions and sizes in and outside of the screen, global palette, end code, no end code or sub-blocks of 1 byte with reserved bits, a comment between with version 89a, an image before";

/// A frame whose buffer and palette are held in another way: 0 as by `clone`, 1 and 2 with spare capacity, 3 borrowed, 4 borrowed from the middle of something.
pub fn held<'a>(f: &gif::Frame<'static>, how: usize, room: &'a mut Vec<u8>) -> gif::Frame<'a> {
    use std::borrow::Cow;
    let spare = |b: &[u8], n: usize| { let mut v = Vec::with_capacity(b.len() + n); v.extend_from_slice(b); v };
    let mut g: gif::Frame<'a> = f.clone();
    match how {
        0 => return g,
        1 | 2 => {
            let n = if how == 1 { 1 } else { f.buffer.len() * 5 + 3000 };
            g.buffer = Cow::Owned(spare(&f.buffer, n));
            g.palette = f.palette.as_ref().map(|p| spare(p, n));
            return g;
        }
        3 => { room.clear(); room.extend_from_slice(&f.buffer); }
        _ => { room.clear(); room.extend([0xEE; 7]); room.extend_from_slice(&f.buffer); room.extend([0xEE; 5]); }
    }
    let at = if how == 3 { 0 } else { 7 };
    let room: &'a [u8] = room;
    g.buffer = Cow::Borrowed(&room[at..at + f.buffer.len()]);
    g
}
pub const HELD: &str = "the buffer exact, with spare capacity (2 amounts), borrowed, borrowed from the middle of another";

pub const EARLIER: &str = "every one of 144 images read into a buffer that holds one of 256 values everywhere, a ramp, the image itself, its complement, or the image of the same frame decoded the other way round; read_into_buffer, fill_buffer in pieces, frame decoder; indexed and RGBA";
/// What the caller's buffer held before makes no difference (with a global palette of 256 colours).
pub fn earlier_contents(c: &Ctx) -> Res {
    use crate::drive::*;
    use crate::genr::*;
    use crate::model;
    let (ctl, i) = c.pick(pool());
    let old = c.choose(260);
    let rgba = c.flag();
    let how = c.choose(3);
    let g = pal(256, 5);
    let mut f = File::new(9, 9, Some(&g));
    if let Some((p, d, t)) = ctl { f = f.gce(*p, *d, *t); }
    let b = f.img(i).end();
    let o = Opts { rgba, limit: Limit::Unlimited, ..PLAIN };
    let rf = model::parse(&b, &o.ropts()).frames.remove(0);
    let (Some(shown), Some(stored)) = (rf.pixels(), rf.stored()) else { return Ok(()) };
    let px = if how == 1 { &stored } else { &shown };
    let p = rf.meta.palette.as_deref().unwrap_or(&g);
    let value = |px: &[u8]| if rgba { model::rgba(px, p, rf.meta.transparent) } else { px.to_vec() };
    let want = value(px);
    let n = want.len();
    let mut buf: Vec<u8> = match old {
        v @ 0..=255 => vec![v as u8; n],
        256 => (0..n).map(|k| (k % 251) as u8).collect(),
        257 => want.clone(),
        258 => want.iter().map(|x| !x).collect(),
        _ => value(if how == 1 { &shown } else { &stored }),
    };
    // pixels whose index has no colour are left as they are
    let mut full = want;
    if rgba { for (k, &x) in px.iter().enumerate() { if usize::from(x) * 3 + 3 > p.len() { full[k * 4..k * 4 + 4].copy_from_slice(&buf[k * 4..k * 4 + 4]); } } }
    c.note("case", || format!("old contents {old}, rgba {rgba}, way {how}"));
    if how == 2 {
        let mut fd = gif::streaming_decoder::FrameDecoder::new(o.build());
        fd.set_global_palette(g.clone());
        let raw: Vec<u8> = std::iter::once(rf.mcs).chain(rf.data.iter().copied()).collect();
        let fr = gif::Frame { width: i.w, height: i.h, interlaced: i.interlaced, transparent: rf.meta.transparent, palette: rf.meta.palette.clone(), buffer: raw.into(), ..gif::Frame::default() };
        fd.decode_lzw_encoded_frame_into_buffer(&fr, &mut buf).map_err(|e| err("frame decoder", e))?;
    } else {
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        d.next_frame_info().map_err(|e| err("info", e))?.ok_or("no frame")?;
        if how == 0 { d.read_into_buffer(&mut buf).map_err(|e| err("read_into_buffer", e))?; }
        else { for x in buf.chunks_mut(12) { if !d.fill_buffer(x).map_err(|e| err("fill_buffer", e))? { return Err("fill_buffer returned false".into()); } } }
    }
    if buf != full { return Err(diff(&format!("old contents {old}"), &buf, &full)); }
    c.obs(&(old, rgba, how));
    c.validated(1);
    Ok(())
}

/// Compressed data (code size 2) of `n` pixels 0, except for pixels 1, 2, 3 in turns at `marks`.
fn huge_data(n: u64, marks: &[u64]) -> Vec<u8> {
    let mut p = crate::lzw::Packer::new(2);
    let mut at = 0;
    for (k, &m) in marks.iter().chain([&n]).enumerate() {
        let mut left = m - at;
        if left > 0 {
            p.push(4);
            let mut len = 1;
            loop {
                // the code for `len` zeros, the longest there is
                let l = left.min(len);
                p.push(if l == 1 { 0 } else { l as u16 + 4 });
                left -= l;
                if left == 0 { break; }
                len = (len + 1).min(4091);
            }
        }
        if m < n { p.push(4); p.push((k % 3 + 1) as u16); at = m + 1; }
    }
    p.push(4);
    p.push(5);
    p.finish()
}
pub const HUGE: &str = "images of more than 2^32 bytes of output (65535x65535 indexed, 65535x16400 RGBA) with single pixels that differ around every multiple of 2^29 and in the corners, and a small image behind";
/// `into`: read_into_buffer, else fill_buffer in pieces.
pub fn huge(c: &Ctx, rgba: bool, into: bool, interlaced: bool) -> Res {
    use crate::drive::*;
    use crate::genr::*;
    let (w, h) = (65535u64, if rgba { 16400 } else { 65535u64 });
    // how much memory the decoder takes is not what matters here
    let _raised = crate::alloc::Raised::to(12 << 30);
    let n = w * h;
    let mut marks = vec![0, w - 1, w, n - w - 1, n - w, n - 2, n - 1];
    for k in 1..8u64 { for d in [0, 1, 2] { marks.push((k << 29) - 1 + d); marks.push((k << 27) - 1 + d); } }
    marks.retain(|&m| m < n);
    marks.sort_unstable();
    marks.dedup();
    let g = pal(4, 1);
    let mut i = Img::raw(w as u16, h as u16, 2, huge_data(n, &marks));
    i.interlaced = interlaced;
    let b = File::new(9, 9, Some(&g)).img(&i).img(&Img::pat(2, 2, 2, 9)).end();
    let o = Opts { rgba, limit: Limit::Unlimited, ..PLAIN };
    let bpp = o.bpp();
    let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
    d.next_frame_info().map_err(|e| err("info", e))?.ok_or("no frame")?;
    let size = n as usize * bpp;
    if d.buffer_size() != size { return Err(format!("buffer_size {} instead of {size}", d.buffer_size())); }
    let value = |v: usize| if rgba { [g[v * 3], g[v * 3 + 1], g[v * 3 + 2], 255] } else { [v as u8; 4] };
    let check = |got: &[u8], blank: &[u8], at: u64| -> Res {
        let end = at + (got.len() / bpp) as u64;
        let (lo, hi) = (marks.partition_point(|&m| m < at), marks.partition_point(|&m| m < end));
        if lo == hi { return if got == &blank[..got.len()] { Ok(()) } else { Err(format!("stored pixels {at} to {end} are wrong")) }; }
        let mut want = blank[..got.len()].to_vec();
        for k in lo..hi { let x = (marks[k] - at) as usize * bpp; want[x..x + bpp].copy_from_slice(&value(k % 3 + 1)[..bpp]); }
        if got == &want[..] { Ok(()) } else { Err(diff(&format!("stored pixels {at} to {end}"), got, &want)) }
    };
    let blank: Vec<u8> = value(0)[..bpp].iter().copied().cycle().take((1 << 16) * bpp).collect();
    if into {
        // without the memory for it there is nothing to check
        let Some(mut mem) = crate::alloc::Uncounted::new(size) else { c.outcome("no memory"); return Ok(()) };
        let buf = mem.bytes();
        d.read_into_buffer(buf).map_err(|e| err("read", e))?;
        let rows: Vec<u64> = if interlaced { [(0, 8), (4, 8), (2, 4), (1, 2)].iter().flat_map(|&(a, s)| (a..h).step_by(s)).collect() } else { (0..h).collect() };
        let line = w as usize * bpp;
        for (k, &r) in rows.iter().enumerate() { check(&buf[r as usize * line..(r as usize + 1) * line], &blank, k as u64 * w)?; }
    } else {
        let mut buf = vec![STALE; (1 << 16) * bpp];
        let mut at = 0;
        while at < n {
            let k = (n - at).min(1 << 16) as usize * bpp;
            if !d.fill_buffer(&mut buf[..k]).map_err(|e| err(&format!("at pixel {at}"), e))? { return Err(format!("fill_buffer returned false at pixel {at}")); }
            check(&buf[..k], &blank, at)?;
            at += (k / bpp) as u64;
        }
        if d.fill_buffer(&mut buf[..bpp]).map_err(|e| err("behind the image", e))? { return Err("fill_buffer returned true behind the image".into()); }
    }
    let f = d.read_next_frame().map_err(|e| err("next", e))?.ok_or("no second frame")?;
    if f.buffer.len() != 4 * bpp || d.read_next_frame().map_err(|e| err("end", e))?.is_some() { return Err("the second frame is wrong".into()); }
    c.obs(&(rgba, into, n));
    c.validated(1);
    Ok(())
}
