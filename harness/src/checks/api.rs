//! C28 accessors, C29 options, C30 writing out what was read, C31 true colour pipeline, C32 conversions.
use super::dec_hist::{files_all, files_good};
use super::dec_px::frame_dec;
use super::*;
use crate::drive::*;
use crate::engine::Exploration;
use crate::genr::*;
use crate::lzw::{self, Strat, STD};
use crate::model::{self, Meta};
use crate::{CheckInfo, Tier};
use gif::streaming_decoder::{Block, Decoded, OutputBuffer, StreamingDecoder};
use gif::{AnyExtension, ColorOutput, DecodeOptions, Decoder, DecodingError, DisposalMethod, Encoder, EncodingError, Extension, ExtensionData, Frame, MemoryLimit};

use std::io::{self, Read};

pub fn checks() -> Vec<CheckInfo> {
    vec![
        CheckInfo { id: "C28", level: "model_checking", rule: "every execution makes one history of calls and asks every accessor before, between and after them", assumptions: &["no more pixels are asked for after fill_buffer returned false or failed, as documented", "what palette, buffer_size and line_length say is specified only while a frame is current"], build: c28 },
        CheckInfo { id: "C29", level: "model_checking", rule: "every execution makes one sequence of setter calls and decodes files that tell every setting apart", assumptions: &[], build: c29 },
        CheckInfo { id: "C30", level: "model_checking", rule: "every execution decodes a file, writes what was read, decodes that and writes it once more", assumptions: &["the loop count, palettes and frame fields are carried over; other extensions are not"], build: c30 },
        CheckInfo { id: "C31", level: "model_checking", rule: "every execution makes frames from RGBA or RGB pixels, writes them, and decodes the file with RGBA output", assumptions: &["the colour of fully transparent pixels is not specified"], build: c31 },
        CheckInfo { id: "C32", level: "model_checking", rule: "every execution converts one value there and back", assumptions: &[], build: c32 },
    ]
}

// ---------------------------------------------------------------- C28

/// Metadata of the current frame, if there is one
type Cur = Option<Meta>;
fn accessors<R: Read>(d: &Decoder<R>, h: &Hdr, cur: &Cur, o: &Opts, when: &str) -> Res {
    let now = hdr_of(d);
    if now != *h { return Err(format!("{when}: the image is described as {now:?} instead of {h:?}")); }
    if let Some(m) = cur {
        let want = m.palette.as_ref().or(h.gpal.as_ref()).ok_or_else(|| format!("{when}: frame without a palette"))?;
        match d.palette() {
            Ok(p) if p == &want[..] => {}
            r => return Err(format!("{when}: palette {:?} instead of {want:?}", r.map_err(|e| e.to_string()))),
        }
        let line = m.w as usize * o.bpp();
        if d.line_length() != line { return Err(format!("{when}: line_length {} instead of {line}", d.line_length())); }
        if d.buffer_size() != line * m.h as usize { return Err(format!("{when}: buffer_size {} instead of {}", d.buffer_size(), line * m.h as usize)); }
    }
    Ok(())
}
#[derive(Clone, Copy, Debug)]
enum Call { Info, Next, Fill, FillAll, Into, IntoShort, Empty }
const CALLS: [Call; 7] = [Call::Info, Call::Next, Call::Fill, Call::FillAll, Call::Into, Call::IntoShort, Call::Empty];

fn c28_history<R: Read>(c: &Ctx, bytes: &[u8], src: R, o: &Opts, depth: usize, calls: &[Call]) -> Res {
    c.note("file", || hex(bytes));
    c.note("options", || format!("{o:?}"));
    let g = model::parse(bytes, &o.ropts());
    let mut d = match o.build().read_info(src) { Ok(d) => d, Err(_) => { c.outcome("not opened"); return Ok(()); } };
    let h = hdr_of(&d);
    check_header(&h, &g)?;
    c.validated(1);
    let mut cur: Cur = None;
    let mut n = 0; // frames announced
    let mut fresh = false; // no pixel of it was taken
    accessors(&d, &h, &cur, o, "after opening")?;
    let mut failed = false;
    let mut over = false; // pixels ended or failed: no more of them may be asked for
    for i in 0..depth {
        // reading pixels makes sense only while there is a frame
        let a = if cur.is_some() && !o.skip && !over { c.of(calls) } else if c.flag() { Call::Next } else { Call::Info };
        let when = format!("after call {i} ({a:?})");
        c.note("call", || format!("{a:?}"));
        let size = if cur.is_some() { d.buffer_size() } else { 0 };
        let good = !failed && fresh && n > 0 && g.frames.get(n - 1).is_some_and(|f| f.stored().is_some());
        match a {
            Call::Info | Call::Next => {
                over = false;
                let r = if let Call::Info = a { d.next_frame_info() } else { d.read_next_frame() };
                match r {
                    Ok(Some(f)) => {
                        let m = meta_of(f);
                        if !failed {
                            let want = g.frames.get(n).ok_or_else(|| format!("{when}: frame {n} does not exist"))?;
                            let mut w = want.meta.clone();
                            if matches!(a, Call::Next) && !o.skip { w.interlaced = m.interlaced; }
                            if w != m { return Err(format!("{when}: frame {n} is {m:?} instead of {w:?}")); }
                        }
                        cur = Some(m);
                        n += 1;
                        fresh = matches!(a, Call::Info);
                    }
                    Ok(None) => { cur = None; fresh = false; }
                    Err(_) => { cur = None; fresh = false; failed = true; }
                }
            }
            Call::Empty => if !o.skip { match d.fill_buffer(&mut []) { Ok(true) => {}, r => return Err(format!("{when}: {r:?} for an empty buffer")) } },
            Call::Fill => if !o.skip { over = !matches!(d.fill_buffer(&mut vec![0; o.bpp()]), Ok(true)); fresh = false; },
            Call::FillAll => if !o.skip {
                let r = d.fill_buffer(&mut vec![0; size]);
                if good && !matches!(r, Ok(true)) { return Err(format!("{when}: {r:?} for a buffer of buffer_size")); }
                over = !matches!(r, Ok(true));
                fresh = false;
            },
            Call::Into => if !o.skip {
                let r = d.read_into_buffer(&mut vec![0; size]);
                if good && r.is_err() { return Err(format!("{when}: {r:?} for a buffer of buffer_size")); }
                over = r.is_err();
                fresh = false;
            },
            Call::IntoShort => if !o.skip && size > 0 {
                if d.read_into_buffer(&mut vec![0; size - 1]).is_ok() { return Err(format!("{when}: read into a buffer one byte smaller than buffer_size")); }
                over = !good;
                fresh = false;
            },
        }
        accessors(&d, &h, &cur, o, &when)?;
        c.obs(&(n, &cur, fresh, failed));
    }
    let r = rest(d.into_inner());
    if !bytes.ends_with(&r) { return Err(format!("the reader handed back continues with {} bytes that are not the end of the file", r.len())); }
    c.outcome(if failed { "with errors" } else { "without errors" });
    Ok(())
}
/// Files whose later parts might overwrite what the header said.
fn late_files() -> &'static [Vec<u8>] {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let g4 = pal(4, 1);
        let im = |k: u8| Img::pat(2, 2, 2, k);
        vec![
            File::full(b"GIF87a", 7, 5, Some(&g4), 3, 9, 0).netscape(4).img(&im(1)).netscape(9).img(&im(2).pal(pal(8, 7))).netscape(0).img(&im(3)).end(),
            File::full(b"GIF89a", 65535, 1, Some(&g4), 4, 0, 0).img(&im(1).pal(pal(2, 7)).il()).netscape(1).img(&Img::pat(300, 3, 2, 1).il()).end(),
            File::full(b"GIF89a", 0, 0, None, 0, 0, 0).netscape(65535).img(&im(1).pal(pal(256, 7))).img(&im(2).pal(pal(2, 3))).img(&im(4)).img(&im(2).pal(pal(2, 3))).end(),
            File::full(b"GIF89a", 2, 9, Some(&pal(256, 3)), 255, 0, 0x70).netscape(0).gce(1, 2, 3).img(&Img::pat(0, 0, 2, 1)).img(&Img::pat(3, 0, 2, 1).pal(g4.clone())).netscape(3).img(&im(1)).end(),
            [File::new(3, 4, Some(&g4)).img(&im(1)).end(), File::new(9, 9, Some(&pal(8, 99))).netscape(3).img(&im(2)).end()].concat(),
        ]
    })
}
fn version_u8(v: gif::Version) -> u8 { match v { gif::Version::V87a => 87, gif::Version::V89a => 89 } }

fn c28(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    let d = t.sel(5, 7);
    v.push(Exploration::new("histories", &format!("files whose later parts could overwrite what the header said: every history of {d} calls out of 7 (announce, read, take one pixel, take all, read into a buffer of the stated size, of one byte less, of none) x indexed, RGBA, raw, whole and byte by byte"), move |c| {
        let b = c.pick(late_files());
        let o = &c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.unknown()]).clone();
        let k = c.of(&[0, 1, 7]);
        if k == 0 { c28_history(c, b, &b[..], o, d, &CALLS) } else { c28_history(c, b, Script::new(b, |_, _| Ans::Give(k)), o, d, &CALLS) }
    }));
    let d = t.sel(4, 6);
    v.push(Exploration::new("files", &format!("every file of the corpus, good or bad, every history of {d} calls, indexed, RGBA, raw, with unknown blocks"), move |c| {
        let b = c.pick(files_all());
        let o = &c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.unknown()]).clone();
        c28_history(c, b, &b[..], o, d, &CALLS)
    }));
    v.push(Exploration::new("option-sets", "every file under 64 sets of options, histories of 2 calls", |c| {
        let b = c.pick(files_all());
        let o = PLAIN.with(c.choose(SETS));
        if !applies(b, &o) { c.outcome("not applicable"); return Ok(()); }
        // files whose frames leave the screen or exceed the limit fail as the reference does not know
        let g = model::parse(b, &o.ropts());
        if g.frames.iter().any(|f| f.area() * o.bpp() > 65536) { c.outcome("not applicable"); return Ok(()); }
        c28_history(c, b, &b[..], &o, 2, &CALLS)
    }));
    v.push(Exploration::new("pairs", "every pair of images of the pool with 3 global palettes: announce and read into a buffer of the stated size, or of one byte less, twice; indexed or RGBA", |c| {
        let b = pick_pool(c);
        let o = if c.flag() { PLAIN.rgba() } else { PLAIN };
        let small = c.flag();
        let g = model::parse(&b, &o.ropts());
        c.note("file", || hex(&b));
        let mut d = match o.build().read_info(&b[..]) { Ok(d) => d, Err(e) => return if g.frames.is_empty() { Ok(()) } else { Err(err("opening", e)) } };
        let h = hdr_of(&d);
        for (i, f) in g.frames.iter().enumerate() {
            d.next_frame_info().map_err(|e| err("announce", e))?;
            let cur = Some(f.meta.clone());
            accessors(&d, &h, &cur, &o, &format!("frame {i} announced"))?;
            let n = d.buffer_size();
            if small && n > 0 {
                if d.read_into_buffer(&mut vec![0; n - 1]).is_ok() { return Err(format!("frame {i}: read into a buffer one byte too small")); }
            } else if f.stored().is_some() {
                d.read_into_buffer(&mut vec![0; n]).map_err(|e| err("reading", e))?;
            }
            accessors(&d, &h, &cur, &o, &format!("frame {i} read"))?;
        }
        c.obs(&hash(&b));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("screens", "every screen width (height is its complement) x both versions x no or 2 palettes; every background index x every palette size", |c| {
        if c.flag() {
            let w = c.choose(65536) as u16;
            let k = c.choose(3);
            let p = [pal(2, 1), pal(16, 1)];
            let sig: &[u8] = if c.flag() { b"GIF87a" } else { b"GIF89a" };
            header_case(c, &File::full(sig, w, !w, (k > 0).then(|| &p[k - 1][..]), 1, 0, 0).img(&Img::px(1, 1, 2, &[1]).pal(pal(2, 9))).end())
        } else {
            let bg = c.choose(256) as u8;
            let p = pal(2 << c.choose(8), 3);
            header_case(c, &File::full(b"GIF89a", 2, 3, Some(&p), bg, c.of(&[0, 49, 255]), c.of(&[0, 0x70])).img(&Img::px(1, 1, 2, &[1])).end())
        }
    }));
    v.push(Exploration::new("frame-sizes", "every frame width with 9 heights and every height with 9 widths, indexed and RGBA: line_length and buffer_size of the announced frame", |c| {
        const V: [u16; 9] = [0, 1, 2, 255, 256, 16383, 16384, 32768, 65535];
        let (a, b) = (c.choose(65536) as u16, c.of(&V));
        let (w, h) = if c.flag() { (a, b) } else { (b, a) };
        let o = if c.flag() { PLAIN.rgba() } else { PLAIN };
        let f = File::new(2, 2, Some(&pal(2, 1))).img(&Img::raw(w, h, 2, vec![])).end();
        let mut d = o.build().read_info(&f[..]).map_err(|e| err("opening", e))?;
        d.next_frame_info().map_err(|e| err("announce", e))?.ok_or("no frame")?;
        let line = w as usize * o.bpp();
        if (d.line_length(), d.buffer_size()) != (line, line * h as usize) { return Err(format!("{w}x{h} {o:?}: line_length {}, buffer_size {}", d.line_length(), d.buffer_size())); }
        let frame = Frame { width: w, height: h, ..Frame::default() };
        let n = frame_dec(&o).buffer_size(&frame);
        if n != line * h as usize { return Err(format!("{w}x{h} {o:?}: buffer_size of the frame decoder {n}")); }
        c.obs(&(w, h, o.rgba));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("streaming", "every file of the corpus in slices of 1 to 8 bytes, 13, 14 or whole: version, width and height of the streaming decoder from the end of the screen descriptor to the end, also after errors", |c| {
        let k = c.choose(late_files().len() + files_all().len());
        let b = if k < late_files().len() { &late_files()[k] } else { &files_all()[k - late_files().len()] };
        let n = c.of(&[1, 2, 3, 4, 5, 6, 7, 8, 13, 14, 1 << 20]);
        let g = model::parse(b, &PLAIN.ropts());
        c.note("file", || hex(b));
        let mut d = StreamingDecoder::new();
        let mut buf = [0; 64];
        let (mut p, mut known, mut errors) = (0, false, 0);
        let take = c.flag();
        while p < b.len() && errors < 3 {
            let e = (p + n).min(b.len());
            match d.update(&b[p..e], &mut if take { OutputBuffer::Slice(&mut buf) } else { OutputBuffer::None }) {
                Ok((k, ev)) => { p += k; known |= !matches!(ev, Decoded::Nothing); }
                Err(_) => errors += 1,
            }
            if known {
                let got = (version_u8(d.version()), d.width(), d.height());
                if got != (g.version, g.w, g.h) { return Err(format!("at byte {p}: version, width, height are {got:?} instead of {:?}", (g.version, g.w, g.h))); }
            }
            c.steps(1);
        }
        c.obs(&(hash(b), n, p, errors));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("frame-decoder", "every image of the pool: the frame decoder's buffer_size is exactly what decoding into a buffer needs", |c| {
        let (_, i) = &pool()[c.choose(pool().len())];
        let o = if c.flag() { PLAIN.rgba() } else { PLAIN };
        let il = c.flag();
        let mut f = super::dec_px::lzw_frame(i.w, i.h, il, i.mcs, &i.data);
        f.palette = Some(pal(256, 1));
        let mut fd = frame_dec(&o);
        let n = fd.buffer_size(&f);
        if n != i.w as usize * i.h as usize * o.bpp() { return Err(format!("buffer_size {n} for {}x{}", i.w, i.h)); }
        let px = lzw::decode(i.mcs, &i.data, n).pixels.len() >= i.w as usize * i.h as usize;
        let r = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut vec![0; n]);
        if px && r.is_err() { return Err(format!("{r:?} for a buffer of buffer_size")); }
        if n > 0 && fd.decode_lzw_encoded_frame_into_buffer(&f, &mut vec![0; n - 1]).is_ok() { return Err("decoded into a buffer one byte smaller than buffer_size".into()); }
        c.obs(&(i.w, i.h, o.rgba, il));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; histories of 2 (thorough 3) calls, indexed, RGBA, raw, with unknown blocks", move |c| {
        let (k, b) = pick_head(c);
        let o = &[PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.unknown()][k % 4];
        c28_history(c, &b, &b[..], o, t.sel(2, 3), &CALLS)
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: the accessors after every frame or every fourth pixel read"), |c| {
        let (_, b) = pick_count(c);
        let o = if c.flag() { roomy_rgba() } else { PLAIN.unknown() };
        let g = model::parse(&b, &o.ropts());
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        let h = hdr_of(&d);
        check_header(&h, &g)?;
        let info = c.flag();
        for i in 0..=g.frames.len() {
            let m = if info { d.next_frame_info() } else { d.read_next_frame() }.map_err(|e| err("frame", e))?.map(meta_of);
            if m.is_some() != (i < g.frames.len()) { return Err(format!("frame {i} of {}: {m:?}", g.frames.len())); }
            accessors(&d, &h, &m, &o, &format!("at frame {i}"))?;
        }
        c.obs(&(b.len(), info));
        c.validated(1);
        Ok(())
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: the accessors after every frame, metadata only or with the pixels"), |c| {
        let (k, b, _) = pick_combo(c);
        let o = [PLAIN, PLAIN.rgba(), PLAIN.skip()][k % 3].clone();
        let g = model::parse(&b, &o.ropts());
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        let h = hdr_of(&d);
        check_header(&h, &g)?;
        let info = c.flag();
        loop {
            let m = match if info { d.next_frame_info() } else { d.read_next_frame() } { Ok(m) => m.map(meta_of), Err(_) => break };
            if m.as_ref().map_or(false, |m| m.palette.is_none()) && h.gpal.is_none() { break; }
            let last = m.is_none();
            accessors(&d, &h, &m, &o, "after a frame")?;
            if last { break; }
        }
        c.obs(&(b.len(), info));
        c.validated(1);
        Ok(())
    }));
    v
}
fn hash(b: &[u8]) -> u64 { crate::engine::hash_of(b) }
fn header_case(c: &Ctx, b: &[u8]) -> Res {
    c.note("file", || hex(b));
    let g = model::parse(b, &PLAIN.ropts());
    let mut d = PLAIN.build().read_info(b).map_err(|e| err("opening", e))?;
    let h = hdr_of(&d);
    check_header(&h, &g)?;
    while d.read_next_frame().map_err(|e| err("reading", e))?.is_some() {}
    if hdr_of(&d) != h { return Err(format!("after the end: {:?} instead of {h:?}", hdr_of(&d))); }
    c.obs(&h);
    c.validated(1);
    Ok(())
}

// ---------------------------------------------------------------- C29

const SETTERS: usize = 13;
fn set(o: &mut DecodeOptions, m: &mut Opts, k: usize) {
    match k {
        0 => { o.set_color_output(ColorOutput::RGBA); m.rgba = true }
        1 => { o.set_color_output(ColorOutput::Indexed); m.rgba = false }
        2 => { o.set_memory_limit(MemoryLimit::Bytes(40.try_into().unwrap())); m.limit = Limit::Bytes(40) }
        3 => { o.set_memory_limit(MemoryLimit::Unlimited); m.limit = Limit::Unlimited }
        4 => { o.set_memory_limit(MemoryLimit::Bytes(50_000_000.try_into().unwrap())); m.limit = Limit::Bytes(50_000_000) }
        5 | 6 => { o.check_frame_consistency(k == 5); m.consistency = k == 5 }
        7 | 8 => { o.skip_frame_decoding(k == 7); m.skip = k == 7 }
        9 | 10 => { o.check_lzw_end_code(k == 9); m.endcode = k == 9 }
        _ => { o.allow_unknown_blocks(k == 11); m.unknown = k == 11 }
    }
}
fn setter_name(k: usize) -> &'static str {
    ["RGBA", "indexed", "limit 40", "unlimited", "limit 50 MB", "consistency on", "consistency off", "skip on", "skip off", "end code on", "end code off", "unknown on", "unknown off"][k]
}
/// Files that each tell one setting apart, whatever the other settings are.
fn probes() -> &'static [Vec<u8>] {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let g4 = pal(4, 1);
        let f = || File::new(9, 9, Some(&g4));
        let one = Img::px(1, 1, 2, &[1]);
        vec![
            f().netscape(2).gce(1, 2, 1).img(&Img::pat(3, 2, 2, 1)).img(&Img::pat(2, 5, 2, 2).il().pal(pal(8, 3))).end(),
            f().img(&one).img(&Img::pat(2, 2, 2, 3).at(8, 0)).img(&one).end(),
            f().img(&one).img(&Img::raw(2, 2, 2, lzw::encode(2, &[1, 2, 3, 0], Strat { end: false, ..STD }))).img(&one).end(),
            f().img(&one).unknown(0x42, &[b"ab", b"\x2c"]).img(&one).end(),
            f().img(&one).img(&Img::px(9, 5, 2, &[1; 45])).img(&one).end(),
            f().img(&one).img(&Img::px(4, 4, 2, &[1; 16])).img(&one).end(),
            f().img(&one).ext(0xFE, &[&[7; 30], &[8; 30]]).img(&one).end(),
        ]
    })
}
/// Decodes every probe file with the options and compares with what the settings mean.
fn probe(c: &Ctx, o: &DecodeOptions, m: &Opts, style: &Style) -> Res {
    for (k, b) in probes().iter().enumerate() {
        let obs = decode_with(o.clone(), b, m, style)?;
        let e = expect(b, m);
        let cap = match m.limit { Limit::Bytes(n) => n as usize, _ => 50_000_000 };
        // a buffer of the caller is as large as it is
        let own = matches!(style, Style::Next);
        // what stops the file at its second frame
        let stop = match k {
            2 if m.endcode && !m.skip => Some((1, 2)),
            4 if !m.skip && own && 45 * m.bpp() > cap => Some((1, 1)),
            5 if !m.skip && own && 16 * m.bpp() > cap => Some((1, 1)),
            6 if cap < 60 => Some((1, 1)),
            _ => None,
        };
        let r = match stop {
            None => check(&obs, &e, b),
            Some((lo, hi)) => {
                let n = obs.frames.len();
                if !matches!(obs.end, End::Err(_)) { Err(format!("{:?} although a setting forbids this file", obs.end)) }
                else if n < lo || n > hi { Err(format!("{n} frames before the error instead of {lo} to {hi}")) }
                else if obs.frames[..] != e.frames[..n] { Err("frames before the error differ".into()) }
                else { Ok(()) }
            }
        };
        r.map_err(|x| format!("probe file {k}: {x}"))?;
        c.obs(&obs);
        c.validated(1);
    }
    Ok(())
}
/// Like `drive::decode`, but with these options.
fn decode_with(o: DecodeOptions, b: &[u8], m: &Opts, style: &Style) -> Result<Obs, String> {
    let mut d = match o.read_info(b) {
        Ok(d) => d,
        Err(e) => { let x = class(&e); return Ok(Obs { header: Err(x), frames: vec![], end: End::Err(x), rest: None }); }
    };
    drain(&mut d, m, style)
}
fn drain<R: Read>(d: &mut Decoder<R>, m: &Opts, style: &Style) -> Result<Obs, String> {
    let mut obs = Obs { header: Ok(hdr_of(d)), frames: vec![], end: End::Done, rest: None };
    loop {
        match read_frame(d, m, style)? {
            Ok(Some(f)) => obs.frames.push(f),
            Ok(None) => return Ok(obs),
            Err(x) => { obs.end = End::Err(x); return Ok(obs); }
        }
        if obs.frames.len() > 10 { return Err("frames do not end".into()); }
    }
}
fn c29(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    let n = t.sel(5, 6);
    v.push(Exploration::new("sequences", &format!("every sequence of up to {n} of 13 setter calls (6 options), decoding 7 files that tell the settings apart"), move |c| {
        let (mut o, mut m) = (DecodeOptions::new(), PLAIN);
        for _ in 0..c.range(0, n) {
            let k = c.choose(SETTERS);
            c.note("setter", || setter_name(k).into());
            set(&mut o, &mut m, k);
        }
        probe(c, &o, &m, &Style::Next)
    }));
    v.push(Exploration::new("all-at-once", "every one of the 3 x 2^5 settings of all options, set in each of 12 orders, by 4 reading styles", |c| {
        let (mut o, mut m) = (DecodeOptions::new(), PLAIN);
        let vals = [c.choose(2), 2 + c.choose(3), 5 + c.choose(2), 7 + c.choose(2), 9 + c.choose(2), 11 + c.choose(2)];
        let (start, back) = (c.choose(6), c.flag());
        for i in 0..6 {
            let k = if back { (start + 6 - i) % 6 } else { (start + i) % 6 };
            set(&mut o, &mut m, vals[k]);
        }
        let s = &c.pick(&[Style::Next, Style::Into(0), Style::Fill(vec![1]), Style::Fill(vec![3, 100])]).clone();
        probe(c, &o, &m, s)
    }));
    v.push(Exploration::new("clones", "a clone taken before, between or after up to 3 setter calls keeps the settings of that moment, and the original goes its own way", |c| {
        let (mut o, mut m) = (if c.flag() { DecodeOptions::default() } else { Decoder::<&[u8]>::build() }, PLAIN);
        let n = c.range(0, 3);
        let at = c.range(0, n);
        let mut saved = None;
        for i in 0..=n {
            if i == at { saved = Some((o.clone(), m.clone())); }
            if i < n { let k = c.choose(SETTERS); set(&mut o, &mut m, k); }
        }
        let (mut so, mut sm) = saved.unwrap();
        if c.flag() { set(&mut so, &mut sm, c.choose(SETTERS)); }
        probe(c, &so, &sm, &Style::Next)?;
        probe(c, &o, &m, &Style::Next)
    }));
    v.push(Exploration::new("defaults", "Decoder::new decodes every file as the default options do", |c| {
        let b = c.pick(files_all());
        let a = decode(&b[..], &PLAIN, &Style::Next)?;
        let r = match Decoder::new(&b[..]) {
            Ok(mut d) => drain_all(&mut d)?,
            Err(e) => { let x = class(&e); (vec![], End::Err(x)) }
        };
        c.obs(&a);
        c.validated(1);
        if (a.frames, a.end) != r { return Err("Decoder::new decodes differently from DecodeOptions::new().read_info".into()); }
        Ok(())
    }));
    v.push(Exploration::new("frame-decoder", "the frame decoder made with every sequence of up to 3 setter calls: colour output and limit", |c| {
        let (mut o, mut m) = (DecodeOptions::new(), PLAIN);
        for _ in 0..c.range(0, 3) { let k = c.choose(SETTERS); set(&mut o, &mut m, k); }
        let mut fd = gif::streaming_decoder::FrameDecoder::new(o);
        let cap = match m.limit { Limit::Bytes(n) => n as usize, _ => 50_000_000 };
        for (w, h) in [(3u16, 2u16), (9, 5), (4, 4), (10, 1), (10, 4)] {
            let n = w as usize * h as usize;
            let px = pattern(n, 2, 7);
            let mut f = super::dec_px::lzw_frame(w, h, h == 5, 2, &lzw::encode(2, &px, STD));
            f.palette = Some(pal(4, 1));
            f.transparent = Some(1);
            let shown = if h == 5 { model::deinterlace(&px, w as usize, h as usize) } else { px };
            let want = if m.rgba { model::rgba(&shown, &pal(4, 1), Some(1)) } else { shown };
            match fd.decode_lzw_encoded_frame(&mut f) {
                Ok(()) if n * m.bpp() > cap => return Err(format!("{w}x{h} decoded beyond the limit of {cap}")),
                Ok(()) if f.buffer[..] != want[..] => return Err(diff("frame decoder", &f.buffer, &want)),
                Err(e) if n * m.bpp() <= cap => return Err(err("frame decoder", e)),
                _ => {}
            }
        }
        c.obs(&(m.rgba, cap));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("default-limit", "DecodeOptions::new, default, Decoder::build and Decoder::new with frames of exactly 50 MB and a bit more, indexed and RGBA: the same limit", |c| {
        static B: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
        const S: [(u16, u16); 4] = [(5000, 10000), (1187, 42123), (2500, 5000), (2501, 5000)];
        let b = B.get_or_init(|| S.iter().map(|&(w, h)| File::new(1, 1, Some(&pal(4, 1))).img(&Img::px(w, h, 2, &vec![0; w as usize * h as usize])).end()).collect());
        let k = c.choose(4);
        let way = c.choose(4);
        let mut o = match way { 0 => DecodeOptions::new(), 1 => DecodeOptions::default(), _ => Decoder::<&[u8]>::build() };
        if k >= 2 {
            if way == 3 { return Ok(()); }
            o.set_color_output(ColorOutput::RGBA);
        }
        let mut d = if way == 3 { Decoder::new(&b[k][..]) } else { o.read_info(&b[k][..]) }.map_err(|e| err("open", e))?;
        let r = d.read_next_frame().map(|f| f.map_or(0, |f| f.buffer.len())).map_err(|e| class(&e));
        c.obs(&r);
        c.validated(1);
        if r.is_ok() != (k % 2 == 0) { return Err(format!("{}x{} with the default limit: {r:?}", S[k].0, S[k].1)); }
        Ok(())
    }).cpu(60.0));
    v
}
fn drain_all<R: Read>(d: &mut Decoder<R>) -> Result<(Vec<(Meta, Vec<u8>)>, End), String> {
    let mut v = vec![];
    loop {
        match d.read_next_frame() {
            Ok(Some(f)) => v.push((meta_of(f), f.buffer.to_vec())),
            Ok(None) => return Ok((v, End::Done)),
            Err(e) => return Ok((v, End::Err(class(&e)))),
        }
        if v.len() > MAX_FRAMES { return Err("frames do not end".into()); }
    }
}

// ---------------------------------------------------------------- C30

/// Header and frames of a good file, frames decoded or raw.
fn read_all(b: &[u8], o: &Opts, iter: bool) -> Result<(Hdr, Vec<Frame<'static>>), String> {
    let mut d = o.build().read_info(b).map_err(|e| err("opening", e))?;
    let h = hdr_of(&d);
    let mut v = vec![];
    if iter {
        for f in d { v.push(f.map_err(|e| err("reading", e))?); }
    } else {
        while let Some(f) = d.read_next_frame().map_err(|e| err("reading", e))? { v.push(f.clone()); }
    }
    Ok((h, v))
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way { Direct, Pre, Raw }
fn write_all(h: &Hdr, frames: &[Frame<'static>], way: Way) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    {
        let mut e = Encoder::new(&mut out, h.w, h.h, h.gpal.as_deref().unwrap_or(&[])).map_err(|e| err("new", e))?;
        e.set_repeat(rep(h)).map_err(|e| err("set_repeat", e))?;
        for (i, f) in frames.iter().enumerate() {
            match way {
                Way::Direct => e.write_frame(f),
                Way::Pre => { let mut f = f.clone(); f.make_lzw_pre_encoded(); e.write_lzw_pre_encoded_frame(&f) }
                Way::Raw => e.write_lzw_pre_encoded_frame(f),
            }.map_err(|x| format!("writing frame {i}: {x}"))?;
        }
    }
    Ok(out)
}
fn rep(h: &Hdr) -> gif::Repeat { match h.repeat { model::Repeat::Finite(n) => gif::Repeat::Finite(n), model::Repeat::Infinite => gif::Repeat::Infinite } }
fn content(f: &Frame<'_>) -> (Meta, Vec<u8>) { (meta_of(f), f.buffer.to_vec()) }
/// Copies a file (or the chosen frames of it), twice.
fn copy_case(c: &Ctx, b: &[u8], way: Way, iter: bool, pick: Option<&dyn Fn(usize) -> Vec<usize>>) -> Res {
    c.note("file", || hex(b));
    c.note("way", || format!("{way:?} iterator {iter}"));
    let o = if way == Way::Raw { PLAIN.skip() } else { PLAIN };
    let (h, mut frames) = read_all(b, &o, iter)?;
    // what was read is what the file says
    let e = expect(b, &o);
    check_header(&h, &e.gif)?;
    if e.frames.len() != frames.len() { return Err(format!("{} frames read instead of {}", frames.len(), e.frames.len())); }
    for (i, (f, w)) in frames.iter().zip(&e.frames).enumerate() {
        let f = content(f);
        if f.0 != w.0 { return Err(format!("frame {i} is read as {:?} instead of {:?}", f.0, w.0)); }
        if f.1 != w.1 { return Err(diff(&format!("frame {i}"), &f.1, &w.1)); }
    }
    if way == Way::Raw && frames.iter().any(|f| !(2..=11).contains(&f.buffer[0])) { c.outcome("code size not writable"); return Ok(()); }
    if let Some(p) = pick {
        let ix = p(frames.len());
        c.note("frames", || format!("{ix:?}"));
        frames = ix.iter().map(|&i| frames[i].clone()).collect();
    }
    let copy = write_all(&h, &frames, way)?;
    c.note("copy", || hex(&copy));
    let (h2, f2) = read_all(&copy, &o, !iter)?;
    // without a global palette the encoder may write two unused colours
    let black = h.gpal.is_none() && h2.gpal == Some(vec![0; 6]);
    if (h2.w, h2.h, h2.repeat) != (h.w, h.h, h.repeat) || h2.gpal != h.gpal && !black { return Err(format!("the copy is described as {h2:?} instead of {h:?}")); }
    if f2.len() != frames.len() { return Err(format!("the copy has {} frames instead of {}", f2.len(), frames.len())); }
    for (i, (x, y)) in frames.iter().zip(&f2).enumerate() {
        let (x, y) = (content(x), content(y));
        if x.0 != y.0 { return Err(format!("frame {i} of the copy is {:?} instead of {:?}", y.0, x.0)); }
        if x.1 != y.1 { return Err(diff(&format!("frame {i} of the copy"), &y.1, &x.1)); }
    }
    if way == Way::Raw {
        // decoded, the copy shows the same pictures (or fails as the original does)
        let plain = read_all(&copy, &PLAIN, iter);
        if pick.is_none() {
            let orig = read_all(b, &PLAIN, iter);
            match (&plain, &orig) {
                (Ok(a), Ok(b)) => if a.1.iter().map(content).ne(b.1.iter().map(content)) { return Err("the raw copy decodes differently".into()); },
                (Err(_), Err(_)) => {}
                _ => return Err(format!("decoding the raw copy: {:?}, the original: {:?}", plain.map(|_| ()), orig.map(|_| ()))),
            }
        }
    }
    let again = write_all(&Hdr { gpal: h.gpal.clone(), ..h2 }, &f2, way)?;
    if again != copy { return Err(diff("the copy of the copy", &again, &copy)); }
    c.obs(&copy);
    c.validated(1);
    Ok(())
}
const WAYS: [Way; 3] = [Way::Direct, Way::Pre, Way::Raw];
fn c30(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("files", "every good file of the corpus x 3 ways of writing (directly, compressed first, raw) x frame by frame or iterator", |c| {
        let b = c.pick(files_good());
        let w = c.of(&WAYS);
        copy_case(c, b, w, c.flag(), None)
    }));
    v.push(Exploration::new("pairs", "every pair of images of the pool with 3 global palettes, 3 ways of writing", |c| {
        let b = pick_pool(c);
        if !decodes(&b) { c.outcome("not decodable"); return Ok(()); }
        let w = c.of(&WAYS);
        copy_case(c, &b, w, false, None)
    }));
    v.push(Exploration::new("selections", "every selection and order of up to 3 frames (also repeated) of every good file with at least 2 and at most 4 frames", |c| {
        let b = c.pick(files_good());
        let n = model::parse(b, &PLAIN.ropts()).frames.len();
        if n < 2 || n > 4 { c.outcome("other number of frames"); return Ok(()); }
        let w = c.of(&WAYS);
        let ix: Vec<usize> = (0..c.range(0, 3)).map(|_| c.choose(n)).collect();
        copy_case(c, b, w, false, Some(&|_| ix.clone()))
    }));
    let d = t.sel(2, 3);
    v.push(Exploration::new("fields", &format!("files of {d} images with every combination of 5 delays, 4 disposal methods, 4 transparent indices, user input, interlacing, 3 palettes, 2 loop counts"), move |c| {
        let mut f = match c.choose(3) { 0 => File::new(5, 300, Some(&pal(4, 1))), 1 => File::new(5, 300, Some(&pal(4, 1))).netscape(0), _ => File::new(65535, 0, Some(&pal(256, 1))).netscape(513) };
        for i in 0..d {
            let p = c.choose(3);
            let k = if i == 0 { c.choose(5 * 4 * 4 * 4) } else { c.choose(9) * 7 };
            f = f.gce((((k / 5) % 4) << 2) as u8 | if (k / 20) % 4 > 0 { 1 } else { 0 } | if k / 80 & 1 != 0 { 2 } else { 0 }, [0u16, 1, 255, 256, 65535][k % 5], [0u8, 0, 1, 255][(k / 20) % 4]);
            let mut m = Img::pat(3, 7, 2, i as u8).at(k as u16 * 200, i as u16);
            if k / 160 != 0 { m = m.il(); }
            if p > 0 { m = m.pal(pal([2, 64][p - 1], 9)); }
            f = f.img(&m);
        }
        copy_case(c, &f.end(), c.of(&WAYS), c.flag(), None)
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; 3 ways of writing by turns, frame by frame or iterator", |c| {
        let (k, b) = pick_head(c);
        if !decodes(&b) { c.outcome("not decodable"); return Ok(()); }
        copy_case(c, &b, WAYS[k % 3], c.flag(), None)
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: copied in 3 ways"), |c| {
        let (_, b) = pick_count(c);
        if !decodes(&b) { c.outcome("not decodable"); return Ok(()); }
        copy_case(c, &b, c.of(&WAYS), c.flag(), None)
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: copied in 3 ways"), |c| {
        let (k, b, sound) = pick_combo(c);
        if !sound || !decodes(&b) { c.outcome("not decodable"); return Ok(()); }
        copy_case(c, &b, c.of(&WAYS), k % 2 == 0, None)
    }));
    v
}
fn decodes(b: &[u8]) -> bool { let e = expect(b, &PLAIN); e.broken.is_none() && matches!(e.gif.stop, model::Stop::Trailer(_)) }

// ---------------------------------------------------------------- C31

/// Writes frames and decodes them with RGBA output; `px`: what every frame was made from.
fn colour_case(c: &Ctx, frames: Vec<Frame<'static>>, px: &[Vec<u8>], pre: bool) -> Res {
    let mut out = vec![];
    {
        let mut e = Encoder::new(&mut out, 1000, 1000, &[]).map_err(|e| err("new", e))?;
        for (i, f) in frames.iter().enumerate() {
            let r = if pre { let mut f = f.clone(); f.make_lzw_pre_encoded(); e.write_lzw_pre_encoded_frame(&f) } else { e.write_frame(f) };
            r.map_err(|x| format!("frame {i} cannot be written: {x}"))?;
        }
    }
    let obs = decode(&out[..], &PLAIN.rgba(), &if c.flag() { Style::Into(0) } else { Style::Next })?;
    if obs.end != End::Done || obs.frames.len() != px.len() { return Err(format!("{} frames decoded of {}, then {:?}", obs.frames.len(), px.len(), obs.end)); }
    for (i, ((m, got), want)) in obs.frames.iter().zip(px).enumerate() {
        if (m.w, m.h) != (frames[i].width, frames[i].height) { return Err(format!("frame {i} is {}x{}", m.w, m.h)); }
        if got.len() != want.len() { return Err(format!("frame {i} has {} bytes instead of {}", got.len(), want.len())); }
        for (k, (g, w)) in got.chunks(4).zip(want.chunks(4)).enumerate() {
            let ok = if w[3] == 0 { g[3] == 0 } else { g[3] == 255 && g[..3] == w[..3] };
            if !ok { return Err(format!("frame {i}: pixel {k} is {g:?} instead of {w:?}")); }
        }
    }
    c.obs(&obs);
    c.validated(1);
    Ok(())
}
fn make(w: u16, h: u16, px: &[u8], speed: i32) -> Frame<'static> {
    let mut p = px.to_vec();
    Frame::from_rgba_speed(w, h, &mut p, speed)
}
fn c31(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    const A: [[u8; 4]; 7] = [[0, 0, 0, 255], [0, 0, 0, 0], [255, 255, 255, 255], [1, 2, 3, 0], [1, 2, 3, 1], [0, 0, 1, 255], [255, 0, 0, 128]];
    let n = t.sel(5, 7);
    v.push(Exploration::new("small", &format!("every image of 1 to {n} pixels over 7 RGBA values (colliding colours, alpha 0, 1, 128, 255), wide or high, followed by a fixed one"), move |c| {
        let n = c.range(1, n);
        let px: Vec<u8> = (0..n).flat_map(|_| c.of(&A)).collect();
        let (w, h) = if c.flag() { (n as u16, 1) } else { (1, n as u16) };
        let other = [A[3], A[2], A[0], A[6]].concat();
        colour_case(c, vec![make(w, h, &px, 1), make(2, 2, &other, 30)], &[px, other], false)
    }));
    v.push(Exploration::new("pairs", "two frames of 2 pixels each over 7 RGBA values, every speed for the first 3 values, written directly or compressed first, with any disposal and interlacing", |c| {
        let a: Vec<u8> = (0..2).flat_map(|_| c.of(&A)).collect();
        let b: Vec<u8> = (0..2).flat_map(|_| c.of(&A)).collect();
        let mut f = vec![make(2, 1, &a, 1), make(1, 2, &b, 10)];
        f[0].dispose = DisposalMethod::from_u8(c.choose(4) as u8).unwrap();
        f[1].needs_user_input = c.flag();
        f[0].delay = 7;
        colour_case(c, f, &[a, b], c.flag())
    }));
    v.push(Exploration::new("colours", "1 to 256 colours (every number) in images just large enough or larger, no transparent pixel or one or a run, RGBA or RGB constructor, 3 speeds", |c| {
        let n = c.range(1, 256);
        let extra = c.of(&[0usize, 1, 300]);
        let tr = c.choose(3);
        let n = if tr > 0 { n.min(255) } else { n };
        let mut px: Vec<u8> = (0..n + extra).flat_map(|i| { let k = (i * 7) % n; [k as u8, 255 - k as u8, (k * 31) as u8, 255] }).collect();
        if tr > 0 { let at = [0, 0, n / 2][tr]; for k in 0..tr * 2 - 1 { let p: Vec<u8> = vec![k as u8, 9, 9, 0]; let _ = px.splice(at * 4..at * 4, p); } }
        let w = (px.len() / 4) as u16;
        let speed = c.of(&[1, 10, 30]);
        let f = if tr == 0 && c.flag() { Frame::from_rgb_speed(w, 1, &px.chunks(4).flat_map(|p| p[..3].to_vec()).collect::<Vec<_>>(), speed) } else { make(w, 1, &px, speed) };
        colour_case(c, vec![f], &[px], c.flag())
    }));
    v.push(Exploration::new("again", "files decoded with RGBA output, every frame with at most 256 colours made into a frame again, written, decoded: the same pictures", |c| {
        let b = c.pick(files_good());
        let obs = decode(&b[..], &PLAIN.rgba(), &Style::Next)?;
        if obs.end != End::Done { return Err(format!("{:?}", obs.end)); }
        let ok: Vec<_> = obs.frames.iter().filter(|f| f.0.w > 0 && f.0.h > 0).collect();
        let px: Vec<Vec<u8>> = ok.iter().map(|f| f.1.clone()).collect();
        colour_case(c, ok.iter().map(|f| make(f.0.w, f.0.h, &f.1, 5)).collect(), &px, c.flag())
    }));
    v
}

// ---------------------------------------------------------------- C32

fn c32(_: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("bytes", "every byte as disposal method, block introducer and extension label", |c| {
        let n = c.choose(256) as u8;
        let d = DisposalMethod::from_u8(n);
        if d.map(|x| x as u8) != (n < 4).then_some(n) || d.map(dispose_u8) != (n < 4).then_some(n) { return Err(format!("disposal method {n} is {d:?}")); }
        let want = match n { 0x2C => Some(Block::Image), 0x21 => Some(Block::Extension), 0x3B => Some(Block::Trailer), _ => None };
        if Block::from_u8(n) != want || want.is_some_and(|b| b as u8 != n) { return Err(format!("block {n:#x} is {:?}", Block::from_u8(n))); }
        let want = match n { 0x01 => Some(Extension::Text), 0xF9 => Some(Extension::Control), 0xFE => Some(Extension::Comment), 0xFF => Some(Extension::Application), _ => None };
        if Extension::from_u8(n) != want || AnyExtension(n).into_known() != want { return Err(format!("extension {n:#x} is {:?}, {:?}", Extension::from_u8(n), AnyExtension(n).into_known())); }
        if let Some(x) = want { if AnyExtension::from(x) != AnyExtension(n) || x as u8 != n { return Err(format!("{x:?} is label {:?}", AnyExtension::from(x))); } }
        c.obs(&n);
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("control", "control extension data from every disposal method, user input, every transparent index and none, 7 delays", |c| {
        let d = c.choose(4) as u8;
        let u = c.flag();
        let t = c.choose(257);
        let t = (t < 256).then_some(t as u8);
        let delay = c.of(&[0u16, 1, 255, 256, 258, 0x8000, 65535]);
        match ExtensionData::new_control_ext(delay, DisposalMethod::from_u8(d).unwrap(), u, t) {
            ExtensionData::Control { flags, delay: l, trns } => {
                if l != delay || flags != d << 2 | if u { 2 } else { 0 } | u8::from(t.is_some()) || t.is_some_and(|t| t != trns) { return Err(format!("flags {flags:#x}, delay {l}, index {trns} for {d} {u} {t:?} {delay}")); }
            }
            _ => return Err("not a control extension".into()),
        }
        c.obs(&(d, u, t, delay));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("errors", "I/O errors of every kind, with and without a message, as decoding and encoding errors; every refusal of decoder and encoder has a text and a cause", |c| {
        use std::error::Error;
        let k = c.of(&ALL_KINDS);
        let custom = c.flag();
        let mk = || if custom { io::Error::new(k, "something") } else { io::Error::from(k) };
        let text = mk().to_string();
        let src = |e: &dyn Error| e.source().and_then(|s| s.downcast_ref::<io::Error>()).map(|s| (s.kind(), s.to_string()));
        let want = Some((k, text.clone()));
        let d = DecodingError::from(mk());
        if d.to_string() != text || src(&d) != want || !matches!(&d, DecodingError::Io(e) if e.kind() == k) { return Err(format!("{k:?} becomes {d:?}")); }
        let e = EncodingError::from(mk());
        if e.to_string() != text || src(&e) != want || !matches!(&e, EncodingError::Io(e) if e.kind() == k) { return Err(format!("{k:?} becomes {e:?}")); }
        let d = DecodingError::from(k);
        if class(&d) != ErrClass::Io(ErrKind(k)) { return Err(format!("{k:?} becomes {d:?}")); }
        c.obs(&(ErrKind(k), custom));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("refusals", "every reason of the encoder to refuse, made directly and by the call that is refused: text, cause, different texts for different reasons", |c| {
        use std::error::Error;
        use gif::EncodingFormatError::*;
        let mk = |i: usize| match i { 0 => TooManyColors, 1 => MissingColorPalette, _ => InvalidMinCodeSize };
        let i = c.choose(3);
        let e = match (c.flag(), i) {
            (false, i) => EncodingError::from(mk(i)),
            (true, 0) => gif::Encoder::new(io::sink(), 1, 1, &[7; 771]).err().ok_or("257 colours accepted")?,
            (true, 1) => {
                let mut en = gif::Encoder::new(io::sink(), 1, 1, &[]).map_err(|e| err("new", e))?;
                en.write_frame(&gif::Frame { width: 1, height: 1, buffer: vec![0].into(), ..gif::Frame::default() }).err().ok_or("a frame without any palette accepted")?
            }
            (true, _) => {
                let mut en = gif::Encoder::new(io::sink(), 1, 1, &[1, 2, 3]).map_err(|e| err("new", e))?;
                en.write_lzw_pre_encoded_frame(&gif::Frame { width: 1, height: 1, buffer: vec![77, 0].into(), ..gif::Frame::default() }).err().ok_or("code size 77 accepted")?
            }
        };
        let t = e.to_string();
        if t.is_empty() { return Err("an error without a text".into()); }
        for j in 0..3 {
            let f = mk(j);
            if (f.to_string() == t) != (i == j) { return Err(format!("reason {i} has the text {t:?}, reason {j} {f}")); }
        }
        if !matches!(&e, EncodingError::Format(f) if std::mem::discriminant(f) == std::mem::discriminant(&mk(i))) { return Err(format!("reason {i} is {e:?}")); }
        let s = e.source().ok_or(format!("{e:?} has no cause"))?;
        if s.to_string() != t { return Err(format!("{t:?} has the cause {s}")); }
        c.obs(&t);
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("messages", "every bad file of the corpus: the error has a text and, if it is about the format, can be taken apart", |c| {
        use std::error::Error;
        let b = c.pick(files_all());
        let o = PLAIN.with(c.choose(16));
        let e = match o.build().read_info(&b[..]) {
            Err(e) => Some(e),
            Ok(mut d) => loop { match d.read_next_frame() { Ok(Some(_)) => {}, Ok(None) => break None, Err(e) => break Some(e) } },
        };
        if let Some(e) = e {
            let t = e.to_string();
            if t.is_empty() || format!("{e:?}").is_empty() { return Err("an error without a text".into()); }
            if e.source().map(|s| s.to_string()) != Some(t.clone()) { return Err(format!("{t:?} has the cause {:?}", e.source())); }
            if let DecodingError::Format(f) = e {
                let f2: DecodingError = f.into();
                if f2.to_string() != t || class(&f2) != ErrClass::Format { return Err(format!("{t:?} becomes {f2:?}")); }
            }
            c.outcome("error");
            c.obs(&t);
        } else { c.outcome("no error"); }
        c.validated(1);
        Ok(())
    }));
    v
}
