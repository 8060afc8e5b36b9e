//! C33: frames come as soon as their data is there, and what an encoder call wrote has left the encoder.
use super::dec_hist::{bulk_files, files_all, hist_files, long_files};
use super::*;
use crate::drive::*;
use crate::engine::Exploration;
use crate::genr::*;
use crate::lzw::{self, STD};
use crate::model::{self, Stop};
use crate::{CheckInfo, Tier};
use std::cell::Cell;
use std::io::{self, ErrorKind, Read};

pub fn checks() -> Vec<CheckInfo> {
    vec![CheckInfo { id: "C33", level: "model_checking", rule: "every execution lets one file arrive in stages, asks at each stage for what is complete, and notices any read call for more", assumptions: &["opening may need the descriptor of the first image, and the metadata of an image the first byte of its compressed data"], build: c33 }]
}

/// A reader to which data arrives up to a limit.
struct Line<'a> { data: &'a [u8], pos: usize, chunk: usize, here: &'a Cell<usize>, asked: &'a Cell<bool> }
impl Read for Line<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let end = self.here.get().min(self.data.len());
        if self.pos >= end { self.asked.set(true); return Err(ErrorKind::WouldBlock.into()); }
        let n = (end - self.pos).min(self.chunk).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way { Next, Into, Fill(usize), Info, Part(usize), Iter }
const WAYS: [Way; 6] = [Way::Next, Way::Into, Way::Fill(3), Way::Info, Way::Part(2), Way::Iter];

/// Offsets by which everything needed is there: opening; for each frame its metadata and its pixels; the end.
struct Stages { open: usize, frames: Vec<(usize, usize)>, end: Option<usize> }
fn stages(g: &model::RGif) -> Option<Stages> {
    let end = match g.stop { Stop::Trailer(p) => Some(p), _ => None };
    let frames: Vec<_> = g.frames.iter().map(|f| (f.start + 10 + f.meta.palette.as_ref().map_or(0, |p| p.len()) + 2, f.end)).collect();
    let open = g.frames.first().map(|f| f.start + 10).or(end)?;
    Some(Stages { open, frames, end })
}

fn live(c: &Ctx, b: &[u8], o: &Opts, chunk: usize, way: impl Fn(usize) -> Way) -> Res {
    let e = expect(b, o);
    let Some(s) = stages(&e.gif) else { c.outcome("nothing to open"); return Ok(()) };
    c.note("file", || hex(b));
    c.note("options", || format!("{o:?}, pieces of {chunk}"));
    let (here, asked) = (Cell::new(s.open), Cell::new(false));
    let late = |what: &str| -> Res { if asked.get() { Err(format!("{what} asked for more than the {} bytes it needs", here.get())) } else { Ok(()) } };
    let r = o.build().read_info(Line { data: b, pos: 0, chunk, here: &here, asked: &asked });
    late("opening")?;
    let mut d = r.map_err(|e| err("open", e))?;
    check_header(&hdr_of(&d), &e.gif)?;
    let n = e.broken.unwrap_or(e.frames.len());
    if n > 0 && way(0) == Way::Iter {
        let mut it = d.into_iter();
        for i in 0..n {
            here.set(s.frames[i].1);
            let r = it.next();
            late(&format!("frame {i} of the iterator"))?;
            let f = r.ok_or_else(|| format!("no frame {i}"))?.map_err(|e| err(&format!("frame {i}"), e))?;
            if (meta_of(&f), f.buffer.to_vec()) != e.frames[i] { return Err(format!("frame {i} differs")); }
        }
        if let (None, Some(p)) = (e.broken, s.end) {
            here.set(p);
            let r = it.next();
            late("the end")?;
            if r.is_some() { return Err("more frames".into()); }
        }
        c.validated(1);
        return Ok(());
    }
    for i in 0..n {
        let w = way(i);
        let what = || format!("frame {i} ({w:?})");
        if w == Way::Next || w == Way::Iter || o.skip && w != Way::Info {
            here.set(s.frames[i].1);
            let r = read_frame(&mut d, o, &Style::Next)?;
            late(&what())?;
            let f = r.map_err(|e| err(&what(), e))?.ok_or_else(|| format!("no {}", what()))?;
            if f != e.frames[i] { return Err(format!("{}: {:?} instead of {:?}", what(), f.0, e.frames[i].0)); }
            continue;
        }
        here.set(s.frames[i].0);
        let r = d.next_frame_info().map(|f| f.map(meta_of));
        late(&format!("metadata of {}", what()))?;
        let m = r.map_err(|e| err(&what(), e))?.ok_or_else(|| format!("no {}", what()))?;
        if m != e.gif.frames[i].meta { return Err(format!("{}: metadata {m:?}", what())); }
        here.set(s.frames[i].1);
        let mut want = e.frames[i].1.clone();
        let bpp = o.bpp();
        if matches!(w, Way::Fill(_) | Way::Part(_)) {
            let p = m.palette.as_deref().or(e.gif.gpal.as_deref()).unwrap_or(&[]);
            want = e.gif.frames[i].stored().unwrap_or_default();
            if o.rgba { want = model::rgba(&want, p, m.transparent); }
        }
        let mut buf = vec![STALE; want.len()];
        match w {
            Way::Into => { let r = d.read_into_buffer(&mut buf); late(&what())?; r.map_err(|e| err(&what(), e))?; }
            Way::Fill(k) => for x in buf.chunks_mut(k * bpp) {
                let r = d.fill_buffer(x);
                late(&what())?;
                if !r.map_err(|e| err(&what(), e))? { return Err(format!("{}: fill_buffer returned false", what())); }
            },
            Way::Part(k) => {
                let k = (k * bpp).min(buf.len());
                let r = d.fill_buffer(&mut buf[..k]);
                late(&what())?;
                if !r.map_err(|e| err(&what(), e))? { return Err(format!("{}: fill_buffer returned false", what())); }
                buf.truncate(k);
                want.truncate(k);
            }
            _ => continue,
        }
        settle(&mut buf, o.rgba);
        if buf != want { return Err(diff(&what(), &buf, &want)); }
    }
    if let (None, Some(p)) = (e.broken, s.end) {
        here.set(p);
        for _ in 0..2 {
            let r = d.next_frame_info().map(|f| f.is_some());
            late("the end")?;
            if r.map_err(|e| err("the end", e))? { return Err("more frames".into()); }
        }
    }
    c.obs(&(n, chunk));
    c.steps(2 * n as u64 + 2);
    c.validated(1);
    Ok(())
}

/// Reads some frames and takes the reader back: it must continue in the file, not behind what was asked for.
fn given_back(c: &Ctx, b: &[u8], o: &Opts, chunk: usize, style: &Style, frames: usize, half: bool) -> Res {
    let e = expect(b, o);
    let Some(s) = stages(&e.gif) else { c.outcome("nothing to open"); return Ok(()) };
    let n = e.broken.unwrap_or(e.frames.len());
    if frames > n || half && (frames == n || matches!(style, Style::Iter)) { c.outcome("not applicable"); return Ok(()); }
    c.note("file", || hex(b));
    c.note("calls", || format!("{o:?}, pieces of {chunk}, {frames} frames by {style:?}, then metadata of the next: {half}"));
    let (here, asked) = (Cell::new(b.len()), Cell::new(false));
    let r = Line { data: b, pos: 0, chunk, here: &here, asked: &asked };
    let mut d = o.build().read_info(r).map_err(|e| err("open", e))?;
    let bytes = |r: io::BufReader<Line<'_>>| { let mut v = r.buffer().to_vec(); let l = r.into_inner(); v.extend(&l.data[l.pos..]); v };
    let got = if let Style::Iter = style {
        let mut it = d.into_iter();
        for i in 0..frames {
            let f = it.next().ok_or("no frame")?.map_err(|e| err("frame", e))?;
            if (meta_of(&f), f.buffer.to_vec()) != e.frames[i] { return Err(format!("frame {i} differs")); }
        }
        bytes(it.into_inner())
    } else {
        for i in 0..frames {
            let f = read_frame(&mut d, o, style)?.map_err(|e| err("frame", e))?.ok_or("no frame")?;
            if f != e.frames[i] { return Err(format!("frame {i} differs")); }
        }
        if half { d.next_frame_info().map_err(|e| err("metadata", e))?.ok_or("no metadata")?; }
        bytes(d.into_inner())
    };
    let (from, to) = match (frames, half) {
        (0, false) => (6.min(s.open), s.open),
        (k, false) => (s.frames[k - 1].0 - 1, s.frames[k - 1].1),
        (k, true) => (s.frames[k].0 - 1, s.frames[k].0),
    };
    if !b.ends_with(&got) { return Err("the reader given back does not continue in the file".into()); }
    let at = b.len() - got.len();
    if at < from || at > to { return Err(format!("the reader given back is at byte {at}, not at {from} to {to}")); }
    c.obs(&(frames, half, at));
    c.steps(frames as u64 + 2);
    c.validated(1);
    Ok(())
}

fn c33(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("given-back", "every seed, history and larger file x 65 option sets x 5 styles x pieces: after every number of frames up to 6 (with or without the metadata of the next) the reader is taken back", |c| {
        let b = c.pick(files_all());
        let k = c.choose(1 + SETS);
        let o = if k == 0 { PLAIN.skip().unknown() } else { PLAIN.with(k - 1) };
        if !applies(b, &o) || expect(b, &o).gif.frames.iter().any(|f| f.area() * o.bpp() > 1 << 16) { c.outcome("not applicable"); return Ok(()); }
        let chunk = c.of(&[usize::MAX, 1, 7, 40]);
        let style = c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Fill(vec![3]), Style::Fill(vec![1])]).clone();
        let n = c.choose(7);
        given_back(c, b, &o, chunk, &style, n, c.choose(2) == 1)
    }));
    v.push(Exploration::new("given-back-pairs", "every pair out of a pool of 144 images: after no, one and two frames, with or without the next metadata; styles, options and pieces in turns", |c| {
        let b = pick_pool(c);
        let n = c.choose(3);
        let k = b.len() + n;
        let o = [PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.unknown()][k % 4].clone();
        let style = &[Style::Next, Style::Iter, Style::Into(0), Style::Fill(vec![3])][k / 4 % 4];
        given_back(c, &b, &o, [usize::MAX, 1, 11][k % 3], style, n, c.choose(2) == 1)
    }));
    v.push(Exploration::new("stages", "every seed, history and larger file x 65 option sets x 6 ways of reading x pieces of 1, 2, 3, 7, 40 bytes and whole", |c| {
        let b = c.pick(files_all());
        let k = c.choose(1 + SETS);
        let o = if k == 0 { PLAIN.skip().unknown() } else { PLAIN.with(k - 1) };
        if !applies(b, &o) || expect(b, &o).gif.frames.iter().any(|f| f.area() * o.bpp() > 1 << 16) { c.outcome("not applicable"); return Ok(()); }
        let chunk = c.of(&[usize::MAX, 1, 2, 3, 7, 40]);
        let w = c.of(&WAYS);
        live(c, b, &o, chunk, |_| w)
    }));
    v.push(Exploration::new("histories", "4 frames in 3 files: every way for every frame, indexed, RGBA and raw, whole and in pieces of 1", |c| {
        let b = c.pick(hist_files());
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip()]).clone();
        let chunk = c.of(&[usize::MAX, 1]);
        let ways: Vec<Way> = (0..6).map(|_| c.of(&WAYS[..5])).collect();
        live(c, b, &o, chunk, |i| ways[i % 6])
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images, with one of 2 global palettes or none; whole or in pieces of 1, 5, 300 bytes; ways of reading and options in turns (thorough: every way)", move |c| {
        let b = pick_pool(c);
        let chunk = c.of(&[usize::MAX, 1, 5, 300]);
        let k = if t.t() { c.choose(6) } else { b.len() };
        let o = [PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.unknown()][(b.len() + chunk % 7) % 4].clone();
        live(c, &b, &o, chunk, |i| WAYS[(k + i) % 6])
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file with 24 lists of extensions x 11 things behind the trailer x one or two images, whole and in pieces of 1", |c| {
        let (k, b) = pick_head(c);
        let chunk = c.of(&[usize::MAX, 1]);
        live(c, &b, &[PLAIN, PLAIN.rgba(), PLAIN.skip()][k % 3], chunk, |i| WAYS[(k + i) % 6])
    }));
    v.push(Exploration::new("contexts", &format!("{COMBOS}; ways, options and pieces in turns"), |c| {
        let (k, b, ok) = pick_combo(c);
        if !ok { c.outcome("not applicable"); return Ok(()); }
        live(c, &b, &[PLAIN, PLAIN.rgba(), PLAIN.skip()][k % 3], [usize::MAX, 1, 11][k / 3 % 3], |i| WAYS[(k + i) % 6])
    }));
    v.push(Exploration::new("lengths", "image data of every length 0 to 800 bytes (thorough 3000) behind the pixels, sub-blocks of 255, 254, 7 and 1, and with the end code in a sub-block of its own: frame and next frame", move |c| {
        let n = c.choose(t.sel(801, 3001));
        let split = c.of(&[Split::Max, Split::Each(254), Split::Each(7), Split::Each(1), Split::EndAlone]);
        let w = c.of(&WAYS);
        let chunk = c.of(&[usize::MAX, 1]);
        let (px, extra) = if n % 2 == 0 { (n, 0) } else { (n / 2, n / 2) };
        let mut d = lzw::encode(8, &pattern(px, 8, 3), STD);
        d.extend(std::iter::repeat(0xA5).take(extra));
        let b = File::new(1, 1, Some(&pal(4, 1))).img(&Img::raw(px as u16, 1, 8, d).split(split)).ext(0xFE, &[b"x"]).img(&Img::pat(2, 2, 2, 1)).end();
        live(c, &b, &[PLAIN, PLAIN.endcode(), PLAIN.skip()][n % 3], chunk, |_| w)
    }));
    v.push(Exploration::new("long", "files of 40 and 300 frames and larger images: every pattern of 1 to 2 ways, indexed, RGBA and raw, whole and in pieces of 9 bytes", |c| {
        let files: Vec<&Vec<u8>> = long_files().iter().chain(bulk_files()).collect();
        let b = *c.pick(&files);
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip()]).clone();
        let chunk = c.of(&[usize::MAX, 9]);
        let (x, y) = (c.of(&WAYS), c.of(&WAYS[..5]));
        live(c, b, &o, chunk, |i| if i % 2 == 0 { x } else { y })
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: ways in turns"), |c| {
        let (k, b) = pick_count(c);
        live(c, &b, &[PLAIN.unknown(), roomy_rgba()][k % 2], [usize::MAX, 4096][k / 2 % 2], |i| WAYS[(k + i) % 5])
    }));
    v.push(Exploration::new("extensions", "one to three extensions or unknown blocks of every length 0 to 300 and 510 to 520 in front of an image, between images and in front of the trailer: opening, metadata and end", |c| {
        let n = c.choose(311);
        let n = if n > 300 { n + 209 } else { n };
        let kind = c.choose(4);
        let times = c.range(1, 3);
        let d = pattern(n, 8, 5);
        let bl: Vec<&[u8]> = d.chunks(255).collect();
        let some = |mut f: File| { for _ in 0..times { f = match kind { 0 => f.ext(0xFE, &bl), 1 => f.ext(0xFF, &bl), 2 => f.ext(0x01, &bl), _ => f.unknown(0x42, &bl) }; } f };
        let f = some(File::new(3, 3, Some(&pal(4, 1)))).img(&Img::pat(2, 2, 2, 1));
        let b = some(some(f).img(&Img::pat(1, 3, 2, 1))).end();
        let w = c.of(&WAYS);
        live(c, &b, &PLAIN.unknown(), c.of(&[usize::MAX, 1]), |_| w)
    }));
    v.extend(super::enc::passed_on(t));
    v
}
