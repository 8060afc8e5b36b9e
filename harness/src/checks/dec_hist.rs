//! C08 skipping, C09 raw LZW frames, C10 truncation, C12 end codes, C26 isolation.
use super::dec_px::{frame_dec, lzw_frame};
use super::*;
use crate::drive::*;
use crate::engine::{hash_of, Exploration};
use crate::genr::*;
use crate::lzw::{self, Strat, STD};
use crate::model::{self, Meta, Stop};
use crate::{CheckInfo, Tier};
use gif::{Encoder, Frame};
use std::borrow::Cow;
use std::io::Read;

pub fn checks() -> Vec<CheckInfo> {
    vec![
        CheckInfo { id: "C08", level: "model_checking", rule: "every execution applies one action per frame and compares metadata and pixels of every frame with the reference", assumptions: &[], build: c08 },
        CheckInfo { id: "C09", level: "model_checking", rule: "every execution reads a file raw, decodes the raw frames with the frame decoder, writes them back and decodes again", assumptions: &["minimum code size 1 (accepted when reading, not writable) is left out"], build: c09 },
        CheckInfo { id: "C10", level: "fault_enumeration", rule: "one evaluation decodes one file cut at one byte in one style; non-trivial when the cut lies behind the header, distinct by file, cut and result", assumptions: &["whether an image whose data ends at the cut is delivered is not specified, only that nothing wrong is delivered"], build: c10 },
        CheckInfo { id: "C12", level: "model_checking", rule: "every execution decodes a file under a history of per-frame actions with the end code check on and compares with the reference and with the check off", assumptions: &["the frame decoder's behaviour on missing end codes behind complete pixels is not specified"], build: c12 },
        CheckInfo { id: "C26", level: "model_checking", rule: "every execution interleaves the calls of two objects or reuses one object for a sequence of frames and compares with fresh objects", assumptions: &["the crate has no threads; interleavings of calls on one thread cover shared state between objects"], build: c26 },
    ]
}

/// What can be done with a frame.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act { Skip, Part(usize), Full(usize), Past, Into, Next, TooSmall }

/// Applies an action to the next frame. Ok(None): no more frames.
/// The result holds what was learnt: metadata and the pixels read so far (stored order if `true`).
pub struct Got { pub meta: Meta, pub px: Vec<u8>, pub stored_order: bool, pub complete: bool, pub past: Option<bool>, pub failed: Option<ErrClass> }
pub fn act<R: Read>(d: &mut gif::Decoder<R>, o: &Opts, a: Act) -> Result<Result<Option<Got>, ErrClass>, String> {
    if a == Act::Next {
        return Ok(match d.read_next_frame() {
            Ok(Some(f)) => Ok(Some(Got { meta: meta_of(f), px: f.buffer.to_vec(), stored_order: false, complete: true, past: None, failed: None })),
            Ok(None) => Ok(None),
            Err(e) => Err(class(&e)),
        });
    }
    let m = match d.next_frame_info() {
        Ok(Some(f)) => meta_of(f),
        Ok(None) => return Ok(Ok(None)),
        Err(e) => return Ok(Err(class(&e))),
    };
    let n = m.w as usize * m.h as usize;
    let bpp = o.bpp();
    let mut g = Got { meta: m, px: vec![], stored_order: true, complete: false, past: None, failed: None };
    match a {
        Act::Skip => {}
        Act::Part(k) => {
            let k = if n == 0 { 0 } else { k.min(n) };
            let mut b = vec![STALE; k * bpp];
            match d.fill_buffer(&mut b) {
                Ok(true) => { settle(&mut b, o.rgba); g.px = b }
                Ok(false) => g.failed = Some(ErrClass::Format),
                Err(e) => g.failed = Some(class(&e)),
            }
        }
        Act::Full(k) => {
            let mut b = vec![STALE; n * bpp];
            for x in b.chunks_mut(k * bpp) {
                match d.fill_buffer(x) { Ok(true) => {}, Ok(false) => { g.failed = Some(ErrClass::Format); break }, Err(e) => { g.failed = Some(class(&e)); break } }
            }
            if g.failed.is_none() { settle(&mut b, o.rgba); g.px = b; g.complete = true; }
        }
        Act::Past => {
            let mut b = vec![STALE; (n + 3) * bpp];
            match d.fill_buffer(&mut b) {
                Ok(r) => { b.truncate(n * bpp); settle(&mut b, o.rgba); g.px = b; g.complete = true; g.past = Some(r) }
                Err(e) => g.failed = Some(class(&e)),
            }
        }
        Act::Into => {
            let mut b = vec![STALE; n * bpp + 2];
            match d.read_into_buffer(&mut b) {
                Ok(()) => { b.truncate(n * bpp); settle(&mut b, o.rgba); g.px = b; g.complete = true; g.stored_order = false }
                Err(e) => g.failed = Some(class(&e)),
            }
        }
        Act::TooSmall => {
            if n > 0 {
                let mut b = vec![0; n * bpp - 1];
                match d.read_into_buffer(&mut b) { Ok(()) => return Err("read into a buffer that is too small".into()), Err(_) => {} }
            }
        }
        Act::Next => unreachable!(),
    }
    Ok(Ok(Some(g)))
}
/// Compares what an action learnt with the reference frame.
pub fn check_got(i: usize, a: Act, g: &Got, f: &model::RFrame, o: &Opts, gpal: Option<&[u8]>) -> Res {
    let mut m = f.meta.clone();
    if a == Act::Next && !o.skip { m.interlaced = false; }
    if g.meta != m { return Err(format!("frame {i} ({a:?}): metadata {:?} instead of {m:?}", g.meta)); }
    if !o.skip && f.stored().is_none() {
        if g.complete && g.past != Some(false) { return Err(format!("frame {i} ({a:?}): pixels made up")); }
        if let Act::Part(_) = a {
            // as many pixels as there are
            let l = f.lzw().pixels;
            let l = if o.rgba { model::rgba(&l, f.meta.palette.as_deref().or(gpal).unwrap_or(&[]), f.meta.transparent) } else { l };
            if g.px.len() > l.len() || g.px[..] != l[..g.px.len()] { return Err(format!("frame {i} ({a:?}): pixels {} of {}", hex(&g.px), hex(&l))); }
        }
        return Ok(());
    }
    if let Some(e) = g.failed { return Err(format!("frame {i} ({a:?}): error {e:?}")); }
    if o.skip {
        if a == Act::Next {
            let want = [&[f.mcs][..], &f.data].concat();
            if g.px != want { return Err(diff(&format!("frame {i} ({a:?})"), &g.px, &want)); }
        }
        return Ok(());
    }
    if g.past == Some(true) && f.lzw().pixels.len() <= f.area() { return Err(format!("frame {i} ({a:?}): fill_buffer filled more than the image")); }
    let Some(px) = (if g.stored_order { f.stored() } else { f.pixels() }) else { return Ok(()) };
    let px = if o.rgba { model::rgba(&px, f.meta.palette.as_deref().or(gpal).unwrap_or(&[]), f.meta.transparent) } else { px };
    if g.complete && g.px.len() != px.len() { return Err(format!("frame {i} ({a:?}): {} bytes instead of {}", g.px.len(), px.len())); }
    if g.px[..] != px[..g.px.len()] { return Err(diff(&format!("frame {i} ({a:?})"), &g.px, &px[..g.px.len()])); }
    Ok(())
}

pub fn hist_files() -> &'static [Vec<u8>] {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(make_hist_files)
}
fn make_hist_files() -> Vec<Vec<u8>> {
    let g = pal(4, 1);
    let nc = Strat { end: false, ..STD };
    let lit = Strat { literal: true, clear_every: 3, clears: 2, ..STD };
    vec![
        // palettes, interlacing, control extensions, different code sizes
        File::new(60, 60, Some(&g)).gce(1, 5, 1).img(&Img::pat(5, 9, 2, 1).il()).img(&Img::pat(3, 3, 3, 2).pal(pal(8, 9)).split(Split::Each(2)))
            .ext(0xFE, &[b"x"]).gce(0x0E, 6, 1).img(&Img::pat(1, 1, 2, 3)).img(&Img::pat(4, 5, 8, 4).il().pal(pal(4, 77)).split(Split::EndAlone)).end(),
        // more data than pixels, one large sub-block sequence, an empty frame
        File::new(60, 60, Some(&g)).img(&Img::raw(2, 2, 2, lzw::encode(2, &pattern(400, 2, 3), STD)).split(Split::Each(5))).gce(1, 2, 3).img(&Img::pat(0, 0, 2, 1))
            .gce(5, 3, 2).img(&Img::pat(40, 40, 4, 7)).img(&Img::pat(2, 3, 2, 8)).end(),
        // no end codes, many clear codes, runs
        File::new(60, 60, Some(&g)).img(&Img::raw(3, 3, 2, lzw::encode(2, &pattern(9, 2, 10), nc))).img(&Img::raw(4, 4, 2, lzw::encode(2, &pattern(16, 2, 11), lit)).split(Split::Each(1)))
            .gce(1, 9, 2).img(&Img::px(50, 20, 2, &[1; 1000]).split(Split::Each(3))).img(&Img::raw(3, 1, 3, lzw::encode(3, &[7, 6, 5], nc)).il()).end(),
    ]
}
/// Larger files: full palettes of several sizes, image data and extensions beyond the internal buffers.
pub fn bulk_files() -> &'static [Vec<u8>] {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let g = pal(256, 2);
        let nc = Strat { end: false, ..STD };
        let big = pattern(9000, 8, 5);
        let blocks: Vec<&[u8]> = big.chunks(255).collect();
        vec![
            File::new(60, 60, Some(&g)).gce(1, 2, 3).img(&Img::pat(3, 3, 8, 1).pal(pal(256, 7))).img(&Img::pat(4, 2, 8, 2)).img(&Img::pat(2, 2, 2, 3).pal(pal(128, 9)).il()).end(),
            File::new(60, 60, None).img(&Img::pat(3, 3, 4, 1).pal(pal(64, 7))).gce(9, 1, 1).img(&Img::pat(4, 2, 5, 2).pal(pal(32, 3))).img(&Img::pat(2, 2, 2, 3).pal(pal(16, 9)).il()).end(),
            File::new(200, 200, Some(&pal(64, 3))).img(&Img::pat(120, 100, 8, 1).il()).ext(0xFE, &blocks).gce(5, 6, 7).img(&Img::raw(90, 60, 6, lzw::encode(6, &pattern(5400, 6, 3), nc)).split(Split::Each(7))).img(&Img::pat(3, 3, 2, 3)).end(),
        ]
    })
}
/// 40 and 300 frames
pub fn long_files() -> &'static [Vec<u8>] {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(|| [40usize, 300].iter().map(|&n| {
        let mut f = File::new(60, 60, Some(&pal(8, 1))).netscape(n as u16);
        for i in 0..n {
            let mcs = 2 + (i % 7) as u8;
            let mut m = Img::pat(1 + (i * 5 % 11) as u16, 1 + (i * 3 % 13) as u16, mcs, i as u8).at((i % 30) as u16, (i % 17) as u16);
            if i % 3 == 1 { m = m.il(); }
            if i % 4 == 2 { m = m.pal(pal(2 << (i % 8), i as u8)); }
            if i % 5 == 3 { m = m.split(Split::Each(1 + i % 9)); }
            if i % 6 == 4 { f = f.gce((i % 32) as u8, i as u16 * 77, i as u8); }
            if i % 11 == 5 { f = f.ext(0xFE, &[&[i as u8; 9]]); }
            f = f.img(&m);
        }
        f.end()
    }).collect())
}
fn parsed_long(b: &[u8]) -> &'static model::RGif {
    static S: std::sync::OnceLock<Vec<(usize, model::RGif)>> = std::sync::OnceLock::new();
    &S.get_or_init(|| long_files().iter().map(|b| (b.len(), model::parse(b, &PLAIN.ropts()))).collect()).iter().find(|x| x.0 == b.len()).unwrap().1
}
/// all seeds (good and bad) and the history files
pub fn files_all() -> &'static [Vec<u8>] {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(|| seeds().iter().map(|x| x.1.clone()).chain(hist_files().iter().cloned()).chain(bulk_files().iter().cloned()).collect())
}
pub fn files_good() -> &'static [Vec<u8>] {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(|| good_seeds().iter().map(|x| x.1.clone()).chain(hist_files().iter().cloned()).chain(bulk_files().iter().cloned()).collect())
}
const ACTS: [Act; 9] = [Act::Next, Act::Skip, Act::Part(1), Act::Part(4), Act::Full(1), Act::Full(1000), Act::Past, Act::Into, Act::TooSmall];

fn c08(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("histories", "3 files of 4 frames: every sequence of 9 actions per frame (read, skip, part, all in pieces, past the end, read_into_buffer, too small buffer) = 6561 histories each, indexed and RGBA", |c| {
        let b = c.pick(hist_files()).clone();
        let o = c.pick(&[PLAIN, PLAIN.rgba()]).clone();
        run_history(c, &b, &o, &ACTS, None)
    }));
    v.push(Exploration::new("histories-delivery", "the same with a reduced set of actions, delivered in chunks of 1, 2, 3, 5 and 7 bytes", |c| {
        let b = c.pick(hist_files()).clone();
        let o = c.pick(&[PLAIN, PLAIN.rgba()]).clone();
        let k = c.of(&[1, 2, 3, 5, 7]);
        run_history(c, &b, &o, &[Act::Next, Act::Skip, Act::Part(3), Act::Past], Some(k))
    }));
    v.push(Exploration::new("raw-histories", "frame decoding skipped: read or skip for each of 4 frames, 3 files, whole and byte by byte", |c| {
        let b = c.pick(hist_files()).clone();
        let k = c.of(&[None, Some(1), Some(3)]);
        run_history(c, &b, &PLAIN.skip(), &[Act::Next, Act::Skip], k)
    }));
    let k = t.sel(1, 2);
    v.push(Exploration::new("seeds", "every good seed file, every sequence of actions for up to 3 frames", move |c| {
        let (_, b) = c.pick(good_seeds()).clone();
        let o = c.pick(&[PLAIN, PLAIN.rgba()]).clone();
        run_history(c, &b, &o, &ACTS, None)
    }));
    v.push(Exploration::new("broken-frames", "files of 4 frames, the first three out of 8 (short, undefined code, without data, complete; interlaced and not; of the same and of different heights) and an interlaced one last: 6 actions on each: broken images may fail, all others are as before and none is lost", move |c| {
        let g = pal(4, 1);
        let nc = Strat { end: false, ..STD };
        let short = |w: u16, h: u16, n, s| Img::raw(w, h, 2, lzw::encode(2, &pattern(n, 2, 4), s));
        let imgs = [
            short(2, 9, 7, STD).il(), short(2, 9, 13, nc).il().split(Split::Each(1)), short(3, 5, 1, STD), Img::raw(2, 9, 2, lzw::pack(2, &[4, 1, 2, 3, 0, 0, 11, 5])).il(),
            Img::raw(3, 3, 2, lzw::pack(2, &[4, 1, 7, 7])), Img::raw(2, 9, 2, vec![]).il(), Img::pat(2, 9, 2, 7).il().pal(pal(8, 3)), Img::pat(3, 5, 2, 8),
        ];
        let mut f = File::new(9, 9, Some(&g));
        for k in 0..3 {
            let i = c.choose(imgs.len());
            if (k + i) % 2 == 0 { f = f.gce(1, i as u16 + 1, 2); }
            f = f.img(&imgs[i]);
        }
        let b = f.img(&Img::pat(2, 9, 2, 1).il()).end();
        let o = c.pick(&[PLAIN, PLAIN.rgba()]).clone();
        run_history(c, &b, &o, if t.t() { &ACTS } else { &[Act::Next, Act::Skip, Act::Part(3), Act::Full(1), Act::Past, Act::Into] }, c.of(&[None, Some(1)]))
    }));
    v.push(Exploration::new("options", "the 3 files and 3 larger ones, 5 actions per frame, under each of 64 sets of other options (RGBA, consistency, unknown blocks, end codes, memory limits)", move |c| {
        let b = if c.flag() { c.pick(hist_files()) } else { c.pick(bulk_files()) }.clone();
        let o = PLAIN.with(c.choose(SETS));
        if !applies(&b, &o) { return Ok(()); }
        run_history(c, &b, &o, &[Act::Next, Act::Skip, Act::Part(3), Act::Past, Act::Into], None)
    }));
    v.push(Exploration::new("long", "files of 40 and 300 frames of changing size, palette, code size and interlacing: every repeating pattern of 1 to 3 out of 7 actions, indexed and RGBA, whole and in pieces of 9 bytes", move |c| {
        let b = c.pick(long_files());
        let o = c.pick(&[PLAIN, PLAIN.rgba()]).clone();
        let k = c.of(&[usize::MAX, 9]);
        let n = c.range(1, 3);
        let acts: Vec<Act> = (0..n).map(|_| c.of(&[Act::Next, Act::Skip, Act::Part(1), Act::Part(5), Act::Past, Act::Into, Act::TooSmall])).collect();
        c.note("actions", || format!("{acts:?} repeated"));
        let g = parsed_long(b);
        let mut d = o.build().read_info(Script::new(b, move |_, _| Ans::Give(k))).map_err(|e| err("open", e))?;
        for (i, f) in g.frames.iter().enumerate() {
            let a = acts[i % n];
            match act(&mut d, &o, a)? {
                Ok(Some(x)) => check_got(i, a, &x, f, &o, g.gpal.as_deref())?,
                x => return Err(format!("frame {i} ({a:?}): {:?}", x.map(|_| "end"))),
            }
        }
        match d.next_frame_info() { Ok(None) => {}, x => return Err(format!("{x:?} at the end")) }
        c.obs(&(b.len(), n));
        c.steps(g.frames.len() as u64);
        c.validated(1);
        Ok(())
    }));
    let max = t.sel(24, 2000);
    v.push(Exploration::new("part-sizes", "each of 3 files: the first frames read up to every pixel count, then the rest", move |c| {
        let b = c.pick(hist_files()).clone();
        let o = c.pick(&[PLAIN, PLAIN.rgba()]).clone();
        let skip = c.choose(4);
        let n = c.choose(max);
        let mut acts = vec![Act::Skip; skip];
        acts.push(Act::Part(n));
        acts.push(Act::Next);
        acts.push(Act::Next);
        acts.push(Act::Next);
        fixed_history(c, &b, &o, &acts)
    }));
    let _ = k;
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images (sizes, interlacing, palettes, code sizes, contents, sub-blocks, control extensions), the first one treated in each of 9 ways, then a third image, indexed and RGBA", |c| {
        let p = pool();
        let f = File::new(9, 9, Some(&pal(4, 1)));
        let b = with_pics(f, &[c.pick(p), c.pick(p), &(None, Img::pat(3, 3, 2, 1))]).end();
        let a = c.of(&ACTS);
        let o = if c.flag() { PLAIN.rgba() } else { PLAIN };
        fixed_history(c, &b, &o, &[a, Act::Next, Act::Next])
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; 9 actions on the first, then read or skip", |c| {
        let (k, b) = pick_head(c);
        let o = if k % 2 == 0 { PLAIN.rgba() } else { PLAIN };
        fixed_history(c, &b, &o, &[c.of(&ACTS), c.of(&[Act::Next, Act::Skip]), Act::Next])
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: every repeating pattern of 1 or 2 out of 4 actions"), |c| {
        let (k, b) = pick_count(c);
        let o = if k % 2 == 0 { PLAIN.unknown() } else { roomy_rgba() };
        let n = c.range(1, 2);
        let acts: Vec<Act> = (0..n).map(|_| c.of(if n == 1 { &[Act::Skip, Act::Next, Act::Part(1), Act::Into][..] } else { &[Act::Skip, Act::Part(1)] })).collect();
        let m = model::parse(&b, &o.ropts()).frames.len();
        let acts: Vec<Act> = (0..=m).map(|i| if i == m { Act::Skip } else { acts[i % n] }).collect();
        fixed_history(c, &b, &o, &acts)
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: the image skipped, read in part or read, the one after read"), |c| {
        let (k, b, sound) = pick_combo(c);
        let n = model::parse(&b, &PLAIN.ropts()).frames.len();
        if !sound { c.outcome("left out"); return Ok(()); }
        let a = c.of(&[Act::Skip, Act::Part(1), Act::Part(9), Act::Next]);
        let acts: Vec<Act> = (0..=n).map(|i| if i + 1 == n { Act::Next } else { a }).collect();
        fixed_history(c, &b, &[PLAIN, PLAIN.rgba()][k % 2], &acts)
    }));
    v.push(Exploration::new("adaptors", "every good seed file through the iterator by every sequence of 3 out of 9 calls (next, nth, take, skip, step_by, size_hint, find), then collected, counted, the last one asked for or the reader recovered, 4 option sets: the same as calling next", |c| {
        let (_, b) = c.pick(good_seeds()).clone();
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.endcode()]).clone();
        if !applies(&b, &o) { return Ok(()); }
        c.note("file", || hex(&b));
        let all: Vec<(Meta, Vec<u8>)> = expect(&b, &o).frames;
        let mut it = o.build().read_info(&b[..]).map_err(|e| err("open", e))?.into_iter();
        let mut p = 0usize;
        let mut calls = vec![];
        type F = Option<Result<gif::Frame<'static>, gif::DecodingError>>;
        let same = |x: F, want: Option<&(Meta, Vec<u8>)>, what: &str| -> Res {
            match (x, want) {
                (None, None) => Ok(()),
                (Some(Ok(f)), Some(w)) if meta_of(&f) == w.0 && f.buffer[..] == w.1 => Ok(()),
                (x, w) => Err(format!("{what}: {x:?} instead of {w:?}").chars().take(1500).collect()),
            }
        };
        for _ in 0..3 {
            let k = c.choose(9);
            calls.push(k);
            match k {
                0 => { same(it.next(), all.get(p), "next")?; p += 1 }
                1..=3 => { same(it.nth(k - 1), all.get(p + k - 1), "nth")?; p += k }
                4 => { let x: Vec<_> = it.by_ref().take(2).collect(); if x.len() != all.len().saturating_sub(p).min(2) { return Err(format!("take(2) gives {}", x.len())); } for y in x { same(Some(y), all.get(p), "take")?; p += 1 } }
                5 => { same(it.by_ref().skip(1).next(), all.get(p + 1), "skip")?; p += 2 }
                6 => { let mut s = it.by_ref().step_by(2); same(s.next(), all.get(p), "step_by")?; same(s.next(), all.get(p + 2), "step_by")?; p += 3 }
                7 => { let (lo, hi) = it.size_hint(); let left = all.len().saturating_sub(p); if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("size_hint {lo} {hi:?} with {left} frames left")); } }
                _ => { same(it.find(|x| x.is_ok()), all.get(p), "find")?; p += 1 }
            }
        }
        let left = all.len().saturating_sub(p);
        let k = c.choose(4);
        c.note("calls", || format!("{calls:?} then {k}, {o:?}"));
        match k {
            0 => { let x: Vec<_> = it.collect(); if x.len() != left { return Err(format!("collect gives {} frames instead of {left}", x.len())); } for y in x { same(Some(y), all.get(p), "collect")?; p += 1 } }
            1 => { let n = it.count(); if n != left { return Err(format!("count gives {n} instead of {left}")); } }
            2 => same(it.last(), if left > 0 { all.last() } else { None }, "last")?,
            _ => {
                for x in it.by_ref() { same(Some(x), all.get(p), "for")?; p += 1 }
                if let Some(x) = it.next() { return Err(format!("{x:?} after the end")); }
                let Stop::Trailer(e) = model::parse(&b, &o.ropts()).stop else { return Err("harness: bad file".into()) };
                let r = rest(it.into_inner());
                if r != b[e..] { return Err("the reader continues elsewhere".into()); }
            }
        }
        c.obs(&(p, calls, k));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("earlier-contents", EARLIER, earlier_contents));
    v
}
fn fixed_history(c: &Ctx, b: &[u8], o: &Opts, acts: &[Act]) -> Res {
    c.note("file", || hex(b));
    let g = model::parse(b, &o.ropts());
    let mut d = o.build().read_info(b).map_err(|e| err("open", e))?;
    for (i, &a) in acts.iter().enumerate() {
        match act(&mut d, o, a)? {
            Ok(Some(x)) => {
                let f = g.frames.get(i).ok_or("too many frames")?;
                c.obs(&(&x.meta, &x.px));
                check_got(i, a, &x, f, o, g.gpal.as_deref())?;
            }
            Ok(None) => { if i != g.frames.len() { return Err(format!("the image ends after {i} frames")); } break }
            Err(e) => return Err(format!("frame {i} ({a:?}): error {e:?}")),
        }
    }
    c.validated(1);
    Ok(())
}
fn run_history(c: &Ctx, b: &[u8], o: &Opts, acts: &[Act], chunk: Option<usize>) -> Res {
    c.note("file", || hex(b));
    let g = model::parse(b, &o.ropts());
    let mut d = o.build().read_info(Script::new(b, move |_, _| Ans::Give(chunk.unwrap_or(usize::MAX)))).map_err(|e| err("open", e))?;
    let mut done = vec![];
    for i in 0.. {
        // the call that finds the end is one of two
        let a = if i < g.frames.len() { c.of(acts) } else { c.of(&[Act::Next, Act::Skip]) };
        done.push(a);
        c.note("action", || format!("{a:?}"));
        match act(&mut d, o, a)? {
            Ok(Some(x)) => {
                let f = g.frames.get(i).ok_or_else(|| format!("{done:?}: a frame too many"))?;
                c.obs(&(&x.meta, &x.px));
                check_got(i, a, &x, f, o, g.gpal.as_deref()).map_err(|e| format!("{done:?}: {e}"))?;
            }
            Ok(None) => { if i != g.frames.len() { return Err(format!("{done:?}: the image ends after {i} frames")); } break }
            // an image whose data is broken may fail, and the others are not affected
            Err(_) if a == Act::Next && !o.skip && g.frames.get(i).map_or(false, |f| f.stored().is_none()) => c.obs(&"broken"),
            Err(e) => return Err(format!("{done:?}: error {e:?}")),
        }
    }
    c.validated(1);
    Ok(())
}

/// Raw frames of a file.
fn raw_frames(b: &[u8], o: &Opts, chunk: usize) -> Result<(Vec<Frame<'static>>, End, Hdr), String> {
    let d = o.build().read_info(Script::new(b, move |_, _| Ans::Give(chunk))).map_err(|e| err("open", e))?;
    let h = hdr_of(&d);
    let mut v = vec![];
    for f in d {
        match f { Ok(f) => v.push(f), Err(e) => return Ok((v, End::Err(class(&e)), h)) }
    }
    Ok((v, End::Done, h))
}
fn raw_case(c: &Ctx, b: &[u8], chunk: usize) -> Res { raw_opts(c, b, chunk, &PLAIN.skip()) }
fn raw_opts(c: &Ctx, b: &[u8], chunk: usize, o: &Opts) -> Res {
    c.note("file", || hex(b));
    c.note("options", || format!("{o:?}"));
    let g = model::parse(b, &o.ropts());
    if !g.header_ok || (g.frames.is_empty() && !matches!(g.stop, Stop::Trailer(_))) { return Ok(()); }
    let (frames, end, h) = raw_frames(b, o, chunk)?;
    if frames.len() < g.frames.len() || (end == End::Done) != matches!(g.stop, Stop::Trailer(_)) { return Err(format!("{} raw frames instead of {}, then {end:?}", frames.len(), g.frames.len())); }
    if frames.len() > g.frames.len() { return Err("an image that is not complete was delivered raw".into()); }
    for (rgba, endcode) in [(false, false), (true, false), (false, true), (true, true)] {
        let limit = if g.frames.iter().any(|f| f.area() > 1 << 23) { Limit::Bytes(1 << 28) } else { PLAIN.limit };
        let mut fd = frame_dec(&Opts { rgba, endcode, limit, ..PLAIN });
        if let Some(p) = &g.gpal { fd.set_global_palette(p.clone()); }
        for (i, (f, r)) in frames.iter().zip(&g.frames).enumerate() {
            let want = [&[r.mcs][..], &r.data].concat();
            if f.buffer[..] != want { return Err(diff(&format!("raw frame {i}"), &f.buffer, &want)); }
            if meta_of(f) != r.meta { return Err(format!("raw frame {i}: {:?} instead of {:?}", meta_of(f), r.meta)); }
            c.obs(&(i, &f.buffer[..]));
            let mut f = f.clone();
            let px = if endcode && !r.has_end_code() { None } else { r.pixels() };
            let px = px.map(|p| if rgba { model::rgba(&p, r.meta.palette.as_deref().or(g.gpal.as_deref()).unwrap_or(&[]), r.meta.transparent) } else { p });
            match (fd.decode_lzw_encoded_frame(&mut f), px) {
                (Ok(()), Some(p)) => {
                    if f.buffer[..] != p[..] { return Err(diff(&format!("frame decoder, frame {i}"), &f.buffer, &p)); }
                    if f.interlaced { return Err("frame decoder: frame still marked as interlaced".into()); }
                }
                (Ok(()), None) => return Err(format!("frame decoder: frame {i} decoded although its data is broken (check for end codes: {endcode})")),
                (Err(e), Some(_)) => return Err(format!("frame decoder: frame {i} fails: {e}")),
                (Err(_), None) => {}
            }
        }
    }
    // normal decoding agrees
    let nopt = Opts { consistency: o.consistency, unknown: o.unknown, ..PLAIN };
    let n = decode(b, &nopt, &Style::Next)?;
    check(&n, &expect(b, &nopt), b)?;
    c.validated(2);
    // and back into a file
    if end == End::Done && frames.iter().all(|f| f.buffer[0] >= 2) {
        let mut out = vec![];
        {
            let mut e = Encoder::new(&mut out, h.w, h.h, h.gpal.as_deref().unwrap_or(&[])).map_err(|e| err("encoder", e))?;
            for f in &frames { e.write_lzw_pre_encoded_frame(f).map_err(|e| err("write", e))?; }
            e.into_inner().map_err(|e| err("finish", e))?;
        }
        c.note("rewritten", || hex(&out));
        let (again, end2, h2) = raw_frames(&out, o, usize::MAX)?;
        // the encoder always announces a global palette
        if (h2.w, h2.h) != (h.w, h.h) || (h.gpal.is_some() && h2.gpal != h.gpal) { return Err(format!("rewritten file: {h2:?} instead of {h:?}")); }
        if end2 != End::Done || again.len() != frames.len() { return Err(format!("rewritten file: {} frames, {end2:?}", again.len())); }
        for (i, (a, f)) in again.iter().zip(&frames).enumerate() {
            if a.buffer != f.buffer || meta_of(a) != meta_of(f) { return Err(format!("rewritten frame {i}: {a:?} instead of {f:?}")); }
        }
        let m = decode(&out[..], &PLAIN, &Style::Next)?;
        if m.frames != n.frames { return Err("the rewritten file decodes to other frames".into()); }
        if n.end == End::Done && m.end != End::Done { return Err("the rewritten file does not decode".into()); }
        c.validated(1);
    }
    Ok(())
}
fn c09(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("seeds", "every seed and history file, delivered in chunks of every size 1..=40 and whole", |c| {
        let b = c.pick(files_all()).clone();
        let k = c.choose(41);
        raw_case(c, &b, if k == 0 { usize::MAX } else { k })
    }));
    v.push(Exploration::new("options", "every seed, history, larger and long file (40 and 300 frames) under each of 64 sets of other options, whole and in pieces of 5 bytes", |c| {
        let k = c.choose(files_all().len() + 2);
        let b = if k < 2 { &long_files()[k] } else { &files_all()[k - 2] };
        raw_opts(c, b, c.of(&[usize::MAX, 5]), &PLAIN.skip().with(c.choose(SETS)))
    }));
    v.push(Exploration::new("data", "image data of 0 to 3 arbitrary bytes out of 10 values (code size 2, 3, 8; image of 1, 2, 4 pixels), valid or not", |c| {
        let n = c.choose(4);
        let data: Vec<u8> = (0..n).map(|_| c.of(&[0u8, 0x04, 0x0C, 0x44, 0x54, 0x2C, 0x85, 0xFF, 0x3B, 0x80])).collect();
        let m = c.of(&[2, 3, 8]);
        let w = c.of(&[1, 2, 4]);
        let g = pal(4, 1);
        let b = File::new(3, 3, Some(&g)).gce(1, 2, 3).img(&Img::raw(w, 1, m, data).split(c.of(&[Split::Max, Split::Each(1)]))).img(&Img::pat(2, 2, 2, 4)).end();
        raw_case(c, &b, usize::MAX)
    }));
    v.push(Exploration::new("lengths", "image data of every length 0..=800 bytes (thorough 3000), sub-blocks of 255, 254 and 1; code sizes 2..=8", move |c| {
        let n = c.choose(t.sel(801, 3001));
        let s = c.of(&[Split::Max, Split::Each(254), Split::Each(1)]);
        let m = if t.t() { c.range(2, 8) as u8 } else { 2 + (n % 7) as u8 };
        let g = pal(4, 1);
        let data: Vec<u8> = { let mut d = lzw::encode(m, &pattern(n * 2, m, 3), STD); d.resize(n, 0x55); d };
        let px = lzw::decode(m, &data, 1 << 20).pixels.len().min(65535);
        let b = File::new(3, 3, Some(&g)).img(&Img::raw(px as u16, 1, m, data).split(s)).img(&Img::pat(2, 2, 2, 4)).end();
        raw_case(c, &b, usize::MAX)
    }));
    v.push(Exploration::new("codes", "code size 2: every code sequence of length 4 out of all values, then the end code or not", |c| {
        let mut p = lzw::Packer::new(2);
        for _ in 0..4 {
            let x = c.choose(1 << p.width);
            p.push(x as u16);
            if x == 5 { break; }
        }
        if c.flag() { p.push(5); }
        let data = p.finish();
        let n = lzw::decode(2, &data, 100).pixels.len().max(1);
        let g = pal(4, 1);
        let b = File::new(3, 3, Some(&g)).img(&Img::raw(n as u16, 1, 2, data)).img(&Img::pat(2, 2, 2, 4)).end();
        raw_case(c, &b, usize::MAX)
    }));
    v.push(Exploration::new("clears", "clear codes (1 to 4 at once) before every code, and small images of 1 to 40 pixels in literal coding", |c| {
        let n = c.range(1, 40);
        let s = Strat { literal: c.flag(), clear_every: c.range(1, 4), clears: c.range(1, 4), end: c.flag(), initial_clear: c.flag(), ..STD };
        let m = c.of(&[2, 5, 8]);
        let data = lzw::encode(m, &pattern(n, m, 9), s);
        let g = pal(4, 1);
        let b = File::new(3, 3, Some(&g)).img(&Img::raw(n as u16, 1, m, data)).img(&Img::pat(2, 2, 2, 4)).end();
        raw_case(c, &b, usize::MAX)
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images, with one of 2 global palettes or none", |c| {
        let b = pick_pool(c);
        if pool().iter().any(|p| p.1.mcs < 2) { return Err("harness: code size 1".into()); }
        raw_opts(c, &b, usize::MAX, &PLAIN.skip())
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; raw", |c| {
        let (k, b) = pick_head(c);
        let _ = k;
        raw_opts(c, &b, usize::MAX, &PLAIN.skip())
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: raw, whole and in pieces of 4000 bytes"), |c| {
        let (_, b) = pick_count(c);
        raw_opts(c, &b, c.of(&[usize::MAX, 4000]), &PLAIN.skip().unknown())
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: raw"), |c| {
        let (k, b, _) = pick_combo(c);
        raw_opts(c, &b, [usize::MAX, 5][k % 2], &PLAIN.skip())
    }));
    v.push(Exploration::new("held", &format!("raw images of the pool, {HELD}: decoded by the frame decoder in place, indexed and RGBA, twice"), |c| {
        let p = c.pick(pool());
        let how = c.choose(5);
        let o = if c.flag() { PLAIN.rgba() } else { PLAIN };
        let b = with_pics(File::new(9, 9, Some(&pal(256, 5))), &[p]).end();
        c.note("file", || hex(&b));
        c.note("held", || format!("{how} {o:?}"));
        let e = expect(&b, &o);
        let Some(want) = e.frames.first() else { c.outcome("not decodable"); return Ok(()) };
        let raw = PLAIN.skip().build().read_info(&b[..]).map_err(|e| err("open", e))?.into_iter().next().ok_or("no frame")?.map_err(|e| err("raw", e))?;
        let mut fd = frame_dec(&o);
        fd.set_global_palette(pal(256, 5));
        for _ in 0..2 {
            let mut room = vec![];
            let mut f = held(&raw, how, &mut room);
            fd.decode_lzw_encoded_frame(&mut f).map_err(|e| err("decode", e))?;
            let m = meta_of(&f);
            if m != want.0 { return Err(format!("the frame is {m:?} instead of {:?}", want.0)); }
            if f.buffer[..] != want.1 { return Err(diff("pixels", &f.buffer, &want.1)); }
        }
        c.obs(want);
        c.validated(1);
        Ok(())
    }));
    v
}

fn c10(t: Tier) -> Vec<Exploration> {
    fn all_files() -> &'static [Vec<u8>] {
        static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
        S.get_or_init(make_all_files)
    }
    fn make_all_files() -> Vec<Vec<u8>> {
        let mut f: Vec<Vec<u8>> = good_seeds().iter().map(|x| x.1.clone()).collect();
        f.extend(hist_files().iter().cloned());
        let g = pal(256, 3);
        f.push(File::new(40, 40, Some(&g)).netscape(3).img(&Img::pat(40, 40, 8, 3)).ext(0xFE, &[&[0x3B; 255]]).gce(1, 2, 3).img(&Img::pat(30, 10, 5, 3).il().pal(pal(64, 9))).end());
        f
    }
    let mut v = vec![];
    let styles = || vec![Style::Next, Style::Iter, Style::Into(0), Style::Fill(vec![1]), Style::Fill(vec![1000])];
    v.push(Exploration::new("cuts", "every good file cut after every byte x options (indexed, RGBA, raw, end code check, unknown blocks) x 5 styles x whole, 1-byte (thorough also 2, 3, 7 byte) delivery", move |c| {
        let b = c.pick(all_files()).clone();
        // the end of the file proper
        let full = model::parse(&b, &PLAIN.ropts());
        let Stop::Trailer(end) = full.stop else { return Err("harness: bad file".into()) };
        let cut = c.choose(end);
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.endcode(), PLAIN.unknown(), Opts { consistency: true, ..PLAIN }]).clone();
        let st = c.pick(&styles()).clone();
        let k = c.of(if t.t() { &[usize::MAX, 1, 2, 3, 7] } else { &[usize::MAX, 1] });
        if !t.t() && k == 1 && cut % 3 != 0 && b.len() > 400 { return Ok(()); }
        let p = &b[..cut];
        c.note("file", || hex(&b));
        c.note("cut", || format!("{cut} of {}, {o:?} {st:?} chunks of {k}", b.len()));
        let obs = decode(Script::new(p, move |_, _| Ans::Give(k)), &o, &st)?;
        c.obs(&obs);
        c.evaluated(1);
        let want = decode(&b[..end], &o, &st)?;
        if want.end != End::Done && !o.endcode && !o.consistency { return Err("harness: the file does not decode".into()); }
        let whole = full.frames.iter().filter(|f| f.end <= cut).count().min(want.frames.len());
        if obs.end == End::Done { return Err(format!("cut at {cut}: normal end after {} frames", obs.frames.len())); }
        if obs.frames.len() < whole { return Err(format!("cut at {cut}: {} frames delivered, {whole} are complete", obs.frames.len())); }
        if obs.frames.len() > want.frames.len() || obs.frames[..] != want.frames[..obs.frames.len()] { return Err(format!("cut at {cut}: frames differ from the full file's")); }
        if let (Ok(a), Ok(b)) = (&obs.header, &want.header) { if a != b { return Err(format!("cut at {cut}: header {a:?} instead of {b:?}")); } }
        if obs.header.is_ok() { c.nontrivial(&(&b, cut, &obs)); }
        c.outcome(&format!("{} frames", obs.frames.len()));
        Ok(())
    }));
    v.push(Exploration::new("options", "every good seed cut after every byte under each of 64 sets of other options, 3 styles", move |c| {
        let (_, b) = c.pick(good_seeds());
        let full = model::parse(b, &PLAIN.ropts());
        let Stop::Trailer(end) = full.stop else { return Err("harness: bad file".into()) };
        let cut = c.choose(end);
        let o = if c.flag() { PLAIN.skip() } else { PLAIN }.with(c.choose(SETS));
        if !applies(b, &o) { return Ok(()); }
        let st = c.pick(&[Style::Next, Style::Iter, Style::Fill(vec![3])]).clone();
        c.note("file", || hex(b));
        c.note("cut", || format!("{cut} of {}, {o:?} {st:?}", b.len()));
        let obs = decode(&b[..cut], &o, &st)?;
        c.obs(&obs);
        c.evaluated(1);
        let want = expect(b, &o);
        if obs.end == End::Done { return Err(format!("cut at {cut}: normal end after {} frames", obs.frames.len())); }
        let whole = full.frames.iter().filter(|f| f.end <= cut).count().min(want.frames.len());
        if obs.frames.len() < whole { return Err(format!("cut at {cut}: {} frames delivered, {whole} are complete", obs.frames.len())); }
        if obs.frames.len() > want.frames.len() || obs.frames[..] != want.frames[..obs.frames.len()] { return Err(format!("cut at {cut}: frames differ from the full file's")); }
        if obs.header.is_ok() { c.nontrivial(&(b, cut, format!("{o:?}"))); }
        Ok(())
    }));
    v.push(Exploration::new("after-the-error", "every good seed cut after every byte: after the error, 3 further calls out of next_frame_info and read_next_frame never report a normal end or a wrong frame", |c| {
        let (_, b) = c.pick(good_seeds()).clone();
        let full = model::parse(&b, &PLAIN.ropts());
        let Stop::Trailer(end) = full.stop else { return Err("harness: bad file".into()) };
        let cut = c.choose(end);
        c.note("file", || hex(&b));
        c.note("cut", || cut.to_string());
        c.evaluated(1);
        let e = expect(&b, &PLAIN);
        let Ok(mut d) = PLAIN.build().read_info(&b[..cut]) else { return Ok(()) };
        let mut n = 0;
        let mut errors = 0;
        while errors < 3 {
            let info = errors > 0 && c.flag();
            let r = if info { d.next_frame_info() } else { d.read_next_frame() };
            match r {
                Ok(None) => return Err(format!("normal end after {errors} errors at cut {cut}")),
                Ok(Some(f)) => {
                    let mut m = meta_of(f);
                    if info { m.interlaced = false }
                    if e.frames.get(n).map(|x| &x.0) != Some(&m) || (!info && e.frames[n].1[..] != f.buffer[..]) { return Err(format!("frame {n} differs")); }
                    n += 1;
                }
                Err(_) => errors += 1,
            }
            c.obs(&(n, errors));
        }
        c.nontrivial(&(&b, cut, n));
        Ok(())
    }));
    v.push(Exploration::new("streaming", "every good file cut after every byte, fed to the streaming decoder whole and byte by byte: no trailer event, events are a prefix of the full file's", |c| {
        let b = c.pick(all_files()).clone();
        let full = model::parse(&b, &PLAIN.ropts());
        let Stop::Trailer(end) = full.stop else { return Err("harness: bad file".into()) };
        let cut = c.choose(end);
        let k = c.of(&[usize::MAX, 1]);
        c.evaluated(1);
        c.note("cut", || cut.to_string());
        let s = stream(&b[..cut], |_| k, Out::Size(4096))?;
        c.obs(&(&s.events, &s.pixels));
        if s.end.is_err() { return Err(format!("cut at {cut}: error {:?}", s.end)); }
        if s.events.iter().any(|e| e.1 == Ev::Block(0x3B)) { return Err(format!("cut at {cut}: trailer event")); }
        let w = stream(&b[..end], |_| usize::MAX, Out::Size(4096))?;
        let strip = |s: &SObs| s.events.iter().filter(|e| !matches!(e.1, Ev::Pixels(_))).map(|e| e.1.clone()).collect::<Vec<_>>();
        let (a, f) = (strip(&s), strip(&w));
        if a.len() > f.len() || a[..] != f[..a.len()] { return Err(format!("cut at {cut}: events {a:?} instead of {f:?}")); }
        for (i, p) in s.pixels.iter().enumerate() { if w.pixels[i].len() < p.len() || w.pixels[i][..p.len()] != p[..] { return Err(format!("cut at {cut}: pixels of frame {i}")); } }
        c.nontrivial(&(cut, &s.events));
        Ok(())
    }));
    v.push(Exploration::new("pool", "each of a pool of 144 images between two others, cut after every byte of it (every 7th in large ones, and the first and last 40), indexed, RGBA and raw", |c| {
        let p = pool();
        let i = c.choose(p.len());
        let g = pal(4, 1);
        let head = with_pics(File::new(9, 9, Some(&g)), &[&p[(i + 1) % 144]]).b.len();
        let f = with_pics(File::new(9, 9, Some(&g)), &[&p[(i + 1) % 144], &p[i]]);
        let len = f.b.len();
        let b = with_pics(f, &[&p[(i + 5) % 144]]).end();
        let cut = head + c.choose(len - head + 1);
        if (head + 40..len - 40).contains(&cut) && len - head > 300 && cut % 7 != 0 { return Ok(()); }
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip()]).clone();
        let full = model::parse(&b, &PLAIN.ropts());
        c.note("file", || hex(&b));
        c.note("cut", || format!("{cut} of {}, {o:?}", b.len()));
        let obs = decode(&b[..cut], &o, &Style::Next)?;
        c.obs(&obs);
        c.evaluated(1);
        let want = expect(&b, &o);
        if obs.end == End::Done { return Err(format!("cut at {cut}: normal end after {} frames", obs.frames.len())); }
        let whole = full.frames.iter().filter(|f| f.end <= cut).count().min(want.frames.len());
        if obs.frames.len() < whole { return Err(format!("cut at {cut}: {} frames delivered, {whole} are complete", obs.frames.len())); }
        if obs.frames.len() > want.frames.len() || obs.frames[..] != want.frames[..obs.frames.len()] { return Err(format!("cut at {cut}: frames differ from the full file's")); }
        c.nontrivial(&(i, cut, format!("{o:?}")));
        Ok(())
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions) with an image, cut after every byte (thorough: indexed, RGBA and raw each; 7 pieces): read as a whole, and the streaming decoder without a trailer event", move |c| {
        let i = c.choose(heads().len());
        let b = head_n(i, 0, i % 3 == 0);
        let cut = c.choose(b.len());
        let all = [PLAIN, PLAIN.rgba(), PLAIN.skip()];
        let o = if t.t() { c.pick(&all) } else { &all[(i + cut) % 3] };
        let st = &[Style::Next, Style::Iter, Style::Fill(vec![2])][if o.skip { 0 } else { (i / 3 + cut) % 3 }];
        let k = c.of(if t.t() { &[usize::MAX, 1, 2, 3, 5, 8, 13] } else { &[usize::MAX, 1] });
        c.note("file", || hex(&b));
        c.note("cut", || format!("{cut} of {}, {o:?} {st:?}, pieces of {k}", b.len()));
        let obs = decode(Script::new(&b[..cut], move |_, _| Ans::Give(k)), o, st)?;
        c.obs(&obs);
        c.evaluated(1);
        let want = expect(&b, o);
        if obs.end == End::Done { return Err(format!("cut at {cut}: normal end after {} frames", obs.frames.len())); }
        let full = model::parse(&b, &PLAIN.ropts());
        let whole = full.frames.iter().filter(|f| f.end <= cut).count();
        if obs.frames.len() < whole { return Err(format!("cut at {cut}: {} frames delivered, {whole} are complete", obs.frames.len())); }
        if obs.frames.len() > want.frames.len() || obs.frames[..] != want.frames[..obs.frames.len()] { return Err(format!("cut at {cut}: frames differ from the full file's")); }
        let s = stream(&b[..cut], |_| k, Out::Size(900))?;
        if s.end.is_err() { return Err(format!("cut at {cut}: the streaming decoder fails: {:?}", s.end)); }
        if s.events.iter().any(|e| e.1 == Ev::Block(0x3B)) { return Err(format!("cut at {cut}: trailer event")); }
        c.nontrivial(&(i, cut, format!("{o:?}")));
        Ok(())
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: cut at 8 places behind the counted things and 4 within them"), |c| {
        let (_, b) = pick_count(c);
        let o = if c.flag() { PLAIN.skip().unknown() } else { PLAIN.unknown() };
        let full = model::parse(&b, &o.ropts());
        let Stop::Trailer(end) = full.stop else { return Err("harness: bad file".into()) };
        let last = full.frames.last().map_or(0, |f| f.start);
        let cut = match c.choose(12) { 0 => end - 1, 1 => end - 2, 2 => last, 3 => last + 1, 4 => last - 3, 5 => last - 9, 6 => last + 12, 7 => last - 20, 8 => end / 2, 9 => end / 3, 10 => end * 2 / 3 , _ => end * 9 / 10 };
        c.note("file", || hex(&b));
        c.note("cut", || format!("{cut} of {}, {o:?}", b.len()));
        c.evaluated(1);
        let obs = decode(&b[..cut], &o, &Style::Next)?;
        c.obs(&(obs.frames.len(), &obs.end));
        let want = expect(&b, &o);
        if obs.end == End::Done { return Err(format!("cut at {cut}: normal end after {} frames", obs.frames.len())); }
        let whole = full.frames.iter().filter(|f| f.end <= cut).count();
        if obs.frames.len() < whole { return Err(format!("cut at {cut}: {} frames delivered, {whole} are complete", obs.frames.len())); }
        if obs.frames.len() > want.frames.len() || obs.frames[..] != want.frames[..obs.frames.len()] { return Err(format!("cut at {cut}: frames differ from the full file's")); }
        c.nontrivial(&(b.len(), cut, o.skip));
        Ok(())
    }).cpu(60.0));
    v
}

fn c12(t: Tier) -> Vec<Exploration> {
    // image variants: (has an end code, image)
    fn variants() -> Vec<(bool, Img)> {
        let nc = Strat { end: false, ..STD };
        let px = pattern(12, 2, 3);
        let run = vec![1u8; 400];
        vec![
            (true, Img::px(4, 3, 2, &px)),
            (true, Img::px(4, 3, 2, &px).split(Split::Each(1)).il()),
            (true, Img::px(4, 3, 2, &px).split(Split::EndAlone)),
            (true, Img::px(4, 3, 2, &pattern(90, 2, 3)).split(Split::Each(4))), // more data than pixels
            (true, Img::px(20, 20, 2, &run).split(Split::EndAlone)),
            (true, Img::raw(4, 3, 2, [lzw::encode(2, &px, STD), vec![0xAB, 0xCD]].concat())), // data behind the end code
            (true, Img::raw(4, 3, 2, lzw::encode(2, &px, Strat { literal: true, clear_every: 2, clears: 3, ..STD })).split(Split::Each(2))),
            (true, Img::px(0, 3, 2, &[])),
            (false, Img::raw(4, 3, 2, lzw::encode(2, &px, nc))),
            (false, Img::raw(4, 3, 2, lzw::encode(2, &px, nc)).split(Split::Each(1)).il()),
            (false, Img::raw(4, 3, 2, lzw::encode(2, &pattern(90, 2, 3), nc)).split(Split::Each(7))),
            (false, Img::raw(20, 20, 2, lzw::encode(2, &run, nc))),
            (false, Img::raw(4, 3, 2, lzw::pack(2, &[4, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 0, 4, 4]))),
            (false, Img::raw(0, 3, 2, vec![])),
            (false, Img::raw(2, 0, 2, vec![0x04])),
        ]
    }
    fn ends() -> &'static [bool] {
        static S: std::sync::OnceLock<Vec<bool>> = std::sync::OnceLock::new();
        S.get_or_init(|| pool().iter().map(|p| lzw::decode(p.1.mcs, &p.1.data, 1 << 22).end == lzw::End::Code).collect())
    }
    fn chk(c: &Ctx, images: &[(bool, Img)], acts: &[Act], other: usize, chunk: usize) -> Res {
        let g = pal(4, 1);
        let mut f = File::new(70, 70, Some(&g));
        for (i, x) in images.iter().enumerate() {
            if i % 2 == 1 { f = f.gce(1, i as u16, 2); }
            f = f.img(&x.1);
        }
        let b = f.end();
        c.note("file", || hex(&b));
        c.note("end codes", || format!("{:?}", images.iter().map(|x| x.0).collect::<Vec<_>>()));
        c.note("actions", || format!("{acts:?}"));
        let off = PLAIN.with(other);
        let on = off.clone().endcode();
        c.note("options", || format!("{on:?}"));
        let r = model::parse(&b, &on.ropts());
        for (x, f) in images.iter().zip(&r.frames) { if x.0 != f.has_end_code() { return Err("harness: end code flag is wrong".into()); } }
        // off: no error at all
        let mut d = off.build().read_info(Script::new(&b, move |_, _| Ans::Give(chunk))).map_err(|e| err("open", e))?;
        for (i, &a) in acts.iter().enumerate() {
            match act(&mut d, &off, a)? {
                Ok(Some(x)) => check_got(i, a, &x, &r.frames[i], &off, Some(&g)).map_err(|e| format!("check off: {e}"))?,
                x => return Err(format!("check off: frame {i} ({a:?}): {:?}", x.map(|_| "end"))),
            }
        }
        match d.next_frame_info() { Ok(None) => {}, x => return Err(format!("check off: {x:?} at the end")) }
        // on
        let first_bad = images.iter().position(|x| !x.0);
        let mut d = on.build().read_info(Script::new(&b, move |_, _| Ans::Give(chunk))).map_err(|e| err("open", e))?;
        for i in 0..=acts.len() {
            // before this call, image i-1 must have been moved past
            let a = acts.get(i).copied().unwrap_or(Act::Skip);
            let res = act(&mut d, &on, a)?;
            let failed = match &res { Err(e) => Some(*e), Ok(Some(g)) => g.failed, Ok(None) => None };
            c.obs(&(i, failed));
            let must = first_bad.map_or(false, |k| k < i);
            let may = first_bad.map_or(false, |k| k <= i);
            match (&res, failed) {
                (_, Some(_)) if may => break,
                (_, Some(e)) => return Err(format!("frame {i} ({a:?}) fails with {e:?} although the images up to it have their end codes")),
                _ if must => return Err(format!("image {} has no end code, but the call for image {i} ({a:?}) succeeds", first_bad.unwrap())),
                (Ok(Some(x)), None) if i < acts.len() => check_got(i, a, x, &r.frames[i], &on, Some(&g))?,
                (Ok(None), None) if i == acts.len() => {}
                _ => return Err(format!("call for image {i} ({a:?}): wrong number of frames")),
            }
        }
        c.validated(1);
        c.outcome(if first_bad.is_some() { "missing" } else { "all end codes" });
        Ok(())
    }
    let mut v = vec![];
    let acts = [Act::Next, Act::Skip, Act::Part(1), Act::Part(5), Act::Full(1), Act::Past, Act::Into];
    v.push(Exploration::new("one", "15 images with and without end code (split in different ways, followed by data, empty) alone: 7 actions x all 8 sets of the other options (RGBA, frame consistency, unknown blocks) x 4 memory limits x chunks of 1, 2, 3 and all", move |c| {
        let i = c.pick(&variants()).clone();
        let a = c.of(&acts);
        let other = c.choose(8) + 16 * c.choose(4);
        chk(c, &[i], &[a], other, c.of(&[usize::MAX, 1, 2, 3]))
    }));
    v.push(Exploration::new("two", "all pairs of the 15 images x all pairs of 7 actions x 4 (thorough 8) sets of other options (thorough also 1-byte delivery)", move |c| {
        let i = [c.pick(&variants()).clone(), c.pick(&variants()).clone()];
        let a = [c.of(&acts), c.of(&acts)];
        let other = if t.t() { c.choose(8) } else { c.of(&[0, 1, 6, 39]) };
        chk(c, &i, &a, other, if t.t() { c.of(&[usize::MAX, 1]) } else { usize::MAX })
    }));
    v.push(Exploration::new("end-code-place", "image data of 1 to 300 bytes with the end code at every place: the whole data split after every byte, end code present or not, 5 actions", move |c| {
        let n = c.range(1, t.sel(60, 300));
        let end = c.flag();
        let px = pattern(n, 2, 1);
        let data = lzw::encode(2, &px, Strat { end, ..STD });
        let at = c.choose(data.len().min(255)) + 1;
        let i = Img::raw(n as u16, 1, 2, data).split(Split::FirstThen(at, 255));
        let a = c.of(&[Act::Next, Act::Skip, Act::Part(1), Act::Full(1), Act::Past]);
        chk(c, &[(end, i), (true, Img::pat(2, 2, 2, 9))], &[a, Act::Next], 0, usize::MAX)
    }));
    v.push(Exploration::new("code-sizes", "code sizes 2..=8, images of 1..=70 pixels, with and without end code, literal and greedy: the end code may or may not start a new byte", move |c| {
        let m = c.range(2, 8) as u8;
        let n = c.range(1, 70);
        let end = c.flag();
        let data = lzw::encode(m, &pattern(n, m, 1), Strat { end, literal: c.flag(), ..STD });
        let i = Img::raw(n as u16, 1, m, data);
        // padding must not look like an end code
        let has = lzw::decode(m, &i.data, 1 << 20).end == lzw::End::Code;
        chk(c, &[(has, i), (true, Img::pat(2, 2, 2, 9))], &[c.of(&[Act::Next, Act::Skip, Act::Part(1)]), Act::Next], 0, c.of(&[usize::MAX, 1]))
    }));
    v.push(Exploration::new("streaming", "seed and history files: decoding with the check on equals decoding with the check off when all end codes are there, in every style and with every set of other options", |c| {
        let b = c.pick(files_good()).clone();
        let r = model::parse(&b, &PLAIN.ropts());
        if !r.frames.iter().all(|f| f.has_end_code()) { return Ok(()); }
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Into(3), Style::Fill(vec![1]), Style::Fill(vec![2, 3]), Style::Fill(vec![0, 900])]).clone();
        let other = PLAIN.with(c.choose(8) + 16 * c.choose(3));
        let a = decode(&b[..], &other, &st)?;
        let o = decode(&b[..], &other.clone().endcode(), &st)?;
        c.obs(&o);
        c.note("file", || hex(&b));
        if a != o { return Err(format!("with the check {o:?}\nwithout {a:?}")); }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images (an eighth of them without end code), the first treated in 7 ways, the second read or skipped", move |c| {
        let p = pool();
        let one = || { let i = c.choose(p.len()); let m = Img { lpal: None, ..p[i].1.clone() }; (ends()[i], Img { left: 0, top: 0, ..m }) };
        let i = [one(), one()];
        chk(c, &i, &[c.of(&acts), c.of(&[Act::Next, Act::Skip])], 0, usize::MAX)
    }));
    v.push(Exploration::new("frame-decoder", "data of 0 to 40 pixels in 4 code sizes with and without end code, and each of the pool, for frames of 0 to 41 pixels: the frame decoder with the check on gives the same as with the check off if the end code is there, and refuses data without one however many pixels it has", |c| {
        let k = c.choose(pool().len() + 4 * 41 * 2);
        let (m, data) = if k < pool().len() { (pool()[k].1.mcs, pool()[k].1.data.clone()) } else {
            let k = k - pool().len();
            let m = [2, 3, 5, 8][k % 4];
            (m, lzw::encode(m, &pattern(k / 8, m, 3), Strat { end: k / 4 % 2 == 0, ..STD }))
        };
        let area = if k < pool().len() { let i = &pool()[k].1; i.w as usize * i.h as usize + c.choose(3) } else { c.choose(42) };
        if area > 65535 { return Ok(()); }
        let r = lzw::decode(m, &data, 1 << 22);
        let il = c.flag();
        let rgba = c.flag();
        let o = Opts { rgba, ..PLAIN };
        c.note("data", || format!("code size {m}, {area} pixels, interlaced {il}, rgba {rgba}: {}", hex(&data)));
        let mk = || { let mut f = lzw_frame(area as u16, 1, il, m, &data); f.palette = Some(pal(256, 7)); f };
        let into = c.flag();
        let run = |o: &Opts| -> Result<Vec<u8>, ErrClass> {
            let mut d = frame_dec(o);
            let mut f = mk();
            if into { let mut b = vec![STALE; d.buffer_size(&f)]; d.decode_lzw_encoded_frame_into_buffer(&f, &mut b).map(|_| b).map_err(|e| class(&e)) }
            else { d.decode_lzw_encoded_frame(&mut f).map(|_| f.buffer.to_vec()).map_err(|e| class(&e)) }
        };
        let (off, on) = (run(&o), run(&o.clone().endcode()));
        c.obs(&(k, area, &on));
        c.validated(1);
        if r.end == lzw::End::Code {
            if on != off { return Err(format!("with the check {:?}, without {:?}", on.map(|x| x.len()), off.map(|x| x.len()))); }
            c.outcome("end code");
        } else {
            if on.is_ok() { return Err(format!("{} pixels for {area} and no end code are accepted", r.pixels.len())); }
            if r.pixels.len() >= area && off.is_err() { return Err(format!("check off: {off:?}")); }
            c.outcome("missing");
        }
        Ok(())
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: each image having its end code, or the one before the last lacking it, images skipped or read"), |c| {
        let (k, mut b) = pick_count(c);
        let o = if k % 2 == 0 { PLAIN.unknown() } else { roomy_rgba() }.endcode();
        let bad = c.flag();
        let at = model::parse(&b, &o.ropts()).frames.last().ok_or("harness: no image")?.start;
        if bad {
            let i = File { b: vec![] }.img(&Img::raw(4, 3, 2, lzw::encode(2, &pattern(12, 2, 3), Strat { end: false, ..STD }))).b;
            b.splice(at..at, i);
        }
        let g = model::parse(&b, &o.ropts());
        let m = g.frames.len();
        if let Some(i) = g.frames.iter().position(|f| !f.has_end_code()) { if !bad || i + 2 != m { return Err("harness: end codes".into()); } } else if bad { return Err("harness: end codes".into()); }
        let a = c.of(&[Act::Skip, Act::Next, Act::Part(1)]);
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        for i in 0..m {
            let r = act(&mut d, &o, a)?;
            let failed = match &r { Err(e) => Some(*e), Ok(Some(g)) => g.failed, Ok(None) => None };
            match (&r, failed) {
                (_, Some(_)) if bad && i + 2 >= m => break,
                (_, Some(e)) => return Err(format!("frame {i} of {m} ({a:?}) fails with {e:?} although the images up to it have their end codes")),
                (Ok(Some(_)), None) if bad && i + 1 == m => return Err(format!("the image before the last one has no end code, but the call for the last one ({a:?}) succeeds")),
                (Ok(Some(x)), None) => check_got(i, a, x, &g.frames[i], &o, g.gpal.as_deref())?,
                _ => return Err(format!("{i} frames instead of {m}")),
            }
        }
        c.obs(&(b.len(), bad));
        c.validated(1);
        c.outcome(if bad { "missing" } else { "all end codes" });
        Ok(())
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: the end code check on, the images read, read in part or skipped"), |c| {
        let (_, b, _) = pick_combo(c);
        let o = if c.flag() { PLAIN.rgba() } else { PLAIN }.endcode();
        let g = model::parse(&b, &o.ropts());
        if !matches!(g.stop, Stop::Trailer(_)) { c.outcome("no palette"); return Ok(()); }
        let m = g.frames.len();
        let a = c.of(&[Act::Skip, Act::Next, Act::Part(1), Act::Full(4)]);
        c.note("file", || hex(&b));
        c.note("options", || format!("{o:?} {a:?}"));
        let bad = g.frames.iter().position(|f| !f.has_end_code());
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        for i in 0..m {
            let r = act(&mut d, &o, a)?;
            let failed = match &r { Err(e) => Some(*e), Ok(Some(g)) => g.failed, Ok(None) => None };
            match (&r, failed) {
                (_, Some(_)) if bad.map_or(false, |n| i >= n) => break,
                (_, Some(e)) => return Err(format!("frame {i} of {m} ({a:?}) fails with {e:?} although the images up to it have their end codes")),
                (Ok(Some(_)), None) if bad.map_or(false, |n| i > n) => return Err(format!("image {} has no end code, but the call for the next one ({a:?}) succeeds", i - 1)),
                (Ok(Some(x)), None) => check_got(i, a, x, &g.frames[i], &o, g.gpal.as_deref())?,
                _ => return Err(format!("{i} frames instead of {m}")),
            }
        }
        c.obs(&b.len());
        c.validated(1);
        c.outcome(if bad.is_some() { "missing" } else { "all end codes" });
        Ok(())
    }));
    v
}

fn c26(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    // two decoders, interleaved
    let files = || -> Vec<(Vec<u8>, Opts)> {
        let h = hist_files();
        let s = seeds();
        let get = |n: &str| s.iter().find(|x| x.0 == n).unwrap().1.clone();
        vec![(h[0].clone(), PLAIN), (h[2].clone(), PLAIN.rgba()), (h[1].clone(), PLAIN.skip()), (get("clears"), PLAIN.rgba()), (get("bad-code"), PLAIN), (get("short-data"), PLAIN.rgba()), (get("unknown"), PLAIN.unknown()), (get("no-palette"), PLAIN)]
    };
    v.push(Exploration::new("two-decoders", "8 files and option sets, all pairs, all interleavings of 5 (thorough 7) calls each (information, half of the pixels, rest): same results as alone", move |c| {
        let f = files();
        let (x, y) = (c.pick(&f).clone(), c.pick(&f).clone());
        let alone = |f: &(Vec<u8>, Opts), n: usize| -> Result<Vec<u64>, String> { let mut s = Stepper::new(f)?; Ok((0..n).map(|_| s.step()).collect()) };
        let n = t.sel(5, 7);
        let (wx, wy) = (alone(&x, n)?, alone(&y, n)?);
        let (mut a, mut b) = (Stepper::new(&x)?, Stepper::new(&y)?);
        let (mut i, mut j) = (0, 0);
        while i < n || j < n {
            let first = if i == n { false } else if j == n { true } else { c.choose(2) == 0 };
            if first {
                let r = a.step();
                c.obs(&r);
                if r != wx[i] { return Err(format!("first decoder, call {i} (after {j} calls of the second): differs from running alone")); }
                i += 1;
            } else {
                let r = b.step();
                c.obs(&r);
                if r != wy[j] { return Err(format!("second decoder, call {j} (after {i} calls of the first): differs from running alone")); }
                j += 1;
            }
        }
        c.validated(1);
        Ok(())
    }));
    // one frame decoder, many frames
    fn fd_frames() -> Vec<Frame<'static>> {
        let nc = Strat { end: false, ..STD };
        let mk = |w, h, il, m, data: Vec<u8>, p: Option<Vec<u8>>, tr| { let mut f = lzw_frame(w, h, il, m, &data); f.palette = p; f.transparent = tr; f };
        vec![
            mk(3, 3, false, 2, lzw::encode(2, &pattern(9, 2, 1), STD), None, None),
            mk(2, 5, true, 2, lzw::encode(2, &pattern(10, 2, 2), STD), Some(pal(4, 9)), Some(1)),
            mk(4, 4, false, 8, lzw::encode(8, &pattern(16, 8, 3), nc), None, Some(0)),
            mk(3, 3, false, 2, lzw::encode(2, &pattern(4, 2, 4), STD), None, None), // too short
            mk(2, 5, true, 2, lzw::encode(2, &pattern(5, 2, 4), STD), None, None),    // too short, interlaced
            mk(3, 3, true, 2, lzw::pack(2, &[4, 1, 7, 7]), None, None),              // undefined code
            mk(3, 3, false, 0, vec![1, 2], None, None),                               // bad code size
            mk(30, 30, false, 2, lzw::encode(2, &[1; 900], STD), Some(pal(2, 9)), None),
            mk(1, 1, false, 2, lzw::encode(2, &pattern(50, 2, 1), STD), None, None),  // more data than pixels
            mk(0, 4, true, 2, vec![0x2C], None, None),
            mk(2, 2, false, 2, vec![], None, None),
            mk(3, 1, false, 4, lzw::encode(4, &[15, 1, 3], Strat { initial_clear: false, ..STD }), Some(pal(16, 2)), Some(15)),
        ]
    }
    let depth = t.sel(4, 5);
    v.push(Exploration::new("frame-decoder-reuse", "one frame decoder, all sequences of 4 (thorough 5) out of 12 frames (also broken and empty ones), indexed and RGBA, end code check on and off, with and without global palette: every result as with a new decoder", move |c| {
        let fs = fd_frames();
        let o = Opts { rgba: c.flag(), endcode: c.flag(), ..PLAIN };
        let global = c.flag();
        let mk = || { let mut d = frame_dec(&o); if global { d.set_global_palette(pal(4, 5)); } d };
        let mut d = mk();
        let mut seq = vec![];
        for _ in 0..depth {
            let k = c.choose(fs.len());
            seq.push(k);
            let (mut f, mut g) = (fs[k].clone(), fs[k].clone());
            let r = d.decode_lzw_encoded_frame(&mut f).map_err(|e| class(&e));
            let w = mk().decode_lzw_encoded_frame(&mut g).map_err(|e| class(&e));
            c.obs(&(k, &r, &f.buffer[..]));
            if r != w || (r.is_ok() && f.buffer != g.buffer) { return Err(format!("frames {seq:?}: {r:?} instead of {w:?}, or other pixels")); }
            if r.is_ok() && (global || !o.rgba || f.palette.is_some()) && (2..=8).contains(&fs[k].buffer[0]) {
                let l = lzw::decode(fs[k].buffer[0], &fs[k].buffer[1..], 2000);
                let n = f.width as usize * f.height as usize;
                let px = if fs[k].interlaced { model::deinterlace(&l.pixels[..n], f.width.into(), f.height.into()) } else { l.pixels[..n].to_vec() };
                let px = if o.rgba { model::rgba(&px, f.palette.as_deref().unwrap_or(&pal(4, 5)), f.transparent) } else { px };
                if f.buffer[..] != px { return Err(diff(&format!("frames {seq:?}"), &f.buffer, &px)); }
            }
        }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("frame-decoder-palettes", "one frame decoder, all sequences of 3 (thorough 4) pairs of one out of 7 global palettes set (or none set) and one of 4 frames decoded, indexed and RGBA: every result as with a new decoder that was given only the last palette", move |c| {
        let all = fd_frames();
        let fs: Vec<_> = [0usize, 1, 2, 11].iter().map(|&i| all[i].clone()).collect();
        let o = Opts { rgba: !c.flag(), ..PLAIN };
        let ps: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(pal(4, 5)), Some(pal(4, 6)), Some(pal(2, 3)), Some(pal(256, 1)), Some(vec![7; 5])];
        let mut d = frame_dec(&o);
        let mut last: Option<Vec<u8>> = None;
        let mut seq = vec![];
        for _ in 0..t.sel(3, 4) {
            let (p, k) = (c.choose(ps.len()), c.choose(fs.len()));
            seq.push((p, k));
            if let Some(p) = &ps[p] { d.set_global_palette(p.clone()); last = Some(p.clone()); }
            let (mut f, mut g) = (fs[k].clone(), fs[k].clone());
            let r = d.decode_lzw_encoded_frame(&mut f).map_err(|e| class(&e));
            let mut fresh = frame_dec(&o);
            if let Some(p) = &last { fresh.set_global_palette(p.clone()); }
            let w = fresh.decode_lzw_encoded_frame(&mut g).map_err(|e| class(&e));
            c.obs(&(p, k, &r, &f.buffer[..]));
            if r != w || (r.is_ok() && f.buffer != g.buffer) { return Err(format!("palettes and frames {seq:?}: {r:?} instead of {w:?}, or other pixels")); }
        }
        c.validated(1);
        Ok(())
    }));
    // one decoder: what a frame looks like must not depend on the frames before it
    let k = t.sel(4, 5);
    v.push(Exploration::new("frames-in-a-file", "all sequences of 4 (thorough 5) out of 11 images (also broken ones) in one file, with and without global palette, read one after the other with errors skipped: each as when it is alone in a file", move |c| {
        let g = pal(4, 1);
        let nc = Strat { end: false, ..STD };
        let imgs: Vec<(bool, Img)> = vec![
            (false, Img::pat(3, 3, 2, 1)), (true, Img::pat(2, 5, 2, 2).il().pal(pal(8, 7))), (false, Img::raw(4, 4, 8, lzw::encode(8, &pattern(16, 8, 3), nc))),
            (true, Img::raw(3, 3, 2, lzw::encode(2, &pattern(4, 2, 4), STD))), (false, Img::raw(3, 3, 2, lzw::pack(2, &[4, 1, 7, 7])).il()),
            (true, Img::px(30, 30, 2, &[1; 900]).split(Split::Each(2))), (false, Img::raw(1, 1, 2, lzw::encode(2, &pattern(90, 2, 1), STD)).split(Split::Each(3))),
            (false, Img::raw(2, 5, 2, lzw::encode(2, &pattern(5, 2, 4), STD)).il()),
            (true, Img::pat(0, 2, 2, 1)), (false, Img::raw(2, 2, 2, vec![])), (true, Img::raw(2, 2, 2, lzw::encode(2, &pattern(4, 2, 1), Strat { initial_clear: false, ..STD })).split(Split::EndAlone)),
        ];
        let seq: Vec<usize> = (0..k).map(|_| c.choose(imgs.len())).collect();
        let rgba = c.flag();
        let o = Opts { rgba, ..PLAIN };
        let g = c.flag().then_some(&g[..]);
        let mut f = File::new(9, 9, g);
        for &i in &seq { if imgs[i].0 { f = f.gce(5, i as u16 + 1, 1); } f = f.img(&imgs[i].1); }
        let b = f.end();
        c.note("file", || hex(&b));
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        for (n, &i) in seq.iter().enumerate() {
            let mut f = File::new(9, 9, g);
            if imgs[i].0 { f = f.gce(5, i as u16 + 1, 1); }
            let single = f.img(&imgs[i].1).end();
            let e = expect(&single, &o);
            let r = d.read_next_frame().map(|f| f.map(|f| (meta_of(f), f.buffer.to_vec()))).map_err(|e| class(&e));
            c.obs(&r);
            match (&r, e.frames.first()) {
                (Ok(Some(f)), Some(w)) if f == w => {}
                (Err(_), None) => {}
                _ => return Err(format!("images {seq:?}: image {n}: {r:?} instead of {:?}", e.frames.first())),
            }
        }
        match d.read_next_frame() { Ok(None) => {}, x => return Err(format!("images {seq:?}: {x:?} at the end")) }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("long-reuse", "one frame decoder used for 70 000 frames, one decoder for a file of 300 frames read 3 times in one program, one encoder for 1200 frames: the last results are as the first", |c| {
        match c.choose(3) {
            0 => {
                let fs = fd_frames();
                let o = Opts { rgba: c.flag(), ..PLAIN };
                let mk = || { let mut d = frame_dec(&o); d.set_global_palette(pal(4, 5)); d };
                let want: Vec<_> = fs.iter().map(|f| { let mut f = f.clone(); let r = mk().decode_lzw_encoded_frame(&mut f).map_err(|e| class(&e)); (r, f.buffer.to_vec()) }).collect();
                let mut d = mk();
                for i in 0..70_000usize {
                    let k = i * 7 % fs.len();
                    let mut f = fs[k].clone();
                    let r = d.decode_lzw_encoded_frame(&mut f).map_err(|e| class(&e));
                    if r != want[k].0 || (r.is_ok() && f.buffer[..] != want[k].1[..]) { return Err(format!("frame {i} (kind {k}): {r:?} instead of {:?}, or other pixels", want[k].0)); }
                }
                c.steps(70_000);
            }
            1 => {
                let b = &long_files()[1];
                let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip()]).clone();
                let e = expect(b, &o);
                for _ in 0..3 {
                    let obs = decode(&b[..], &o, &Style::Next)?;
                    check(&obs, &e, b)?;
                    c.obs(&obs);
                }
            }
            _ => {
                let fs = enc_frames();
                let gp = pal(4, 1);
                let ones: Vec<Option<Vec<u8>>> = fs.iter().map(|f| {
                    let mut one = vec![];
                    let ok = { let mut x = Encoder::new(&mut one, 9, 9, &gp).ok()?; x.write_frame(f).is_ok() };
                    one.pop();
                    ok.then(|| one[13 + 12..].to_vec())
                }).collect();
                let mut want = vec![];
                let mut out = vec![];
                {
                    let mut e = Encoder::new(&mut out, 9, 9, &gp).map_err(|e| err("new", e))?;
                    for i in 0..1200usize {
                        let k = i * 5 % fs.len();
                        let ok = e.write_frame(&fs[k]).is_ok();
                        if ok != ones[k].is_some() { return Err(format!("frame {i} (kind {k}) accepted: {ok}")); }
                        if let Some(o) = &ones[k] { want.extend_from_slice(o); }
                    }
                }
                want.push(0x3B);
                if out[25..] != want[..] { return Err(diff("file", &out[25..], &want)); }
                c.steps(1200);
            }
        }
        c.validated(1);
        Ok(())
    }).cpu(60.0));
    // encoders
    fn enc_frames() -> Vec<Frame<'static>> {
        let mk = |w: u16, h: u16, px: Vec<u8>, p: Option<Vec<u8>>| Frame { width: w, height: h, buffer: Cow::Owned(px), palette: p, ..Frame::default() };
        vec![
            mk(2, 2, vec![0, 1, 2, 3], None), mk(3, 1, vec![255, 0, 128], Some(pal(256, 1))),
            Frame { delay: 9, transparent: Some(1), interlaced: true, left: 3, ..mk(40, 20, vec![1; 800], Some(pal(3, 3))) },
            mk(60, 60, pattern(3600, 8, 3), None), mk(0, 0, vec![], None),
            mk(5, 5, vec![1], None), // refused: too short
            Frame { palette: Some(vec![0; 771]), ..mk(1, 1, vec![0], None) }, // refused: too many colours
        ]
    }
    v.push(Exploration::new("encoder-reuse", "one encoder, all sequences of 4 (thorough 5) out of 7 frames (2 refused), with and without global palette: every frame is written as by a new encoder", move |c| {
        let fs = enc_frames();
        let gp = if c.flag() { pal(4, 1) } else { vec![] };
        let mut out = vec![];
        let mut want = vec![];
        { Encoder::new(&mut want, 9, 9, &gp).map_err(|e| err("new", e))?; }
        want.pop();
        {
            let mut e = Encoder::new(&mut out, 9, 9, &gp).map_err(|e| err("new", e))?;
            let head = want.len();
            for _ in 0..k {
                let f = c.pick(&fs);
                let r = e.write_frame(f).is_ok();
                let mut one = vec![];
                let r1 = { let mut x = Encoder::new(&mut one, 9, 9, &gp).map_err(|e| err("new", e))?; x.write_frame(f).is_ok() };
                one.pop();
                if r != r1 { return Err("accepted or refused depending on earlier frames".into()); }
                want.extend_from_slice(&one[head..]);
                c.obs(&(r, want.len()));
            }
        }
        want.push(0x3B);
        if out != want { return Err(diff("file", &out, &want)); }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("two-encoders", "two encoders and a frame compressor, with and without global palette, all interleavings of 6 (thorough 8) calls each: same files as alone", move |c| {
        let fs = enc_frames();
        let gp = if c.flag() { pal(4, 1) } else { vec![] };
        fn step(e: &mut Encoder<&mut Vec<u8>>, fs: &[Frame<'static>], k: usize, which: usize) -> bool {
            let f = &fs[(k * 2 + which * 3) % fs.len()];
            match k % 3 {
                0 => e.write_frame(f).is_ok(),
                1 => { let mut g = f.clone(); g.make_lzw_pre_encoded(); e.write_lzw_pre_encoded_frame(&g).is_ok() }
                _ => e.write_raw_extension(gif::AnyExtension(0xFE), &[&[k as u8; 3]]).is_ok() && e.set_repeat(gif::Repeat::Finite(3)).is_ok(),
            }
        }
        let n = t.sel(6, 8);
        let alone = |w: usize| -> Result<(Vec<u8>, Vec<bool>), String> {
            let mut o = vec![];
            let mut e = Encoder::new(&mut o, 3, 4, &gp).map_err(|e| err("new", e))?;
            let r = (0..n).map(|k| step(&mut e, &fs, k, w)).collect();
            drop(e);
            Ok((o, r))
        };
        let w = [alone(0)?, alone(1)?];
        let (mut o1, mut o2) = (vec![], vec![]);
        let mut cnt = [0, 0];
        {
            let mut e1 = Encoder::new(&mut o1, 3, 4, &gp).map_err(|e| err("new", e))?;
            let mut e2 = Encoder::new(&mut o2, 3, 4, &gp).map_err(|e| err("new", e))?;
            while cnt[0] < n || cnt[1] < n {
                let x = if cnt[0] == n { 1 } else if cnt[1] == n { 0 } else { c.choose(2) };
                let r = step(if x == 0 { &mut e1 } else { &mut e2 }, &fs, cnt[x], x);
                c.obs(&(x, r));
                if r != w[x].1[cnt[x]] { return Err(format!("encoder {x}, call {}: {r}", cnt[x])); }
                cnt[x] += 1;
            }
        }
        if o1 != w[0].0 { return Err(diff("first file", &o1, &w[0].0)); }
        if o2 != w[1].0 { return Err(diff("second file", &o2, &w[1].0)); }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images x 3 global palettes x indexed, RGBA, raw: as the reference, which looks at each image alone", |c| {
        let b = pick_pool(c);
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip()]).clone();
        cmp(c, &b, &o, &Style::Next)
    }));
    v.push(Exploration::new("failed-reads", "each of a pool of 144 images in front of two others, in pieces of 1/24th of the file: one read call fails, at every place; the frames read afterwards are as the reference, which looks at each image alone; indexed, RGBA, raw", |c| {
        let p = pool();
        let i = c.choose(p.len());
        let b = with_pics(File::new(9, 9, Some(&pal(8, 1))), &[&p[i], &p[(i * 5 + 3) % 144], &(None, Img::pat(3, 2, 2, 1))]).end();
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip()]).clone();
        let e = expect(&b, &o);
        if e.broken.is_some() { return Ok(()); }
        let k = b.len() / 24 + 1;
        let at = c.choose(b.len() / k + 2);
        c.note("file", || hex(&b));
        c.note("fault", || format!("{o:?}: call {at} of pieces of {k}"));
        let r = Script::new(&b, |_, i| if i == at { Ans::Fail(std::io::ErrorKind::TimedOut) } else { Ans::Give(k) });
        let mut d = match o.build().read_info(r) { Ok(d) => d, Err(_) => return Ok(()) };
        let (mut next, mut errs) = (0usize, 0);
        loop {
            match d.read_next_frame() {
                Ok(Some(f)) => {
                    let got = (meta_of(f), f.buffer.to_vec());
                    // the fault may have cost the frame that was being read
                    let Some(j) = (next..e.frames.len()).take(1 + errs).find(|&j| e.frames[j].0 == got.0 && e.frames[j].1 == got.1) else { return Err(format!("call {at} failed; then {:?} {}", got.0, hex(&got.1))) };
                    next = j + 1;
                }
                Ok(None) => break,
                Err(_) => { errs += 1; if errs > 1 { return Err("more than one failed call".into()); } }
            }
        }
        c.obs(&(i, at, next, errs));
        c.validated(1);
        if next + errs < e.frames.len() { return Err(format!("{next} of {} frames", e.frames.len())); }
        Ok(())
    }));
    v.push(Exploration::new("triples", "every triple out of 48 (thorough 96) images of the pool, indexed or RGBA by turns", move |c| {
        let p = pool();
        let n = t.sel(48, 96);
        let (x, y, z) = (c.choose(n), c.choose(n), c.choose(n));
        let b = with_pics(File::new(9, 9, Some(&pal(8, 1))), &[&p[x], &p[y], &p[z]]).end();
        cmp(c, &b, &if (x + y + z) % 2 == 0 { PLAIN } else { PLAIN.rgba() }, &Style::Next)
    }));
    v.push(Exploration::new("twins", "two images that differ in one pixel, by two pixels or two colours exchanged, in one byte of the palette, or in one field, at every place: read in the order first, second, first from one file, indexed, RGBA or raw, or from a frame decoder", |c| {
        let t = pick_twin(c);
        let b = twin_file(&t);
        let k = c.choose(4);
        if k == 3 {
            // frame decoder
            let mut d = frame_dec(&PLAIN.rgba());
            for i in [0, 1, 0] {
                let mut f = lzw_frame(TWIN_W as u16, TWIN_W as u16, t.il[i], 8, &lzw::encode(8, &t.px[i], STD));
                f.palette = Some(t.pal[i].clone());
                f.transparent = t.tr[i];
                d.decode_lzw_encoded_frame(&mut f).map_err(|e| err("frame decoder", e))?;
                let px = if t.il[i] { model::deinterlace(&t.px[i], TWIN_W, TWIN_W) } else { t.px[i].clone() };
                let want = model::rgba(&px, &t.pal[i], t.tr[i]);
                if f.buffer[..] != want[..] { return Err(diff("frame decoder", &f.buffer, &want)); }
            }
            c.validated(1);
            return Ok(());
        }
        cmp(c, &b, &[PLAIN, PLAIN.rgba(), PLAIN.skip()][k].clone(), &Style::Next)
    }));
    v.push(Exploration::new("threads", "two decoders (8 pairs of files and options), two encoders (7 pairs), or two frame decoders with a frame compressor (12 pairs): all interleavings of 3 calls each, every call of the first (thorough: of both) on the thread of the program or on a new thread of its own: same results as alone", move |c| {
        fn on<T: Send>(new: bool, f: impl FnOnce() -> T + Send) -> T {
            if !new { return f(); }
            std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|p| std::panic::resume_unwind(p))
        }
        let both = t.t();
        let order = |c: &crate::engine::Ctx, f: &mut dyn FnMut(usize, usize, bool) -> Result<(), String>| -> Result<(), String> {
            let mut n = [0, 0];
            while n != [3, 3] {
                let x = if n[0] == 3 { 1 } else if n[1] == 3 { 0 } else { c.choose(2) };
                let new = (x == 0 || both) && c.flag();
                f(x, n[x], new).map_err(|e| format!("object {x}, call {}, {}, after {} calls of the other: {e}", n[x], if new { "new thread" } else { "old thread" }, n[1 - x]))?;
                n[x] += 1;
            }
            Ok(())
        };
        match c.choose(3) {
            0 => {
                let f = files();
                let n = c.choose(f.len());
                let fs = [f[n].clone(), f[(n * 3 + 1) % f.len()].clone()];
                let mut want = vec![];
                let mut d = vec![];
                for f in &fs {
                    let mut s = Stepper::new(f)?;
                    want.push([s.step(), s.step(), s.step()]);
                    d.push(Stepper::new(f)?);
                }
                order(c, &mut |x, k, new| { let d = &mut d[x]; if on(new, || d.step()) != want[x][k] { return Err("differs from running alone".into()); } Ok(()) })?;
            }
            1 => {
                let fs = enc_frames();
                let gp = pal(4, 1);
                let n = c.choose(fs.len());
                let at = [n, (n * 3 + 1) % fs.len()];
                let run = |e: &mut Encoder<Vec<u8>>, x: usize, k: usize| {
                    let f = &fs[(at[x] + k * 2) % fs.len()];
                    if k % 2 == 0 { e.write_frame(f).is_ok() } else { let mut g = f.clone(); g.make_lzw_pre_encoded(); e.write_lzw_pre_encoded_frame(&g).is_ok() }
                };
                let new = |_: usize| Encoder::new(vec![], 9, 9, &gp).map_err(|e| err("new", e));
                let mut want = vec![];
                for x in 0..2 { let mut e = new(x)?; let r = [run(&mut e, x, 0), run(&mut e, x, 1), run(&mut e, x, 2)]; want.push((r, e.into_inner().map_err(|e| err("into_inner", e))?)); }
                let mut es = [new(0)?, new(1)?];
                order(c, &mut |x, k, new| { let e = &mut es[x]; let r = on(new, || run(e, x, k)); if r != want[x].0[k] { return Err(format!("accepted: {r}")); } Ok(()) })?;
                for (e, w) in es.into_iter().zip(&want) { let o = e.into_inner().map_err(|e| err("into_inner", e))?; if o != w.1 { return Err(diff("file", &o, &w.1)); } }
            }
            _ => {
                let fs = fd_frames();
                let n = c.choose(fs.len());
                let at = [n, (n * 3 + 1) % fs.len()];
                let o = PLAIN.rgba();
                let mk = |x: usize| { let mut d = frame_dec(&o); d.set_global_palette(pal(4, 5 + x as u8)); d };
                let run = |d: &mut gif::streaming_decoder::FrameDecoder, x: usize, k: usize| {
                    let mut f = fs[(at[x] + k * 5) % fs.len()].clone();
                    let r = d.decode_lzw_encoded_frame(&mut f).map_err(|e| class(&e));
                    f.make_lzw_pre_encoded();
                    hash_of(&(r, f.buffer))
                };
                let mut want = vec![];
                for x in 0..2 { let mut d = mk(x); want.push([run(&mut d, x, 0), run(&mut d, x, 1), run(&mut d, x, 2)]); }
                let mut d = [mk(0), mk(1)];
                order(c, &mut |x, k, new| { let d = &mut d[x]; if on(new, || run(d, x, k)) != want[x][k] { return Err("differs from running alone".into()); } Ok(()) })?;
            }
        }
        c.obs(&0);
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("counts", "70 000 decoders, frame decoders, encoders or streaming decoders one after the other in one program: the last ones give the same as the first", |c| {
        let what = c.choose(5);
        let o = c.pick(&[PLAIN, PLAIN.rgba().unknown(), PLAIN.skip()]).clone();
        let b = &hist_files()[c.choose(3)];
        c.note("what", || format!("{what} {o:?}"));
        let fs = fd_frames();
        let es = enc_frames();
        let mut first = vec![];
        for i in 0..70_000usize {
            let h = match what {
                0 => hash_of(&decode(&b[..], &o, &if i % 3 == 1 { Style::Iter } else { Style::Next })?),
                1 => { let mut d = frame_dec(&o); d.set_global_palette(pal(4, 5)); let mut f = fs[i % fs.len()].clone(); let r = d.decode_lzw_encoded_frame(&mut f).map_err(|e| class(&e)); hash_of(&(r, r.is_ok().then(|| f.buffer.to_vec()))) }
                2 => { let mut out = vec![]; let r = { let mut x = Encoder::new(&mut out, 9, 9, &pal(4, 1)).map_err(|e| err("new", e))?; x.write_frame(&es[i % es.len()]).is_ok() }; hash_of(&(r, out)) }
                3 => hash_of(&stream(b, |_| 1000, Out::Size(64))?.events),
                _ => { let mut f = es[i % 3].clone(); f.make_lzw_pre_encoded(); hash_of(&f.buffer[..]) }
            };
            let period = match what { 1 => fs.len(), 2 => es.len(), 4 => 3, _ => 1 };
            if first.len() < period { first.push(h); } else if first[i % period] != h { return Err(format!("number {i} gives something else than the first")); }
        }
        c.obs(&first);
        c.steps(70_000);
        c.validated(1);
        Ok(())
    }).cpu(120.0));
    v
}

/// Steps a decoder call by call and digests what each call reports.
struct Stepper { d: gif::Decoder<std::io::Cursor<Vec<u8>>>, o: Opts, phase: u8, left: usize }
impl Stepper {
    fn new(f: &(Vec<u8>, Opts)) -> Result<Self, String> {
        Ok(Stepper { d: f.1.build().read_info(std::io::Cursor::new(f.0.clone())).map_err(|e| err("open", e))?, o: f.1.clone(), phase: 0, left: 0 })
    }
    fn step(&mut self) -> u64 {
        use crate::engine::hash_of;
        if self.o.skip {
            return hash_of(&self.d.read_next_frame().map(|f| f.map(|f| (meta_of(f), f.buffer.to_vec()))).map_err(|e| class(&e)));
        }
        match self.phase {
            0 => {
                let r = self.d.next_frame_info().map(|f| f.map(meta_of)).map_err(|e| class(&e));
                if let Ok(Some(m)) = &r { self.left = m.w as usize * m.h as usize * self.o.bpp(); self.phase = 1; }
                hash_of(&r)
            }
            p => {
                let n = if p == 1 { self.left / 2 / self.o.bpp() * self.o.bpp() } else { self.left };
                let mut b = vec![0; n];
                let r = self.d.fill_buffer(&mut b).map_err(|e| class(&e));
                self.left -= n;
                self.phase = if p == 1 && r == Ok(true) { 2 } else { 0 };
                hash_of(&(r, b))
            }
        }
    }
}
