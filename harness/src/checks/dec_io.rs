//! C01 robustness, C02 delivery, C11 memory limit, C15 streaming events, C25 extension payloads, C27 read faults.
use super::dec_hist::{files_all, files_good};
use super::dec_px::{frame_dec, lzw_frame};
use super::*;
use crate::alloc;
use crate::drive::*;
use crate::engine::Exploration;
use crate::genr::*;
use crate::lzw::{self, STD};
use crate::model::{self, Meta, Repeat, Stop};
use crate::{CheckInfo, Tier};
use gif::streaming_decoder::{Decoded, OutputBuffer, StreamingDecoder};
use gif::{AnyExtension, Encoder, Frame};
use std::borrow::Cow;
use std::io::{ErrorKind, Read};
use std::sync::OnceLock;

pub fn checks() -> Vec<CheckInfo> {
    vec![
        CheckInfo { id: "C01", level: "model_checking", rule: "every execution feeds one byte string to the decoder in one way, goes on calling it after errors and after the end, and must come to an end without a panic", assumptions: &["memory limits are set whenever a file may announce large images: allocation failure aborts by design of the standard library", "the streaming decoder is always given the bytes it did not consume again, as its documentation asks"], build: c01 },
        CheckInfo { id: "C02", level: "model_checking", rule: "every execution delivers one input in one way and compares everything observed with delivery in one piece", assumptions: &[], build: c02 },
        CheckInfo { id: "C11", level: "model_checking", rule: "every execution decodes one file under one memory limit, compares acceptance with the sizes and measures the peak of the heap", assumptions: &["buffers the caller passes in are not memory held by the decoder", "raw data or an extension of exactly the limit may be accepted or refused, because the decoder keeps one byte of its own with it"], build: c11 },
        CheckInfo { id: "C15", level: "model_checking", rule: "every execution feeds one stream in one slicing with one output size and compares the whole event sequence with the one derived from the reference parse", assumptions: &[], build: c15 },
        CheckInfo { id: "C25", level: "model_checking", rule: "every execution writes extensions with the encoder and reads them back with the streaming decoder", assumptions: &["control extensions other than of four bytes are errors when read (C03), so only those of four bytes are read back"], build: c25 },
        CheckInfo { id: "C27", level: "fault_enumeration", rule: "one evaluation lets chosen read calls fail while one file is decoded in one style and delivery; non-trivial when at least one fault was injected, distinct by file, style, delivery and faults", assumptions: &["after a failed read in the middle of an image, that image is lost and decoding continues with the next one"], build: c27 },
    ]
}

// ---------------------------------------------------------------- C01

const SMALL: Limit = Limit::Bytes(1 << 16);
fn all_opts() -> &'static [Opts] {
    static S: OnceLock<Vec<Opts>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for m in 0..32u8 {
            v.push(Opts { rgba: m & 1 != 0, consistency: m & 2 != 0, skip: m & 4 != 0, endcode: m & 8 != 0, unknown: m & 16 != 0, limit: SMALL });
        }
        v
    })
}
fn few_opts() -> &'static [Opts] {
    static S: OnceLock<Vec<Opts>> = OnceLock::new();
    S.get_or_init(|| {
        let p = Opts { limit: SMALL, ..PLAIN };
        vec![p.clone(), p.clone().rgba().unknown(), p.clone().skip().unknown(), p.clone().endcode(), Opts { consistency: true, endcode: true, rgba: true, ..p }]
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Drive { Next, Iter, Info, Fill(usize), Into(usize), Raw, Bytes(usize) }
const DRIVES: [Drive; 9] = [Drive::Next, Drive::Iter, Drive::Info, Drive::Fill(1), Drive::Fill(5), Drive::Into(70_000), Drive::Raw, Drive::Bytes(7), Drive::Bytes(9)];

/// Decodes in one way, going on after errors; returns something that depends on everything seen.
fn torture<R: Read>(r: R, o: &Opts, how: Drive, endless: usize) -> Result<(u32, u32, u64), String> {
    let (mut ok, mut errs, mut sum) = (0u32, 0u32, 0u64);
    let mut d = match o.build().read_info(r) { Ok(d) => d, Err(_) => return Ok((0, 1, 0)) };
    let mut calls = 0;
    macro_rules! limit { () => { calls += 1; if calls > endless { return Err(format!("{calls} calls and no end")); } } }
    if how == Drive::Iter {
        let mut it = d.into_iter();
        loop {
            limit!();
            match it.next() {
                None => break,
                Some(Ok(f)) => { ok += 1; sum += f.buffer.len() as u64; }
                Some(Err(_)) => errs += 1,
            }
        }
        if it.next().is_some() { return Err("the iterator continues after its end".into()); }
        let mut v = vec![];
        let _ = it.into_inner().read_to_end(&mut v);
        return Ok((ok, errs, sum + v.len() as u64));
    }
    let mut fd = frame_dec(o);
    let mut buf = vec![0u8; match how { Drive::Fill(n) | Drive::Into(n) => n * o.bpp(), Drive::Bytes(n) => n, _ => 0 }];
    while errs < 4 {
        limit!();
        if matches!(how, Drive::Next | Drive::Raw) {
            match d.read_next_frame() {
                Ok(None) => break,
                Ok(Some(f)) => {
                    ok += 1;
                    sum += f.buffer.len() as u64;
                    if how == Drive::Raw { let mut f = f.clone(); if fd.decode_lzw_encoded_frame(&mut f).is_ok() { sum += 7; } }
                }
                Err(_) => errs += 1,
            }
            continue;
        }
        match d.next_frame_info() {
            Ok(None) => break,
            Ok(Some(_)) => ok += 1,
            Err(_) => { errs += 1; continue }
        }
        sum += d.line_length() as u64;
        if let Ok(p) = d.palette() { sum += p.len() as u64; }
        match how {
            Drive::Info => {}
            Drive::Into(_) => if d.read_into_buffer(&mut buf).is_ok() { sum += 3 },
            Drive::Fill(_) | Drive::Bytes(_) => loop {
                limit!();
                match d.fill_buffer(&mut buf) { Ok(true) => sum += 1, Ok(false) => { let _ = d.fill_buffer(&mut buf); break }, Err(_) => { let _ = d.fill_buffer(&mut buf); break } }
            },
            _ => unreachable!(),
        }
    }
    // after the end or the last error
    let _ = d.read_next_frame().map(|f| f.is_some());
    let _ = d.next_frame_info().map(|f| f.is_some());
    let _ = d.fill_buffer(&mut [0; 8]);
    let _ = d.read_into_buffer(&mut [0; 64]);
    let _ = d.palette().map(|p| p.len());
    let mut v = vec![];
    let _ = d.into_inner().read_to_end(&mut v);
    Ok((ok, errs, sum + v.len() as u64))
}
fn tort(c: &Ctx, b: &[u8], o: &Opts, how: Drive, chunk: usize) -> Res {
    c.note("file", || hex(b));
    c.note("how", || format!("{how:?} chunks of {chunk} {o:?}"));
    let x = torture(Script::new(b, |_, _| Ans::Give(chunk)), o, how, 200_000)?;
    c.obs(&x);
    c.steps(u64::from(x.0 + x.1));
    c.validated(1);
    c.outcome(if x.1 > 0 { "errors" } else { "no error" });
    Ok(())
}

/// Streaming updates that go on after errors (with the same or the next byte) and behind the trailer.
fn tort_stream(b: &[u8], slice: usize, out: usize, skip_on_error: bool) -> Result<(usize, u32), String> {
    let mut d = StreamingDecoder::new();
    let (mut p, mut errs, mut calls, mut evs) = (0, 0u32, 0usize, 0u32);
    let mut buf = vec![0; if out == usize::MAX { 0 } else { out }];
    let mut vec = vec![];
    let mut frame = false;
    while p < b.len() {
        calls += 1;
        if calls > b.len() * 16 + 5000 { return Err("streaming updates do not end".into()); }
        let n = slice.min(b.len() - p);
        let r = match out {
            0 => d.update(&b[p..p + n], &mut OutputBuffer::None),
            usize::MAX => d.update(&b[p..p + n], &mut OutputBuffer::Vec(&mut vec)),
            _ => d.update(&b[p..p + n], &mut OutputBuffer::Slice(&mut buf)),
        };
        match r {
            Ok((c, ev)) => {
                if c > n { return Err(format!("consumed {c} of {n}")); }
                p += c;
                evs += 1;
                match ev {
                    Decoded::FrameMetadata(_) => frame = true,
                    Decoded::DataEnd | Decoded::BlockStart(_) => frame = false,
                    _ => {}
                }
                if frame { let _ = d.current_frame().width; }
            }
            Err(_) => {
                errs += 1;
                frame = false;
                let _ = d.update(&[], &mut OutputBuffer::Slice(&mut buf));
                if errs > 6 { break; }
                if skip_on_error { p += 1; }
            }
        }
        let _ = (d.last_ext().1.len(), d.width(), d.height(), d.version());
        if calls % 3 == 0 { let _ = d.update(&[], &mut OutputBuffer::None); }
    }
    let _ = d.update(&[], &mut OutputBuffer::Vec(&mut vec));
    Ok((p, evs * 16 + errs))
}

fn tokens() -> &'static [Vec<u8>] {
    static S: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    S.get_or_init(|| {
        let g = pal(2, 3);
        let f = || File { b: vec![] };
        let big = f().img(&Img::raw(0xFFFF, 0xFFFF, 2, vec![0x44, 0x01])).b;
        let desc = f().img(&Img::raw(2, 2, 2, vec![])).b; // data terminator included
        vec![
            f().gce(5, 1, 1).b, f().ext(0xF9, &[]).b, f().ext(0xF9, &[&[1, 2, 3, 4, 5]]).b, f().netscape(2).b, f().ext(0xFF, &[b"NETSCAPE2.0"]).b, f().ext(0xFE, &[&[0; 255], &[1]]).b,
            f().ext(0x01, &[&[7; 12]]).b, f().ext(0x42, &[&[7; 2]]).b, vec![0x21], vec![0x00], vec![0x3B], vec![0x42, 2, 0x21, 0xF9, 0], vec![0x42, 0],
            f().img(&Img::pat(2, 2, 2, 1)).b, f().img(&Img::pat(2, 9, 2, 1).il().pal(g.clone())).b, f().img(&Img::pat(0, 3, 2, 1)).b, big, desc[..desc.len() - 1].to_vec(), desc[..6].to_vec(),
            desc, f().img(&Img::raw(3, 3, 2, vec![0xFF; 9])).b, f().img(&Img::raw(2, 2, 11, vec![0x00, 0x08, 0, 0, 0x01, 0x08])).b, f().img(&Img::raw(2, 2, 12, vec![1])).b,
            f().img(&Img::raw(1, 1, 2, lzw::encode(2, &pattern(600, 2, 1), STD)).split(Split::Each(7))).b, f().img(&Img::pat(2, 2, 3, 1).pal(g)).b[..20].to_vec(),
        ]
    })
}

fn c01(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    const ALPHA: [u8; 14] = [0x00, 0x01, 0x02, 0x03, 0x04, 0x0B, 0x21, 0x2C, 0x3B, 0x42, 0x80, 0xF9, 0xFE, 0xFF];
    let n = t.sel(4, 6);
    v.push(Exploration::new("bytes", "after the screen descriptor: every byte string of length 0 to 4 (thorough 6) over 14 structural byte values, cut there, x 5 option sets x 3 ways of driving", move |c| {
        let mut b = File::new(2, 2, if c.flag() { Some(&[1, 2, 3, 4, 5, 6]) } else { None }).b;
        let len = c.range(0, n);
        for _ in 0..len { b.push(c.of(&ALPHA)); }
        tort(c, &b, c.pick(few_opts()), c.of(&[Drive::Next, Drive::Fill(1), Drive::Iter]), c.of(&[usize::MAX, 1]))
    }));
    let n = t.sel(4, 6);
    v.push(Exploration::new("frame-bytes", "image descriptor of 4 shapes, then every byte string of length 0 to 4 (thorough 6) over 14 values as code size, sub-blocks and what follows, x 5 option sets x 3 ways", move |c| {
        let (w, h, fl) = c.of(&[(1u16, 1u16, 0u8), (3, 2, 0x40), (0, 7, 0), (0xFFFF, 0xFFFF, 0)]);
        let mut b = File::new(2, 2, Some(&[1, 2, 3, 4, 5, 6])).b;
        b.extend([0x2C, 0, 0, 0, 0]);
        b.extend(w.to_le_bytes());
        b.extend(h.to_le_bytes());
        b.push(fl);
        let len = c.range(0, n);
        for _ in 0..len { b.push(c.of(&ALPHA)); }
        tort(c, &b, c.pick(few_opts()), c.of(&[Drive::Next, Drive::Fill(5), Drive::Info]), usize::MAX)
    }));
    let n = t.sel(3, 4);
    v.push(Exploration::new("tokens", "every sequence of 1 to 3 (thorough 4) out of 25 good, bad and cut blocks, x all 32 option sets x 9 ways of driving", move |c| {
        let mut b = File::new(2, 2, if c.flag() { Some(&[1, 2, 3, 4, 5, 6]) } else { None }).b;
        let len = c.range(1, n);
        let wide = len < n;
        for _ in 0..len { b.extend_from_slice(c.pick(tokens())); }
        let o = c.pick(if wide { all_opts() } else { few_opts() });
        tort(c, &b, o, if wide { c.of(&DRIVES) } else { c.of(&[Drive::Next, Drive::Fill(1), Drive::Raw]) }, if wide { c.of(&[usize::MAX, 1, 3]) } else { usize::MAX })
    }));
    v.push(Exploration::new("mutations", "every seed and history file of up to 300 bytes with one byte replaced by every value, or removed, or the file cut there, x 5 option sets x 4 ways (thorough: 32 x 9)", move |c| {
        let (o, how) = if t.t() { (c.pick(all_opts()), c.of(&DRIVES)) } else { (c.pick(few_opts()), c.of(&[Drive::Next, Drive::Iter, Drive::Fill(5), Drive::Raw])) };
        let f = c.pick(files_all());
        if f.len() > 300 { return Ok(()); }
        let p = c.choose(f.len());
        let x = c.choose(258);
        let mut b = f.clone();
        match x { 256 => { b.remove(p); } 257 => b.truncate(p), x => b[p] = x as u8 }
        tort(c, &b, o, how, if t.t() { c.of(&[usize::MAX, 1]) } else { usize::MAX })
    }));
    v.push(Exploration::new("mutation-pairs", "every seed of up to 80 bytes (thorough 130) with every pair of bytes at most 12 apart set to each of 5 (thorough 9) values", move |c| {
        let (_, f) = c.pick(seeds());
        if f.len() > t.sel(80, 130) { return Ok(()); }
        let p = c.choose(f.len());
        let q = p + c.range(1, 12);
        if q >= f.len() { return Ok(()); }
        let vals: &[u8] = t.sel(&[0, 1, 0x21, 0x3B, 0xFF], &[0, 1, 2, 4, 0x21, 0x2C, 0x3B, 0x80, 0xFF]);
        let mut b = f.clone();
        b[p] = c.of(vals);
        b[q] = c.of(vals);
        tort(c, &b, c.pick(few_opts()), c.of(&[Drive::Next, Drive::Fill(1)]), usize::MAX)
    }));
    let depth = t.sel(4, 5);
    v.push(Exploration::new("call-histories", "every seed file, every sequence of 4 (thorough 5) out of 9 API calls in any order, before frames were asked for, after errors and after the end, x 3 option sets", move |c| {
        let (_, b) = c.pick(seeds());
        let o = c.pick(&few_opts()[..if t.t() { 5 } else { 3 }]);
        c.note("file", || hex(b));
        let Ok(mut d) = o.build().read_info(&b[..]) else { return Ok(()) };
        let mut log = vec![];
        for _ in 0..depth {
            let a = c.choose(9);
            log.push(a);
            let r = match a {
                0 => d.next_frame_info().map(|f| f.is_some() as usize).map_err(|e| class(&e)),
                1 => d.read_next_frame().map(|f| f.is_some() as usize).map_err(|e| class(&e)),
                2 => d.fill_buffer(&mut []).map(usize::from).map_err(|e| class(&e)),
                3 => d.fill_buffer(&mut [0; 1]).map(usize::from).map_err(|e| class(&e)),
                4 => d.fill_buffer(&mut [0; 8]).map(usize::from).map_err(|e| class(&e)),
                5 => d.fill_buffer(&mut [0; 500]).map(usize::from).map_err(|e| class(&e)),
                6 => d.read_into_buffer(&mut [0; 3]).map(|_| 0).map_err(|e| class(&e)),
                7 => d.read_into_buffer(&mut [0; 4000]).map(|_| 0).map_err(|e| class(&e)),
                _ => Ok(d.buffer_size() + d.line_length() + d.palette().map_or(0, |p| p.len()) + d.global_palette().map_or(0, |p| p.len()) + d.bg_color().unwrap_or(0)),
            };
            c.obs(&(a, r));
        }
        c.note("calls", || format!("{log:?}"));
        let mut v = vec![];
        let _ = d.into_inner().read_to_end(&mut v);
        c.validated(1);
        Ok(())
    }));
    let n = t.sel(3, 4);
    v.push(Exploration::new("frame-decoder", "the frame decoder on every buffer of a code size byte (0 to 13, 255) and 0 to 3 (thorough 4) bytes out of 17 values, 6 image shapes, RGBA and end code check on or off, twice with the same decoder; all two-byte data for 4 shapes", move |c| {
        let full = c.flag();
        let mcs = c.of(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 255]);
        let data: Vec<u8> = if full { vec![c.choose(256) as u8, c.choose(256) as u8] } else {
            let len = c.range(0, n);
            (0..len).map(|_| c.of(&[0u8, 1, 2, 3, 4, 5, 8, 9, 0x0C, 0x10, 0x20, 0x40, 0x44, 0x80, 0x91, 0xFE, 0xFF])).collect()
        };
        let (w, h, il) = if full { c.of(&[(1, 1, false), (3, 3, true), (0, 1, false), (40, 2, false)]) } else { c.of(&[(1u16, 1u16, false), (3, 3, true), (0, 1, false), (40, 2, false), (0xFFFF, 0xFFFF, true), (2, 0, true)]) };
        let (rgba, endcode) = (c.flag(), c.flag());
        let o = Opts { rgba, endcode, limit: SMALL, ..PLAIN };
        c.note("data", || format!("mcs {mcs}, {}, {w}x{h} {o:?}", hex(&data)));
        let mut d = frame_dec(&o);
        if c.flag() { d.set_global_palette(pal(4, 1)); }
        let mut f = lzw_frame(w, h, il, mcs, &data);
        let r = d.decode_lzw_encoded_frame(&mut f).map(|_| f.buffer.len()).map_err(|e| class(&e));
        c.obs(&r);
        let f = lzw_frame(w, h, il, mcs, &data);
        let r2 = d.decode_lzw_encoded_frame_into_buffer(&f, &mut [0; 20]).map_err(|e| class(&e));
        c.obs(&r2);
        let _ = d.buffer_size(&f);
        let mut f = Frame { width: 2, height: 1, buffer: Cow::Borrowed(&[]), ..Frame::default() };
        let _ = d.decode_lzw_encoded_frame(&mut f);
        c.validated(1);
        Ok(())
    }));
    let n = t.sel(2, 3);
    v.push(Exploration::new("streaming", "streaming updates over every sequence of 1 to 2 (thorough 3) out of 25 good, bad and cut blocks followed by a trailer and more bytes, and over every seed with one byte replaced by each of 6 values: slices of 1, 2, 9 and all bytes, output of none, 1, 3, 4000 bytes, going on after errors with the same or the next byte", move |c| {
        let b = if c.flag() {
            let mut b = File::new(2, 2, Some(&[1, 2, 3, 4, 5, 6])).b;
            let len = c.range(1, n);
            for _ in 0..len { b.extend_from_slice(c.pick(tokens())); }
            b.extend(b"\x3b\x21\x3b\x2c");
            b
        } else {
            let mut b = c.pick(seeds()).1.clone();
            let p = c.choose(b.len());
            b[p] = c.of(&[0, 1, 0x21, 0x2C, 0x3B, 0xFF]);
            b
        };
        c.note("file", || hex(&b));
        let r = tort_stream(&b, c.of(&[1, 2, 9, usize::MAX]), c.of(&[0, 1, 3, 4000]), c.flag())?;
        c.obs(&r);
        c.steps(r.1 as u64 / 16);
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("streaming-empty-output", "the same with an empty slice and with a vector as output", |c| {
        let b = c.pick(files_all());
        let vec = c.flag();
        let s = c.of(&[1, 2, 3, 5, 9, usize::MAX]);
        c.note("file", || hex(b));
        if vec {
            c.obs(&tort_stream(b, s, usize::MAX, c.flag())?);
        } else {
            c.obs(&stream(b, |_| s, Out::Size(0))?.events.len());
        }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("long-inputs", "endless repetitions (3000 times) of each of 25 blocks and each byte value, x 5 option sets x 3 ways", |c| {
        let mut b = File::new(2, 2, Some(&[1, 2, 3, 4, 5, 6])).b;
        let t = if c.flag() { c.pick(tokens()).clone() } else { vec![c.choose(256) as u8] };
        for _ in 0..3000 { b.extend_from_slice(&t); }
        tort(c, &b, c.pick(few_opts()), c.of(&[Drive::Next, Drive::Iter, Drive::Info]), usize::MAX)
    }).cpu(60.0));
    v.push(Exploration::new("counts", &format!("{COUNTED}: 5 option sets, 5 ways of driving, streaming updates"), |c| {
        let (k, b) = pick_count(c);
        match c.choose(3) {
            0 => tort(c, &b, c.pick(few_opts()), c.of(&[Drive::Next, Drive::Iter, Drive::Info]), [usize::MAX, 1][k % 2]),
            1 => tort(c, &b, &PLAIN.unknown(), c.of(&[Drive::Fill(100), Drive::Raw]), [usize::MAX, 1, 3][k % 3]),
            _ => { c.obs(&tort_stream(&b, c.of(&[1, 4000]), c.of(&[0, 4000]), false)?); c.validated(1); Ok(()) }
        }
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: 2 of 5 option sets x 3 ways of driving"), |c| {
        let (k, b, _) = pick_combo(c);
        let n = few_opts().len();
        tort(c, &b, &few_opts()[(k + c.choose(2) * 2) % n], c.of(&[Drive::Next, Drive::Info, Drive::Fill(7)]), usize::MAX)
    }));
    v
}

// ---------------------------------------------------------------- C02

/// Everything one can see, including how many pixels come out in front of an error.
fn full_view<R: Read>(r: R, o: &Opts, how: usize) -> Result<Obs, String> {
    let styles = [Style::Next, Style::Iter, Style::Into(1), Style::Fill(vec![2, 1, 5])];
    if how < 4 { return decode(r, o, &styles[how]); }
    // pixel by pixel, keeping what was read before an error; up to the first error
    let mut d = match o.build().read_info(r) {
        Ok(d) => d,
        Err(e) => { let c = class(&e); return Ok(Obs { header: Err(c), frames: vec![], end: End::Err(c), rest: None }); }
    };
    let mut obs = Obs { header: Ok(hdr_of(&d)), frames: vec![], end: End::Done, rest: None };
    loop {
        let m = match d.next_frame_info() {
            Ok(None) => break,
            Ok(Some(f)) => meta_of(f),
            Err(e) => { obs.end = End::Err(class(&e)); return Ok(obs); }
        };
        let n = m.w as usize * m.h as usize;
        let mut px = vec![];
        let mut b = vec![0; o.bpp()];
        if !o.skip {
            for _ in 0..n.min(100_000) {
                b.fill(STALE);
                match d.fill_buffer(&mut b) { Ok(true) => { settle(&mut b, o.rgba); px.extend_from_slice(&b) } Ok(false) => { px.push(1); break }, Err(e) => { obs.frames.push((m, px)); obs.end = End::Err(class(&e)); return Ok(obs); } }
            }
        }
        obs.frames.push((m, px));
        if obs.frames.len() > MAX_FRAMES { return Err("frames do not end".into()); }
    }
    obs.rest = Some(rest(d.into_inner()));
    Ok(obs)
}
fn same_view(c: &Ctx, b: &[u8], o: &Opts, how: usize, slice: impl Fn(usize) -> usize) -> Res {
    c.note("file", || hex(b));
    c.note("options", || format!("{o:?} way {how}"));
    let one = full_view(b, o, how)?;
    let mut sl = vec![];
    let two = full_view(Script::new(b, |p, _| { let n = slice(p); if c.verbose { sl.push(n); } Ans::Give(n) }), o, how)?;
    c.note("reads", || format!("{sl:?}"));
    c.obs(&two);
    c.validated(1);
    c.outcome(if one.end == End::Done { "complete" } else { "error" });
    if one != two { return Err(format!("in one piece: {}\nin pieces: {}", short(&one), short(&two))); }
    Ok(())
}
fn short(o: &Obs) -> String { format!("{o:?}").chars().take(900).collect() }
fn until(cuts: &[usize]) -> impl Fn(usize) -> usize + '_ { move |p| cuts.iter().find(|&&x| x > p).map_or(usize::MAX, |&x| x - p) }
/// An update without bytes before every one of k bytes.
fn alternate(k: usize) -> impl Fn(usize) -> usize { let t = std::cell::Cell::new(false); move |_| { t.set(!t.get()); if t.get() { 0 } else { k } } }
/// Up to p, then an update without bytes, then the rest.
fn until_at(p: usize) -> impl Fn(usize) -> usize { let t = std::cell::Cell::new(false); move |x| if x < p { p - x } else if x == p && !t.replace(true) { 0 } else { usize::MAX } }
fn o2() -> &'static [Opts] {
    static S: OnceLock<Vec<Opts>> = OnceLock::new();
    S.get_or_init(|| vec![PLAIN, PLAIN.rgba().unknown(), PLAIN.skip(), PLAIN.endcode(), Opts { consistency: true, ..PLAIN.skip().unknown().endcode() }])
}
/// What the streaming decoder reports, without what may depend on the slicing (sizes of pixel runs).
fn norm(s: &SObs) -> (Vec<(usize, Ev)>, Vec<Vec<u8>>, Result<(), ErrClass>, (u8, u16, u16)) {
    let ev = s.events.iter().filter(|e| !matches!(e.1, Ev::Pixels(_))).cloned().collect();
    (ev, s.pixels.clone(), s.end, (s.version, s.w, s.h))
}

fn c02(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("cuts", "every seed and history file of up to 320 bytes delivered in three pieces, cut at every pair of places, x 5 option sets x 5 ways of reading (quick: one of 5 option sets per pair and way beyond 100 bytes)", move |c| {
        let b = c.pick(files_all());
        if b.len() > 320 { return Ok(()); }
        let p = c.choose(b.len());
        let q = p + c.choose(b.len() - p);
        let how = c.choose(5);
        let o = if t.t() || b.len() < 100 { c.pick(o2()) } else { &o2()[(p + q * 3 + how) % 5] };
        same_view(c, b, o, how, until(&[p, q]))
    }));
    v.push(Exploration::new("uniform", "every seed and history file in pieces of every uniform size 1 to 64 and every size 1..9 after a first piece of 1..30, x 5 option sets x 5 ways", |c| {
        let b = c.pick(files_all());
        let two = c.flag();
        let first = if two { c.range(1, 30) } else { 0 };
        let k = c.range(1, if two { 9 } else { 64 });
        same_view(c, b, c.pick(o2()), c.choose(5), |p| if p < first { first - p } else { k })
    }));
    let win = t.sel(7, 9);
    v.push(Exploration::new("windows", "every seed file: a window of 8 (thorough 10) bytes at every place is cut in every possible way, the rest is delivered whole, x 5 option sets (quick: one per place)", move |c| {
        let (_, b) = c.pick(seeds());
        let at = c.choose(b.len());
        let mask = c.choose(1 << win);
        let how = c.choose(5);
        let o = if t.t() { c.pick(o2()) } else { &o2()[(at + how) % 5] };
        let cuts: Vec<usize> = std::iter::once(at).chain((0..win).filter(|i| mask >> i & 1 == 1).map(|i| at + 1 + i)).collect();
        same_view(c, b, o, how, until(&cuts))
    }));
    v.push(Exploration::new("interrupted", "every seed file in pieces of 1, 4 or all bytes with up to 2 (thorough 3) read calls interrupted, at every place, x 3 option sets x 3 ways", |c| {
        let (_, b) = c.pick(seeds());
        let o = c.pick(&o2()[..3]);
        let how = c.of(&[0, 1, 3]);
        let k = c.of(&[usize::MAX, 4, 1]);
        c.note("file", || hex(b));
        let one = full_view(&b[..], o, how)?;
        let mut n = vec![];
        let two = full_view(Script::new(b, |_, i| if c.deviate(2) == 1 { n.push(i); Ans::Fail(ErrorKind::Interrupted) } else { Ans::Give(k) }), o, how)?;
        c.note("interrupted calls", || format!("{n:?} of pieces of {k}"));
        c.obs(&(&n, &two));
        c.validated(1);
        if one != two { return Err(format!("interrupted at calls {n:?}\nwithout: {}\nwith: {}", short(&one), short(&two))); }
        Ok(())
    }).dev(t.sel(2, 3)));
    v.push(Exploration::new("interrupted-in-a-row", "every seed file in pieces of 1, 4 or all bytes, every read call interrupted 1, 2, 3, 9, 10, 17 or 100 times in a row before it answers, or one (every one) of them 10, 100 or 1000 times, x 3 ways", |c| {
        let (_, b) = c.pick(seeds());
        let how = c.of(&[0, 1, 3]);
        let k = c.of(&[usize::MAX, 4, 1]);
        let reads = if k == usize::MAX { 2 } else { b.len() / k + 2 };
        let single = c.flag();
        let (r, at) = if single { (c.of(&[10usize, 100, 1000]), c.choose(reads)) } else { (c.of(&[1usize, 2, 3, 9, 10, 17, 100]), 0) };
        let o = &o2()[(r + at) % 3];
        c.note("file", || hex(b));
        c.note("interruptions", || format!("{r} in a row before {} pieces of {k}", if single { format!("answer {at},") } else { "every answer,".into() }));
        let one = full_view(&b[..], o, how)?;
        let (mut left, mut answers) = (r, 0usize);
        let two = full_view(Script::new(b, |_, _| {
            if left > 0 && (!single || answers == at) { left -= 1; return Ans::Fail(ErrorKind::Interrupted); }
            answers += 1;
            left = if single && answers > at { 0 } else { r };
            Ans::Give(k)
        }), o, how)?;
        c.obs(&(r, at, &two));
        c.validated(1);
        if one != two { return Err(format!("{r} interruptions in a row\nwithout: {}\nwith: {}", short(&one), short(&two))); }
        Ok(())
    }));
    v.push(Exploration::new("buffer-boundary", "the 8 KiB boundary of the internal buffer at every place of every seed and history file (comments in front), x 5 option sets x 5 ways: same as without the comments", |c| {
        let b = c.pick(files_all());
        if b.len() > 2000 { return Ok(()); }
        let hdr = 13 + if b[10] & 0x80 != 0 { 3 << ((b[10] & 7) + 1) } else { 0 };
        if hdr > b.len() { return Ok(()); }
        let shift = c.choose(b.len() - hdr + 2);
        let mut f = File { b: b[..hdr].to_vec() };
        // a comment of a length that puts the byte `shift` behind the header at the boundary
        let mut need = (8192 - hdr).checked_sub(shift).unwrap();
        while need > 0 {
            let n = if need >= 700 { 259 } else if need > 300 { need - 200 } else { need };
            let n = n.min(259);
            if n < 5 { break; }
            f = f.ext(0xFE, &[&vec![0x3B; n - 4]]);
            need -= n;
        }
        f = f.raw(&b[hdr..]);
        let o = c.pick(o2());
        let how = c.choose(5);
        c.note("file", || hex(b));
        c.note("shift", || format!("{shift} {o:?} way {how}"));
        let mut one = full_view(&b[..], o, how)?;
        let two = full_view(&f.b[..], o, how)?;
        c.obs(&two);
        c.validated(1);
        if one.header.is_err() { one.header = two.header.clone(); one.end = two.end.clone(); }
        if one != two { return Err(format!("without comments: {}\nwith: {}", short(&one), short(&two))); }
        Ok(())
    }));
    v.push(Exploration::new("mutations", "every seed of up to 100 bytes with one byte replaced by each of 8 values, delivered in two pieces cut at every place, x 2 option sets, way 0 and 4 (thorough: files up to 300 bytes, all ways)", move |c| {
        let (_, f) = c.pick(seeds());
        if f.len() > t.sel(100, 300) { return Ok(()); }
        let p = c.choose(f.len());
        let mut b = f.clone();
        b[p] = c.of(&[0, 1, 2, 8, 0x21, 0x2C, 0x3B, 0xFF]);
        let q = c.choose(f.len());
        let (how, o) = if t.t() { (c.choose(5), c.pick(o2())) } else { (c.of(&[0, 4]), &o2()[(p + q) % 5]) };
        let o = Opts { limit: SMALL, ..o.clone() };
        same_view(c, &b, &o, how, until(&[q]))
    }));
    v.push(Exploration::new("truncated", "every seed and history file of up to 200 bytes (thorough: all) truncated at every place and delivered in two pieces cut at every place, or in pieces of 1, 2, 3, 7 bytes, x 5 ways x option sets (quick: one per case)", move |c| {
        let b = c.pick(files_all());
        if b.len() > t.sel(200, usize::MAX) { return Ok(()); }
        let n = c.choose(b.len());
        let q = c.choose(n + 4);
        let how = c.choose(5);
        let o = if t.t() { c.pick(o2()) } else { &o2()[(n + q * 3 + how) % 5] };
        let k = [1, 2, 3, 7];
        if q < 4 { same_view(c, &b[..n], o, how, |_| k[q]) } else { same_view(c, &b[..n], o, how, until(&[q - 4])) }
    }));
    v.push(Exploration::new("codes", "image data of every sequence of 4 (thorough 5) codes of code size 2 including undefined ones (no end code, then more data), in sub-blocks of 1, 2 or 255 bytes, in pieces of 1 and 2 and all: the same pixels come out in front of an error", move |c| {
        let mut p = lzw::Packer::new(2);
        for _ in 0..t.sel(4, 5) { let w = p.width; p.push(c.choose(1 << w) as u16); }
        let mut d = p.finish();
        d.push(c.of(&[0x00, 0x25, 0xFF]));
        let b = File::new(9, 9, Some(&pal(4, 1))).img(&Img::raw(7, 7, 2, d).split(Split::Each(c.of(&[1, 2, 255])))).img(&Img::pat(1, 1, 2, 1)).end();
        let k = c.of(&[1, 2]);
        same_view(c, &b, &PLAIN, 4, |_| k)?;
        let o = c.of(&[1, 3, 60]);
        let s1 = stream(&b, |_| usize::MAX, Out::Size(100))?;
        let s2 = stream(&b, |_| k, Out::Size(o))?;
        let n = s1.pixels.first().map_or(0, |p| p.len()).max(s2.pixels.first().map_or(0, |p| p.len()));
        if norm(&s1) != norm(&s2) { return Err(format!("streaming differs with output of {o} bytes and slices of {k} ({n} pixels): {:?} / {:?}", s1, s2).chars().take(1500).collect()); }
        Ok(())
    }));
    v.push(Exploration::new("streaming", "every seed and history file of up to 320 bytes as streaming updates cut at every pair of places, output none, 1, 7, 4000 bytes: events, their places, pixels, extension data", move |c| {
        let b = c.pick(files_all());
        if b.len() > 320 { return Ok(()); }
        let p = c.choose(b.len());
        let q = p + c.choose(b.len() - p);
        let out = c.of(&[Out::None, Out::Size(1), Out::Size(7), Out::Size(4000)]);
        c.note("file", || hex(b));
        c.note("cuts", || format!("{p} {q} {out:?}"));
        let one = stream(b, |_| usize::MAX, if let Out::None = out { Out::None } else { Out::Size(5000) })?;
        let two = stream(b, until(&[p, q]), out)?;
        c.obs(&norm(&two));
        c.steps(two.events.len() as u64);
        c.validated(1);
        if norm(&one) != norm(&two) { return Err(format!("whole: {:?}\nsliced: {:?}", norm(&one), norm(&two)).chars().take(1500).collect()); }
        Ok(())
    }));
    v.push(Exploration::new("empty-updates", "every seed and history file as streaming updates, with an update without any bytes before every update of 1, 2, 7, 60 bytes, or (files of up to 400 bytes) once at each place; output none, 1, 7 bytes or of changing size", |c| {
        let b = c.pick(files_all());
        let out = c.of(&[Out::None, Out::Size(1), Out::Size(7), Out::Turns]);
        let k = c.choose(4 + if b.len() > 400 { 0 } else { b.len() });
        c.note("file", || hex(b));
        c.note("cuts", || format!("{} {out:?}", if k < 4 { "everywhere".into() } else { format!("at {}", k - 4) }));
        let one = stream(b, |_| usize::MAX, if let Out::None = out { Out::None } else { Out::Size(5000) })?;
        let two = if k < 4 { stream(b, alternate([1, 2, 7, 60][k]), out)? } else { let f = until_at(k - 4); stream(b, f, out)? };
        c.obs(&norm(&two));
        c.validated(1);
        if norm(&one) != norm(&two) { return Err(format!("whole: {:?}\nsliced: {:?}", norm(&one), norm(&two)).chars().take(1500).collect()); }
        Ok(())
    }));
    v.push(Exploration::new("streaming-uniform", "every seed and history file as streaming updates of every size 1 to 64, output none, 1, 2, 3, 4000 bytes", move |c| {
        let b = c.pick(files_all());
        let k = c.range(1, 64);
        let out = c.of(&[Out::None, Out::Size(1), Out::Size(2), Out::Size(3), Out::Size(4000)]);
        c.note("file", || hex(b));
        c.note("cuts", || format!("pieces of {k} {out:?}"));
        let one = stream(b, |_| usize::MAX, if let Out::None = out { Out::None } else { Out::Size(5000) })?;
        let two = stream(b, |_| k, out)?;
        c.obs(&norm(&two));
        c.validated(1);
        if norm(&one) != norm(&two) { return Err(format!("whole: {:?}\nsliced: {:?}", norm(&one), norm(&two)).chars().take(1500).collect()); }
        Ok(())
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images in pieces of 1, 3 or 10 bytes, with one of 2 global palettes or none, 5 ways and option sets by turns", |c| {
        let n = pool().len();
        let (x, y) = (c.choose(n), c.choose(n));
        let k = c.of(&[1, 3, 10]);
        let b = pool_file(x, y, (x + y) % 3);
        same_view(c, &b, &o2()[(x + k) % 5], (x + 2 * y) % 5, |_| k)
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; pieces of 1, 4 or 11 bytes, 5 ways and option sets by turns", |c| {
        let (k, b) = pick_head(c);
        let n = c.of(&[1, 4, 11]);
        same_view(c, &b, &o2()[(k + n) % 5], (k / 5) % 5, |_| n)
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: pieces of 1, 3, 1000 bytes against delivery in one piece, indexed and raw"), |c| {
        let (k, b) = pick_count(c);
        let s = c.of(&[1usize, 3, 1000]);
        let o = if c.flag() { PLAIN.skip().unknown() } else { PLAIN.unknown() };
        same_view(c, &b, &o, [0, 1, 2][k % if o.skip { 2 } else { 3 }], |_| s)
    }).cpu(60.0));
    v.push(Exploration::new("interruption-counts", "a file of 7 KB in pieces of 1 or 64 bytes, one read call (the first, the 3rd, the 40th or the 100th) interrupted 2^k - 1, 2^k and 2^k + 1 times for k = 8 to 16, or that many calls spread evenly over the file interrupted once", |c| {
        let b = File::new(80, 80, Some(&pal(256, 1))).ext(0xFE, &[b"x"]).img(&Img::pat(80, 80, 8, 1)).img(&Img::pat(3, 3, 2, 1)).end();
        let n = count_of(c.choose(COUNT_NS));
        let k = c.of(&[1usize, 64]);
        let at = c.of(&[0usize, 2, 39, 99, usize::MAX]);
        let how = c.of(&[0, 1, 3]);
        let o = &o2()[n % 3];
        c.note("interruptions", || format!("{n} at {at}, pieces of {k}"));
        let one = full_view(&b[..], o, how)?;
        let (mut left, mut answers) = (n, 0usize);
        let every = (n * k).div_ceil(b.len());
        let mut here = 0;
        let two = full_view(Script::new(&b, |_, _| {
            if left > 0 && (answers == at || at == usize::MAX && here < every) { left -= 1; here += 1; return Ans::Fail(ErrorKind::Interrupted); }
            answers += 1;
            here = 0;
            Ans::Give(k)
        }), o, how)?;
        c.obs(&(n, at, &two));
        c.validated(1);
        if one != two { return Err(format!("{n} interruptions\nwithout: {}\nwith: {}", short(&one), short(&two))); }
        Ok(())
    }));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: pieces of 1, 7 bytes against delivery in one piece"), |c| {
        let (k, b, _) = pick_combo(c);
        let s = c.of(&[1usize, 7]);
        same_view(c, &b, &o2()[k % 3], [0, 1, 3][k / 3 % 3], |_| s)
    }));
    v
}

// ---------------------------------------------------------------- C11

const FIXED: isize = 512 * 1024;
fn lim(n: u64, o: Opts) -> Opts { Opts { limit: Limit::Bytes(n), ..o } }
/// Runs a reading mode and returns frames delivered, error, and the peak of the heap in between.
fn measured(b: &[u8], o: &Opts, mode: usize) -> (usize, Option<ErrClass>, isize) {
    let mut user = vec![0u8; if mode >= 2 { match o.limit { Limit::Bytes(n) => n.min(1 << 22) as usize, _ => 1 << 20 } } else { 0 }];
    let bpp = o.bpp();
    let cut = user.len() / bpp * bpp;
    let user = &mut user[..cut];
    let base = alloc::start();
    let mut n = 0;
    let mut e = None;
    match o.build().read_info(b) {
        Err(x) => e = Some(class(&x)),
        Ok(mut d) => match mode {
            0 => loop { match d.read_next_frame() { Ok(Some(_)) => n += 1, Ok(None) => break, Err(x) => { e = Some(class(&x)); break } } },
            1 => for x in d { match x { Ok(_) => n += 1, Err(x) => { e = Some(class(&x)); break } } },
            2 => loop { match d.next_frame_info() {
                Ok(None) => break,
                Err(x) => { e = Some(class(&x)); break }
                Ok(Some(_)) => match d.fill_buffer(user) { Ok(_) => n += 1, Err(x) => { e = Some(class(&x)); break } },
            } },
            3 => loop { match d.next_frame_info() {
                Ok(None) => break,
                Err(x) => { e = Some(class(&x)); break }
                Ok(Some(_)) => match d.read_into_buffer(user) { Ok(_) => n += 1, Err(x) => { e = Some(class(&x)); break } },
            } },
            _ => loop { match d.next_frame_info() { Ok(None) => break, Err(x) => { e = Some(class(&x)); break }, Ok(Some(_)) => n += 1 } },
        },
    }
    (n, e, alloc::peak_since(base))
}

fn c11(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("frames", "every limit 16 to 80 (thorough 300) x widths and heights 1 to 9 (thorough 18), indexed and RGBA, interlaced or not: delivered exactly when the output buffer is within the limit, by read_next_frame, iterator and frame decoder, and a smaller image behind it is still read", move |c| {
        let o = lim(c.range(16, t.sel(80, 300)) as u64, if c.flag() { PLAIN.rgba() } else { PLAIN });
        let Limit::Bytes(l) = o.limit else { unreachable!() };
        let (w, h) = (c.range(1, t.sel(9, 18)) as u16, c.range(1, t.sel(9, 18)) as u16);
        let mut i = Img::pat(w, h, 2, 3);
        i.interlaced = c.flag();
        let g = pal(4, 1);
        let b = File::new(20, 20, Some(&g)).img(&Img::pat(2, 2, 2, 1)).img(&i).img(&Img::pat(2, 1, 2, 2)).end();
        c.note("file", || hex(&b));
        c.note("options", || format!("{o:?}"));
        let fits = u64::from(w) * u64::from(h) * o.bpp() as u64 <= l;
        c.outcome(if fits { "fits" } else { "refused" });
        let e = expect(&b, &o);
        for st in [Style::Next, Style::Iter] {
            let obs = decode(&b[..], &o, &st)?;
            c.obs(&obs);
            if fits { check(&obs, &e, &b)?; } else if obs.frames.len() != 1 || obs.end == End::Done { return Err(format!("{w}x{h} with limit {l}: {} frames, then {:?}", obs.frames.len(), obs.end)); }
        }
        // the refusal does not spoil what follows
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        let _ = d.read_next_frame();
        let _ = d.read_next_frame();
        match d.read_next_frame() { Ok(Some(f)) if f.buffer[..] == e.frames[2].1[..] => {}, x => return Err(format!("the image behind gives {:?}", x.map(|f| f.map(|f| f.buffer.len())).map_err(|e| class(&e)))) }
        let mut f = lzw_frame(w, h, i.interlaced, 2, &i.data);
        let mut fd = frame_dec(&o);
        fd.set_global_palette(g.clone());
        match fd.decode_lzw_encoded_frame(&mut f) {
            Ok(()) if !fits => return Err(format!("the frame decoder gives {} bytes with limit {l}", f.buffer.len())),
            Ok(()) if f.buffer[..] == e.frames[1].1[..] => {}
            Ok(()) => return Err(diff("frame decoder", &f.buffer, &e.frames[1].1)),
            Err(e) if fits => return Err(format!("the frame decoder fails with limit {l}: {e}")),
            Err(_) => {}
        }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("announced", "all 64 pairs of 8 widths and heights up to 65535 x limits one below the output size, at fractions of it, and at the size modulo 2^16, 2^31, 2^32, indexed and RGBA, interlaced or not, 5 reading modes: always an error where a buffer is needed, peak heap within bounds", |c| {
        let dims = [1u16, 3, 255, 256, 4095, 32768, 46341, 65535];
        let (w, h) = (c.of(&dims), c.of(&dims));
        let rgba = c.flag();
        let size = u64::from(w) * u64::from(h) * if rgba { 4 } else { 1 };
        let l = match c.choose(8) { 0 => size - 1, 1 => size / 2, 2 => size / 4, 3 => size & 0xFFFF, 4 => size & 0x7FFF_FFFF, 5 => size & 0xFFFF_FFFF, 6 => size.saturating_sub(1 << 32), _ => u64::from(w) + u64::from(h) };
        let mode = c.choose(5);
        if l < 16 || l >= size || l > 1 << 30 { return Ok(()); }
        let mut i = Img::raw(w, h, 2, vec![0x44, 0x01]);
        i.interlaced = c.flag();
        let g = pal(4, 1);
        let b = File::new(20, 20, Some(&g)).img(&i).end();
        let o = lim(l, Opts { rgba, ..PLAIN });
        c.note("case", || format!("{w}x{h} mode {mode} {o:?}"));
        let (n, e, peak) = measured(&b, &o, mode);
        c.obs(&(n, e, peak > FIXED));
        if mode < 2 && (n > 0 || e.is_none()) { return Err(format!("{w}x{h} with limit {l}: delivered")); }
        if mode < 2 && peak > FIXED { return Err(format!("{peak} bytes were allocated for an image of {size} bytes that is over the limit of {l}")); }
        if peak > 4 * l as isize + FIXED { return Err(format!("peak of {peak} bytes with limit {l}")); }
        let mut f = lzw_frame(w, h, i.interlaced, 2, &i.data);
        let base = alloc::start();
        if frame_dec(&o).decode_lzw_encoded_frame(&mut f).is_ok() { return Err("the frame decoder accepts it".into()); }
        let peak = alloc::peak_since(base);
        if peak > FIXED { return Err(format!("the frame decoder allocated {peak} bytes")); }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("raw", "raw image data of every length 0 to 600 x limits around it (-260 to +3, with the sub-block sizes 255, 1 and 100): accepted if it and the code size byte fit, refused if the data is longer than the limit", move |c| {
        let n = c.choose(if t.t() { 1200 } else { 600 });
        let d = c.of(&[0usize, 1, 2, 3, 4, 5, 6, 100, 259, 260, 261, 262, 263]);
        let Some(l) = (n + d).checked_sub(260) else { return Ok(()) };
        if l < 16 { return Ok(()); }
        let i = Img::raw(1, 1, 2, pattern(n, 8, 1)).split(Split::Each(c.of(&[255, 1, 100])));
        let b = File::new(20, 20, Some(&pal(2, 1))).img(&i).img(&Img::pat(1, 1, 2, 1)).end();
        let o = lim(l as u64, PLAIN.skip());
        let st = c.pick(&[Style::Next, Style::Iter]).clone();
        c.note("case", || format!("{n} bytes, {st:?}, {o:?}"));
        let obs = decode(Script::new(&b, |_, _| Ans::Give(if d % 2 == 0 { usize::MAX } else { 50 })), &o, &st)?;
        c.obs(&obs);
        if n + 1 <= l { check(&obs, &expect(&b, &o), &b)?; }
        if n > l && (!obs.frames.is_empty() || obs.end == End::Done) { return Err(format!("{n} bytes of raw data delivered with limit {l}")); }
        if obs.frames.iter().any(|f| f.1.len() > l) { return Err(format!("a buffer larger than the limit {l} delivered")); }
        c.outcome(if n + 1 <= l { "fits" } else { "refused" });
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("extensions", "extension payloads (comment, application, text, unknown block) of every length 0 to 600 in sub-blocks of 255, 1, 254, in front of the first and between images, x limits around the length: accepted if payload and length byte fit, refused if longer than the limit", move |c| {
        let n = c.choose(if t.t() { 1200 } else { 600 });
        let d = c.of(&[0usize, 1, 2, 3, 4, 5, 6, 100, 259, 260, 261, 262, 263]);
        let Some(l) = (n + d).checked_sub(260) else { return Ok(()) };
        if l < 16 { return Ok(()); }
        let k = c.of(&[255, 1, 254]);
        let data = pattern(n, 8, 1);
        let bl: Vec<&[u8]> = data.chunks(k).collect();
        let kind = c.choose(4);
        let ext = |f: File| match kind { 0 => f.ext(0xFE, &bl), 1 => f.ext(0xFF, &bl), 2 => f.ext(0x01, &bl), _ => f.unknown(0x55, &bl) };
        let first = c.flag();
        let mut f = File::new(2, 2, Some(&pal(2, 1)));
        if first { f = ext(f); }
        f = f.img(&Img::pat(1, 1, 2, 1));
        if !first { f = ext(f); }
        let b = f.img(&Img::pat(2, 1, 2, 1)).end();
        let o = lim(l as u64, if kind == 3 { PLAIN.unknown() } else { PLAIN });
        c.note("case", || format!("{n} bytes in {k}, kind {kind}, {o:?}"));
        let piece = c.of(&[usize::MAX, 77]);
        let obs = decode(Script::new(&b, |_, _| Ans::Give(piece)), &o, &Style::Next)?;
        c.obs(&obs);
        if n + 1 <= l { check(&obs, &expect(&b, &o), &b)?; }
        if n > l && (obs.end == End::Done || obs.frames.len() > usize::from(!first)) { return Err(format!("{n} bytes of extension accepted with limit {l}")); }
        c.outcome(if n + 1 <= l { "fits" } else { "refused" });
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("peak", "limits 1 MB and 3 MB (thorough also 10 MB), files that announce or hold as much as they can (long comments, several of them, large images, huge announced images, large raw data, many images, alternating sizes), 5 reading modes, indexed, RGBA, raw: peak heap at most 4 limits + 512 KiB", move |c| {
        let l = c.of(if t.t() { &[1_000_000usize, 3_000_000, 10_000_000] } else { &[1_000_000usize, 3_000_000] });
        let o = lim(l as u64, c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.endcode().unknown()]).clone());
        let g = pal(256, 1);
        let near = |n: usize| vec![0x5A; n];
        let big_ext = |f: File, n: usize| { let d = near(n); let bl: Vec<&[u8]> = d.chunks(255).collect(); f.ext(0xFE, &bl) };
        // an image of exactly the limit, all pixels 0
        let side = ((l / o.bpp()) as f64).sqrt() as u16;
        let area = side as usize * side as usize;
        let fit = Img::px(side, side, 2, &vec![0; area]);
        let half = Img::px(side, side / 2, 2, &vec![1; side as usize * (side / 2) as usize]).il();
        let huge = Img::raw(0xFFFF, 0xFFFF, 8, vec![0x44; 300]);
        let rawbig = Img::raw(1, 1, 8, near(l - 2));
        let f = File::new(9, 9, Some(&g));
        let case = c.choose(9);
        let b = match case {
            0 => f.img(&fit).img(&half).img(&fit),
            1 => big_ext(big_ext(f, l - 1), l / 2).img(&fit).img(&fit),
            2 => big_ext(f.img(&fit), l / 2 + 10).img(&half).img(&fit),
            3 => big_ext(f, 3 * l).img(&fit),
            4 => f.img(&half).img(&huge),
            5 => f.img(&rawbig).img(&rawbig).img(&fit),
            6 => { let mut f = f; for _ in 0..300 { f = f.img(&Img::raw(900, 900, 8, vec![0; 20]).pal(g.clone())); } f }
            7 => { let d = near(3 * l); let bl: Vec<&[u8]> = d.chunks(255).collect(); f.unknown(0x77, &bl).img(&fit) }
            _ => { let mut f = f; for i in 0..6 { f = big_ext(f, l / (i + 1) - 3).img(if i % 2 == 0 { &fit } else { &half }); } f }
        }.end();
        let mode = c.choose(5);
        c.note("case", || format!("case {case} mode {mode} {o:?}"));
        let (n, e, peak) = measured(&b, &o, mode);
        c.obs(&(case, mode, n, e));
        c.outcome(&format!("peak {}.{} limits", peak * 10 / l as isize / 10, peak * 10 / l as isize % 10));
        if peak > 4 * l as isize + FIXED { return Err(format!("peak of {peak} bytes with limit {l}")); }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("frame-decoder-peak", "frame decoder: limits 64 KB to 3 MB, images of up to the limit, repeated and of alternating sizes, indexed and RGBA", |c| {
        let l = c.of(&[65_536usize, 1_000_000, 3_000_000]);
        let o = lim(l as u64, Opts { rgba: c.flag(), ..PLAIN });
        let mut fd = frame_dec(&o);
        fd.set_global_palette(pal(4, 1));
        let side = ((l / o.bpp()) as f64).sqrt() as u16;
        let d = lzw::encode(2, &vec![0; side as usize * side as usize], STD);
        for i in 0..4u16 {
            let s = side - (i % 2) * (side / 3);
            let mut f = lzw_frame(s, s, c.flag(), 2, &d);
            let base = alloc::start();
            fd.decode_lzw_encoded_frame(&mut f).map_err(|e| err("decode", e))?;
            let peak = alloc::peak_since(base);
            c.obs(&(s, f.buffer.len()));
            if peak > 4 * l as isize + FIXED { return Err(format!("peak of {peak} bytes with limit {l}")); }
        }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("default-limit", "no limit set: 50 MB. Images of 5000x10000 (exactly the limit), one row more, RGBA a quarter of it, and a comment over it for the streaming decoder", |c| {
        let (w, h, rgba, fits) = c.of(&[(5000u16, 10000u16, false, true), (5000, 10001, false, false), (2500, 5000, true, true), (2501, 5000, true, false)]);
        let ext = c.flag();
        if ext {
            let n = if fits { 49_999_990 } else { 50_000_300 };
            let d = vec![1; n];
            let bl: Vec<&[u8]> = d.chunks(255).collect();
            let b = File::new(1, 1, Some(&pal(2, 1))).ext(0xFE, &bl).img(&Img::pat(1, 1, 2, 1)).end();
            let s = stream(&b, |_| 8192, Out::None)?;
            if s.end.is_ok() != fits { return Err(format!("comment of {n} bytes: {:?}", s.end)); }
            c.obs(&s.events.len());
            let obs = decode(&b[..], &PLAIN, &Style::Next)?;
            if (obs.end == End::Done) != fits { return Err(format!("comment of {n} bytes: {:?}", obs.end)); }
        } else {
            let b = File::new(1, 1, Some(&pal(4, 1))).img(&Img::px(w, h, 2, &vec![0; w as usize * h as usize])).end();
            let obs = decode(&b[..], &Opts { rgba, ..PLAIN }, &Style::Iter)?;
            c.obs(&obs.frames.len());
            if (obs.end == End::Done && obs.frames.len() == 1) != fits { return Err(format!("{w}x{h}: {} frames, {:?}", obs.frames.len(), obs.end)); }
        }
        c.validated(1);
        Ok(())
    }).cpu(120.0));
    v.push(Exploration::new("counts", &format!("{COUNTED}: limit 64 KiB, 5 reading modes, indexed, RGBA and raw: the heap does not grow with the number of things"), |c| {
        let (k, b) = pick_count(c);
        let o = lim(1 << 16, [PLAIN, PLAIN.rgba(), PLAIN.skip()][k % 3].clone().unknown());
        let mode = c.choose(5);
        let (n, e, peak) = measured(&b, &o, mode);
        c.obs(&(n, e));
        c.validated(1);
        if peak > (4 << 16) + FIXED { return Err(format!("peak of {peak} bytes with a limit of 64 KiB")); }
        Ok(())
    }).cpu(60.0));
    v.push(Exploration::new("held", &format!("the frame decoder with limits one below, at and above the output size of 6 sizes, indexed and RGBA, the compressed data followed by 0, 9 or 5000 bytes more, {HELD}, twice, behind a frame that fits or not: refused exactly above the limit"), |c| {
        let (w, h) = c.of(&[(1u16, 20u16), (5, 5), (15, 15), (40, 3), (64, 64), (255, 257)]);
        let rgba = c.flag();
        let size = w as usize * h as usize * if rgba { 4 } else { 1 };
        let l = size - 1 + c.choose(3);
        let surplus = c.of(&[0usize, 9, 5000]);
        let how = c.choose(5);
        let o = lim(l as u64, Opts { rgba, ..PLAIN });
        let g = pal(4, 1);
        let px = pattern(w as usize * h as usize, 2, 3);
        let mut d = lzw::encode(2, &px, STD);
        d.extend(vec![1; surplus]);
        let mut fd = frame_dec(&o);
        fd.set_global_palette(g.clone());
        c.note("case", || format!("{w}x{h} surplus {surplus} held {how} {o:?}"));
        if c.flag() {
            let mut f = lzw_frame(4, 1, false, 2, &lzw::encode(2, &[1, 2, 3, 0], STD));
            fd.decode_lzw_encoded_frame(&mut f).map_err(|e| err("a small frame", e))?;
        }
        let raw = lzw_frame(w, h, false, 2, &d);
        for _ in 0..2 {
            let mut room = vec![];
            let mut f = held(&raw, how, &mut room);
            let r = fd.decode_lzw_encoded_frame(&mut f);
            c.obs(&r.is_ok());
            match r {
                Ok(()) if size > l => return Err(format!("{size} bytes are accepted with limit {l}")),
                Ok(()) => { let want = if rgba { model::rgba(&px, &g, None) } else { px.clone() }; if f.buffer[..] != want { return Err(diff("pixels", &f.buffer, &want)); } }
                Err(e) if size <= l => return Err(format!("{size} bytes are refused with limit {l}: {e}")),
                Err(_) => {}
            }
        }
        c.outcome(if size > l { "refused" } else { "accepted" });
        c.validated(1);
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C15

/// The events the documentation promises, without pixel runs; pixels separately.
fn expected_events(b: &[u8]) -> Option<(Vec<Ev>, Vec<Vec<u8>>, usize)> {
    let g = model::parse(b, &PLAIN.ropts());
    let Stop::Trailer(end) = g.stop else { return None };
    let mut ev = vec![Ev::Bg(g.bg), Ev::GPal(g.gpal.clone().unwrap_or_default())];
    let mut px = vec![];
    let mut header = false;
    let mut exts = g.exts.iter().peekable();
    for n in 0..=g.frames.len() {
        while let Some(e) = exts.peek() {
            if e.frames_before != n { break; }
            ev.push(Ev::Block(0x21));
            for _ in 1..e.blocks.len() { ev.push(Ev::Sub(e.label)); }
            ev.push(Ev::BlockEnd(e.label, e.payload()));
            // reported wherever it stands
            let p = e.payload();
            if e.label == 0xFF && p.len() >= 14 && &p[..12] == b"NETSCAPE2.0\x01" {
                let k = u16::from(p[12]) | u16::from(p[13]) << 8;
                ev.push(Ev::Rep(if k == 0 { Repeat::Infinite } else { Repeat::Finite(k) }));
            }
            exts.next();
        }
        if !header { header = true; ev.push(Ev::HeaderEnd); }
        if let Some(f) = g.frames.get(n) {
            ev.push(Ev::Block(0x2C));
            ev.push(Ev::FrameMeta(f.meta.clone()));
            ev.push(Ev::DataEnd);
            px.push(f.lzw().pixels);
        }
    }
    ev.push(Ev::Block(0x3B));
    Some((ev, px, end))
}
fn chk_events(c: &Ctx, b: &[u8], slice: impl Fn(usize) -> usize, out: Out) -> Res {
    c.note("file", || hex(b));
    let (ev, px, end) = expected_events(b).ok_or("harness: not a well-formed file")?;
    let s = stream(b, slice, out)?;
    c.obs(&(&s.events, s.consumed));
    c.steps(s.events.len() as u64);
    if let Err(e) = s.end { return Err(format!("error {e:?} after {:?}", s.events.last())); }
    let got: Vec<&Ev> = s.events.iter().map(|e| &e.1).filter(|e| !matches!(e, Ev::Pixels(_))).collect();
    if !got.iter().copied().eq(ev.iter()) {
        let i = got.iter().zip(&ev).position(|(a, b)| *a != b).unwrap_or(got.len().min(ev.len()));
        return Err(format!("event {i} is {:?} instead of {:?}; all: {got:?}", got.get(i), ev.get(i)).chars().take(1500).collect());
    }
    if s.consumed != end { return Err(format!("the trailer is reported at {} instead of {end}", s.consumed)); }
    // pixel runs come only between metadata and end
    let mut inside = false;
    for e in &s.events {
        match e.1 { Ev::FrameMeta(_) => inside = true, Ev::DataEnd => inside = false, Ev::Pixels(_) if !inside => return Err("pixels outside an image".into()), _ => {} }
    }
    if let Out::Some(k) = out {
        for (i, (got, all)) in s.pixels.iter().zip(&px).enumerate() {
            let want = match k / 3usize.pow(i.min(8) as u32) % 3 { 0 => &all[..], 1 => &[], _ => &all[..all.len().min(3)] };
            if got != want { return Err(format!("image {i}: pixels {got:?} instead of {want:?}").chars().take(900).collect()); }
        }
    }
    if let Out::Size(_) | Out::Turns = out { if !matches!(out, Out::Size(0)) && s.pixels != px { return Err(format!("pixels {:?} instead of {px:?}", s.pixels).chars().take(900).collect()); } }
    let g = model::parse(b, &PLAIN.ropts());
    if (s.version, s.w, s.h) != (g.version, g.w, g.h) { return Err(format!("version and size {:?}", (s.version, s.w, s.h))); }
    c.validated(1);
    Ok(())
}
fn pieces15() -> &'static [Vec<u8>] {
    static S: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    S.get_or_init(|| {
        let f = || File { b: vec![] };
        vec![f().gce(0x0D, 500, 2).b, f().netscape(0).b, f().netscape(0x3B21).b, f().ext(0xFE, &[]).b, f().ext(0xFE, &[b"abc", b"\x3b\x00", b"x"]).b, f().ext(0xFF, &[b"XMP DataXMP"]).b,
            f().ext(0x01, &[&[1; 12], &[2; 255], &[3; 2]]).b,
            f().img(&Img::pat(3, 2, 2, 1)).b, f().img(&Img::pat(2, 5, 3, 2).il().pal(pal(2, 8)).at(1, 2).split(Split::Each(1))).b, f().img(&Img::pat(0, 4, 2, 2)).b, f().img(&Img::raw(0, 0, 2, vec![])).b,
            f().img(&Img::pat(6, 6, 8, 3).split(Split::EndAlone)).b]
    })
}
fn c15(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    let n = t.sel(3, 4);
    v.push(Exploration::new("sequences", "every sequence of 0 to 3 (thorough 4) out of 12 blocks, with and without global palette, more data behind the trailer or not, x slices of 1, 2, 3, 10 and all bytes x output none, 1, 5 and 100 bytes", move |c| {
        let p = pal(4, 1);
        let mut f = File::full(if c.flag() { b"GIF87a" } else { b"GIF89a" }, 7, 0x1234, Some(&p), 3, 0, 0);
        let len = c.range(0, n);
        for _ in 0..len { f = f.raw(c.pick(pieces15())); }
        let mut b = f.end();
        if c.flag() { b.extend(b"\x21\xfe\x01x\x00\x3b"); }
        let k = c.of(&[usize::MAX, 1, 2, 3, 10]);
        chk_events(c, &b, |_| k, c.of(&[Out::None, Out::Size(1), Out::Size(5), Out::Size(100)]))
    }));
    v.push(Exploration::new("slicings", "every good seed and history file of up to 320 bytes, cut at every pair of places, output none, 3 and 4000 bytes", |c| {
        let b = c.pick(files_good());
        if b.len() > 320 { return Ok(()); }
        let p = c.choose(b.len());
        let q = p + c.choose(b.len() - p);
        c.note("cuts", || format!("{p} {q}"));
        chk_events(c, b, until(&[p, q]), c.of(&[Out::None, Out::Size(3), Out::Size(4000)]))
    }));
    v.push(Exploration::new("changing", "every good seed and history file: output of changing size, slices of every size 1 to 40, with or without updates that bring no bytes", |c| {
        let b = c.pick(files_good());
        let k = c.range(1, 40);
        c.note("slices", || format!("{k}"));
        if c.flag() { chk_events(c, b, |_| k, Out::Turns) } else { chk_events(c, b, alternate(k), [Out::Turns, Out::Size(2), Out::None][k % 3]) }
    }));
    v.push(Exploration::new("some-pixels", "every good seed and history file and every pair of a pool of 144 images: for each of the first 4 images all pixels, none or the first three are taken, slices of 1, 7 and all bytes (pairs: in turns)", |c| {
        let k = c.choose(82);
        let b = if k == 81 { pick_pool(c) } else { c.pick(files_good()).clone() };
        let which = if k == 81 { c.choose(9) } else { k };
        let slice = if k == 81 { [usize::MAX, 1, 7][(b.len() + which) % 3] } else { c.of(&[usize::MAX, 1, 7]) };
        c.note("images", || format!("{which} in base 3, slices of {slice}"));
        if expected_events(&b).is_none() { c.outcome("image without palette"); return Ok(()); }
        if k < 81 && k >= 3usize.pow(b.iter().filter(|&&x| x == 0x2C).count().min(4) as u32) { c.outcome("fewer images"); return Ok(()); }
        chk_events(c, &b, |_| slice, Out::Some(which))
    }));
    v.push(Exploration::new("outputs", "every good seed and history file, output of every size 1 to 70, slices of 1, 3, 8, 64 and all bytes", |c| {
        let b = c.pick(files_good());
        let o = c.range(1, 70);
        let k = c.of(&[1, 3, 8, 64, usize::MAX]);
        c.note("out", || format!("{o} slices {k}"));
        chk_events(c, b, |_| k, Out::Size(o))
    }));
    v.push(Exploration::new("no-global-palette", "every sequence of 1 to 3 blocks without global palette", |c| {
        let mut f = File::new(7, 7, None);
        let len = c.range(0, 3);
        for _ in 0..len { f = f.raw(c.pick(pieces15())); }
        let b = f.end();
        // the streaming decoder reports such images; only the decoder on top of it refuses them
        let k = c.of(&[usize::MAX, 1]);
        if expected_events(&b).is_none() { c.outcome("image without palette"); return Ok(()); }
        chk_events(c, &b, |_| k, Out::Size(9))
    }));
    v.push(Exploration::new("extension-data", "extensions of 0 to 5 sub-blocks with lengths out of 1, 2, 254, 255: label and data at every sub-block event and at the end, slices of 1, 100 and all bytes", |c| {
        let n = c.choose(6);
        let lens: Vec<usize> = (0..n).map(|_| c.of(&[1usize, 2, 254, 255])).collect();
        let data: Vec<Vec<u8>> = lens.iter().enumerate().map(|(i, &l)| pattern(l, 8, i as u8)).collect();
        let bl: Vec<&[u8]> = data.iter().map(|d| &d[..]).collect();
        let label = c.of(&[0xFEu8, 0xFF, 0x01]);
        let b = File::new(1, 1, Some(&pal(2, 1))).ext(0xFE, &[b"before"]).ext(label, &bl).end();
        let k = c.of(&[usize::MAX, 1, 100]);
        chk_events(c, &b, |_| k, Out::None)?;
        // what last_ext shows at each sub-block event
        let mut d = StreamingDecoder::new();
        let (mut p, mut seen, mut nth) = (0, vec![], 0);
        while p < b.len() {
            let m = k.min(b.len() - p);
            let (used, ev) = d.update(&b[p..p + m], &mut OutputBuffer::None).map_err(|e| err("update", e))?;
            p += used;
            if let Decoded::BlockStart(_) = ev { nth += 1; seen.clear(); }
            if nth == 2 {
                if let Decoded::SubBlockFinished(_) = ev {
                    let (l, x, last) = d.last_ext();
                    seen.push(x.len());
                    let i = seen.len();
                    let want = data[..i].concat();
                    if l.0 != label || last || x[1..] != want[..] { return Err(format!("at sub-block {i}: label {:#x}, complete {last}, {} bytes of data instead of {}", l.0, x.len() - 1, want.len())); }
                }
            }
        }
        Ok(())
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images, slices of 1, 7 and all bytes, output 5000 bytes or none", |c| {
        let n = pool().len();
        let (x, y) = (c.choose(n), c.choose(n));
        let b = pool_file(x, y, (x + y) % 2);
        let k = c.of(&[usize::MAX, 7, 1]);
        chk_events(c, &b, |_| k, if (x ^ y) % 4 == 0 { Out::None } else { Out::Size(5000) })
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; slices of 1, 5 and all bytes", |c| {
        let (k, b) = pick_head(c);
        let n = c.of(&[usize::MAX, 5, 1]);
        chk_events(c, &b, |_| n, if k % 3 == 0 { Out::None } else { Out::Size(60) })
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: all events"), |c| {
        let (k, b) = pick_count(c);
        if expected_events(&b).is_none() { c.outcome("unknown blocks"); return Ok(()); }
        let s = c.of(&[usize::MAX, 1, 100]);
        chk_events(c, &b, |_| s, [Out::Size(1000), Out::Size(7)][k % 2])
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: all events"), |c| {
        let (k, b, _) = pick_combo(c);
        if expected_events(&b).is_none() { c.outcome("no palette"); return Ok(()); }
        chk_events(c, &b, |_| [usize::MAX, 1, 6][k % 3], Out::Size([100, 4][k / 3 % 2]))
    }));
    v
}

// ---------------------------------------------------------------- C25

fn c25_case(c: &Ctx, exts: &[(u8, Vec<Vec<u8>>)], frames: bool, slice: impl Fn(usize) -> usize) -> Res {
    c.note("extensions", || format!("{:?}", exts.iter().map(|e| (e.0, e.1.iter().map(|x| x.len()).collect::<Vec<_>>())).collect::<Vec<_>>()));
    let g = pal(4, 1);
    let mut e = Encoder::new(Vec::new(), 5, 5, &g).map_err(|e| err("new", e))?;
    let mut fr = Frame { width: 2, height: 2, delay: 7, transparent: Some(1), buffer: Cow::Owned(vec![0, 1, 2, 3]), ..Frame::default() };
    for (l, d) in exts {
        let s: Vec<&[u8]> = d.iter().map(|x| &x[..]).collect();
        e.write_raw_extension(AnyExtension(*l), &s).map_err(|e| err("write", e))?;
        if frames { e.write_frame(&fr).map_err(|e| err("frame", e))?; fr.delay = fr.delay.wrapping_add(1); }
    }
    let b = e.into_inner().map_err(|e| err("finish", e))?;
    c.note("file", || hex(&b));
    let s = stream(&b, slice, Out::Size(10))?;
    if let Err(e) = s.end { return Err(format!("reading fails: {e:?} at {}", s.consumed)); }
    c.obs(&(&s.events, s.consumed));
    if s.consumed != b.len() { return Err(format!("read up to {} of {}", s.consumed, b.len())); }
    let mut want: Vec<(u8, Vec<u8>)> = vec![];
    let mut n = 0usize;
    for (l, d) in exts {
        want.push((*l, d.concat()));
        if frames { let d = (7u16.wrapping_add(n as u16)).to_le_bytes(); want.push((0xF9, vec![5, d[0], d[1], 1])); n += 1; }
    }
    let got: Vec<(u8, Vec<u8>)> = s.events.iter().filter_map(|e| if let Ev::BlockEnd(l, d) = &e.1 { Some((*l, d.clone())) } else { None }).collect();
    if got != want { return Err(format!("extensions read: {:?} instead of {:?}", got.iter().map(|x| (x.0, x.1.len(), hex(&x.1))).collect::<Vec<_>>(), want.iter().map(|x| (x.0, x.1.len(), hex(&x.1))).collect::<Vec<_>>()).chars().take(1200).collect()); }
    if s.events.iter().any(|e| matches!(&e.1, Ev::Sub(l) if !exts.iter().any(|x| x.0 == *l))) { return Err("sub-block event with a wrong label".into()); }
    let m: Vec<&Meta> = s.events.iter().filter_map(|e| if let Ev::FrameMeta(m) = &e.1 { Some(m) } else { None }).collect();
    if m.len() != n || s.pixels.iter().any(|p| p != &[0, 1, 2, 3]) || m.iter().enumerate().any(|(i, m)| m.delay != 7u16.wrapping_add(i as u16) || m.transparent != Some(1) || m.w != 2) { return Err(format!("the frames around are disturbed: {m:?} {:?}", s.pixels)); }
    c.validated(1);
    Ok(())
}
fn c25(t: Tier) -> Vec<Exploration> {
    const LABELS: [u8; 3] = [0x01, 0xFE, 0xFF];
    let mut v = vec![];
    v.push(Exploration::new("lists", "one extension of 3 labels with every list of 0 to 3 slices of lengths 0, 1, 2, 254, 255, 256, 510, 511, 766, between frames and alone, slices of 1, 2, 100, 256 and all bytes", move |c| {
        let l = c.of(&LABELS);
        let n = c.choose(4);
        let d: Vec<Vec<u8>> = (0..n).map(|i| pattern(c.of(&[0usize, 1, 2, 254, 255, 256, 510, 511, 766]), 8, i as u8 + 1)).collect();
        let k = c.of(&[usize::MAX, 1, 2, 100, 256]);
        c25_case(c, &[(l, d)], c.flag(), |_| k)
    }));
    v.push(Exploration::new("lengths", "one slice of every length 0 to 1100 (thorough 5000), 3 labels, whole and in pieces of 7", move |c| {
        let d = pattern(c.choose(t.sel(1101, 5001)), 8, 3);
        let k = c.of(&[usize::MAX, 7]);
        c25_case(c, &[(c.of(&LABELS), vec![d])], c.flag(), |_| k)
    }));
    v.push(Exploration::new("contents", "every two-byte payload, as one slice and as two, for 3 labels; every one-byte payload repeated 300 times", |c| {
        let (a, b) = (c.choose(256) as u8, c.choose(256) as u8);
        let d = match c.choose(3) { 0 => vec![vec![a, b]], 1 => vec![vec![a], vec![b]], _ => if b == 0 { vec![vec![a; 300]] } else { return Ok(()) } };
        c25_case(c, &[(c.of(&LABELS), d)], true, |_| usize::MAX)
    }));
    v.push(Exploration::new("control", "control extensions of four bytes (every flag byte; delay and index of 3 values each)", |c| {
        let f = c.choose(256) as u8;
        let d = vec![vec![f, c.of(&[0, 0x3B, 0xFF]), c.of(&[0, 0x2C, 0xFF]), c.of(&[0, 0x21, 0xFF])]];
        let k = c.of(&[usize::MAX, 1]);
        c25_case(c, &[(0xF9, d)], false, |_| k)
    }));
    v.push(Exploration::new("sequences", "every sequence of 1 to 3 (thorough 4) extensions out of 8, with frames in between or not, cut at every place", move |c| {
        let kinds: [(u8, Vec<Vec<u8>>); 8] = [(0xFE, vec![]), (0xFE, vec![vec![]]), (0xFE, vec![b"ab".to_vec(), b"c".to_vec()]), (0xFF, vec![b"NETSCAPE2.0".to_vec(), vec![1, 3, 0]]),
            (0xFF, vec![]), (0xFF, vec![vec![0x3B; 260]]), (0x01, vec![vec![9; 12]]), (0x01, vec![vec![], b"\x00".to_vec(), vec![]])];
        let n = c.range(1, t.sel(3, 4));
        let e: Vec<_> = (0..n).map(|_| c.pick(&kinds).clone()).collect();
        let frames = c.flag();
        let total: usize = e.iter().map(|x| x.1.concat().len() + 30).sum::<usize>() + if frames { 40 * n } else { 0 };
        let cut = if n < 3 { c.choose(total) } else { c.choose(8) * total / 8 + 3 };
        c25_case(c, &e, frames, |p| if p < cut { cut - p } else { usize::MAX })
    }));
    v.push(Exploration::new("large", "one slice of 9 lengths around 64 KiB and 256 sub-blocks (thorough: around 1 MiB and 2^24/255 sub-blocks too), alone, after a short one and before one, 3 labels, whole, in pieces of 1000 and of 65536", move |c| {
        let n = c.of(&[32767usize, 65025, 65279, 65280, 65281, 65535, 65536, 70_001, 131_073, 1 << 20, (1 << 24) + 1][..t.sel(9, 11)]);
        let big = pattern(n, 8, 7);
        let d = match c.choose(3) { 0 => vec![big], 1 => vec![vec![1, 2], big], _ => vec![big, vec![1, 2]] };
        let k = c.of(&[usize::MAX, 1000, 65536]);
        c25_case(c, &[(c.of(&LABELS), d)], c.flag(), |_| k)
    }));
    v.push(Exploration::new("many slices", "3, 254, 255, 256, 257, 258, 511, 512, 1000 slices (thorough: 65535 to 65537 too) of 0, 1, 3, 255 or 256 bytes each, 3 labels; as many extensions of one slice", move |c| {
        let n = c.of(&[3usize, 254, 255, 256, 257, 258, 511, 512, 1000, 65535, 65536, 65537][..t.sel(9, 12)]);
        let l = c.of(&[0usize, 1, 3, 255, 256]);
        let d: Vec<Vec<u8>> = (0..n).map(|i| pattern(l, 8, i as u8)).collect();
        let x = c.of(&LABELS);
        if c.flag() { c25_case(c, &[(x, d)], c.flag(), |_| usize::MAX) } else if n > 1000 { Ok(()) } else { c25_case(c, &d.into_iter().map(|d| (x, vec![d])).collect::<Vec<_>>(), false, |_| usize::MAX) }
    }));
    v.push(Exploration::new("counts", "an extension of 3 labels with 2^k - 1, 2^k and 2^k + 1 slices of 1 or 2 bytes, empty slices, bytes, full sub-blocks, or as many extensions, for k = 8 to 16, then another one", |c| {
        let n = count_of(c.choose(COUNT_NS));
        let l = c.of(&[0xFEu8, 0xFF, 0x01]);
        let mut e = match c.choose(5) {
            0 => vec![(l, (0..n).map(|i| vec![i as u8; 1 + i % 2]).collect())],
            1 => vec![(l, vec![vec![]; n])],
            2 => vec![(l, vec![pattern(n, 8, 1)])],
            3 => vec![(l, vec![pattern(n * 255, 8, 1)])],
            _ => (0..n).map(|i| (l, vec![vec![i as u8, (i >> 8) as u8]])).collect(),
        };
        e.push((0xFE, vec![b"last".to_vec()]));
        c25_case(c, &e, c.flag(), |_| if n % 2 == 0 { usize::MAX } else { 999 })
    }).cpu(60.0));
    v
}

// ---------------------------------------------------------------- C27

const KINDS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidData];

/// Decodes with faults; after each failed call the same request is made again.
fn faulty(c: &Ctx, b: &[u8], o: &Opts, how: usize, chunk: usize, kinds: &[ErrorKind]) -> Res { faulty_at(c, b, o, how, chunk, kinds, None) }
/// `at`: only this read call misbehaves, in this way
fn faulty_at(c: &Ctx, b: &[u8], o: &Opts, how: usize, chunk: usize, kinds: &[ErrorKind], at: Option<(usize, usize)>) -> Res {
    c.note("file", || hex(b));
    c.note("options", || format!("{o:?} way {how} chunks of {chunk}"));
    let e = expect(b, o);
    let gpal = e.gif.gpal.clone();
    let log = std::cell::RefCell::new(vec![]); // (call, kind)
    let fresh = std::cell::Cell::new(None); // fault since last asked
    let r = Script::new(b, |_, i| {
        match at.map_or_else(|| c.deviate(kinds.len() + 2), |(p, how)| if p == i { how } else { 0 }) {
            0 => Ans::Give(chunk),
            1 => { log.borrow_mut().push((i, ErrorKind::Interrupted)); Ans::Fail(ErrorKind::Interrupted) }
            k => { let k = kinds[k - 2]; log.borrow_mut().push((i, k)); fresh.set(Some(k)); Ans::Fail(k) }
        }
    });
    c.evaluated(1);
    // the verdict of a call: must be this I/O error if a fault happened in it
    let faulted = |r: Option<ErrClass>| -> Result<bool, String> {
        match (fresh.take(), r) {
            (None, _) => Ok(false),
            (Some(k), Some(ErrClass::Io(x))) if x.0 == k => Ok(true),
            (Some(k), x) => Err(format!("the reader failed with {k:?} and the call gave {x:?} (faults {:?})", log.borrow())),
        }
    };
    let finish = |n: usize| -> Res {
        let l = log.borrow();
        c.note("faults", || format!("{l:?}"));
        c.obs(&(n, l.iter().map(|x| x.0).collect::<Vec<_>>()));
        if !l.is_empty() { c.nontrivial(&(b, how, chunk, o.rgba, o.skip, l.iter().map(|x| (x.0, ErrKind(x.1))).collect::<Vec<_>>())); }
        c.outcome(&format!("{} faults", l.len()));
        Ok(())
    };
    let mut d = match o.build().read_info(r) {
        Ok(d) => { faulted(None)?; d }
        Err(x) => {
            if !faulted(Some(class(&x)))? { return Err(format!("opening failed with {x} without a fault")); }
            return finish(0);
        }
    };
    let n = e.frames.len();
    let want = |i: usize| e.frames.get(i);
    let mut next = 0usize; // frames certainly behind us
    let mut at = vec![0usize]; // read_next_frame: frames that may come next (one may be lost per fault)
    let mut guard = 0;
    if how == 0 {
        let mut it = d.into_iter();
        loop {
            match it.next() {
                Some(Ok(f)) => {
                    faulted(None)?;
                    if want(next).map(|w| (&w.0, &w.1[..])) != Some((&meta_of(&f), &f.buffer[..])) { return Err(format!("frame {next} differs")); }
                    next += 1;
                }
                Some(Err(x)) => {
                    if !faulted(Some(class(&x)))? { return Err(format!("error {x} without a fault")); }
                    if it.next().is_some() || it.next().is_some() { return Err("the iterator continues after an error".into()); }
                    break;
                }
                None => { faulted(None)?; if next != n { return Err(format!("normal end after {next} of {n} frames (faults {:?})", log.borrow())); } break }
            }
        }
        return finish(next);
    }
    loop {
        guard += 1;
        if guard > MAX_FRAMES { return Err("no end".into()); }
        if how == 1 {
            match d.read_next_frame() {
                Ok(Some(f)) => {
                    let (m, px) = (meta_of(f), f.buffer.to_vec());
                    faulted(None)?;
                    at.retain(|&i| want(i).map_or(false, |w| w.0 == m && w.1 == px));
                    at.iter_mut().for_each(|i| *i += 1);
                    if at.is_empty() { return Err(format!("after faults {:?}: delivered {m:?} {}", log.borrow(), hex(&px))); }
                    next += 1;
                }
                Ok(None) => {
                    faulted(None)?;
                    if !at.contains(&n) { return Err(format!("normal end after {next} of {n} frames (faults {:?})", log.borrow())); }
                    return finish(next);
                }
                Err(x) => {
                    if !faulted(Some(class(&x)))? { return Err(format!("error {x} without a fault in this call (faults {:?})", log.borrow())); }
                    for i in at.clone() { if i < n && !at.contains(&(i + 1)) { at.push(i + 1); } }
                }
            }
            continue;
        }
        let m = match d.next_frame_info() {
            Ok(Some(f)) => { let m = meta_of(f); faulted(None)?; m }
            Ok(None) => {
                faulted(None)?;
                if next != n { return Err(format!("normal end after {next} of {n} frames (faults {:?})", log.borrow())); }
                return finish(next);
            }
            // a failed request can be repeated
            Err(x) => { if !faulted(Some(class(&x)))? { return Err(format!("error {x} without a fault in this call (faults {:?})", log.borrow())); } continue }
        };
        let Some(rf) = e.gif.frames.get(next) else { return Err("too many frames".into()) };
        if m != rf.meta { return Err(format!("after faults {:?}: frame {next} has metadata {m:?} instead of {:?}", log.borrow(), rf.meta)); }
        next += 1;
        let bpp = o.bpp();
        let len = rf.area() * bpp;
        let pal = rf.meta.palette.as_deref().or(gpal.as_deref()).unwrap_or(&[]);
        let conv = |px: Vec<u8>| if o.rgba { model::rgba(&px, pal, m.transparent) } else { px };
        match how {
            2 => {
                let mut buf = vec![STALE; len];
                match d.read_into_buffer(&mut buf) {
                    Ok(()) => { faulted(None)?; settle(&mut buf, o.rgba); if buf != conv(rf.pixels().unwrap()) { return Err(format!("frame {} differs", next - 1)); } }
                    Err(x) => if !faulted(Some(class(&x)))? { return Err(format!("error {x} without a fault in this call (faults {:?})", log.borrow())); },
                }
            }
            3 => {
                let w = conv(rf.stored().unwrap());
                let mut p = 0;
                while p < len {
                    let k = (2 * bpp).min(len - p);
                    let mut buf = vec![STALE; k];
                    match d.fill_buffer(&mut buf) {
                        Ok(true) => { faulted(None)?; settle(&mut buf, o.rgba); if buf[..] != w[p..p + k] { return Err(format!("frame {}: pixels at {p} differ", next - 1)); } p += k; }
                        Ok(false) => { faulted(None)?; return Err(format!("frame {}: end of data at {p} (faults {:?})", next - 1, log.borrow())); }
                        Err(x) => { if !faulted(Some(class(&x)))? { return Err(format!("error {x} without a fault in this call (faults {:?})", log.borrow())); } break }
                    }
                }
            }
            _ => {}
        }
    }
}
fn c27(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    let o3 = || -> &'static [Opts] { static S: OnceLock<Vec<Opts>> = OnceLock::new(); S.get_or_init(|| vec![PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.endcode()]) };
    fn files() -> &'static [Vec<u8>] {
        static S: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
        S.get_or_init(|| files_good().iter().filter(|b| decode(&b[..], &PLAIN, &Style::Next).map_or(false, |o| o.end == End::Done)).cloned().collect())
    }
    v.push(Exploration::new("one-fault", "every good seed and history file x 4 option sets x 5 ways of reading x pieces of 1, 2, 3, 7 and all bytes: one read call fails with each of 4 kinds or is interrupted, at every read call", move |c| {
        let b = c.pick(files());
        let o = c.pick(o3());
        let how = c.choose(5);
        let k = c.of(&[usize::MAX, 1, 2, 3, 7]);
        if o.endcode && !model::parse(b, &PLAIN.ropts()).frames.iter().all(|f| f.has_end_code()) { return Ok(()); }
        if !t.t() && ((b.len() > 400 && k < 7) || (b.len() > 3000 && k < 8)) { return Ok(()); }
        if o.skip && (how == 2 || how == 3) { return Ok(()); }
        faulty(c, b, o, how, k, &KINDS)
    }).dev(1));
    v.push(Exploration::new("two-faults", "every good seed of up to 100 (thorough 200) bytes x 3 option sets x 5 ways x pieces of 1, 4 and 9 bytes: up to two read calls fail or are interrupted, at every pair of places (adjacent ones included)", move |c| {
        let b = c.pick(files());
        if b.len() > t.sel(100, 200) { return Ok(()); }
        let o = c.pick(&o3()[..3]);
        let how = c.choose(5);
        let k = c.of(&[4, 1, 9]);
        if o.skip && (how == 2 || how == 3) { return Ok(()); }
        faulty(c, b, o, how, k, &KINDS[..t.sel(1, 2)])
    }).dev(2));
    v.push(Exploration::new("kinds", "every good seed x 2 option sets x 5 ways x pieces of 3 and all bytes: one read call fails with each of the 36 kinds of error, at every read call", move |c| {
        let (_, b) = c.pick(good_seeds());
        let o = &if c.flag() { PLAIN.skip().unknown() } else { PLAIN };
        let how = c.choose(5);
        let k = c.of(&[usize::MAX, 3]);
        if o.skip && (how == 2 || how == 3) { return Ok(()); }
        faulty(c, b, o, how, k, &ALL_KINDS)
    }).dev(1));
    v.push(Exploration::new("early-end", "every good seed: reads return 0 bytes (end of data) once at every place and then continue: an error of kind UnexpectedEof is reported, never a normal end, and a repeated request continues", |c| {
        let (_, b) = c.pick(good_seeds());
        let k = c.of(&[1usize, 3, 8]);
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip()]).clone();
        c.note("file", || hex(b));
        struct Eof<'a> { d: &'a [u8], p: usize, k: usize, calls: usize, at: usize }
        impl Read for Eof<'_> {
            fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                let i = self.calls;
                self.calls += 1;
                if i == self.at { return Ok(0); }
                let n = self.k.min(buf.len()).min(self.d.len() - self.p);
                buf[..n].copy_from_slice(&self.d[self.p..self.p + n]);
                self.p += n;
                Ok(n)
            }
        }
        let Stop::Trailer(end) = model::parse(b, &o.ropts()).stop else { return Err("harness: bad seed".into()) };
        let at = c.choose((end + k - 1) / k);
        c.note("place", || format!("call {at}, pieces of {k}"));
        c.evaluated(1);
        c.nontrivial(&(b, k, at, o.rgba, o.skip));
        let e = expect(b, &o);
        let mut d = match o.build().read_info(Eof { d: b, p: 0, k, calls: 0, at }) {
            Ok(d) => d,
            Err(x) if class(&x) == ErrClass::Io(ErrKind(ErrorKind::UnexpectedEof)) => return Ok(()),
            Err(x) => return Err(format!("opening gives {x:?}")),
        };
        let mut n = 0;
        let mut errs = 0;
        loop {
            match d.next_frame_info() {
                Ok(None) => break,
                Ok(Some(f)) => {
                    if e.gif.frames.get(n).map(|x| &x.meta) != Some(&meta_of(f)) { return Err(format!("frame {n} differs after an early end of the data")); }
                    n += 1;
                }
                Err(x) if class(&x) == ErrClass::Io(ErrKind(ErrorKind::UnexpectedEof)) && errs == 0 => errs += 1,
                Err(x) => return Err(format!("error {x:?} number {errs}")),
            }
            c.obs(&(n, errs));
        }
        if errs != 1 || n != e.gif.frames.len() { return Err(format!("{errs} errors and {n} of {} frames", e.gif.frames.len())); }
        Ok(())
    }));
    v.push(Exploration::new("pool", "each of a pool of 144 images in front of two others, in pieces of 1/40th of the file: one read call fails with each of 4 kinds or is interrupted, at every read call, 5 ways, 3 option sets", move |c| {
        let p = pool();
        let i = c.choose(p.len());
        let b = with_pics(File::new(9, 9, Some(&pal(8, 1))), &[&p[i], &p[(i + 1) % 144], &(None, Img::pat(2, 2, 2, 1))]).end();
        let o = c.pick(&o3()[..3]);
        let how = c.choose(5);
        if o.skip && (how == 2 || how == 3) { return Ok(()); }
        if expect(&b, o).broken.is_some() { return Ok(()); }
        faulty(c, &b, o, how, b.len() / 40 + 1, &KINDS)
    }).dev(1));
    v.push(Exploration::new("counts", &format!("{COUNTED}: one read call fails with one of 4 kinds or is interrupted, at 12 places in and behind the counted things, pieces of 100 bytes, 5 ways of reading"), |c| {
        let (k, b) = pick_count(c);
        let how = c.choose(5);
        let reads = b.len() / 100;
        let at = match c.choose(12) { 0 => reads + 1, 1 => reads, i if i < 5 => reads.saturating_sub(i - 1), i => reads * (i - 4) / 8 };
        let o = if k % 3 == 0 && !matches!(how, 2 | 3) { PLAIN.skip().unknown() } else { PLAIN.unknown() };
        faulty_at(c, &b, &o, how, 100, &KINDS, Some((at, 1 + (at + k) % 5)))
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: one read call out of all fails or is interrupted, pieces of 30 bytes"), |c| {
        let (k, b, _) = pick_combo(c);
        if !matches!(model::parse(&b, &PLAIN.ropts()).stop, Stop::Trailer(_)) { c.outcome("no palette"); return Ok(()); }
        let reads = b.len().min(900) / 30 + 2;
        let at = c.choose(4) * reads / 4 + k % (reads / 4 + 1);
        faulty_at(c, &b, &PLAIN, [0, 1, 4][k % 3], 30, &KINDS, Some((at, 1 + (at + k) % 5)))
    }));
    v
}
