//! The encoder: C17 to C22.
use super::err;
use crate::drive::{self, Opts, Style, PLAIN};
use crate::engine::{catch, hash_of, Ctx, Exploration, Res};
use crate::genr::{count_of, COUNT_NS};
use crate::genr::{hex, pal, pattern};
use crate::model::{self, Meta};
use crate::strict::{self, Block};
use crate::{CheckInfo, Tier};
use gif::{AnyExtension, DisposalMethod, Encoder, EncodingError, EncodingFormatError, ExtensionData, Frame, Repeat};
use std::borrow::Cow;
use std::io::{self, ErrorKind, Write};
use std::sync::OnceLock;

pub fn checks() -> Vec<CheckInfo> {
    vec![
        CheckInfo { id: "C17", level: "model_checking", rule: "every execution makes one list of encoder calls, decodes the output with the real decoder and compares everything with the calls", assumptions: &["the loop count is the last one written before the first frame; a finite repeat of 0 writes nothing, as documented"], build: c17 },
        CheckInfo { id: "C18", level: "model_checking", rule: "every execution makes one list of encoder calls, reads the output with an independent strict GIF89a and LZW parser and compares the block list with the calls", assumptions: &[], build: c18 },
        CheckInfo { id: "C19", level: "fault_enumeration", rule: "every execution lets the write calls of one list of encoder calls accept less, be interrupted or fail at one choice of places; nontrivial: something other than full acceptance happened", assumptions: &["after a failed call only finishing the encoder is looked at (C20)"], build: c19 },
        CheckInfo { id: "C20", level: "model_checking", rule: "every execution makes a list of calls, some failing, finishes the encoder in one way and compares what reached the writer; run with and without the feature raii_no_panic", assumptions: &["without raii_no_panic, dropping an encoder whose writer fails panics by documented choice; that case is left out in that variant only"], build: c20 },
        CheckInfo { id: "C21", level: "model_checking", rule: "every execution makes a list of calls among which some must be refused, and compares verdicts, bytes and the finished file with the list without them", assumptions: &["if a request is refused for two reasons at once either may be reported"], build: c21 },
        CheckInfo { id: "C22", level: "model_checking", rule: "every execution writes one list of frames directly and pre-encoded in one order of compressing, and compares the files byte by byte", assumptions: &[], build: c22 },
    ]
}

// ---------------------------------------------------------------- calls and their meaning

#[derive(Clone, Debug)]
pub enum Op {
    Repeat(Repeat),
    /// write_frame
    Direct(Frame<'static>),
    /// make_lzw_pre_encoded, then write_lzw_pre_encoded_frame
    Pre(Frame<'static>),
    /// write_lzw_pre_encoded_frame with the buffer as it is
    PreAsIs(Frame<'static>),
    Raw(u8, Vec<Vec<u8>>),
    /// write_extension with a control extension
    Control(u16, DisposalMethod, bool, Option<u8>),
    /// write_extension with a loop extension
    Loop(Repeat),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Verdict { Ok, TooManyColors, MissingPalette, BadCodeSize, Io(drive::ErrKind) }

fn verdict<T>(r: &Result<T, EncodingError>) -> Result<Verdict, String> {
    Ok(match r {
        Ok(_) => Verdict::Ok,
        Err(EncodingError::Io(e)) => Verdict::Io(drive::ErrKind(e.kind())),
        Err(EncodingError::Format(EncodingFormatError::TooManyColors)) => Verdict::TooManyColors,
        Err(EncodingError::Format(EncodingFormatError::MissingColorPalette)) => Verdict::MissingPalette,
        Err(EncodingError::Format(EncodingFormatError::InvalidMinCodeSize)) => Verdict::BadCodeSize,
        Err(EncodingError::Format(e)) => return Err(format!("unknown refusal {e:?}")),
    })
}

pub fn apply<W: Write>(e: &mut Encoder<W>, op: &Op) -> Result<(), EncodingError> {
    match op {
        Op::Repeat(r) => e.set_repeat(*r),
        Op::Direct(f) => e.write_frame(f),
        Op::Pre(f) => {
            let mut f = f.clone();
            f.make_lzw_pre_encoded();
            e.write_lzw_pre_encoded_frame(&f)
        }
        Op::PreAsIs(f) => e.write_lzw_pre_encoded_frame(f),
        Op::Raw(l, d) => {
            let d: Vec<&[u8]> = d.iter().map(|x| &x[..]).collect();
            e.write_raw_extension(AnyExtension(*l), &d).map_err(EncodingError::Io)
        }
        Op::Control(d, m, u, t) => e.write_extension(ExtensionData::new_control_ext(*d, *m, *u, *t)),
        Op::Loop(r) => e.write_extension(ExtensionData::Repetitions(*r)),
    }
}

const SHORT: Verdict = Verdict::Io(drive::ErrKind(ErrorKind::InvalidInput));
/// The verdicts a call may have.
fn allowed(op: &Op, has_gpal: bool) -> Vec<Verdict> {
    let mut v = vec![];
    let frame = |f: &Frame<'_>, v: &mut Vec<Verdict>| match &f.palette {
        Some(p) if p.len() / 3 > 256 => v.push(Verdict::TooManyColors),
        None if !has_gpal => v.push(Verdict::MissingPalette),
        _ => {}
    };
    match op {
        Op::Direct(f) => {
            if f.buffer.len() < usize::from(f.width) * usize::from(f.height) { v.push(SHORT); }
            frame(f, &mut v);
        }
        Op::Pre(f) => frame(f, &mut v),
        Op::PreAsIs(f) => {
            if f.buffer.first().map_or(false, |b| !(2..=11).contains(b)) { v.push(Verdict::BadCodeSize); }
            frame(f, &mut v);
        }
        _ => {}
    }
    if v.is_empty() { v.push(Verdict::Ok); }
    v
}
fn padded(p: &[u8]) -> Vec<u8> {
    let n = p.len() / 3;
    let mut v = p[..n * 3].to_vec();
    v.resize(n.max(2).next_power_of_two() * 3, 0);
    v
}

#[derive(Clone, Debug)]
pub struct Screen { w: u16, h: u16, gpal: Vec<u8> }

/// Makes all calls, which must be accepted, and returns the file.
fn encode(s: &Screen, ops: &[Op]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    {
        let mut e = Encoder::new(&mut out, s.w, s.h, &s.gpal).map_err(|e| err("new", e))?;
        for (i, op) in ops.iter().enumerate() {
            if let Err(x) = apply(&mut e, op) { return Err(format!("call {i} was refused: {x:?}")); }
        }
    }
    Ok(out)
}
fn brief(op: &Op) -> String {
    let f = |n: &str, f: &Frame<'_>| format!("{n}({}x{}+{}+{} delay {} {:?} trns {:?} user {} interlaced {} palette {:?} buffer {} {})", f.width, f.height, f.left, f.top, f.delay, f.dispose, f.transparent, f.needs_user_input, f.interlaced, f.palette.as_ref().map(|p| p.len()), f.buffer.len(), hex(&f.buffer[..f.buffer.len().min(24)]));
    match op {
        Op::Direct(x) => f("write_frame", x),
        Op::Pre(x) => f("pre-encoded", x),
        Op::PreAsIs(x) => f("as pre-encoded", x),
        Op::Raw(l, d) => format!("raw extension {l:#x} {:?}", d.iter().map(|x| x.len()).collect::<Vec<_>>()),
        o => format!("{o:?}"),
    }
}
fn note(c: &Ctx, s: &Screen, ops: &[Op]) {
    c.note("screen", || format!("{}x{} palette of {} bytes", s.w, s.h, s.gpal.len()));
    c.note("calls", || ops.iter().map(brief).collect::<Vec<_>>().join("; "));
}

// ---------------------------------------------------------------- frames

pub fn frame(w: u16, h: u16, buf: Vec<u8>) -> Frame<'static> { Frame { width: w, height: h, buffer: Cow::Owned(buf), ..Frame::default() } }
fn pat(w: u16, h: u16, bits: u8, tag: u8) -> Frame<'static> { frame(w, h, pattern(w as usize * h as usize, bits, tag)) }

fn screen(k: usize) -> Screen {
    match k {
        0 => Screen { w: 9, h: 7, gpal: pal(4, 1) },
        1 => Screen { w: 300, h: 65535, gpal: vec![] },
        _ => Screen { w: 0, h: 1, gpal: pal(5, 7) },
    }
}
/// Calls that every screen accepts.
fn good_ops() -> &'static [Op] {
    static S: OnceLock<Vec<Op>> = OnceLock::new();
    S.get_or_init(|| {
        let lp = |f: Frame<'static>, n: usize| Frame { palette: Some(pal(n, 3)), ..f };
        let a = lp(pat(1, 1, 1, 1), 2);
        let b = Frame { delay: 0x1234, dispose: DisposalMethod::Background, transparent: Some(2), left: 1, top: 300, ..lp(pat(3, 2, 2, 2), 3) };
        let c = Frame { interlaced: true, needs_user_input: true, dispose: DisposalMethod::Previous, delay: 1, ..lp(pat(2, 9, 3, 3), 8) };
        let big = Frame { dispose: DisposalMethod::Any, ..lp(pat(40, 20, 8, 4), 256) };
        vec![
            Op::Direct(a.clone()), Op::Direct(b.clone()), Op::Pre(c.clone()), Op::Direct(big.clone()), Op::Repeat(Repeat::Infinite), Op::Repeat(Repeat::Finite(0)), Op::Repeat(Repeat::Finite(300)),
            Op::Raw(0xFE, vec![b"a comment".to_vec()]), Op::Raw(0xFF, vec![]), Op::Control(7, DisposalMethod::Background, true, Some(9)), Op::Direct(c), Op::Pre(b), Op::Raw(0x01, vec![vec![0x3B; 256], vec![], vec![0; 12]]),
            Op::Direct(lp(pat(0, 3, 1, 1), 2)), Op::Pre(big), Op::Pre(lp(pat(5, 0, 1, 1), 1)),
        ]
    })
}
/// ... and one that also uses the global palette if there is one
fn op_for(c: &Ctx, s: &Screen, n: usize) -> Op {
    let g = good_ops();
    let k = c.choose(n);
    if k < g.len() {
        let mut op = g[k].clone();
        if !s.gpal.is_empty() && (k == 0 || k == 2) { if let Op::Direct(f) | Op::Pre(f) = &mut op { f.palette = None; } }
        op
    } else { unreachable!() }
}

/// 144 frames in which every two values of any two features meet.
fn frame_pool() -> &'static [Frame<'static>] {
    static S: OnceLock<Vec<Frame<'static>>> = OnceLock::new();
    S.get_or_init(|| {
        let mut x = 4711u32;
        let mut r = |n: usize| { x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223); (x >> 16) as usize % n };
        (0..144).map(|i| {
            let (w, h) = [(1u16, 1u16), (2, 3), (7, 9), (3, 17), (40, 6), (0, 4), (5, 0), (300, 2), (1, 30), (16, 16), (64, 70), (4, 8)][i % 12];
            let n = w as usize * h as usize;
            let bits = 1 + r(8) as u8;
            let m = ((1u16 << bits) - 1) as u8;
            let mut b = match r(5) { 0 => vec![m; n], 1 => (0..n).map(|k| k as u8 & m).collect(), 2 => { let mut v = vec![0; n]; if n > 0 { v[n - 1] = m; } v }, _ => pattern(n, bits, i as u8) };
            if n > 0 && r(8) == 0 { b.extend(pattern(1 + r(300), 8, 9)); }
            Frame {
                delay: [0, 1, 255, 256, 65535][r(5)], dispose: DisposalMethod::from_u8(r(4) as u8).unwrap(), transparent: [None, None, Some(0), Some(1), Some(127), Some(255)][r(6)], needs_user_input: r(3) == 0,
                left: [0, 1, 256, 65535][r(4)], top: [0, 2, 300, 65535][r(4)], interlaced: r(2) == 0,
                palette: [None, None, Some(0), Some(1), Some(2), Some(3), Some(16), Some(17), Some(128), Some(129), Some(255), Some(256)][r(12)].map(|n| pal(n, i as u8)), ..frame(w, h, b)
            }
        }).collect()
    })
}

// ---------------------------------------------------------------- strict model (C18)

fn strict_model(out: &[u8], s: &Screen, ops: &[Op]) -> Res {
    let g = strict::parse(out)?;
    if (g.w, g.h) != (s.w, s.h) { return Err(format!("screen size {}x{}", g.w, g.h)); }
    match &g.gpal {
        Some(p) if *p != padded(&s.gpal) => return Err(drive::diff("global palette", p, &padded(&s.gpal))),
        None if !s.gpal.is_empty() => return Err("no global palette".into()),
        _ => {}
    }
    let mut it = g.blocks.iter();
    for (i, op) in ops.iter().enumerate() {
        let mut next = |what: &str| it.next().ok_or_else(|| format!("call {i}: no {what} in the file"));
        let ext = |b: &Block, want: u8| match b { Block::Ext { label, blocks } if *label == want => Ok(blocks.clone()), b => Err(format!("call {i}: {b:?} instead of extension {want:#x}")) };
        let control = |blocks: &[Vec<u8>], delay: u16, d: DisposalMethod, user: bool, t: Option<u8>| -> Res {
            let [x] = blocks else { return Err(format!("call {i}: control extension has {} sub-blocks", blocks.len())) };
            if x.len() != 4 { return Err(format!("call {i}: control extension of {} bytes", x.len())); }
            let flags = u8::from(t.is_some()) | u8::from(user) << 1 | drive::dispose_u8(d) << 2;
            if x[0] != flags || x[1..3] != delay.to_le_bytes() || t.map_or(false, |t| x[3] != t) { return Err(format!("call {i}: control extension {x:?}, expected flags {flags:#x} delay {delay} index {t:?}")); }
            Ok(())
        };
        match op {
            Op::Repeat(Repeat::Finite(0)) | Op::Loop(Repeat::Finite(0)) => {}
            Op::Repeat(r) | Op::Loop(r) => {
                let n = match r { Repeat::Finite(n) => *n, Repeat::Infinite => 0 }.to_le_bytes();
                let b = ext(next("loop extension")?, 0xFF)?;
                if b != [b"NETSCAPE2.0".to_vec(), vec![1, n[0], n[1]]] { return Err(format!("call {i}: loop extension {b:?}")); }
            }
            Op::Raw(l, d) => {
                let b = ext(next("extension")?, *l)?;
                // every slice starts a sub-block of its own
                let mut it = b.iter();
                for s in d {
                    let mut p = 0;
                    while p < s.len() {
                        let x = it.next().ok_or_else(|| format!("call {i}: payload is cut"))?;
                        if s.get(p..p + x.len()) != Some(&x[..]) { return Err(format!("call {i}: payload differs at {p}")); }
                        p += x.len();
                    }
                }
                if it.next().is_some() { return Err(format!("call {i}: surplus sub-blocks")); }
            }
            Op::Control(d, m, u, t) => control(&ext(next("control extension")?, 0xF9)?, *d, *m, *u, *t)?,
            Op::Direct(f) | Op::Pre(f) | Op::PreAsIs(f) => {
                control(&ext(next("control extension")?, 0xF9)?, f.delay, f.dispose, f.needs_user_input, f.transparent)?;
                let Block::Image { left, top, w, h, interlaced, lpal, mcs, blocks } = next("image")? else { return Err(format!("call {i}: no image behind the control extension")) };
                if (*left, *top, *w, *h, *interlaced) != (f.left, f.top, f.width, f.height, f.interlaced) { return Err(format!("call {i}: image descriptor {left} {top} {w} {h} {interlaced}")); }
                if *lpal != f.palette.as_ref().map(|p| padded(p)) { return Err(format!("call {i}: local palette {lpal:?}")); }
                if let Op::PreAsIs(f) = op {
                    if f.buffer.first().map_or(false, |b| b != mcs) || blocks.concat() != f.buffer.get(1..).unwrap_or(&[]) { return Err(format!("call {i}: pre-encoded data was changed")); }
                } else {
                    strict::check_lzw(*mcs, blocks, &f.buffer).map_err(|e| format!("call {i}: {e}"))?;
                }
            }
        }
    }
    match it.next() { Some(b) => Err(format!("surplus block {b:?}")), None => Ok(()) }
}

// ---------------------------------------------------------------- decoding model (C17)

fn decodes_back(out: &[u8], s: &Screen, ops: &[Op], o: &Opts, style: &Style) -> Res {
    let obs = drive::decode(out, o, style)?;
    let h = obs.header.as_ref().map_err(|e| format!("the output cannot be opened: {e:?}"))?;
    if (h.w, h.h) != (s.w, s.h) { return Err(format!("screen size {}x{}", h.w, h.h)); }
    let gp = padded(&s.gpal);
    match &h.gpal { Some(p) if *p == gp => {} None if s.gpal.is_empty() => {} p => return Err(format!("global palette {p:?} instead of {gp:?}")) }
    let mut rep = model::Repeat::Finite(0);
    let mut frames = vec![];
    for op in ops {
        match op {
            Op::Repeat(r) | Op::Loop(r) if frames.is_empty() && *r != Repeat::Finite(0) => rep = drive::repeat_of(*r),
            Op::Direct(f) | Op::Pre(f) => {
                let n = f.width as usize * f.height as usize;
                let px = f.buffer[..n].to_vec();
                let px = if f.interlaced { model::deinterlace(&px, f.width as usize, f.height as usize) } else { px };
                let m = Meta { palette: f.palette.as_ref().map(|p| padded(p)), interlaced: false, ..drive::meta_of(f) };
                let px = if o.rgba { model::rgba(&px, m.palette.as_deref().unwrap_or(&gp), m.transparent) } else { px };
                frames.push((m, px));
            }
            _ => {}
        }
    }
    if h.repeat != rep { return Err(format!("repeat {:?} instead of {rep:?}", h.repeat)); }
    for (i, f) in frames.iter().enumerate() {
        let Some(g) = obs.frames.get(i) else { return Err(format!("{} frames instead of {}, then {:?}", obs.frames.len(), frames.len(), obs.end)) };
        if f.0 != g.0 { return Err(format!("frame {i}: {:?} instead of {:?}", g.0, f.0)); }
        if f.1 != g.1 { return Err(drive::diff(&format!("pixels of frame {i}"), &g.1, &f.1)); }
    }
    if obs.frames.len() != frames.len() || obs.end != drive::End::Done { return Err(format!("{} frames instead of {}, then {:?}", obs.frames.len(), frames.len(), obs.end)); }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
enum What { Strict, Decode, Steps }

fn judge(c: &Ctx, what: What, s: &Screen, ops: &[Op]) -> Res {
    note(c, s, ops);
    let out = encode(s, ops)?;
    c.note("file", || hex(&out));
    c.obs(&out);
    c.steps(ops.len() as u64 + 2);
    c.validated(1);
    match what {
        What::Strict => strict_model(&out, s, ops),
        What::Steps => steps(&out, s, ops),
        What::Decode => {
            decodes_back(&out, s, ops, &PLAIN, &Style::Next)?;
            decodes_back(&out, s, ops, &Opts { limit: drive::Limit::Bytes(1 << 28), ..PLAIN.rgba().endcode() }, &Style::Iter)
        }
    }
}

/// After every call everything up to the end of its blocks in the finished file has reached the writer.
fn steps(want: &[u8], s: &Screen, ops: &[Op]) -> Res {
    let ends = strict::ends(want).ok_or("the output is not well-formed")?;
    let out = std::cell::RefCell::new(vec![]);
    let calls = std::cell::Cell::new(0);
    let all = |_: usize, _: usize| WAns::All;
    let there = |what: &str, k: usize| -> Res {
        let n = out.borrow().len();
        if ends.get(k) != Some(&n) { return Err(format!("{what}: {n} bytes have reached the writer instead of {:?}", ends.get(k))); }
        Ok(())
    };
    let mut e = Encoder::new(ScriptW { out: &out, calls: &calls, f: &all }, s.w, s.h, &s.gpal).map_err(|e| err("new", e))?;
    there("new", 0)?;
    let mut k = 0;
    for (i, op) in ops.iter().enumerate() {
        apply(&mut e, op).map_err(|x| format!("call {i} was refused: {x:?}"))?;
        k += match op { Op::Repeat(Repeat::Finite(0)) | Op::Loop(Repeat::Finite(0)) => 0, Op::Direct(_) | Op::Pre(_) | Op::PreAsIs(_) => 2, _ => 1 };
        there(&format!("call {i}"), k)?;
    }
    let w = e.into_inner().map_err(|e| err("into_inner", e))?;
    there("into_inner", k + 1)?;
    drop(w);
    if *out.borrow() != want { return Err(drive::diff("the finished file", &out.borrow(), want)); }
    Ok(())
}
/// The encoder's half of C33.
pub fn passed_on(t: Tier) -> Vec<Exploration> {
    let mut v = encoder_inputs(t, What::Steps);
    for e in &mut v { e.name = format!("writer-{}", e.name); }
    v
}

/// Calls in which one thing occurs `n` times, then two more frames.
fn count_ops(kind: usize, n: usize) -> Vec<Op> {
    let one = |i: usize| Frame { left: i as u16, top: (i >> 8) as u16, ..frame(1, 1, vec![(i % 4) as u8]) };
    let mut v: Vec<Op> = vec![];
    match kind {
        0 => v.extend((0..n).map(|i| Op::Direct(one(i)))),
        1 => v.extend((0..n).map(|i| Op::Pre(one(i)))),
        2 => v.extend((0..n).map(|i| Op::Direct(Frame { palette: Some(pal(2, i as u8)), delay: i as u16, dispose: DisposalMethod::from_u8((i % 4) as u8).unwrap(), transparent: (i % 3 == 0).then_some(i as u8), ..one(i) }))),
        3 => v.extend((0..n).map(|i| Op::Raw(0xFE, vec![vec![i as u8]]))),
        4 => v.extend((0..n).map(|i| Op::Loop(Repeat::Finite(i as u16)))),
        5 => v.extend((0..n).map(|i| Op::Repeat(Repeat::Finite(i as u16)))),
        6 => v.extend((0..n).map(|i| Op::Control(i as u16, DisposalMethod::Keep, false, None))),
        7 => v.push(Op::Raw(0xFE, (0..n).map(|i| vec![i as u8; 1 + i % 2]).collect())),
        8 => v.push(Op::Raw(0xFE, vec![pattern(n * 255, 8, 1)])),
        9 => v.push(Op::Raw(0xFE, vec![vec![]; n])),
        10 => { let (w, h) = if n > 32768 { (510, n / 2) } else { (255, n) }; v.push(Op::Direct(pat(w, h as u16, 8, 1))); }
        11 => { let (w, h) = if n > 32768 { (510, n / 2) } else { (255, n) }; v.push(Op::Pre(pat(w, h as u16, 8, 1))); }
        12 => v.push(Op::Direct(pat(n.min(65535) as u16, 3, 8, 2))),
        13 => v.push(Op::Direct(Frame { interlaced: true, ..pat(2, n.min(65535) as u16, 8, 2) })),
        _ => { let mut f = frame(2, 1, vec![1; 2]); f.buffer.to_mut().extend(vec![3; n]); v.push(Op::Direct(f)); }
    }
    v.push(Op::Direct(pat(3, 5, 2, 1)));
    v.push(Op::Pre(Frame { palette: Some(pal(5, 1)), delay: 9, ..pat(4, 3, 2, 2) }));
    v
}
const COUNTED_OPS: &str = "15 things (frames of 3 sorts, raw, loop and control extensions, loop counts, slices of an extension of 3 sorts, sub-blocks of a frame written directly or compressed first, width, height, surplus pixels) occurring 2^k - 1, 2^k and 2^k + 1 times for k = 8 to 16, then two more frames";
fn pick_count_ops(c: &Ctx) -> (usize, Vec<Op>) {
    let (k, i) = (c.choose(15), c.choose(COUNT_NS));
    c.note("counted", || format!("kind {k}, {}", count_of(i)));
    (k + i, count_ops(k, count_of(i)))
}

/// The input spaces C17 and C18 share.
fn encoder_inputs(t: Tier, what: What) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("calls", "every list of 0 to 3 (thorough 4) encoder calls out of 16 (frames direct and pre-encoded, with local and global palettes, interlaced, of zero area, repeat, raw and control extensions) on 3 screens", move |c| {
        let s = screen(c.choose(3));
        let n = c.range(0, t.sel(3, 4));
        let ops: Vec<Op> = (0..n).map(|_| op_for(c, &s, good_ops().len())).collect();
        judge(c, what, &s, &ops)
    }));
    v.push(Exploration::new("fields", "one frame between two others: every combination of 7 delays, 4 disposals, user input, 6 transparent indices, 5 positions, interlaced, direct or pre-encoded", move |c| {
        let s = screen(0);
        let f = Frame {
            delay: c.of(&[0, 1, 255, 256, 0x1234, 0x8000, 65535]), dispose: c.of(&[DisposalMethod::Any, DisposalMethod::Keep, DisposalMethod::Background, DisposalMethod::Previous]), needs_user_input: c.flag(),
            transparent: c.of(&[None, Some(0), Some(1), Some(3), Some(4), Some(255)]), interlaced: c.flag(), ..pat(2, 5, 2, 9)
        };
        let (left, top) = c.of(&[(0, 0), (1, 0), (0, 1), (0x1234, 0x5678), (65535, 65535)]);
        let f = Frame { left, top, ..f };
        let a = Op::Direct(Frame { delay: 5, transparent: Some(1), dispose: DisposalMethod::Background, ..pat(2, 1, 2, 1) });
        let mid = if c.flag() { Op::Pre(f) } else { Op::Direct(f) };
        judge(c, what, &s, &[a.clone(), mid, a])
    }));
    v.push(Exploration::new("field-values", "every value of the delay, left, top and of the loop count (65536 each), of the transparent index and disposal", move |c| {
        let k = c.choose(5);
        let x = c.choose(65536);
        let x = x as u16;
        let mut s = screen(0);
        let mut f = pat(1, 1, 1, 9);
        let mut ops = vec![];
        match k {
            0 => f.delay = x,
            1 => f.left = x,
            2 => f.top = x,
            3 => { ops.push(if x % 2 == 0 { Op::Repeat(Repeat::Finite(x)) } else { Op::Loop(Repeat::Finite(x)) }); s.w = x; s.h = !x; }
            _ => { if x >= 257 * 8 { return Ok(()); } f.transparent = (x as u8).checked_sub(1).filter(|_| x / 8 > 0).map(|_| (x / 8 - 1) as u8); f.dispose = DisposalMethod::from_u8((x % 4) as u8).unwrap(); f.needs_user_input = x % 8 > 3; }
        }
        ops.push(Op::Direct(f));
        judge(c, what, &s, &ops)
    }));
    v.push(Exploration::new("dims", "frames of every width (65536) and height 0, and of every height and width 0; of height or width 1 for every 97th (thorough: 13th) one and those within 3 of a power of two; with the screen of that size or another, direct or pre-encoded by turns", move |c| {
        let n = c.choose(65536);
        let (wide, empty) = (c.flag(), c.flag());
        let near = (0..=16).any(|k| (1usize << k).abs_diff(n) <= 3);
        if !empty && !near && n % t.sel(97, 13) != 0 { return Ok(()); }
        let m = usize::from(!empty);
        let (w, h) = if wide { (n, m) } else { (m, n) };
        let f = Frame { interlaced: n % 3 == 0, ..frame(w as u16, h as u16, pattern(w * h, 2, n as u8)) };
        let mut s = screen(0);
        if n % 2 == 0 { s.w = w as u16; s.h = h as u16; }
        judge(c, what, &s, &[if n % 5 == 0 { Op::Pre(f) } else { Op::Direct(f) }, Op::Direct(pat(2, 2, 2, 1))])
    }));
    v.push(Exploration::new("palettes", "global and local palettes of every size 0 to 256 (also with 1 or 2 surplus bytes), global, local or both", move |c| {
        let n = c.choose(257);
        let extra = if n < 256 { c.choose(3) } else { 0 };
        let p = |tag| { let mut p = pal(n, tag); p.extend(&[9, 9][..extra]); p };
        let (g, l) = c.of(&[(true, false), (false, true), (true, true)]);
        let mut s = screen(0);
        if g { s.gpal = p(1); } else if c.flag() { s.gpal = vec![] }
        let f = pat(3, 3, 8, 5);
        let mut ops = vec![];
        if l { ops.push(Op::Direct(Frame { palette: Some(p(2)), ..f.clone() })); ops.push(Op::Pre(Frame { palette: Some(p(3)), ..f.clone() })); }
        if !s.gpal.is_empty() && n > 0 { ops.push(Op::Direct(f.clone())); ops.push(Op::Pre(f)); }
        judge(c, what, &s, &ops)
    }));
    v.push(Exploration::new("shapes", "every width 0..=9 (and 255, 256, 257, 1000) x height 0..=40 (and 255, 256, 257, 1000), interlaced or not, direct or pre-encoded, 3 sorts of content", move |c| {
        let dim = |k: usize, n: usize| if k <= n { k } else { [255, 256, 257, 1000][k - n - 1] };
        let (w, h) = (dim(c.choose(14), 9), dim(c.choose(45), 40));
        if w * h > t.sel(20_000, 300_000) { return Ok(()); }
        let buf = match c.choose(3) { 0 => vec![3; w * h], 1 => pattern(w * h, 8, 5), _ => (0..w * h).map(|i| (i / w.max(1)) as u8).collect() };
        let f = Frame { interlaced: c.flag(), palette: Some(pal(8, 1)), ..frame(w as u16, h as u16, buf) };
        judge(c, what, &screen(0), &[if c.flag() { Op::Pre(f) } else { Op::Direct(f) }])
    }));
    v.push(Exploration::new("pixels", "every buffer of 1 to 7 (thorough 9) pixels over {0, 1, 3, 4} and of 1 to 10 (thorough 14) pixels over {0, 255}, followed by a second frame", move |c| {
        let al: &[u8] = if c.flag() { &[0, 1, 3, 4] } else { &[0, 255] };
        let n = c.range(1, if al.len() == 4 { t.sel(7, 9) } else { t.sel(10, 14) });
        let b: Vec<u8> = (0..n).map(|_| c.of(al)).collect();
        let f = frame(n as u16, 1, b);
        judge(c, what, &screen(0), &[Op::Direct(f), Op::Direct(pat(2, 2, 2, 1))])
    }));
    v.push(Exploration::new("lengths", "every length 1 to 1400 (thorough 6000, and around 65535) of constant, alternating, counting and pseudo-random pixels with 1 to 8 bits: sub-block limits, code width changes, full tables", move |c| {
        let n = if t.t() { let k = c.choose(6040); if k < 6000 { k + 1 } else { 65515 + k - 6000 } } else { 1 + c.choose(1400) };
        let bits = c.range(1, 8) as u8;
        let m = (1usize << bits) - 1;
        let b: Vec<u8> = match c.choose(4) { 0 => vec![m as u8; n], 1 => (0..n).map(|i| if i % 2 == 0 { 0 } else { m as u8 }).collect(), 2 => (0..n).map(|i| (i & m) as u8).collect(), _ => pattern(n, bits, 3) };
        let (w, h) = if n < 65536 { (n, 1) } else { (n / 2, 2) };
        let b = b[..w * h].to_vec();
        let f = Frame { interlaced: h > 1, ..frame(w as u16, h as u16, b) };
        judge(c, what, &screen(0), &[Op::Direct(f)])
    }));
    v.push(Exploration::new("large", "pseudo-random, constant and striped pixels of every bit depth with 8 sizes up to 200000 pixels (thorough: 4 million)", move |c| {
        let bits = c.range(1, 8) as u8;
        let (w, h) = c.of(&[(3, 1365), (64, 64), (65, 63), (256, 16), (100, 200), (500, 400), (2000, 100), (2000, 2000)]);
        if w as usize * h as usize > t.sel(200_000, 4_000_000) { return Ok(()); }
        let n = w as usize * h as usize;
        let b = match c.choose(3) { 0 => pattern(n, bits, 7), 1 => vec![(1u16 << (bits - 1)) as u8; n], _ => (0..n).map(|i| (i / 97 % (1 << bits)) as u8).collect() };
        let f = Frame { interlaced: c.flag(), ..frame(w, h, b) };
        judge(c, what, &screen(0), &[if c.flag() { Op::Pre(f) } else { Op::Direct(f) }])
    }));
    v.push(Exploration::new("late-maximum", "images of 8 sizes up to 1.1 million pixels (thorough 5 million) with one pixel of the largest index at the first, last, middle pixel and around every power of two and multiples of 255, x 6 values", move |c| {
        let (w, h) = c.of(&[(260u16, 1u16), (1100, 4), (300, 240), (512, 300), (1025, 300), (1024, 600), (65535, 17), (2300, 2300)]);
        let n = w as usize * h as usize;
        if n > t.sel(1_200_000, 6_000_000) { return Ok(()); }
        let mut places = vec![0, n - 1, n / 2, n * 254 / 255];
        let mut p = 256;
        while p <= n { places.extend([p - 1, p]); p *= 2; }
        places.retain(|&p| p < n);
        let at = *c.pick(&places);
        let mut b: Vec<u8> = (0..n).map(|i| (i / 911 % 3) as u8).collect();
        b[at] = c.of(&[4, 8, 16, 127, 128, 255]);
        let f = Frame { palette: Some(pal(256, 1)), ..frame(w, h, b) };
        note(c, &screen(0), &[]);
        c.note("image", || format!("{w}x{h}, index {} at {at}", f.buffer[at]));
        judge(c, what, &screen(0), &[if at % 2 == 0 { Op::Pre(f) } else { Op::Direct(f) }])
    }).cpu(60.0));
    v.push(Exploration::new("many-frames", "1 to 1300 frames of changing fields, palettes and sizes with extensions in between, finished normally (every count up to 40, then 250..=260, 511..=514, 1023..=1026, 1300)", move |c| {
        let n = { let mut v: Vec<usize> = (1..=40).collect(); v.extend(250..=260); v.extend(511..=514); v.extend(1023..=1026); v.push(1300); *c.pick(&v) };
        let kind = c.choose(3);
        let mut ops = vec![];
        for i in 0..n {
            let f = Frame { delay: (i * 251) as u16, left: i as u16, top: (i * 7) as u16, transparent: (i % 3 == 1).then_some(i as u8), interlaced: i % 5 == 2, needs_user_input: i % 7 == 3, dispose: DisposalMethod::from_u8((i % 4) as u8).unwrap(),
                palette: (i % 4 == 3).then(|| pal(2 + i % 255, i as u8)), ..pat((i % 4) as u16 + 1, (i % 6) as u16 + 1, (i % 8) as u8 + 1, i as u8) };
            if kind == 1 && i % 3 == 0 { ops.push(Op::Raw(0xFE, vec![pattern(i % 300, 8, 3)])); }
            ops.push(if kind == 2 || i % 9 == 4 { Op::Pre(f) } else { Op::Direct(f) });
        }
        judge(c, what, &screen(0), &ops)
    }).cpu(60.0));
    v.push(Exploration::new("raw-extensions", "every label (strict reader) or known label (decoder) x lists of up to 3 slices of 9 lengths, between frames", move |c| {
        let l = if what == What::Strict { c.choose(256) as u8 } else { c.of(&[0x01, 0xFE, 0xFF]) };
        if what == What::Strict && c.choose(2) == 0 && !matches!(l, 1 | 0xF9 | 0xFE | 0xFF) { return judge(c, what, &screen(0), &[Op::Raw(l, vec![vec![l; 3]]), Op::Direct(pat(1, 1, 1, 1))]); }
        if !matches!(l, 1 | 0xFE | 0xFF) { return Ok(()); }
        let n = c.choose(4);
        let d: Vec<Vec<u8>> = (0..n).map(|_| vec![c.of(&[0x3B, 0x00]); c.of(&[0, 1, 2, 254, 255, 256, 510, 511, 700])]).collect();
        let f = Op::Direct(Frame { delay: 3, ..pat(2, 2, 2, 1) });
        judge(c, what, &screen(0), &[f.clone(), Op::Raw(l, d), f])
    }));
    v.push(Exploration::new("surplus-buffers", "buffers longer than the frame by 1 to 300 pixels, direct and pre-encoded, then another frame", move |c| {
        let x = c.range(1, 300);
        let (w, h) = c.of(&[(1u16, 1u16), (5, 4), (16, 16)]);
        let f = frame(w, h, pattern(w as usize * h as usize + x, c.of(&[1, 2, 5, 8]), 1));
        judge(c, what, &screen(0), &[if c.flag() { Op::Pre(f) } else { Op::Direct(f) }, Op::Direct(pat(2, 2, 2, 2))])
    }));
    v.push(Exploration::new("all-fields", "one frame with every combination of 4 delays, 4 disposals, user input, 4 transparent indices, 4 positions, 8 sizes, interlaced, 5 palettes, 3 contents, direct or pre-encoded", move |c| {
        let (w, h) = c.of(&[(1u16, 1u16), (2, 3), (3, 9), (0, 1), (1, 0), (256, 1), (1, 257), (17, 16)]);
        let n = w as usize * h as usize;
        let (left, top) = c.of(&[(0, 0), (1, 256), (256, 1), (65535, 65535)]);
        let f = Frame {
            left, top, delay: c.of(&[0, 1, 256, 65535]), dispose: DisposalMethod::from_u8(c.choose(4) as u8).unwrap(), transparent: c.of(&[None, Some(0), Some(1), Some(255)]), needs_user_input: c.flag(), interlaced: c.flag(),
            palette: c.of(&[None, Some(1), Some(2), Some(5), Some(256)]).map(|n| pal(n, 3)),
            ..frame(w, h, match c.choose(3) { 0 => vec![0; n], 1 => pattern(n, 2, 1), _ => pattern(n, 8, 2) })
        };
        let op = if c.flag() { Op::Pre(f) } else { Op::Direct(f) };
        judge(c, what, &screen(0), &[op])
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 frames (sizes, contents, palettes, fields, surplus pixels), direct or pre-encoded, 2 screens", move |c| {
        let p = frame_pool();
        let f = [c.pick(p).clone(), c.pick(p).clone()];
        let s = if f.iter().any(|f| f.palette.is_none()) || c.flag() { screen(2) } else { screen(1) };
        let k = c.choose(4);
        let ops: Vec<Op> = f.into_iter().enumerate().map(|(i, f)| if k >> i & 1 == 1 { Op::Pre(f) } else { Op::Direct(f) }).collect();
        judge(c, what, &s, &ops)
    }));
    v.push(Exploration::new("twins", "two images that differ in one pixel, by two pixels or two colours exchanged, in one byte of the palette, or in one field, at every place: written in the order first, second, first, directly or compressed first", move |c| {
        let t = super::pick_twin(c);
        let f = |i| super::twin_frame(&t, i);
        let ops: Vec<Op> = if c.flag() { [0, 1, 0].iter().map(|&i| Op::Pre(f(i))).collect() } else { [0, 1, 0].iter().map(|&i| Op::Direct(f(i))).collect() };
        judge(c, what, &screen(0), &ops)
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED_OPS}: written and read back"), move |c| {
        let (_, ops) = pick_count_ops(c);
        judge(c, what, &screen(0), &ops)
    }).cpu(60.0));
    v.push(Exploration::new("held", &format!("every frame of the pool, {}: written directly or pre-encoded, by itself or behind another frame: the same decodes", super::HELD), |c| {
        let f = c.pick(frame_pool());
        let how = c.range(1, 4);
        let pre = c.flag();
        let g = pal(256, 1);
        c.note("frame", || format!("{} held {how} pre-encoded {pre}", brief(&Op::Direct(f.clone()))));
        let first = if c.flag() { Some(pat(30, 30, 8, 4)) } else { None };
        let mut out = [vec![], vec![]];
        for (k, o) in out.iter_mut().enumerate() {
            let mut e = Encoder::new(o, 9, 9, &g).map_err(|e| err("new", e))?;
            if let Some(f) = &first { e.write_frame(f).map_err(|e| err("first", e))?; }
            let (mut room, mut room2) = (vec![], vec![]);
            let mut x = super::held(f, if k == 0 { 0 } else { how }, &mut room);
            if pre {
                x.make_lzw_pre_encoded();
                let y = Frame { buffer: Cow::Owned(x.buffer.to_vec()), ..f.clone() };
                let y = super::held(&y, if k == 0 { 0 } else { how }, &mut room2);
                e.write_lzw_pre_encoded_frame(&y).map_err(|e| err("write", e))?;
            } else {
                e.write_frame(&x).map_err(|e| err("write", e))?;
                if x.buffer != f.buffer || x.palette != f.palette { return Err("writing changed the frame".into()); }
            }
        }
        c.obs(&out[1]);
        c.validated(1);
        let x = drive::decode(&out[0][..], &PLAIN, &Style::Next)?;
        let y = drive::decode(&out[1][..], &PLAIN, &Style::Next)?;
        if x != y { return Err(format!("{y:?} instead of {x:?}").chars().take(1500).collect()); }
        strict::parse(&out[1])?;
        Ok(())
    }));
    v
}
fn c17(t: Tier) -> Vec<Exploration> { encoder_inputs(t, What::Decode) }
fn c18(t: Tier) -> Vec<Exploration> {
    let mut v = encoder_inputs(t, What::Strict);
    v.push(Exploration::new("as-is", "pre-encoded data of every code size 2 to 11 and length 0 to 600 is copied unchanged", |c| {
        let n = c.choose(601);
        let m = c.range(2, 11) as u8;
        let mut b = if n == 0 { vec![] } else { vec![m] };
        b.extend(pattern(n.saturating_sub(1), 8, m));
        let f = Frame { interlaced: c.flag(), palette: Some(pal(3, 3)), ..frame(3, 4, b) };
        judge(c, What::Strict, &screen(1), &[Op::PreAsIs(f)])
    }));
    v
}

// ---------------------------------------------------------------- writers

/// Decides what happens at each write call (call number, bytes offered); None is a full write.
#[derive(Clone, Copy, Debug, PartialEq)]
enum WAns { All, Part(usize), Fail(ErrorKind), Zero }
struct ScriptW<'a> { out: &'a std::cell::RefCell<Vec<u8>>, calls: &'a std::cell::Cell<usize>, f: &'a dyn Fn(usize, usize) -> WAns }
impl Write for ScriptW<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let i = self.calls.get();
        self.calls.set(i + 1);
        let n = match (self.f)(i, b.len()) {
            WAns::All => b.len(),
            WAns::Part(n) => n.min(b.len()),
            WAns::Zero => 0,
            WAns::Fail(k) => return Err(k.into()),
        };
        self.out.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

const FAULTS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::TimedOut];

/// Runs new, the calls and finishing on a scripted writer. `Ok(Some(k))`: a call failed and said so with kind k.
fn c19_run(c: &Ctx, s: &Screen, ops: &[Op], want: &[u8], into: bool, answer: &dyn Fn(usize, usize) -> WAns) -> Res {
    let out = std::cell::RefCell::new(vec![]);
    let calls = std::cell::Cell::new(0);
    let bad = std::cell::Cell::new(None); // the fault that happened, not yet reported
    let f = |i: usize, n: usize| {
        let a = answer(i, n);
        match a {
            WAns::Fail(k) if k != ErrorKind::Interrupted => bad.set(Some(k)),
            WAns::Zero if n > 0 => bad.set(Some(ErrorKind::WriteZero)),
            _ => {}
        }
        a
    };
    let w = ScriptW { out: &out, calls: &calls, f: &f };
    let verdict_of = |r: Result<(), EncodingError>, what: &str| -> Result<bool, String> {
        let o = out.borrow();
        if o.len() > want.len() || o[..] != want[..o.len()] { return Err(format!("{what}: {}", drive::diff("what reached the writer", &o, &want[..o.len().min(want.len())]))); }
        match (bad.take(), r) {
            (None, Ok(())) => Ok(true),
            (Some(k), Err(EncodingError::Io(e))) if e.kind() == k => Ok(false),
            (Some(k), r) => Err(format!("{what}: the writer failed with {k:?} and the call gave {r:?}")),
            (None, Err(e)) => Err(format!("{what}: failed with {e:?} although the writer did not")),
        }
    };
    let done = |ok: bool| -> Res {
        c.obs(&(out.borrow().len(), calls.get()));
        c.outcome(if ok { "complete" } else { "failed call" });
        if ok && out.borrow()[..] != *want { return Err(drive::diff("the file", &out.borrow(), want)); }
        Ok(())
    };
    let mut e = match Encoder::new(w, s.w, s.h, &s.gpal) {
        Ok(e) => { verdict_of(Ok(()), "new")?; e }
        Err(x) => { verdict_of(Err(x), "new")?; return done(false); }
    };
    for (i, op) in ops.iter().enumerate() {
        if !verdict_of(apply(&mut e, op), &format!("call {i}"))? { return { std::mem::forget(e); done(false) }; }
    }
    if into {
        match e.into_inner() {
            Ok(_) => { verdict_of(Ok(()), "into_inner")?; done(true) }
            Err(x) => { verdict_of(Err(x.into()), "into_inner")?; done(false) }
        }
    } else {
        let r = catch(move || drop(e));
        if r.is_err() && cfg!(feature = "raii") { return Err("drop panics".into()); }
        let failed = bad.take().is_some();
        let o = out.borrow().len();
        if failed && o != want.len() - 1 { return Err("a trailer was written although the writer failed".into()); }
        done(!failed)
    }
}

fn fault_lists() -> &'static [(Screen, Vec<Op>)] {
    static S: OnceLock<Vec<(Screen, Vec<Op>)>> = OnceLock::new();
    S.get_or_init(|| {
        let g = good_ops();
        let p = |k: usize, ids: &[usize]| (screen(k), ids.iter().map(|&i| g[i].clone()).collect::<Vec<_>>());
        let mut v = vec![p(0, &[]), p(1, &[0]), p(0, &[4, 1]), p(2, &[2, 6, 0]), p(1, &[3]), p(0, &[12, 7, 8]), p(1, &[9, 11, 13, 5]), p(2, &[14, 10])];
        v.push((screen(0), vec![Op::Direct(pat(255, 3, 8, 1)), Op::Raw(0xFE, vec![vec![1; 600]])]));
        v
    })
}

fn c19(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    // every single write call gets every answer
    v.push(Exploration::new("faults", "9 lists of calls, finished by drop or into_inner: up to 1 (thorough 2) write calls accept part of the data (1, half, all but one byte), are interrupted, accept nothing or fail with one of 4 kinds, at every place", |c| {
        let (s, ops) = c.pick(fault_lists());
        let into = c.flag();
        faulty_case(c, s, ops, into)
    }).dev(t.sel(1, 2)));
    v.push(Exploration::new("two-faults", "the 5 shortest lists of calls: up to 2 (thorough 3) such deviations at every combination of places", |c| {
        let (s, ops) = c.pick(&fault_lists()[..4]);
        let into = c.flag();
        faulty_case(c, s, ops, into)
    }).dev(t.sel(2, 3)));
    v.push(Exploration::new("chunked", "every list of 0 to 2 (thorough 3) calls out of 16 on a writer that accepts at most k bytes per call (k = 1..9, 254..256), each call interrupted first or not, finished by drop or into_inner", move |c| {
        let s = screen(c.choose(3));
        let n = c.range(0, t.sel(2, 3));
        let ops: Vec<Op> = (0..n).map(|_| op_for(c, &s, good_ops().len())).collect();
        let k = c.of(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 254, 255, 256]);
        let intr = c.flag();
        note(c, &s, &ops);
        c.note("writer", || format!("{k} bytes per call, interrupted {intr}"));
        let want = encode(&s, &ops)?;
        c.evaluated(1);
        c.nontrivial(&(hash_of(&want), k, intr));
        c19_run(c, &s, &ops, &want, c.flag(), &|i, _| if intr && i % 2 == 0 { WAns::Fail(ErrorKind::Interrupted) } else { WAns::Part(k) })
    }));
    v.push(Exploration::new("interrupted-in-a-row", "9 lists of calls and 4 single frames, direct and pre-encoded, finished by drop or into_inner: every write call interrupted 1, 2, 3, 9, 10, 17 or 100 times in a row, or one (every one) 10, 100 or 1000 times, the writer accepting 1, 8 or all bytes", |c| {
        let (s, ops) = c.pick(fault_lists());
        note(c, s, ops);
        let k = c.of(&[usize::MAX, 8, 1]);
        let want = encode(s, ops)?;
        let single = c.flag();
        let (r, at) = if single { (c.of(&[10usize, 100, 1000]), c.choose(if k == usize::MAX { 24 } else { want.len() / k + 2 })) } else { (c.of(&[1usize, 2, 3, 9, 10, 17, 100]), 0) };
        c.note("writer", || format!("{r} interruptions in a row before {} of {k} bytes", if single { format!("answer {at}") } else { "every answer".into() }));
        let (left, answers) = (std::cell::Cell::new(r), std::cell::Cell::new(0usize));
        c.evaluated(1);
        c.nontrivial(&(hash_of(&want), k, r, at, single));
        c19_run(c, s, ops, &want, c.flag(), &|_, _| {
            if left.get() > 0 && (!single || answers.get() == at) { left.set(left.get() - 1); return WAns::Fail(ErrorKind::Interrupted); }
            answers.set(answers.get() + 1);
            left.set(if single && answers.get() > at { 0 } else { r });
            if k == usize::MAX { WAns::All } else { WAns::Part(k) }
        })
    }));
    v.push(Exploration::new("one-fault-any-list", "every list of 1 to 2 (thorough 3) calls out of 16: one write call fails, accepts nothing or one byte, or is interrupted, at every place", move |c| {
        let s = screen(c.choose(3));
        let n = c.range(1, t.sel(2, 3));
        let ops: Vec<Op> = (0..n).map(|_| op_for(c, &s, good_ops().len())).collect();
        let into = c.flag();
        faulty_case(c, &s, &ops, into)
    }).dev(1));
    v.push(Exploration::new("kinds", "9 lists of calls, finished by drop or into_inner: one write call fails with each of the 36 kinds of error, at every place", |c| {
        let (s, ops) = c.pick(fault_lists());
        let into = c.flag();
        faulty_kinds(c, s, ops, into, &drive::ALL_KINDS)
    }).dev(1));
    v.push(Exploration::new("pool", "each of a pool of 144 frames and a raw extension, direct and pre-encoded, finished by drop or into_inner: one write call fails, accepts nothing or one byte, or is interrupted, at every place", |c| {
        let f = c.pick(frame_pool()).clone();
        let into = c.flag();
        let f = if c.flag() { Op::Pre(f) } else { Op::Direct(f) };
        faulty_case(c, &screen(0), &[f, Op::Raw(0xFE, vec![vec![7; 300]])], into)
    }).dev(1));
    v.push(Exploration::new("large", "a frame of 25 600 pixels (over 100 sub-blocks), direct and pre-encoded: one write call fails, accepts nothing or one byte, or is interrupted, at every place", |c| {
        let f = pat(160, 160, 8, 1);
        let f = if c.flag() { Op::Pre(f) } else { Op::Direct(f) };
        faulty_case(c, &screen(0), &[f], true)
    }).dev(1));
    v.push(Exploration::new("counts", &format!("{COUNTED_OPS}: a writer that accepts 300 (files of up to 1 MB: 1, 7 or 300) bytes per call, or fails, accepts nothing or part or is interrupted once in the middle, at three quarters or at the end"), move |c| {
        let (k, ops) = pick_count_ops(c);
        let s = screen(0);
        note(c, &s, &ops);
        let want = encode(&s, &ops)?;
        c.evaluated(1);
        if c.flag() {
            let p = [7usize, 300, 1][k % 3];
            if p < 300 && want.len() > 1 << 20 { return Ok(()); }
            c.nontrivial(&(hash_of(&want), p));
            return c19_run(c, &s, &ops, &want, k % 2 == 0, &|_, _| WAns::Part(p));
        }
        let n = std::cell::Cell::new(0);
        c19_run(c, &s, &ops, &want, true, &|i, _| { n.set(i); WAns::All })?;
        let at = n.get() * c.of(&[2usize, 3, 4]) / 4;
        let a = [WAns::Part(1), WAns::Zero, WAns::Fail(ErrorKind::Interrupted), WAns::Fail(ErrorKind::BrokenPipe)][(k + at) % 4];
        c.nontrivial(&(hash_of(&want), at, format!("{a:?}")));
        c.note("fault", || format!("{a:?} at write call {at}"));
        c19_run(c, &s, &ops, &want, k % 2 == 0, &|i, _| if i == at { a } else { WAns::All })
    }).cpu(60.0));
    v
}
fn faulty_case(c: &Ctx, s: &Screen, ops: &[Op], into: bool) -> Res { faulty_kinds(c, s, ops, into, &FAULTS) }
fn faulty_kinds(c: &Ctx, s: &Screen, ops: &[Op], into: bool, kinds: &[ErrorKind]) -> Res {
    note(c, s, ops);
    let want = encode(s, ops)?;
    let log = std::cell::RefCell::new(vec![]);
    c.evaluated(1);
    let r = c19_run(c, s, ops, &want, into, &|i, n| {
        let a = match c.deviate(6 + kinds.len()) {
            0 => return WAns::All,
            1 => WAns::Part(1),
            2 => WAns::Part((n / 2).max(1)),
            3 => WAns::Part(n.saturating_sub(1).max(1)),
            4 => WAns::Fail(ErrorKind::Interrupted),
            5 => WAns::Zero,
            k => WAns::Fail(kinds[k - 6]),
        };
        log.borrow_mut().push((i, n, a));
        a
    });
    c.note("writer", || format!("(call, offered, answer): {:?}", log.borrow()));
    if !log.borrow().is_empty() { c.nontrivial(&(hash_of(&want), into, format!("{:?}", log.borrow()))); }
    r
}

// ---------------------------------------------------------------- C20

/// A writer that knows who it is.
struct Tagged<'a>(ScriptW<'a>, u32);
impl Write for Tagged<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn bad_ops() -> &'static [Op] {
    static S: OnceLock<Vec<Op>> = OnceLock::new();
    S.get_or_init(|| vec![
        Op::Direct(Frame { palette: Some(pal(2, 1)), ..frame(3, 3, vec![0; 8]) }),
        Op::Direct(Frame { palette: Some(vec![7; 257 * 3]), ..pat(2, 2, 2, 1) }),
        Op::PreAsIs(Frame { palette: Some(pal(2, 1)), ..frame(2, 2, vec![1, 0x44, 1]) }),
        Op::Pre(Frame { palette: Some(vec![7; 300 * 3]), ..pat(2, 2, 2, 1) }),
    ])
}

fn c20_run(c: &Ctx, s: &Screen, ops: &[Op], finish: usize, sticky: bool) -> Res { c20_kinds(c, s, ops, finish, sticky, &[ErrorKind::Other, ErrorKind::BrokenPipe]) }
fn c20_kinds(c: &Ctx, s: &Screen, ops: &[Op], finish: usize, sticky: bool, kinds: &[ErrorKind]) -> Res {
    note(c, s, ops);
    let out = std::cell::RefCell::new(vec![]);
    let calls = std::cell::Cell::new(0);
    let dead = std::cell::Cell::new(None);
    let last_fault = std::cell::Cell::new(None);
    let f = |_: usize, n: usize| {
        if let Some(k) = dead.get() { last_fault.set(Some(k)); return WAns::Fail(k); }
        let a = match c.deviate(4 + kinds.len()) {
            0 => return WAns::All,
            1 => return WAns::Part(n / 2 + 1),
            2 => WAns::Fail(ErrorKind::Interrupted),
            3 => WAns::Zero,
            k => WAns::Fail(kinds[k - 4]),
        };
        let k = match a { WAns::Fail(k) => k, _ => ErrorKind::WriteZero };
        if k != ErrorKind::Interrupted { last_fault.set(Some(k)); if sticky { dead.set(Some(k)); } }
        a
    };
    let w = Tagged(ScriptW { out: &out, calls: &calls, f: &f }, 77);
    let e = Encoder::new(w, s.w, s.h, &s.gpal);
    let new_fault = last_fault.take();
    let too_many = s.gpal.len() / 3 > 256;
    c.obs(&(out.borrow().len(), new_fault.is_some()));
    let mut e = match e {
        Err(x) => {
            let n = (out.borrow().len(), calls.get());
            match (verdict(&Err::<(), _>(x))?, new_fault) {
                (Verdict::Io(k), Some(f)) if k.0 == f => {}
                (Verdict::TooManyColors, None) if too_many => {}
                (v, f) => return Err(format!("Encoder::new gives {v:?}, writer fault {f:?}")),
            }
            if too_many && n.0 > 0 { return Err(format!("{} bytes written for a refused file", n.0)); }
            if out.borrow().last() == Some(&0x3B) && out.borrow().len() > 13 && out.borrow().len() != 13 + 3 * padded(&s.gpal).len() / 3 { return Err("a failed construction left a trailer".into()); }
            // nothing may be written when the failed attempt is gone; the bytes are a prefix of a header
            let full = encode(&Screen { gpal: if too_many { vec![] } else { s.gpal.clone() }, ..s.clone() }, &[])?;
            let o = out.borrow();
            if o.len() >= full.len() || o[..] != full[..o.len()] { return Err(format!("failed construction left {}", hex(&o))); }
            c.outcome("not constructed");
            return Ok(());
        }
        Ok(e) => { if new_fault.is_some() || too_many { return Err(format!("Encoder::new succeeds, writer fault {new_fault:?}, {} colours", s.gpal.len() / 3)); } e }
    };
    for op in ops {
        let r = apply(&mut e, op);
        let v = verdict(&r)?;
        match last_fault.take() {
            Some(k) if v != Verdict::Io(drive::ErrKind(k)) => return Err(format!("the writer failed with {k:?} and {} gave {v:?}", brief(op))),
            None if !allowed(op, s.gpal.len() >= 3).contains(&v) => return Err(format!("{} gave {v:?}", brief(op))),
            _ => {}
        }
    }
    let before = out.borrow().clone();
    let n_before = calls.get();
    if e.get_ref().1 != 77 || e.get_mut().1 != 77 { return Err("another writer".into()); }
    let failed = match finish {
        0 => {
            // without raii_no_panic, a failing drop panics on purpose
            let r = catch(move || drop(e));
            if cfg!(feature = "raii") { r.map_err(|m| format!("dropping the encoder panics: {m}"))?; }
            else if r.is_err() && last_fault.get().is_none() { return Err("dropping the encoder panics".into()); }
            last_fault.get().is_some()
        }
        1 => match e.into_inner() {
            Ok(w) => { if w.1 != 77 { return Err("another writer came back".into()); } if last_fault.get().is_some() { return Err("into_inner hides a failure".into()); } false }
            Err(x) => match last_fault.get() { Some(k) if k == x.kind() => true, f => return Err(format!("into_inner gives {x:?}, writer fault {f:?}")) },
        },
        _ => {
            // dropped during unwinding
            let r = catch(move || { let _e = e; if true { panic!("unwinding"); } });
            if !r.map_or_else(|m| m.contains("unwinding"), |_| false) { return Err("a panic while dropping".into()); }
            last_fault.get().is_some()
        }
    };
    let o = out.borrow();
    let mut want = before;
    if !failed { want.push(0x3B); }
    if *o != want { return Err(format!("finishing appended {} (failed: {failed})", hex(&o[want.len().min(o.len()) - usize::from(!failed)..]))); }
    if failed && !sticky && calls.get() > n_before + 2 { return Err("the trailer was tried again after a failure".into()); }
    if failed && calls.get() > n_before + 2 { return Err("the trailer was tried again after a failure".into()); }
    c.obs(&(o.len(), failed));
    c.outcome(if failed { "finishing failed" } else { "finished" });
    c.validated(1);
    Ok(())
}

fn c20(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    let screens = || -> &'static [Screen] { static S: OnceLock<Vec<Screen>> = OnceLock::new(); S.get_or_init(|| vec![screen(0), screen(1), screen(2), Screen { w: 1, h: 1, gpal: vec![1; 257 * 3] }, Screen { w: 1, h: 1, gpal: pal(256, 1) }]) };
    // unwinding through a failing drop aborts without raii_no_panic
    let finishes = if cfg!(feature = "raii") { 3 } else { 2 };
    v.push(Exploration::new("histories", "every list of 0 to 2 (thorough 3) calls out of 16 accepted and 4 refused ones on 5 screens (one refused), finished by drop, into_inner or unwinding; up to one write call misbehaves (5 ways) at every place, once or from then on", move |c| {
        let s = c.pick(screens());
        let n = c.range(0, t.sel(2, 3));
        let g = good_ops();
        let ops: Vec<Op> = (0..n).map(|_| { let k = c.choose(g.len() + 4); if k < g.len() { g[k].clone() } else { bad_ops()[k - g.len()].clone() } }).collect();
        let fin = c.choose(finishes);
        let sticky = c.flag();
        c.note("finish", || format!("{fin} sticky {sticky}"));
        c20_run(c, s, &ops, fin, sticky)
    }).dev(1));
    v.push(Exploration::new("two-faults", "the same with lists of 0 to 1 (thorough 2) calls out of 8 and up to two misbehaving write calls", move |c| {
        let s = c.pick(&screens()[..3]);
        let n = c.range(0, t.sel(1, 2));
        let g = good_ops();
        let ops: Vec<Op> = (0..n).map(|_| { let k = c.choose(8); if k < 6 { g[[0, 2, 4, 8, 12, 13][k]].clone() } else { bad_ops()[k - 6].clone() } }).collect();
        let fin = c.choose(finishes);
        c20_run(c, s, &ops, fin, false)
    }).dev(2));
    v.push(Exploration::new("kinds", "no call, a frame, a comment on 3 screens, finished in every way: one write call fails with each of the 36 kinds of error, at every place, once or from then on", move |c| {
        let s = c.pick(&screens()[..3]);
        let ops = match c.choose(3) { 0 => vec![], 1 => vec![good_ops()[0].clone()], _ => vec![good_ops()[7].clone()] };
        let fin = c.choose(finishes);
        let sticky = c.flag();
        c.note("finish", || format!("{fin} sticky {sticky}"));
        c20_kinds(c, s, &ops, fin, sticky, &drive::ALL_KINDS)
    }).dev(1));
    v.push(Exploration::new("long", "lists of 3 to 5 (thorough 6) calls out of 6 without writer faults", move |c| {
        let s = c.pick(&screens()[..2]);
        let n = c.range(3, t.sel(5, 6));
        let g = good_ops();
        let ops: Vec<Op> = (0..n).map(|_| { let k = c.choose(6); if k < 4 { g[[0, 2, 4, 12][k]].clone() } else { bad_ops()[k - 4].clone() } }).collect();
        let fin = c.choose(finishes);
        c20_run(c, s, &ops, fin, false)
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED_OPS}: finished by drop or into_inner"), |c| {
        let (k, ops) = pick_count_ops(c);
        c20_run(c, &screen(0), &ops, c.choose(2), k % 2 == 0)
    }).cpu(60.0));
    v
}

// ---------------------------------------------------------------- C21

/// Makes all calls; every verdict must be an allowed one, refused calls must write nothing, and the file must be the one without them.
fn c21_run(c: &Ctx, s: &Screen, ops: &[Op], into: bool) -> Res {
    note(c, s, ops);
    let mut kept = vec![];
    let out = std::cell::RefCell::new(vec![]);
    let calls = std::cell::Cell::new(0);
    let all = |_: usize, _: usize| WAns::All;
    {
        let mut e = Encoder::new(ScriptW { out: &out, calls: &calls, f: &all }, s.w, s.h, &s.gpal).map_err(|e| err("new", e))?;
        for (i, op) in ops.iter().enumerate() {
            let n = (out.borrow().len(), calls.get());
            let r = apply(&mut e, op);
            let v = verdict(&r)?;
            let al = allowed(op, s.gpal.len() >= 3);
            if !al.contains(&v) { return Err(format!("call {i}, {}: {v:?} instead of {al:?}", brief(op))); }
            if v == Verdict::Ok { kept.push(op.clone()); }
            else if out.borrow().len() != n.0 { return Err(format!("call {i}, {}, was refused but wrote {}", brief(op), hex(&out.borrow()[n.0..]))); }
            c.outcome(&format!("{v:?}"));
            c.obs(&v);
        }
        if into { e.into_inner().map_err(|e| err("into_inner", e))?; }
    }
    let want = encode(s, &kept)?;
    c.validated(1);
    c.steps(ops.len() as u64);
    if *out.borrow() != want { return Err(drive::diff("the finished file", &out.borrow(), &want)); }
    Ok(())
}
fn c21(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    fn pool() -> &'static [Op] {
        static S: OnceLock<Vec<Op>> = OnceLock::new();
        S.get_or_init(|| {
            let mut v = bad_ops().to_vec();
            v.push(Op::Direct(Frame { delay: 4, transparent: Some(1), ..pat(2, 2, 2, 6) })); // global palette needed
            v.push(Op::Pre(pat(2, 2, 2, 6)));
            v.push(Op::Direct(frame(2, 2, vec![0; 3])));
            v.push(Op::PreAsIs(Frame { palette: Some(vec![7; 257 * 3]), ..frame(2, 2, vec![12]) }));
            v.push(Op::PreAsIs(Frame { palette: Some(pal(2, 1)), ..frame(2, 2, vec![]) }));
            v.push(Op::Direct(Frame { palette: Some(vec![7; 256 * 3 + 2]), ..pat(2, 2, 2, 1) }));
            for i in [0, 2, 4, 7, 3] { v.push(good_ops()[i].clone()); }
            v
        })
    }
    v.push(Exploration::new("histories", "every list of 1 to 3 (thorough 4) calls out of 15 (10 on the edge of being refused, 5 harmless) on 3 screens, finished by drop or into_inner", move |c| {
        let s = screen(c.choose(3));
        let n = c.range(1, t.sel(3, 4));
        let ops: Vec<Op> = (0..n).map(|_| c.pick(pool()).clone()).collect();
        c21_run(c, &s, &ops, c.flag())
    }));
    v.push(Exploration::new("palette-lengths", "local palettes of every length 0 to 800 bytes (and 65535, 65536, 65538, 196608), with and without global palette, direct and pre-encoded, with a following frame", |c| {
        let k = c.choose(805);
        let n = if k <= 800 { k } else { [65535, 65536, 65538, 196608][k - 801] };
        let f = Frame { palette: Some(vec![5; n]), ..pat(2, 2, 2, 1) };
        let s = screen(c.choose(2));
        let after = good_ops()[0].clone();
        c21_run(c, &s, &[if c.flag() { Op::Direct(f) } else { Op::Pre(f) }, after], false)
    }));
    v.push(Exploration::new("global-palettes", "global palettes of every length 0 to 800 bytes and 4 large ones: refused exactly beyond 256 colours, and a frame without palette is then accepted exactly if there is a colour", |c| {
        let k = c.choose(805);
        let n = if k <= 800 { k } else { [65535, 65536, 65538, 196608][k - 801] };
        let s = Screen { w: 2, h: 2, gpal: vec![3; n] };
        let mut out = vec![];
        let r = Encoder::new(&mut out, 2, 2, &s.gpal).map(|_| ());
        let v = verdict(&r)?;
        c.obs(&v);
        c.outcome(&format!("{v:?}"));
        if n / 3 > 256 {
            if v != Verdict::TooManyColors { return Err(format!("{} colours: {v:?}", n / 3)); }
            if !out.is_empty() { return Err(format!("wrote {}", hex(&out))); }
            return Ok(());
        }
        if v != Verdict::Ok { return Err(format!("{} colours: {v:?}", n / 3)); }
        c21_run(c, &s, &[Op::Direct(pat(2, 2, 2, 1)), good_ops()[0].clone(), Op::Pre(pat(2, 2, 2, 1))], false)
    }));
    v.push(Exploration::new("buffer-lengths", "20 frame sizes up to 65535x65535 x buffers shorter by 1, 2 or a row, empty, exact, or longer; with and without palette", |c| {
        let (w, h) = c.of(&[(0u16, 0u16), (0, 5), (5, 0), (1, 1), (2, 1), (1, 2), (3, 3), (16, 16), (255, 1), (256, 1), (257, 3), (256, 256), (65535, 1), (1, 65535), (65535, 2), (2, 65535), (300, 300), (65535, 65535), (32768, 2), (65535, 0)]);
        let n = w as usize * h as usize;
        let k = c.choose(7);
        let len = match k { 0 => 0, 1 => n.saturating_sub(1), 2 => n.saturating_sub(2), 3 => n.saturating_sub(w as usize), 4 => n, 5 => n + 1, _ => n & 0xFFFF };
        // buffers of several gigabytes are out of reach, and pixels of frames without pixels are a misuse
        if len > 200_000 || (n == 0 && len > 0) { return Ok(()); }
        let f = Frame { palette: c.flag().then(|| pal(2, 1)), ..frame(w, h, vec![1; len]) };
        let s = screen(c.choose(2));
        c21_run(c, &s, &[Op::Direct(f), good_ops()[0].clone()], false)
    }));
    v.push(Exploration::new("code-sizes", "pre-encoded data starting with every byte value, of length 1, 2 and 300, with palette, without, with too large a palette, with and without global palette, first or later in the file", |c| {
        let b = c.choose(256) as u8;
        let mut d = vec![b];
        d.resize(c.of(&[1, 2, 300]), 0x55);
        let f = Frame { palette: [Some(pal(4, 1)), None, Some(vec![1; 771])][c.choose(3)].clone(), ..frame(2, 2, d) };
        let s = screen(c.choose(2));
        let g = good_ops()[1].clone();
        let ops = if c.flag() { vec![Op::PreAsIs(f), g] } else { vec![g.clone(), Op::PreAsIs(f), g] };
        c21_run(c, &s, &ops, false)
    }));
    v.push(Exploration::new("reasons", "every combination of buffer (short, exact, long), palette (none, empty, 1, 256, 257 colours), global palette or not, direct or pre-encoded or as is with code size 1, 2, 11, 12 or no data, zero-area or not, twice in a row in any combination", move |c| {
        let s = screen(c.choose(2));
        let n = t.sel(1, 2);
        let mut ops = vec![];
        for _ in 0..n {
            let p = [None, Some(vec![]), Some(pal(1, 1)), Some(pal(256, 1)), Some(vec![1; 771])][c.choose(5)].clone();
            let (w, h) = c.of(&[(2u16, 2u16), (0, 2), (3, 1)]);
            let n = w as usize * h as usize;
            let k = c.choose(9);
            let mut f = Frame { palette: p, delay: 9, ..frame(w, h, vec![1; match k { 0 => n.saturating_sub(1), 2 if n > 0 => n + 1, _ => n }]) };
            ops.push(match k {
                0..=2 => Op::Direct(f),
                3 => Op::Pre(f),
                _ => { f.buffer = Cow::Owned([vec![1, 9], vec![2, 9], vec![11, 9], vec![12, 9], vec![]][k - 4].clone()); Op::PreAsIs(f) }
            });
        }
        ops.push(good_ops()[2].clone());
        c21_run(c, &s, &ops, c.flag())
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED_OPS}: then calls that are refused between accepted ones"), move |c| {
        let (k, mut ops) = pick_count_ops(c);
        let at = if c.flag() { ops.len() } else { ops.len() - 2 };
        for x in pool().iter().skip(c.choose(5) * 3).take(3) { ops.insert(at, x.clone()); }
        c21_run(c, &screen(k % 2), &ops, k % 3 == 0)
    }).cpu(60.0));
    v.push(Exploration::new("refusal-counts", "one of 10 refused calls made 2^k - 1, 2^k and 2^k + 1 times for k = 8 to 16, then frames", |c| {
        let n = count_of(c.choose(COUNT_NS));
        let x = c.pick(&pool()[..10]).clone();
        let mut ops = vec![x; n];
        ops.push(good_ops()[0].clone());
        ops.push(good_ops()[2].clone());
        c21_run(c, &screen(c.choose(2)), &ops, n % 2 == 0)
    }).cpu(60.0));
    v.push(Exploration::new("held", &format!("frames of 6 sizes with 2, 1 or 0 pixels too few, just enough or 1 too many, palettes of none, 2, 256, 257 colours, {}, direct or as pre-encoded with code sizes 1, 2, 11, 12, with and without global palette", super::HELD), |c| {
        let (w, h) = c.of(&[(1u16, 1u16), (2, 1), (3, 4), (16, 16), (1, 255), (257, 1)]);
        let n = w as usize * h as usize;
        let len = match c.choose(5) { 0 => n.saturating_sub(2), 1 => n - 1, 4 => n + 1, 3 => 0, _ => n };
        let p = c.of(&[None, Some(2usize), Some(256), Some(257)]);
        let pre = c.of(&[None, Some(1u8), Some(2), Some(11), Some(12)]);
        let how = c.choose(5);
        let s = screen(c.choose(2));
        let mut b = pattern(len, 1, 3);
        if let Some(m) = pre { b.insert(0, m); }
        let f = Frame { palette: p.map(|p| vec![9; p * 3]), ..frame(w, h, b) };
        let op = if pre.is_some() { Op::PreAsIs(f.clone()) } else { Op::Direct(f.clone()) };
        note(c, &s, &[op.clone()]);
        c.note("held", || how.to_string());
        let mut out = vec![];
        let v = {
            let mut e = Encoder::new(&mut out, s.w, s.h, &s.gpal).map_err(|e| err("new", e))?;
            let mut room = vec![];
            let x = super::held(&f, how, &mut room);
            verdict(&if pre.is_some() { e.write_lzw_pre_encoded_frame(&x) } else { e.write_frame(&x) })?
        };
        let al = allowed(&op, s.gpal.len() >= 3);
        c.outcome(&format!("{v:?}"));
        c.obs(&out);
        c.validated(1);
        if !al.contains(&v) { return Err(format!("{v:?} instead of {al:?}")); }
        let want = encode(&s, if v == Verdict::Ok { std::slice::from_ref(&op) } else { &[] })?;
        if out != want { return Err(drive::diff("the file", &out, &want)); }
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- C22

fn perm(c: &Ctx, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    while !left.is_empty() { v.push(left.remove(c.choose(left.len()))); }
    v
}
/// Compresses the frames in this order (each perhaps twice) and compares the files.
fn c22_run(c: &Ctx, s: &Screen, frames: &[Frame<'static>], order: &[usize], mixed: &[bool]) -> Res {
    c.note("frames", || frames.iter().map(|f| brief(&Op::Direct(f.clone()))).collect::<Vec<_>>().join("; "));
    c.note("compressed in order", || format!("{order:?}, pre-encoded {mixed:?}"));
    let want = encode(s, &frames.iter().cloned().map(Op::Direct).collect::<Vec<_>>())?;
    let mut pre: Vec<Option<Frame<'static>>> = vec![None; frames.len()];
    for &i in order {
        let mut f = frames[i].clone();
        f.make_lzw_pre_encoded();
        let mut a = f.clone();
        a.buffer = frames[i].buffer.clone();
        if (drive::meta_of(&a), &a.buffer) != (drive::meta_of(&frames[i]), &frames[i].buffer) { return Err("compressing changed the frame's fields".into()); }
        if let Some(old) = &pre[i] { if old.buffer != f.buffer { return Err("compressing again gives other data".into()); } }
        pre[i] = Some(f);
    }
    let ops: Vec<Op> = (0..frames.len()).map(|i| if mixed[i % mixed.len()] { Op::PreAsIs(pre[i].clone().unwrap_or_else(|| { let mut f = frames[i].clone(); f.make_lzw_pre_encoded(); f })) } else { Op::Direct(frames[i].clone()) }).collect();
    let got = encode(s, &ops)?;
    c.obs(&got);
    c.validated(1);
    c.steps(frames.len() as u64 * 2);
    if got != want { return Err(drive::diff("the file with pre-encoded frames", &got, &want)); }
    // a frame's compressed data depends on its pixels only
    for (i, f) in pre.iter().enumerate() {
        let Some(f) = f else { continue };
        let mut g = frame(1, 1, frames[i].buffer.to_vec());
        g.make_lzw_pre_encoded();
        if g.buffer != f.buffer { return Err(format!("compressed data of frame {i} depends on more than its pixels")); }
    }
    Ok(())
}
fn c22(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    fn pool() -> &'static [Frame<'static>] {
        static S: OnceLock<Vec<Frame<'static>>> = OnceLock::new();
        S.get_or_init(|| {
            let mut v: Vec<Frame<'static>> = good_ops().iter().filter_map(|o| match o { Op::Direct(f) => Some(f.clone()), _ => None }).collect();
            v.push(Frame { palette: Some(pal(2, 1)), ..frame(6000, 1, vec![1; 6000]) });
            v.push(Frame { palette: Some(pal(2, 1)), interlaced: true, ..pat(90, 70, 8, 1) });
            v.push(Frame { palette: Some(pal(2, 1)), transparent: Some(0), ..frame(4, 1, vec![127, 0, 0, 128]) });
            v
        })
    }
    v.push(Exploration::new("orders", "every list of 1 to 3 (thorough 4) frames out of 8, compressed in every order, each frame pre-encoded or not in every combination", move |c| {
        let n = c.range(1, t.sel(3, 4));
        let fr: Vec<_> = (0..n).map(|_| c.pick(pool()).clone()).collect();
        let order = perm(c, n);
        let mixed: Vec<bool> = (0..n).map(|_| !c.flag()).collect();
        c22_run(c, &screen(1), &fr, &order, &mixed)
    }));
    v.push(Exploration::new("again", "every sequence of up to 4 (thorough 5) compressions of 3 frames out of 8, with repetitions, in front of writing them", move |c| {
        let a = c.choose(8);
        let fr: Vec<_> = [a, (a + 1) % 8, (a + 3) % 8].iter().map(|&i| pool()[i].clone()).collect();
        let n = c.range(0, t.sel(4, 5));
        let order: Vec<usize> = (0..n).map(|_| c.choose(3)).collect();
        c22_run(c, &screen(1), &fr, &order, &[true])
    }));
    v.push(Exploration::new("pixels", "every buffer of 0 to 8 (thorough 10) pixels over {0, 1, 4} and of 0 to 5 over {0, 3, 127, 128, 255}", move |c| {
        let al: &[u8] = if c.flag() { &[0, 1, 4] } else { &[0, 3, 127, 128, 255] };
        let n = c.range(0, if al.len() == 3 { t.sel(8, 10) } else { 5 });
        let b: Vec<u8> = (0..n).map(|_| c.of(al)).collect();
        c22_run(c, &screen(0), &[frame(n as u16, 1, b), pat(3, 3, 2, 1)], &[1, 0], &[true, true])
    }));
    v.push(Exploration::new("maxima", "every largest index 0 to 255 at the first, last and a middle pixel, x lengths 1, 2, 254..258 and 5000", move |c| {
        let m = c.choose(256) as u8;
        let n = c.of(&[1usize, 2, 254, 255, 256, 257, 258, 5000]);
        let mut b = vec![0; n];
        b[match c.choose(3) { 0 => 0, 1 => n - 1, _ => n / 2 }] = m;
        c22_run(c, &screen(0), &[frame(n as u16, 1, b)], &[0], &[true])
    }));
    v.push(Exploration::new("lengths", "every length 0 to 1500 (thorough 6000) of 4 patterns with 1 to 8 bits", move |c| {
        let n = c.choose(t.sel(1501, 6001));
        let bits = c.range(1, 8) as u8;
        let m = (1usize << bits) - 1;
        let b: Vec<u8> = match c.choose(4) { 0 => vec![m as u8; n], 1 => (0..n).map(|i| if i % 3 == 0 { 0 } else { m as u8 }).collect(), 2 => (0..n).map(|i| (i & m) as u8).collect(), _ => pattern(n, bits, 3) };
        c22_run(c, &screen(0), &[frame(n as u16, 1, b)], &[0], &[true])
    }));
    v.push(Exploration::new("surplus", "buffers 1 to 300 pixels longer than the frame (5 shapes), the surplus with the same or a larger index, alone or in front of another frame", |c| {
        let (w, h) = c.of(&[(1u16, 1u16), (2, 1), (3, 4), (16, 16), (1000, 1)]);
        let extra = c.range(1, 300);
        let k = c.of(&[0u8, 3, 4, 200, 255]);
        let mut f = pat(w, h, 2, 1);
        f.buffer.to_mut().extend((0..extra).map(|_| k));
        f.palette = Some(pal(2, 1));
        let fr = if c.flag() { vec![f] } else { vec![f, pat(3, 3, 2, 1)] };
        let order: Vec<usize> = (0..fr.len()).collect();
        c22_run(c, &screen(0), &fr, &order, &[true, false])
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 frames, compressed in both orders, both or one of them pre-encoded", |c| {
        let p = frame_pool();
        let f = [c.pick(p).clone(), c.pick(p).clone()];
        let o = c.of(&[[0, 1], [1, 0]]);
        c22_run(c, &screen(0), &f, &o, c.of(&[&[true, true][..], &[true, false], &[false, true]]))
    }));
    v.push(Exploration::new("twins", "two images that differ in one pixel, by two pixels or two colours exchanged, in one byte of the palette, or in one field, at every place: compressed in the order first, second, first; the data denotes the pixels of the frame it was made from, and the file is as written directly", |c| {
        let t = super::pick_twin(c);
        let fr: Vec<_> = [0, 1, 0].iter().map(|&i| super::twin_frame(&t, i)).collect();
        for f in &fr {
            let mut g = f.clone();
            g.make_lzw_pre_encoded();
            let l = crate::lzw::decode(g.buffer[0], &g.buffer[1..], f.buffer.len() + 1);
            if l.pixels[..] != f.buffer[..] { return Err(drive::diff("pixels in the compressed data", &l.pixels, &f.buffer)); }
        }
        c22_run(c, &screen(0), &fr, &[0, 1, 2], &[true])
    }));
    v.push(Exploration::new("counts", "2^k - 1, 2^k and 2^k + 1 frames of 1 pixel compressed forwards or backwards, all or every other one pre-encoded, and frames of as many pixels or rows of 255 pixels, for k = 8 to 16", |c| {
        let n = count_of(c.choose(COUNT_NS));
        let (fr, order): (Vec<_>, Vec<usize>) = match c.choose(4) {
            0 => ((0..n).map(|i| frame(1, 1, vec![(i % 251) as u8])).collect(), (0..n).collect()),
            1 => ((0..n).map(|i| frame(1, 1, vec![(i % 251) as u8])).collect(), (0..n).rev().collect()),
            2 => (vec![pat(n.min(65535) as u16, 1, 8, 1), pat(n.min(65535) as u16, 1, 2, 1)], vec![1, 0]),
            _ => (vec![if n > 32768 { pat(510, n as u16 / 2, 8, 1) } else { pat(255, n as u16, 8, 1) }], vec![0]),
        };
        c22_run(c, &screen(0), &fr, &order, c.of(&[&[true][..], &[true, false]]))
    }).cpu(60.0));
    v.push(Exploration::new("held", &format!("every frame of the pool, {}: written directly or pre-encoded, by itself or behind another frame: the same file", super::HELD), |c| {
        let f = c.pick(frame_pool());
        let how = c.range(1, 4);
        let pre = c.flag();
        let g = pal(256, 1);
        c.note("frame", || format!("{} held {how} pre-encoded {pre}", brief(&Op::Direct(f.clone()))));
        let first = if c.flag() { Some(pat(30, 30, 8, 4)) } else { None };
        let mut out = [vec![], vec![]];
        for (k, o) in out.iter_mut().enumerate() {
            let mut e = Encoder::new(o, 9, 9, &g).map_err(|e| err("new", e))?;
            if let Some(f) = &first { e.write_frame(f).map_err(|e| err("first", e))?; }
            let (mut room, mut room2) = (vec![], vec![]);
            let mut x = super::held(f, if k == 0 { 0 } else { how }, &mut room);
            if pre {
                x.make_lzw_pre_encoded();
                let y = Frame { buffer: Cow::Owned(x.buffer.to_vec()), ..f.clone() };
                let y = super::held(&y, if k == 0 { 0 } else { how }, &mut room2);
                e.write_lzw_pre_encoded_frame(&y).map_err(|e| err("write", e))?;
            } else {
                e.write_frame(&x).map_err(|e| err("write", e))?;
                if x.buffer != f.buffer || x.palette != f.palette { return Err("writing changed the frame".into()); }
            }
        }
        c.obs(&out[1]);
        c.validated(1);
        if out[0] != out[1] { return Err(drive::diff("the file", &out[1], &out[0])); }
        Ok(())
    }));
    v
}
