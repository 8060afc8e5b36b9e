//! Drives the real decoder through its public API and records what a user would see.
use crate::model::{self, Meta, RGif, ROpts, Repeat, Stop};
use gif::streaming_decoder::{Decoded, FrameDataType, OutputBuffer, StreamingDecoder};
use gif::{ColorOutput, DecodeOptions, DecodingError, DisposalMethod, Frame, MemoryLimit};
use std::io::{self, ErrorKind, Read};

#[derive(Clone, Debug)]
pub struct Opts { pub rgba: bool, pub limit: Limit, pub consistency: bool, pub skip: bool, pub endcode: bool, pub unknown: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Limit { Default, Unlimited, Bytes(u64) }
pub const PLAIN: Opts = Opts { rgba: false, limit: Limit::Default, consistency: false, skip: false, endcode: false, unknown: false };
impl Opts {
    pub fn rgba(mut self) -> Self { self.rgba = true; self }
    pub fn skip(mut self) -> Self { self.skip = true; self }
    pub fn unknown(mut self) -> Self { self.unknown = true; self }
    pub fn endcode(mut self) -> Self { self.endcode = true; self }
    pub fn build(&self) -> DecodeOptions {
        let mut o = DecodeOptions::new();
        if self.rgba { o.set_color_output(ColorOutput::RGBA); }
        match self.limit {
            Limit::Default => {}
            Limit::Unlimited => o.set_memory_limit(MemoryLimit::Unlimited),
            Limit::Bytes(n) => o.set_memory_limit(MemoryLimit::Bytes(n.try_into().unwrap())),
        }
        if self.consistency { o.check_frame_consistency(true); }
        if self.skip { o.skip_frame_decoding(true); }
        if self.endcode { o.check_lzw_end_code(true); }
        if self.unknown { o.allow_unknown_blocks(true); }
        o
    }
    /// The same with other options switched on that must not make a difference to good files
    /// (bit 0 RGBA, 1 frame consistency, 2 unknown blocks, 3 end codes; /16: limit default, unlimited, 1 MB, 64 KB).
    pub fn with(&self, k: usize) -> Self {
        Opts {
            rgba: self.rgba || k & 1 != 0, consistency: self.consistency || k & 2 != 0, unknown: self.unknown || k & 4 != 0, endcode: self.endcode || k & 8 != 0, skip: self.skip,
            limit: match k / 16 { 0 => self.limit, 1 => Limit::Unlimited, 2 => Limit::Bytes(1 << 20), _ => Limit::Bytes(1 << 16) },
        }
    }
    pub fn bpp(&self) -> usize { if self.rgba { 4 } else { 1 } }
    pub fn ropts(&self) -> ROpts { ROpts { unknown: self.unknown, consistency: self.consistency } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ErrClass { Format, Io(ErrKind) }
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct ErrKind(pub ErrorKind);
impl std::hash::Hash for ErrKind { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { std::mem::discriminant(&self.0).hash(h) } }
impl std::fmt::Debug for ErrKind { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
pub fn class(e: &DecodingError) -> ErrClass {
    match e { DecodingError::Format(_) => ErrClass::Format, DecodingError::Io(e) => ErrClass::Io(ErrKind(e.kind())) }
}

pub fn dispose_u8(d: DisposalMethod) -> u8 { match d { DisposalMethod::Any => 0, DisposalMethod::Keep => 1, DisposalMethod::Background => 2, DisposalMethod::Previous => 3 } }
pub fn meta_of(f: &Frame<'_>) -> Meta {
    Meta { delay: f.delay, dispose: dispose_u8(f.dispose), transparent: f.transparent, user: f.needs_user_input, left: f.left, top: f.top, w: f.width, h: f.height, interlaced: f.interlaced, palette: f.palette.clone() }
}
pub fn repeat_of(r: gif::Repeat) -> Repeat { match r { gif::Repeat::Finite(n) => Repeat::Finite(n), gif::Repeat::Infinite => Repeat::Infinite } }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Hdr { pub w: u16, pub h: u16, pub gpal: Option<Vec<u8>>, pub bg: Option<usize>, pub repeat: Repeat }
pub fn hdr_of<R: Read>(d: &gif::Decoder<R>) -> Hdr {
    Hdr { w: d.width(), h: d.height(), gpal: d.global_palette().map(|p| p.to_vec()), bg: d.bg_color(), repeat: repeat_of(d.repeat()) }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum End { Done, Err(ErrClass) }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Obs {
    pub header: Result<Hdr, ErrClass>,
    /// metadata as announced and bytes in display order (or raw data)
    pub frames: Vec<(Meta, Vec<u8>)>,
    pub end: End,
    pub rest: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub enum Style {
    /// read_next_frame
    Next,
    /// the frame iterator
    Iter,
    /// next_frame_info, then read_into_buffer with a buffer this much larger than needed
    Into(usize),
    /// next_frame_info, then fill_buffer with these sizes (in pixels), cyclically
    Fill(Vec<usize>),
}
pub const MAX_FRAMES: usize = 300_000;

/// Decodes until the first error or the end.
pub fn decode<R: Read>(r: R, o: &Opts, style: &Style) -> Result<Obs, String> {
    let mut d = match o.build().read_info(r) {
        Ok(d) => d,
        Err(e) => { let c = class(&e); return Ok(Obs { header: Err(c), frames: vec![], end: End::Err(c), rest: None }); }
    };
    let mut obs = Obs { header: Ok(hdr_of(&d)), frames: vec![], end: End::Done, rest: None };
    if let Style::Iter = style {
        let mut it = d.into_iter();
        for x in it.by_ref() {
            match x {
                Ok(f) => obs.frames.push((meta_of(&f), f.buffer.into_owned())),
                Err(e) => { obs.end = End::Err(class(&e)); break; }
            }
            if obs.frames.len() > MAX_FRAMES { return Err("the iterator does not end".into()); }
        }
        if obs.end == End::Done { obs.rest = Some(rest(it.into_inner())); }
        return Ok(obs);
    }
    loop {
        if obs.frames.len() > MAX_FRAMES { return Err("frames do not end".into()); }
        match read_frame(&mut d, o, style)? {
            Ok(Some(f)) => obs.frames.push(f),
            Ok(None) => break,
            Err(c) => { obs.end = End::Err(c); break; }
        }
    }
    if obs.end == End::Done { obs.rest = Some(rest(d.into_inner())); }
    Ok(obs)
}

pub fn rest<R: Read>(mut r: io::BufReader<R>) -> Vec<u8> {
    let mut v = vec![];
    let _ = r.read_to_end(&mut v);
    v
}

/// What the caller's buffers hold before they are given to the decoder.
pub const STALE: u8 = 0x5A;
/// Pixels the decoder left as they were (only allowed for RGBA, where the index has no colour) become zeros, as in a fresh buffer.
pub fn settle(b: &mut [u8], rgba: bool) {
    if rgba { for x in b.chunks_exact_mut(4) { if x == [STALE; 4] { x.fill(0); } } }
}

/// Reads one frame in a style. The outer error is a broken promise of the API.
pub fn read_frame<R: Read>(d: &mut gif::Decoder<R>, o: &Opts, style: &Style) -> Result<Result<Option<(Meta, Vec<u8>)>, ErrClass>, String> {
    if o.skip || matches!(style, Style::Next | Style::Iter) {
        return Ok(match d.read_next_frame() {
            Ok(Some(f)) => Ok(Some((meta_of(f), f.buffer.to_vec()))),
            Ok(None) => Ok(None),
            Err(e) => Err(class(&e)),
        });
    }
    let mut m = match d.next_frame_info() {
        Ok(Some(f)) => meta_of(f),
        Ok(None) => return Ok(Ok(None)),
        Err(e) => return Ok(Err(class(&e))),
    };
    let (w, h, il) = (m.w as usize, m.h as usize, m.interlaced);
    let n = w * h * o.bpp();
    if d.buffer_size() != n { return Err(format!("buffer_size is {} for {w}x{h}", d.buffer_size())); }
    if d.line_length() != w * o.bpp() { return Err(format!("line_length is {} for {w}x{h}", d.line_length())); }
    m.interlaced = false;
    match style {
        Style::Into(extra) => {
            let mut buf = vec![STALE; n + extra];
            for b in &mut buf[n..] { *b = 0xA5; }
            if let Err(e) = d.read_into_buffer(&mut buf) { return Ok(Err(class(&e))); }
            if buf[n..].iter().any(|&b| b != 0xA5) { return Err("read_into_buffer wrote behind the image".into()); }
            buf.truncate(n);
            settle(&mut buf, o.rgba);
            Ok(Ok(Some((m, buf))))
        }
        Style::Fill(sizes) => {
            let mut buf = vec![STALE; n];
            let (mut p, mut i) = (0, 0);
            while p < n {
                let k = (sizes[i % sizes.len()] * o.bpp()).min(n - p);
                i += 1;
                match d.fill_buffer(&mut buf[p..p + k]) {
                    Ok(true) => p += k,
                    Ok(false) => return Ok(Err(ErrClass::Format)),
                    Err(e) => return Ok(Err(class(&e))),
                }
                if i > n + 4 * sizes.len() + 16 { return Err("harness: fill sizes make no progress".into()); }
            }
            settle(&mut buf, o.rgba);
            if il { buf = model::deinterlace(&buf, w * o.bpp(), h); }
            Ok(Ok(Some((m, buf))))
        }
        _ => unreachable!(),
    }
}

/// What the properties require for these bytes.
#[derive(Clone, Debug)]
pub struct Expect {
    pub gif: RGif,
    pub frames: Vec<(Meta, Vec<u8>)>,
    /// index of the first frame whose pixels cannot be read
    pub broken: Option<usize>,
}
pub fn expect(bytes: &[u8], o: &Opts) -> Expect {
    let gif = model::parse(bytes, &o.ropts());
    let mut frames = vec![];
    let mut broken = None;
    for (i, f) in gif.frames.iter().enumerate() {
        let mut m = f.meta.clone();
        let buf = if o.skip {
            let mut v = vec![f.mcs];
            v.extend_from_slice(&f.data);
            v
        } else {
            let Some(px) = f.pixels() else { broken = Some(i); break };
            m.interlaced = false;
            if o.rgba {
                let p = f.meta.palette.as_deref().or(gif.gpal.as_deref()).unwrap_or(&[]);
                model::rgba(&px, p, m.transparent)
            } else { px }
        };
        frames.push((m, buf));
    }
    Expect { gif, frames, broken }
}
pub fn check_header(h: &Hdr, g: &RGif) -> Result<(), String> {
    if (h.w, h.h) != (g.w, g.h) { return Err(format!("screen size {}x{} instead of {}x{}", h.w, h.h, g.w, g.h)); }
    if h.gpal != g.gpal { return Err(format!("global palette {:?} instead of {:?}", h.gpal, g.gpal)); }
    if let Some(p) = &g.gpal {
        let want = (usize::from(g.bg) < p.len() / 3).then_some(g.bg as usize);
        if h.bg != want { return Err(format!("background {:?} instead of {:?}", h.bg, want)); }
    }
    if h.repeat != g.repeat { return Err(format!("repeat {:?} instead of {:?}", h.repeat, g.repeat)); }
    Ok(())
}
/// Compares a complete decode with the reference. `partial_ok`: the stream may be cut, so that the
/// last, incomplete image may or may not be delivered.
pub fn check(obs: &Obs, e: &Expect, bytes: &[u8]) -> Result<(), String> {
    let g = &e.gif;
    match &obs.header {
        Err(_) => {
            if g.header_ok && !(g.frames.is_empty() && matches!(g.stop, Stop::Error(..) | Stop::Eof)) {
                return Err(format!("opening the image failed ({:?}) although its header is valid", obs.end));
            }
            return Ok(());
        }
        Ok(h) => {
            if !g.header_ok { return Err(format!("opening the image succeeded although the header is broken: {:?}", g.stop)); }
            check_header(h, g)?;
        }
    }
    let n = e.frames.len();
    for (i, f) in obs.frames.iter().take(n).enumerate() {
        if f.0 != e.frames[i].0 { return Err(format!("frame {i}: metadata {:?} instead of {:?}", f.0, e.frames[i].0)); }
        if f.1 != e.frames[i].1 { return Err(diff(&format!("frame {i}"), &f.1, &e.frames[i].1)); }
    }
    if obs.frames.len() < n { return Err(format!("only {} of {n} frames delivered, then {:?}", obs.frames.len(), obs.end)); }
    let complete = matches!(g.stop, Stop::Trailer(_)) && e.broken.is_none();
    if obs.frames.len() > n {
        let cut = matches!(g.stop, Stop::Eof) && e.broken.is_none() && obs.frames.len() == n + 1;
        if !cut { return Err(format!("{} frames delivered instead of {n} (reference stops with {:?}, unreadable frame {:?})", obs.frames.len(), g.stop, e.broken)); }
    }
    match (&obs.end, complete) {
        (End::Done, false) => Err(format!("normal end reported, but the reference stops with {:?} (unreadable frame {:?})", g.stop, e.broken)),
        (End::Err(c), true) => Err(format!("error {c:?} after {n} frames of a valid image")),
        (End::Done, true) => {
            let Stop::Trailer(p) = g.stop else { unreachable!() };
            match &obs.rest {
                Some(r) if r[..] != bytes[p..] => Err(format!("the reader handed back continues with {} bytes instead of the {} behind the trailer", r.len(), bytes.len() - p)),
                _ => Ok(()),
            }
        }
        (End::Err(_), false) => Ok(()),
    }
}
pub fn diff(what: &str, got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() { return format!("{what}: {} bytes instead of {}", got.len(), want.len()); }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
    format!("{what}: byte {i} of {} is {} instead of {} ({} instead of {})", got.len(), got[i], want[i], crate::genr::hex(&got[i..(i + 16).min(got.len())]), crate::genr::hex(&want[i..(i + 16).min(want.len())]))
}

// ---------------------------------------------------------------- scripted reader

/// One answer of the reader.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ans { Give(usize), Fail(ErrorKind) }
/// A reader whose every answer is decided by a closure (position, call number).
pub struct Script<'a, F: FnMut(usize, usize) -> Ans> { pub data: &'a [u8], pub pos: usize, pub calls: usize, pub f: F }
impl<'a, F: FnMut(usize, usize) -> Ans> Script<'a, F> {
    pub fn new(data: &'a [u8], f: F) -> Self { Script { data, pos: 0, calls: 0, f } }
}
impl<F: FnMut(usize, usize) -> Ans> Read for Script<'_, F> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let left = self.data.len() - self.pos;
        let a = (self.f)(self.pos, self.calls);
        self.calls += 1;
        match a {
            Ans::Fail(k) => { scribble(buf); Err(io::Error::new(k, "scripted")) }
            Ans::Give(n) => {
                let n = n.clamp(1, usize::MAX).min(left).min(buf.len());
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                scribble(&mut buf[n..]);
                Ok(n)
            }
        }
    }
}
/// A reader may use the space behind what it returns.
fn scribble(buf: &mut [u8]) { for (i, x) in buf.iter_mut().take(32).enumerate() { *x = [0x3B, 0x21, 0x00, 0xFF][i % 4]; } }

// ---------------------------------------------------------------- streaming decoder

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Bg(u8), GPal(Vec<u8>), Rep(Repeat), HeaderEnd, Block(u8), Sub(u8), BlockEnd(u8, Vec<u8>), FrameMeta(Meta), Pixels(usize), DataEnd, Other(String),
}
#[derive(Clone, Debug)]
pub struct SObs {
    pub events: Vec<(usize, Ev)>, // bytes consumed up to and including the event
    pub pixels: Vec<Vec<u8>>,
    pub end: Result<(), ErrClass>,
    pub consumed: usize,
    pub version: u8, pub w: u16, pub h: u16,
}
/// How pixel data is taken out of the streaming decoder.
#[derive(Clone, Copy, Debug)]
pub enum Out {
    Size(usize), None, Turns,
    /// for each image (base 3): all pixels, none, the first ones
    Some(usize),
}
/// sizes of the output with `Out::Turns`
const TURNS: [usize; 7] = [1, 64, 3, 2, 255, 1, 9];

/// Feeds `bytes`; `slice(position)` says how many bytes the next update may see (counted from the
/// position); 0 asks for an update without any bytes, which must not change anything, followed by the rest. Stops after an error, or when all bytes are consumed, or when the trailer was seen.
pub fn stream(bytes: &[u8], mut slice: impl FnMut(usize) -> usize, out: Out) -> Result<SObs, String> {
    let mut d = StreamingDecoder::new();
    let mut s = SObs { events: vec![], pixels: vec![], end: Ok(()), consumed: 0, version: 0, w: 0, h: 0 };
    let mut pos = 0;
    let mut buf = vec![0u8; match out { Out::Size(n) => n, Out::None => 0, Out::Turns => 255, Out::Some(_) => 5 }];
    let mut quiet = 0;
    let mut cap = 0usize;
    while pos < bytes.len() {
        cap += 1;
        if cap > bytes.len() * 8 + 100_000 { return Err("streaming updates do not come to an end".into()); }
        let n = match slice(pos) { 0 => { idle(&mut d, &mut buf)?; bytes.len() - pos } n => n.clamp(1, bytes.len() - pos) };
        let r = match out {
            Out::Size(_) => { buf.fill(STALE); d.update(&bytes[pos..pos + n], &mut OutputBuffer::Slice(&mut buf)) }
            Out::Some(k) => {
                let i = s.pixels.len().saturating_sub(1).min(8);
                let some = match k / 3usize.pow(i as u32) % 3 { 0 => 5, 1 => 0, _ => 3usize.saturating_sub(s.pixels.last().map_or(0, |p| p.len())) };
                buf.fill(STALE);
                if some == 0 { d.update(&bytes[pos..pos + n], &mut OutputBuffer::None) } else { d.update(&bytes[pos..pos + n], &mut OutputBuffer::Slice(&mut buf[..some])) }
            }
            Out::Turns => { buf.fill(STALE); d.update(&bytes[pos..pos + n], &mut OutputBuffer::Slice(&mut buf[..TURNS[cap % 7]])) }
            Out::None => d.update(&bytes[pos..pos + n], &mut OutputBuffer::None),
        };
        let (c, ev) = match r {
            Ok(x) => x,
            Err(e) => { s.end = Err(class(&e)); break; }
        };
        if c > n { return Err(format!("update consumed {c} of {n} bytes")); }
        pos += c;
        quiet = if c == 0 { quiet + 1 } else { 0 };
        if quiet > 100_000 { return Err("update makes no progress".into()); }
        let e = match ev {
            Decoded::Nothing => {
                if c != n { return Err(format!("at {pos}: update reported nothing but consumed only {c} of {n} bytes")); }
                continue;
            }
            Decoded::GlobalPalette(p) => Ev::GPal(p.into_vec()),
            Decoded::BackgroundColor(b) => Ev::Bg(b),
            Decoded::Repetitions(r) => Ev::Rep(repeat_of(r)),
            Decoded::HeaderEnd => Ev::HeaderEnd,
            Decoded::BlockStart(b) => Ev::Block(b as u8),
            Decoded::SubBlockFinished(x) => Ev::Sub(x.0),
            Decoded::BlockFinished(x) => {
                let (l, data, last) = d.last_ext();
                if l != x { return Err(format!("last_ext reports label {:#x} at the end of {:#x}", l.0, x.0)); }
                if !last { return Err("last_ext says that the extension is not complete at its end".into()); }
                Ev::BlockEnd(x.0, data.get(1..).unwrap_or(&[]).to_vec())
            }
            Decoded::FrameMetadata(t) => {
                if !matches!(t, FrameDataType::Pixels) { return Err("frame data type is not pixels".into()); }
                s.pixels.push(vec![]);
                let m = meta_of(d.current_frame());
                // the caller may keep the frame, as the decoder on top does
                if let Out::Turns = out { drop(std::mem::take(d.current_frame_mut())); }
                Ev::FrameMeta(m)
            }
            Decoded::BytesDecoded(k) => {
                let k = k.get();
                if k > buf.len() { return Err(format!("{k} bytes reported in a buffer of {}", buf.len())); }
                match s.pixels.last_mut() { Some(p) => p.extend_from_slice(&buf[..k]), None => return Err("pixels before any frame".into()) }
                Ev::Pixels(k)
            }
            Decoded::DataEnd => Ev::DataEnd,
            Decoded::LzwDataCopied(_) => return Err("raw data from a decoder that decodes pixels".into()),
            other => Ev::Other(format!("{other:?}")),
        };
        let stop = e == Ev::Block(0x3B);
        s.events.push((pos, e));
        if stop {
            s.consumed = pos;
            // whatever follows must be swallowed silently
            let mut p = pos;
            let mut k = 0;
            while p < bytes.len() {
                let n = match slice(p) { 0 => { idle(&mut d, &mut buf)?; bytes.len() - p } n => n.clamp(1, bytes.len() - p) };
                match d.update(&bytes[p..p + n], &mut OutputBuffer::None) {
                    Ok((c, Decoded::Nothing)) if c == n => p += c,
                    Ok((c, Decoded::Nothing)) => return Err(format!("after the trailer: update reported nothing but consumed only {c} of {n} bytes")),
                    Ok((_, e)) => return Err(format!("event {e:?} after the trailer")),
                    Err(e) => return Err(format!("error {e:?} after the trailer")),
                }
                k += 1;
                if k > 100_000 { return Err("no end after the trailer".into()); }
            }
            break;
        }
    }
    s.consumed = pos;
    s.version = match d.version() { gif::Version::V87a => 87, gif::Version::V89a => 89 };
    s.w = d.width(); s.h = d.height();
    Ok(s)
}

/// An update without any bytes.
fn idle(d: &mut StreamingDecoder, buf: &mut [u8]) -> Result<(), String> {
    let see = |d: &StreamingDecoder| { let (l, data, last) = d.last_ext(); (l, data.to_vec(), last, d.width(), d.height(), d.version() == gif::Version::V89a) };
    let before = see(d);
    for out in [OutputBuffer::Slice(buf), OutputBuffer::None].iter_mut() {
        match d.update(&[], out) {
            Ok((0, Decoded::Nothing)) => {}
            r => return Err(format!("an update without data gives {r:?}")),
        }
    }
    if see(d) != before { return Err("an update without data changes what the decoder says".into()); }
    Ok(())
}

/// Every stable kind of I/O error except `Interrupted`.
pub const ALL_KINDS: [ErrorKind; 36] = [
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable, ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::NetworkDown, ErrorKind::BrokenPipe, ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::NotADirectory,
    ErrorKind::IsADirectory, ErrorKind::DirectoryNotEmpty, ErrorKind::ReadOnlyFilesystem, ErrorKind::StaleNetworkFileHandle, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut,
    ErrorKind::WriteZero, ErrorKind::StorageFull, ErrorKind::NotSeekable, ErrorKind::QuotaExceeded, ErrorKind::FileTooLarge, ErrorKind::ResourceBusy, ErrorKind::ExecutableFileBusy, ErrorKind::Deadlock,
    ErrorKind::TooManyLinks, ErrorKind::ArgumentListTooLong, ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory, ErrorKind::Other,
];
