//! Reference model: a GIF parser written from the format definition, pixel models, and the result
//! the properties require of a decoder for a given byte string.
use crate::lzw;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Meta {
    pub delay: u16, pub dispose: u8, pub transparent: Option<u8>, pub user: bool,
    pub left: u16, pub top: u16, pub w: u16, pub h: u16, pub interlaced: bool, pub palette: Option<Vec<u8>>,
}

#[derive(Clone, Debug)]
pub struct RFrame {
    pub meta: Meta,
    pub mcs: u8,
    /// compressed data without sub-block lengths
    pub data: Vec<u8>,
    /// offset of the image separator and offset behind the block terminator
    pub start: usize, pub end: usize,
}
impl RFrame {
    pub fn area(&self) -> usize { self.meta.w as usize * self.meta.h as usize }
    pub fn lzw(&self) -> lzw::Out { lzw::decode(self.mcs, &self.data, self.area() + 5000) }
    /// indices in stored order
    pub fn stored(&self) -> Option<Vec<u8>> {
        let mut o = lzw::decode(self.mcs, &self.data, self.area());
        if o.pixels.len() < self.area() { return None; }
        o.pixels.truncate(self.area());
        Some(o.pixels)
    }
    pub fn pixels(&self) -> Option<Vec<u8>> {
        self.stored().map(|s| if self.meta.interlaced { deinterlace(&s, self.meta.w as usize, self.meta.h as usize) } else { s })
    }
    pub fn has_end_code(&self) -> bool { lzw::decode(self.mcs, &self.data, 1 << 30).end == lzw::End::Code }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RExt { pub label: u8, pub blocks: Vec<Vec<u8>>, pub frames_before: usize }
impl RExt { pub fn payload(&self) -> Vec<u8> { self.blocks.concat() } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop { Trailer(usize), Error(&'static str, usize), Eof }

#[derive(Clone, Debug)]
pub struct RGif {
    pub version: u8, pub w: u16, pub h: u16, pub bg: u8, pub gpal: Option<Vec<u8>>,
    /// announced before the first image
    pub repeat: Repeat,
    pub frames: Vec<RFrame>, pub exts: Vec<RExt>, pub stop: Stop,
    /// the decoder reaches the first image, trailer or offending block
    pub header_ok: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Repeat { Finite(u16), Infinite }

pub struct ROpts { pub unknown: bool, pub consistency: bool }

struct Cur<'a> { b: &'a [u8], p: usize }
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.b.get(self.p..self.p.checked_add(n)?)?;
        self.p += n;
        Some(r)
    }
    fn u8(&mut self) -> Option<u8> { self.take(1).map(|x| x[0]) }
    fn blocks(&mut self) -> Option<Vec<Vec<u8>>> {
        let mut v = vec![];
        loop {
            let n = self.u8()?;
            if n == 0 { return Some(v); }
            v.push(self.take(n as usize)?.to_vec());
        }
    }
}
fn le(b: &[u8]) -> u16 { u16::from(b[0]) | u16::from(b[1]) << 8 }

pub fn parse(bytes: &[u8], o: &ROpts) -> RGif {
    let mut g = RGif { version: 0, w: 0, h: 0, bg: 0, gpal: None, repeat: Repeat::Finite(0), frames: vec![], exts: vec![], stop: Stop::Eof, header_ok: false };
    let mut c = Cur { b: bytes, p: 0 };
    if let Some(s) = parse_inner(&mut g, &mut c, o) { g.stop = s; }
    g
}

fn parse_inner(g: &mut RGif, c: &mut Cur<'_>, o: &ROpts) -> Option<Stop> {
    let sig = c.take(6)?;
    g.version = match sig { b"GIF87a" => 87, b"GIF89a" => 89, _ => return Some(Stop::Error("signature", 0)) };
    let d = c.take(7)?;
    g.w = le(&d[0..2]); g.h = le(&d[2..4]); g.bg = d[5];
    if d[4] & 0x80 != 0 { g.gpal = Some(c.take(3 << ((d[4] & 7) + 1))?.to_vec()); }
    let mut gce: Option<(u8, u16, u8)> = None;
    loop {
        let at = c.p;
        match c.u8()? {
            0x3B => { g.header_ok = true; return Some(Stop::Trailer(c.p)); }
            0x21 => {
                let label = c.u8()?;
                if ![0x01, 0xF9, 0xFE, 0xFF].contains(&label) { return Some(Stop::Error("extension label", at)); }
                let blocks = c.blocks()?;
                if label == 0xF9 {
                    if blocks.len() != 1 || blocks[0].len() != 4 { return Some(Stop::Error("control extension", at)); }
                    gce = Some((blocks[0][0], le(&blocks[0][1..3]), blocks[0][3]));
                }
                if label == 0xFF && g.frames.is_empty() && blocks.len() >= 2 && blocks[0] == b"NETSCAPE2.0" && blocks[1].len() == 3 && blocks[1][0] == 1 {
                    let n = le(&blocks[1][1..3]);
                    g.repeat = if n == 0 { Repeat::Infinite } else { Repeat::Finite(n) };
                }
                g.exts.push(RExt { label, blocks, frames_before: g.frames.len() });
            }
            0x2C => {
                g.header_ok = true;
                let d = c.take(9)?;
                let mut m = Meta { left: le(&d[0..2]), top: le(&d[2..4]), w: le(&d[4..6]), h: le(&d[6..8]), interlaced: d[8] & 0x40 != 0, dispose: 1, ..Meta::default() };
                if let Some((f, delay, t)) = gce.take() {
                    m.delay = delay;
                    m.user = f & 2 != 0;
                    m.dispose = match f >> 2 & 7 { x @ 0..=3 => x, _ => 0 };
                    m.transparent = (f & 1 != 0).then_some(t);
                }
                if o.consistency && (u32::from(m.left) + u32::from(m.w) > u32::from(g.w) || u32::from(m.top) + u32::from(m.h) > u32::from(g.h)) {
                    return Some(Stop::Error("frame bounds", at));
                }
                if d[8] & 0x80 != 0 { m.palette = Some(c.take(3 << ((d[8] & 7) + 1))?.to_vec()); }
                let mcs = c.u8()?;
                if mcs == 0 || mcs > 11 { return Some(Stop::Error("minimum code size", at)); }
                if m.palette.is_none() && g.gpal.is_none() { return Some(Stop::Error("no palette", at)); }
                let data = c.blocks()?.concat();
                g.frames.push(RFrame { meta: m, mcs, data, start: at, end: c.p });
            }
            _ => {
                if !o.unknown { g.header_ok = true; return Some(Stop::Error("unknown block", at)); }
                c.blocks()?;
            }
        }
    }
}

/// Row order of the GIF specification: every 8th row from 0, every 8th from 4, every 4th from 2, every 2nd from 1.
pub fn interlace_rows(h: usize) -> Vec<usize> {
    let mut v = Vec::with_capacity(h);
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
        let mut r = start;
        while r < h { v.push(r); r += step; }
    }
    v
}
pub fn deinterlace(stored: &[u8], w: usize, h: usize) -> Vec<u8> {
    let mut out = vec![0; w * h];
    for (i, r) in interlace_rows(h).into_iter().enumerate() {
        out[r * w..(r + 1) * w].copy_from_slice(&stored[i * w..(i + 1) * w]);
    }
    out
}
/// `background` is what the output buffer held before
pub fn rgba_onto(px: &[u8], pal: &[u8], trns: Option<u8>, background: u8) -> Vec<u8> {
    let mut out = vec![background; px.len() * 4];
    for (i, &p) in px.iter().enumerate() {
        let o = p as usize * 3;
        if o + 3 <= pal.len() {
            out[i * 4..i * 4 + 3].copy_from_slice(&pal[o..o + 3]);
            out[i * 4 + 3] = if trns == Some(p) { 0 } else { 255 };
        }
    }
    out
}
pub fn rgba(px: &[u8], pal: &[u8], trns: Option<u8>) -> Vec<u8> { rgba_onto(px, pal, trns, 0) }
