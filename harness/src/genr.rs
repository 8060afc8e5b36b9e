//! Builders for GIF byte streams.
use crate::lzw::{self, STD};

#[derive(Clone, Debug)]
pub struct File { pub b: Vec<u8> }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Split { Max, Each(usize), FirstThen(usize, usize), EndAlone }

pub fn sub_blocks(data: &[u8], s: Split) -> Vec<u8> {
    let mut v = vec![];
    let mut p = 0;
    let mut first = true;
    while p < data.len() {
        let n = match s {
            Split::Max => 255,
            Split::Each(n) => n,
            Split::FirstThen(a, b) => if first { a } else { b },
            Split::EndAlone => (data.len() - p - 1).clamp(1, 255),
        }.min(data.len() - p);
        first = false;
        v.push(n as u8);
        v.extend_from_slice(&data[p..p + n]);
        p += n;
    }
    v.push(0);
    v
}

/// a palette of n colours that differ from each other and between `tag`s
pub fn pal(n: usize, tag: u8) -> Vec<u8> {
    (0..n).flat_map(|i| [i as u8, tag ^ (i as u8).wrapping_mul(3), tag.wrapping_add(7)]).collect()
}
pub fn pal_bits(n: usize) -> u8 { (n.max(2).next_power_of_two().trailing_zeros() - 1) as u8 }

#[derive(Clone, Debug)]
pub struct Img {
    pub left: u16, pub top: u16, pub w: u16, pub h: u16, pub interlaced: bool, pub flag_bits: u8,
    pub lpal: Option<Vec<u8>>, pub mcs: u8, pub data: Vec<u8>, pub split: Split,
}
impl Img {
    pub fn raw(w: u16, h: u16, mcs: u8, data: Vec<u8>) -> Img {
        Img { left: 0, top: 0, w, h, interlaced: false, flag_bits: 0, lpal: None, mcs, data, split: Split::Max }
    }
    pub fn px(w: u16, h: u16, mcs: u8, px: &[u8]) -> Img { Img::raw(w, h, mcs, lzw::encode(mcs, px, STD)) }
    /// pixels are a pattern that depends on `tag`
    pub fn pat(w: u16, h: u16, mcs: u8, tag: u8) -> Img { Img::px(w, h, mcs, &pattern(w as usize * h as usize, mcs, tag)) }
    pub fn at(mut self, l: u16, t: u16) -> Img { self.left = l; self.top = t; self }
    pub fn il(mut self) -> Img { self.interlaced = true; self }
    pub fn pal(mut self, p: Vec<u8>) -> Img { self.lpal = Some(p); self }
    pub fn split(mut self, s: Split) -> Img { self.split = s; self }
}
pub fn pattern(n: usize, mcs: u8, tag: u8) -> Vec<u8> {
    let m = (1usize << mcs.min(8)) as u32;
    let mut x = u32::from(tag).wrapping_mul(0x9E37_79B9) | 1;
    (0..n).map(|_| { x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223); ((x >> 16) % m) as u8 }).collect()
}

impl File {
    pub fn new(w: u16, h: u16, gpal: Option<&[u8]>) -> File { File::full(b"GIF89a", w, h, gpal, 0, 0, 0) }
    /// `extra` is or-ed into the packed byte
    pub fn full(sig: &[u8], w: u16, h: u16, gpal: Option<&[u8]>, bg: u8, aspect: u8, extra: u8) -> File {
        let mut b = sig.to_vec();
        b.extend(w.to_le_bytes());
        b.extend(h.to_le_bytes());
        match gpal {
            Some(p) => { b.push(0x80 | pal_bits(p.len() / 3) | extra); b.push(bg); b.push(aspect); b.extend_from_slice(p); }
            None => { b.push(extra & 0x7F); b.push(bg); b.push(aspect); }
        }
        File { b }
    }
    pub fn gce(mut self, flags: u8, delay: u16, trns: u8) -> File {
        self.b.extend([0x21, 0xF9, 4, flags]);
        self.b.extend(delay.to_le_bytes());
        self.b.extend([trns, 0]);
        self
    }
    pub fn ext(mut self, label: u8, blocks: &[&[u8]]) -> File {
        self.b.extend([0x21, label]);
        for x in blocks { self.b.push(x.len() as u8); self.b.extend_from_slice(x); }
        self.b.push(0);
        self
    }
    pub fn netscape(self, n: u16) -> File { let n = n.to_le_bytes(); self.ext(0xFF, &[b"NETSCAPE2.0", &[1, n[0], n[1]]]) }
    pub fn unknown(mut self, intro: u8, blocks: &[&[u8]]) -> File {
        self.b.push(intro);
        for x in blocks { self.b.push(x.len() as u8); self.b.extend_from_slice(x); }
        self.b.push(0);
        self
    }
    pub fn img(mut self, i: &Img) -> File {
        self.b.push(0x2C);
        for v in [i.left, i.top, i.w, i.h] { self.b.extend(v.to_le_bytes()); }
        let mut f = i.flag_bits & 0x38 | if i.interlaced { 0x40 } else { 0 };
        if let Some(p) = &i.lpal { f |= 0x80 | pal_bits(p.len() / 3); } else { f |= i.flag_bits & 7; }
        self.b.push(f);
        if let Some(p) = &i.lpal { self.b.extend_from_slice(p); }
        self.b.push(i.mcs);
        self.b.extend(sub_blocks(&i.data, i.split));
        self
    }
    pub fn raw(mut self, x: &[u8]) -> File { self.b.extend_from_slice(x); self }
    pub fn end(mut self) -> Vec<u8> { self.b.push(0x3B); self.b }
}

/// Small files that exercise every feature, good and bad.
pub fn seeds() -> &'static [(&'static str, Vec<u8>)] {
    static S: std::sync::OnceLock<Vec<(&'static str, Vec<u8>)>> = std::sync::OnceLock::new();
    S.get_or_init(make_seeds)
}
fn make_seeds() -> Vec<(&'static str, Vec<u8>)> {
    let g2 = pal(2, 1);
    let g4 = pal(4, 9);
    let nc = lzw::Strat { end: false, ..STD };
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    v.push(("one", File::new(1, 1, Some(&g2)).img(&Img::px(1, 1, 2, &[1])).end()));
    v.push(("anim", File::new(3, 2, Some(&g4)).netscape(7).gce(9, 5, 1).img(&Img::pat(3, 2, 2, 1)).ext(0xFE, &[b"hi", b"x"])
        .gce(0b10, 300, 0).img(&Img::pat(2, 1, 2, 2).at(1, 1)).end()));
    v.push(("interlaced", File::new(2, 9, Some(&g2)).gce(0x0D, 1, 2).img(&Img::pat(2, 9, 2, 3).il().pal(g4.clone())).img(&Img::pat(1, 3, 2, 4).il()).end()));
    v.push(("local-only", File::new(4, 4, None).img(&Img::pat(2, 2, 2, 5).pal(pal(8, 3))).gce(1, 2, 3).img(&Img::pat(3, 3, 2, 6).pal(g2.clone())).end()));
    v.push(("split", File::new(6, 6, Some(&g4)).img(&Img::pat(6, 6, 3, 7).split(Split::Each(1))).img(&Img::pat(5, 5, 2, 8).split(Split::EndAlone)).img(&Img::pat(4, 4, 8, 9).split(Split::Each(3))).end()));
    v.push(("no-end-code", File::new(3, 3, Some(&g4)).img(&Img::raw(3, 3, 2, lzw::encode(2, &pattern(9, 2, 10), nc))).img(&Img::pat(2, 2, 2, 11)).end()));
    v.push(("no-frames", File::new(5, 6, Some(&g2)).end()));
    v.push(("no-frames-ext", File::new(5, 6, None).netscape(0).end()));
    v.push(("zero-area", File::new(2, 2, Some(&g2)).img(&Img::pat(0, 3, 2, 1)).gce(0, 9, 0).img(&Img::pat(2, 0, 2, 1).il()).img(&Img::pat(2, 1, 2, 12)).end()));
    v.push(("exts", File::new(2, 2, Some(&g2)).ext(0xFE, &[]).ext(0xFF, &[b"XMP DataXMP", b"abc"]).gce(5, 77, 1).ext(0x01, &[&[1; 12], b"text"]).ext(0xFF, &[b"NETSCAPE2.0", &[1, 3, 0]])
        .img(&Img::pat(2, 2, 2, 13)).ext(0xFE, &[&[0x3B; 255], &[0; 3]]).end()));
    let mut t = File::new(1, 2, Some(&g2)).img(&Img::pat(1, 2, 2, 14)).end();
    t.extend_from_slice(b"\x2c trailing \x3b\x21\xf9");
    v.push(("trailing", t));
    v.push(("87a", File::full(b"GIF87a", 2, 2, Some(&g2), 1, 49, 0x70).img(&Img::pat(2, 2, 2, 15)).end()));
    let mut d = lzw::pack(2, &[4, 4, 1, 4, 4, 2, 0, 4, 3, 5]);
    d.extend([0xAA, 0x55, 0xFF]);
    v.push(("clears", File::new(2, 2, Some(&g4)).img(&Img::raw(2, 2, 2, d.clone())).img(&Img::raw(2, 2, 2, d).split(Split::Each(1))).end()));
    v.push(("too-much-data", File::new(2, 2, Some(&g4)).img(&Img::raw(2, 2, 2, lzw::encode(2, &pattern(40, 2, 16), STD))).img(&Img::pat(1, 1, 2, 3)).end()));
    v.push(("short-data", File::new(4, 4, Some(&g4)).img(&Img::raw(4, 4, 2, lzw::encode(2, &pattern(9, 2, 17), STD))).img(&Img::pat(1, 1, 2, 3)).end()));
    v.push(("bad-code", File::new(4, 4, Some(&g4)).img(&Img::pat(1, 1, 2, 2)).img(&Img::raw(4, 4, 2, lzw::pack(2, &[4, 1, 7, 5]))).img(&Img::pat(1, 1, 2, 3)).end()));
    v.push(("bad-mcs", File::new(4, 4, Some(&g4)).img(&Img::pat(1, 1, 2, 2)).img(&Img { mcs: 0, ..Img::pat(1, 1, 2, 2) }).img(&Img::pat(1, 1, 2, 3)).end()));
    v.push(("bad-label", File::new(4, 4, Some(&g4)).img(&Img::pat(1, 1, 2, 2)).ext(0xFA, &[b"x"]).img(&Img::pat(1, 1, 2, 3)).end()));
    v.push(("unknown", File::new(4, 4, Some(&g4)).unknown(0x42, &[]).netscape(2).img(&Img::pat(1, 1, 2, 2)).gce(1, 6, 1).unknown(0x00, &[&[0x2C, 0x3B, 0, 0x21]]).img(&Img::pat(1, 1, 2, 3)).end()));
    v.push(("bad-gce", File::new(4, 4, Some(&g4)).img(&Img::pat(1, 1, 2, 2)).ext(0xF9, &[&[1, 2, 3]]).img(&Img::pat(1, 1, 2, 3)).end()));
    v.push(("no-palette", File::new(4, 4, None).img(&Img::pat(1, 1, 2, 2).pal(g2.clone())).img(&Img::pat(1, 1, 2, 3)).end()));
    v.push(("no-trailer", { let mut x = File::new(4, 4, Some(&g4)).img(&Img::pat(2, 2, 2, 2)).img(&Img::pat(1, 1, 2, 3)).end(); x.pop(); x }));
    v
}
/// Seeds that decode without error.
pub fn good_seeds() -> &'static [(&'static str, Vec<u8>)] {
    static S: std::sync::OnceLock<Vec<(&'static str, Vec<u8>)>> = std::sync::OnceLock::new();
    S.get_or_init(make_good_seeds)
}
fn make_good_seeds() -> Vec<(&'static str, Vec<u8>)> {
    make_seeds().into_iter().filter(|(n, _)| !n.starts_with("bad") && !["short-data", "no-palette", "no-trailer", "unknown"].contains(n)).collect()
}

/// An image and the control extension in front of it.
pub type Pic = (Option<(u8, u16, u8)>, Img);
/// 144 images in which every two values of any two features (size, interlacing, palette, code size, content, surplus or
/// missing end code, sub-block lengths, position, control extension) meet.
pub fn pool() -> &'static [Pic] {
    static S: std::sync::OnceLock<Vec<Pic>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut x = 12345u32;
        let mut r = |n: usize| { x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223); (x >> 16) as usize % n };
        (0..144).map(|i| {
            let (w, h) = [(1u16, 1u16), (2, 3), (7, 9), (3, 17), (40, 6), (0, 4), (5, 0), (300, 2), (1, 30), (16, 16), (64, 70), (4, 8)][i % 12];
            let n = w as usize * h as usize;
            let mcs = [2u8, 3, 4, 5, 6, 7, 8, 8, 2, 11][(i / 12 + r(10)) % 10];
            let mut px = match r(5) { 0 => vec![1; n], 1 => (0..n).map(|k| (k % (1 << mcs.min(8))) as u8).collect(), _ => pattern(n, mcs, i as u8) };
            if r(6) == 0 { px.extend(pattern(1 + r(600), mcs, 99)); }
            let s = match r(8) { 0 => lzw::Strat { end: false, ..STD }, 1 => lzw::Strat { initial_clear: false, ..STD }, _ => STD };
            let mut m = Img::raw(w, h, mcs, lzw::encode(mcs, &px, s));
            if r(12) == 0 { m.data.extend([0xAA; 30]); }
            m = m.split([Split::Max, Split::Max, Split::Each(1), Split::Each(7), Split::EndAlone, Split::Each(254)][r(6)]);
            if r(5) < 2 { m = m.il(); }
            if r(5) < 2 { m = m.pal(pal([2, 4, 8, 128, 256][r(5)], i as u8)); }
            if r(3) == 0 { m = m.at([0, 1, 300, 65535][r(4)], [0, 2, 255, 256][r(4)]); }
            let g = (r(5) < 3).then(|| ([0u8, 1, 5, 9, 13, 0x0F, 0x1D, 0xE3, 2][r(9)], [0u16, 1, 255, 256, 65535][r(5)], [0u8, 1, 2, 3, 127, 255][r(6)]));
            (g, m)
        }).collect()
    })
}
/// 192 beginnings of files (up to the first image) in which values of the features of a header (version, screen, palette, flags,
/// background, aspect, extensions) meet; and the extensions that make the loop count.
pub fn heads() -> &'static [File] {
    static S: std::sync::OnceLock<Vec<File>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let mut x = 777u32;
        let mut r = |n: usize| { x = x.wrapping_mul(1_664_525).wrapping_add(1_013_904_223); (x >> 16) as usize % n };
        (0..192).map(|i| {
            let (w, h) = [(0u16, 0u16), (1, 1), (0, 1), (65535, 65535), (300, 257), (9, 0), (256, 255), (9, 9)][i % 8];
            let n = [0usize, 2, 4, 8, 256, 16, 0, 32, 4, 64, 128, 4][(i / 8 + r(12)) % 12];
            let g = (n > 0).then(|| pal(n, i as u8 | 1));
            let bg = [0usize, 1, n.saturating_sub(1), n, 255][r(5)].min(255) as u8;
            let f = File::full(if r(4) == 0 { b"GIF87a" } else { b"GIF89a" }, w, h, g.as_deref(), bg, [0u8, 49, 255][r(3)], [0u8, 8, 0x70, 0x78][r(4)] | if n == 0 { r(8) as u8 } else { 0 });
            loop_ext(f, i / 8)
        }).collect()
    })
}
/// One of 24 lists of extensions.
pub fn loop_ext(f: File, k: usize) -> File {
    let long = [0x3B; 255];
    match k % 24 {
        0 => f,
        1 => f.netscape(7),
        2 => f.netscape(0),
        3 => f.netscape(65535),
        4 => f.netscape(256),
        5 => f.ext(0xFF, &[b"NETSCAPE2.0", &[1, 9, 0], &[2, 0, 0, 1, 0]]),
        6 => f.ext(0xFF, &[b"NETSCAPE2.0", &[1, 9, 1], &long, &long]),
        7 => f.ext(0xFF, &[b"NETSCAPE2.0", &[1, 0, 0], &[0]]),
        8 => f.netscape(3).netscape(5),
        9 => f.netscape(3).netscape(0),
        10 => f.ext(0xFF, &[b"ANIMEXTS1.0", &[1, 9, 0]]),
        11 => f.ext(0xFF, &[b"NETSCAPE2.1", &[1, 9, 0]]),
        12 => f.ext(0xFF, &[b"NETSCAPE2.0"]),
        13 => f.ext(0xFF, &[b"NETSCAPE2.0", &[1, 3]]),
        14 => f.ext(0xFF, &[b"NETSCAPE2.0", &[2, 3, 0]]),
        15 => f.ext(0xFF, &[]).netscape(2),
        16 => f.ext(0xFE, &[b"NETSCAPE2.0", &[1, 9, 0]]),
        17 => f.ext(0xFE, &[&long, &long, b"x"]).netscape(4),
        18 => f.netscape(6).ext(0xFF, &[b"XMP DataXMP", &long, b"\x01NETSCAPE2.0\x01\x05\x00"]),
        19 => f.ext(0x01, &[b"NETSCAPE2.0", &[1, 9, 0]]).netscape(8),
        20 => f.gce(5, 11, 1).netscape(10).ext(0xFE, &[b"c"]),
        21 => f.ext(0xFF, &[b"netscape2.0", &[1, 9, 0]]).ext(0xFE, &[]),
        22 => f.netscape(1).ext(0xFF, &[b"NETSCAPE2.0"]),
        _ => f.netscape(1).ext(0xFF, &[b"NETSCAPE2.0", &[2, 3, 0]]),
    }
}
/// What may come behind the trailer: nothing, bytes that look like blocks, a second image, ...
pub fn tails() -> &'static [Vec<u8>] {
    static S: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let second = File::new(5, 4, Some(&pal(2, 8))).netscape(12).gce(1, 1, 1).img(&Img::pat(2, 2, 2, 1)).end();
        vec![vec![], vec![0], vec![0x3B], b"GIF89a".to_vec(), second.clone(), second[..30].to_vec(), second[13..].to_vec(), vec![0x21, 0xF9, 4, 1, 1, 1, 1, 0], vec![0x2C; 20], b"GIF8".to_vec(), vec![0; 9000]]
    })
}
/// Beginning `i`, images `pics` of the pool (with a palette of their own if there is no global one), trailer, tail `t`.
pub fn head_file(i: usize, pics: &[usize], t: usize) -> Vec<u8> {
    let f = heads()[i].clone();
    let global = f.b[10] & 0x80 != 0;
    let mut ps: Vec<Pic> = pics.iter().map(|&k| pool()[k].clone()).collect();
    if !global { for (k, p) in ps.iter_mut().enumerate() { p.1.lpal.get_or_insert_with(|| pal(4 << k, 3)); } }
    let mut b = with_pics(f, &ps.iter().collect::<Vec<_>>()).end();
    b.extend_from_slice(&tails()[t]);
    b
}
/// Images of the pool with few pixels and an end code (as their area needs it), by turns.
pub fn small_pic(k: usize) -> usize {
    static S: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let s = S.get_or_init(|| (0..144).filter(|&i| { let m = &pool()[i].1; m.data.len() < 60 && lzw::decode(m.mcs, &m.data, 1 << 22).end == lzw::End::Code }).collect());
    s[k % s.len()]
}
pub fn with_pics(mut f: File, pics: &[&Pic]) -> File {
    for (g, m) in pics {
        if let Some((a, b, c)) = g { f = f.gce(*a, *b, *c); }
        f = f.img(m);
    }
    f
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().take(600).enumerate() { if i > 0 && i % 4 == 0 { s.push(' '); } s.push_str(&format!("{x:02x}")); }
    if b.len() > 600 { s.push_str(&format!(" ... ({} bytes)", b.len())); }
    s
}

/// Around every power of two from 2^8 to 2^16.
pub fn count_of(i: usize) -> usize { (256 << (i / 3)) + i % 3 - 1 }
pub const COUNT_NS: usize = 27;
/// What a counted file repeats.
pub const COUNTS: [&str; 19] = ["images", "images with local palettes and control extensions", "images without area", "images that use all pixels and repeat the clear code", "comments", "control extensions", "loop extensions", "unknown blocks",
    "sub-blocks of a comment", "full sub-blocks of an application extension", "sub-blocks of a second NETSCAPE extension", "sub-blocks of an unknown block", "sub-blocks of image data", "full sub-blocks of image data", "sub-blocks behind the end code",
    "clear codes", "comments and images by turns", "codes since the last clear code", "bytes behind the trailer"];
/// A file in which one thing occurs `n` times (needs the option for unknown blocks), with two more images and bytes behind the trailer.
pub fn count_file(kind: usize, n: usize) -> Vec<u8> {
    let g = pal(4, 1);
    let mut f = File::new(200, 100, Some(&g)).img(&Img::pat(2, 1, 2, 9)).ext(0xFE, &[b"begin"]);
    let one = |i: usize| Img::pat(1, 1, 2, (i % 251) as u8).at(i as u16, (i >> 8) as u16);
    let mut junk = 3;
    // rows of 100 pixels of 7 bits between clear codes, so that the codes are bytes
    let rows = |n: usize| {
        let (h, px) = ((n - 1) / 101, pattern(n, 7, 3));
        let k = if h > 60_000 { h / 400 } else { 1 };
        let h = h / k * k;
        let mut d = vec![];
        for r in 0..h { d.push(0x80); d.extend_from_slice(&px[r * 100..][..100]); }
        while d.len() < n - 1 { d.push(0x80); }
        d.push(0x81);
        (100 * k as u16, (h / k) as u16, d)
    };
    let blocks = |f: &mut File, n: usize, size: usize| { for i in 0..n { f.b.push(size as u8); for k in 0..size { f.b.push((i * 7 + k) as u8); } } f.b.push(0); };
    match kind {
        0 => for i in 0..n { f = f.img(&one(i)); },
        1 => for i in 0..n { let mut p = pal(8, i as u8); p[..3].copy_from_slice(&[i as u8, (i >> 8) as u8, (i >> 16) as u8]); f = f.gce((i % 32) as u8, i as u16, (i >> 3) as u8).img(&one(i).pal(p)); },
        2 => for i in 0..n { f = f.img(&Img::pat((i % 2) as u16 * 3, 0, 2, 1)); },
        3 => for i in 0..n { f = f.img(&Img::raw(1, 2, 7, vec![0x80, (i % 100) as u8, 0x80, 0x80, (i % 97) as u8, 0x80, 0x81])); },
        4 => for i in 0..n { f = f.ext(0xFE, &[&[i as u8, (i >> 8) as u8]]); },
        5 => for i in 0..n { f = f.gce((i % 32) as u8, (i * 5) as u16, i as u8); },
        6 => for i in 0..n { f = f.netscape(i as u16); },
        7 => for i in 0..n { f = f.unknown(0x42 + (i % 5) as u8, &[&[i as u8; 3]]); },
        8 => { f.b.extend([0x21, 0xFE]); blocks(&mut f, n, 1); }
        9 => { f = f.raw(b"\x21\xff\x0bXMP DataXMP"); blocks(&mut f, n, 255); }
        10 => { f = f.raw(b"\x21\xff\x0bNETSCAPE2.0\x03\x01\x07\x00"); blocks(&mut f, n, 2); }
        11 => { f.b.push(0x42); blocks(&mut f, n, 1); }
        12 => { let (w, h, d) = rows(n); f = f.img(&Img::raw(w, h, 7, d).split(Split::Each(1))); }
        13 => { let (w, h, d) = rows(n * 255); f = f.img(&Img::raw(w, h, 7, d)); }
        14 => { let mut d = vec![0x80, 1, 2, 0x81]; d.extend(pattern(n, 8, 1)); f = f.img(&Img::raw(2, 1, 7, d).split(Split::Each(1))); }
        15 => { let mut d = vec![0x80; n]; d.extend([1, 2, 0x81]); f = f.img(&Img::raw(2, 1, 7, d)); }
        16 => for i in 0..n { f = f.ext(0xFE, &[&[i as u8]]).img(&one(i)); },
        17 => { let h = n / 5 + 1; let px = pattern(h * 5, 8, 5); f = f.img(&Img::raw(5, h as u16, 8, lzw::encode(8, &px, lzw::Strat { literal: true, deferred: true, ..STD }))); }
        _ => junk = n,
    }
    let mut b = f.gce(1, 77, 2).img(&Img::pat(4, 2, 2, 3)).ext(0xFE, &[b"end"]).img(&Img::pat(3, 5, 3, 4).il().pal(pal(8, 5))).end();
    b.extend((0..junk).map(|i| [0x2C, 0x21, 0x3B, 0x00][i % 4]));
    b
}
