//! C03 metadata, C13 frame bounds, C14 unknown blocks, C16 the end of the image.
use super::*;
use crate::drive::*;
use crate::engine::Exploration;
use crate::genr::*;
use crate::lzw::{self, STD};
use crate::model::{self, Meta, Stop};
use crate::{CheckInfo, Tier};
use std::io::Read;

pub fn checks() -> Vec<CheckInfo> {
    vec![
        CheckInfo { id: "C03", level: "model_checking", rule: "every execution decodes one generated stream and compares header, metadata, palettes and stopping point with the reference parser", assumptions: &["control extensions split over several sub-blocks and loop extensions with other than 3 data bytes are outside the enumerated streams"], build: c03 },
        CheckInfo { id: "C13", level: "model_checking", rule: "every execution decodes one image descriptor with and without the consistency check and compares acceptance with integer arithmetic", assumptions: &[], build: c13 },
        CheckInfo { id: "C14", level: "model_checking", rule: "every execution decodes a stream with unknown blocks inserted and compares with the stream without them", assumptions: &[], build: c14 },
        CheckInfo { id: "C16", level: "model_checking", rule: "every execution reads to the end and continues with a history of calls", assumptions: &[], build: c16 },
    ]
}

pub struct Infos { pub header: Result<Hdr, ErrClass>, pub frames: Vec<Meta>, pub end: End }
/// Only asks for frame information.
pub fn infos<R: Read>(r: R, o: &Opts) -> Result<Infos, String> {
    let mut d = match o.build().read_info(r) {
        Ok(d) => d,
        Err(e) => { let c = class(&e); return Ok(Infos { header: Err(c), frames: vec![], end: End::Err(c) }); }
    };
    let mut x = Infos { header: Ok(hdr_of(&d)), frames: vec![], end: End::Done };
    loop {
        let m = match d.next_frame_info() {
            Ok(Some(f)) => meta_of(f),
            Ok(None) => return Ok(x),
            Err(e) => { x.end = End::Err(class(&e)); return Ok(x); }
        };
        let want = m.palette.clone().or(d.global_palette().map(|p| p.to_vec()));
        match (d.palette(), want) {
            (Ok(p), Some(w)) if p == w => {}
            (p, w) => return Err(format!("palette() is {p:?} instead of {w:?}")),
        }
        let n = m.w as usize * m.h as usize * o.bpp();
        if d.buffer_size() != n || d.line_length() != m.w as usize * o.bpp() { return Err(format!("buffer_size {} and line_length {} for {}x{}", d.buffer_size(), d.line_length(), m.w, m.h)); }
        x.frames.push(m);
        if x.frames.len() > MAX_FRAMES { return Err("frames do not end".into()); }
    }
}
/// Compares frame information only; pixels are never read.
pub fn cmp_infos(c: &Ctx, bytes: &[u8], o: &Opts) -> Res {
    c.note("file", || hex(bytes));
    c.note("options", || format!("{o:?} next_frame_info only"));
    let x = infos(bytes, o)?;
    c.obs(&(&x.header, &x.frames, &x.end));
    c.steps(x.frames.len() as u64 + 1);
    c.validated(1);
    let g = model::parse(bytes, &o.ropts());
    let early = g.frames.is_empty() && !matches!(g.stop, Stop::Trailer(_));
    match &x.header {
        Err(_) if !g.header_ok || early => return Ok(()),
        Err(e) => return Err(format!("opening failed with {e:?} although the header is valid")),
        Ok(_) if !g.header_ok => return Err(format!("opening succeeded although the reference stops with {:?}", g.stop)),
        Ok(h) => check_header(h, &g)?,
    }
    for (i, f) in g.frames.iter().enumerate() {
        match x.frames.get(i) {
            None => return Err(format!("only {i} of {} frames announced, then {:?}", g.frames.len(), x.end)),
            Some(m) if *m != f.meta => return Err(format!("frame {i}: {m:?} instead of {:?}", f.meta)),
            _ => {}
        }
    }
    let complete = matches!(g.stop, Stop::Trailer(_));
    if x.frames.len() > g.frames.len() + usize::from(g.stop == Stop::Eof) { return Err(format!("{} frames announced instead of {} (reference stops with {:?})", x.frames.len(), g.frames.len(), g.stop)); }
    if complete != (x.end == End::Done) { return Err(format!("ends with {:?}, the reference with {:?}", x.end, g.stop)); }
    c.outcome(if complete { "complete" } else { "error" });
    Ok(())
}

fn small(tag: u8) -> Img { Img::pat(2, 2, 2, tag) }

fn c03(t: Tier) -> Vec<Exploration> {
    let g4 = pal(4, 9);
    let mut v = vec![];
    let p = g4.clone();
    v.push(Exploration::new("screen-fields", "screen width and height: all 65536 values each", move |c| {
        let f = c.choose(2);
        let x = c.choose(65536) as u16;
        let (w, h) = if f == 0 { (x, 0x1234) } else { (0xFEDC, x) };
        let b = File::new(w, h, Some(&p)).img(&small(1)).end();
        cmp_infos(c, &b, &PLAIN)?;
        let s = stream(&b, |_| usize::MAX, Out::None)?;
        if (s.w, s.h, s.version) != (w, h, 89) { return Err(format!("streaming decoder reports {}x{} version {}", s.w, s.h, s.version)); }
        Ok(())
    }));
    v.push(Exploration::new("screen-packed", "packed byte: all 256 values x background index: all 256 values (aspect = background)", |c| {
        let packed = c.choose(256) as u8;
        let bg = c.choose(256) as u8;
        let mut b = File { b: b"GIF89a\x03\x00\x04\x00".to_vec() };
        b.b.extend([packed, bg, bg]);
        if packed & 0x80 != 0 { b.b.extend(pal(2 << (packed & 7), bg)); }
        let b = b.img(&if packed & 0x80 != 0 { small(2) } else { small(2).pal(pal(4, 3)) }).end();
        cmp_infos(c, &b, &PLAIN)
    }));
    let p = g4.clone();
    v.push(Exploration::new("signature", "every byte of the signature replaced by every value; both versions", move |c| {
        let mut sig: [u8; 6] = **c.pick(&[b"GIF89a", b"GIF87a"]);
        sig[c.choose(6)] = c.choose(256) as u8;
        let b = File::full(&sig, 3, 2, Some(&p), 0, 0, 0).img(&small(1)).end();
        cmp_infos(c, &b, &PLAIN)?;
        let s = stream(&b, |_| usize::MAX, Out::None)?;
        let g = model::parse(&b, &PLAIN.ropts());
        if s.end.is_ok() != g.header_ok { return Err("streaming decoder disagrees about the signature".into()); }
        if g.header_ok && s.version != g.version { return Err(format!("version {} instead of {}", s.version, g.version)); }
        Ok(())
    }));
    let p = g4.clone();
    v.push(Exploration::new("image-fields", "left, top, width and height: all 65536 values each, indexed and RGBA", move |c| {
        let f = c.choose(4);
        let x = c.choose(65536) as u16;
        let mut i = small(3);
        match f { 0 => i.left = x, 1 => i.top = x, 2 => i.w = x, _ => i.h = x }
        let b = File::new(9, 9, Some(&p)).img(&i).img(&small(2).at(1, 2)).end();
        cmp_infos(c, &b, &PLAIN)?;
        cmp_infos(c, &b, &PLAIN.rgba())
    }));
    v.push(Exploration::new("image-flags", "image flags: all 256 values, with and without global palette and control extension", |c| {
        let fl = c.choose(256) as u8;
        let (gp, ge) = (c.flag(), c.flag());
        let mut i = small(4);
        i.interlaced = fl & 0x40 != 0;
        i.flag_bits = fl;
        if fl & 0x80 != 0 { i.lpal = Some(pal(2 << (fl & 7), fl)); }
        let g = pal(4, 1);
        let mut f = File::new(2, 2, gp.then_some(&g[..]));
        if ge { f = f.gce(0xFF, 258, 3); }
        let b = f.img(&small(1).pal(pal(2, 8))).img(&i).img(&small(5).pal(pal(2, 9))).end();
        cmp_infos(c, &b, &PLAIN)?;
        cmp(c, &b, &PLAIN, &Style::Next)
    }));
    let p = g4.clone();
    v.push(Exploration::new("gce-flags", "control extension: all 256 flag bytes x all 256 transparent indices", move |c| {
        let (f, tr) = (c.choose(256) as u8, c.choose(256) as u8);
        let b = File::new(2, 2, Some(&p)).gce(f, 0x0102, tr).img(&small(1)).img(&small(2)).gce(!f, 7, !tr).img(&small(3)).end();
        cmp_infos(c, &b, &PLAIN)
    }));
    let p = g4.clone();
    v.push(Exploration::new("gce-delay", "control extension: all 65536 delays, each also as the previous and next frame's", move |c| {
        let d = c.choose(65536) as u16;
        let b = File::new(2, 2, Some(&p)).gce(1, d, 1).img(&small(1)).gce(0, !d, 2).img(&small(2)).img(&small(3)).end();
        cmp_infos(c, &b, &PLAIN)
    }));
    let p = g4.clone();
    v.push(Exploration::new("gce-size", "control extension with one sub-block of every size 0..=255, and with a second one of every size, before the first and the second image", move |c| {
        let n = c.choose(256);
        let second = c.choose(256);
        let data = vec![3u8; 255];
        let mut f = File::new(2, 2, Some(&p));
        if c.flag() { f = f.img(&small(1)); }
        let bl: Vec<&[u8]> = match (n, second) { (0, 0) => vec![], (0, _) => return Ok(()), (n, 0) => vec![&data[..n]], (n, s) => {
            if n + s == 4 { return Ok(()); } // 4 bytes in several pieces: not specified
            if !t.t() && n != 4 && s != 1 { return Ok(()); }
            vec![&data[..n], &data[..s]] } };
        let b = f.ext(0xF9, &bl).img(&small(2)).end();
        cmp_infos(c, &b, &PLAIN)
    }));
    let p = g4.clone();
    v.push(Exploration::new("introducers", "all 256 block introducers and all 256 extension labels, before and after the first image, with 0 to 2 sub-blocks", move |c| {
        let mut f = File::new(2, 2, Some(&p));
        if c.flag() { f = f.img(&small(1)); }
        let bl: &[&[u8]] = *c.pick::<&[&[u8]]>(&[&[], &[b"abcd"], &[b"NETSCAPE2.0", b"\x01\x02\x03"]]);
        let x = c.choose(256) as u8;
        let b = if c.flag() {
            if x == 0xF9 && bl.len() == 2 { return Ok(()); }
            f.ext(x, bl)
        } else {
            if [0x2C, 0x21].contains(&x) { return Ok(()); } // sequences of real blocks: below
            f.unknown(x, bl)
        };
        cmp_infos(c, &b.img(&small(2)).end(), &PLAIN)
    }));
    let p = g4.clone();
    v.push(Exploration::new("loop-count", "loop extension: all 65536 counts; every byte of the name and the sub-block id replaced by every value; short data", move |c| {
        let f = File::new(2, 2, Some(&p));
        let f = match c.choose(3) {
            0 => f.netscape(c.choose(65536) as u16),
            1 => {
                let mut n = *b"NETSCAPE2.0";
                let mut d = [1u8, 5, 0];
                let at = c.choose(12);
                let x = c.choose(256) as u8;
                if at < 11 { n[at] = x } else { d[0] = x }
                f.ext(0xFF, &[&n, &d])
            }
            _ => {
                let d = [1u8, 5];
                let k = c.choose(3);
                let n = c.choose(12);
                let label = *c.pick(&[0xFF, 0xFE, 0x01]);
                if n == 0 && k > 0 { return Ok(()); }
                let bl: Vec<&[u8]> = match (n, k) { (0, _) => vec![], (n, 0) => vec![&b"NETSCAPE2.0"[..n]], (n, k) => vec![&b"NETSCAPE2.0"[..n], &d[..k]] };
                f.ext(label, &bl)
            }
        };
        let b = if c.flag() { f.ext(0xFE, &[b"NETSCAPE2.0", b"\x01\x09\x09"]).img(&small(1)).end() } else { f.img(&small(1)).netscape(9).img(&small(2)).end() };
        cmp_infos(c, &b, &PLAIN)
    }));
    v.push(Exploration::new("options", "every seed, history, larger and long file under each of 64 sets of other options, read in 4 ways and as frame information only, whole and in pieces of 11", |c| {
        use super::dec_hist::{files_all, long_files};
        let k = c.choose(files_all().len() + 2);
        let b = if k < 2 { &long_files()[k] } else { &files_all()[k - 2] };
        let o = PLAIN.with(c.choose(SETS));
        if !applies(b, &o) { return Ok(()); }
        match c.choose(4) {
            0 => cmp_infos(c, b, &o),
            1 => cmp(c, b, &o, &Style::Next),
            2 => cmp(c, b, &o, &Style::Fill(vec![7, 100])),
            _ => {
                let obs = decode(Script::new(b, |_, _| Ans::Give(11)), &o, &Style::Iter)?;
                c.obs(&obs);
                c.note("file", || hex(b));
                c.note("options", || format!("{o:?}, pieces of 11"));
                c.validated(1);
                check(&obs, &expect(b, &o), b)
            }
        }
    }));
    let depth = t.sel(4, 5);
    v.push(Exploration::new("sequences", "all sequences of blocks (14 kinds, 4 of them errors) up to length 4 (thorough: 5), with and without global palette", move |c| {
        let gp = pal(4, 1);
        let g = c.flag();
        let mut f = File::new(3, 3, g.then_some(&gp[..]));
        for n in 0..depth {
            f = match c.choose(15) {
                0 => break,
                1 => f.gce(0b0_010_0_1 << 1 | 1, 3, 1),
                2 => f.gce(0b0000_1110, 500, 7),
                3 => f.ext(0xFE, &[b"abcd", b"e"]),
                4 => f.netscape(5),
                5 => f.netscape(0),
                6 => f.ext(0xFF, &[b"XMP DataXMP", b"\x01\x02\x03"]),
                7 => f.ext(0x01, &[&[7; 12], b"t"]),
                8 => f.img(&small(n).pal(pal(4, n))),
                9 => f.img(&small(n + 10).il().at(n.into(), 7)),
                10 => f.ext(0xFE, &[]),
                11 => { f = f.img(&Img { mcs: 12, ..small(1).pal(pal(2, 3)) }); break }
                12 => { f = f.unknown(0x99, &[b"abcd"]); break }
                13 => { f = f.ext(0xFA, &[b"abcd"]); break }
                _ => { f = f.ext(0xF9, &[b"abcde"]); break }
            };
        }
        // after an erroneous block: something that would decode
        let b = f.img(&small(20).pal(pal(2, 2))).end();
        cmp_infos(c, &b, &PLAIN)?;
        cmp(c, &b, &PLAIN, &Style::Next)
    }));
    v.push(Exploration::new("all-fields", "one image with every combination of 9 control flags (or none), 4 delays, 3 transparent indices, 8 positions, 8 sizes, interlacing, 4 local palettes, 2 global palettes, a comment in between or not, then a plain image", |c| {
        let gp = c.flag();
        let gpal = pal(8, 3);
        let mut f = File::new(300, 4, gp.then_some(&gpal[..]));
        let k = c.choose(10);
        if k > 0 {
            let fl = [0x00u8, 0x01, 0x05, 0x09, 0x0D, 0x02, 0x0B, 0xE1, 0x1C][k - 1];
            f = f.gce(fl, c.of(&[0, 1, 0x0100, 0xFFFF]), c.of(&[0, 7, 255]));
            if c.flag() { f = f.ext(0xFE, &[b"x"]); }
        }
        let (w, h) = c.of(&[(1, 1), (2, 3), (0, 1), (1, 0), (255, 1), (256, 2), (1, 257), (65535, 1)]);
        let (l, t) = c.of(&[(0, 0), (1, 0), (0, 1), (255, 256), (256, 255), (65535, 0), (0, 65535), (65535, 65535)]);
        let mut i = Img { w, h, ..Img::raw(0, 0, 2, vec![0x44, 0x01]) }.at(l, t);
        i.interlaced = c.flag();
        i.lpal = match c.choose(4) { 0 => None, 1 => Some(pal(2, 7)), 2 => Some(pal(16, 8)), _ => Some(pal(256, 9)) };
        let b = f.img(&i).img(&small(1)).end();
        cmp_infos(c, &b, &PLAIN)
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images, with one of 2 global palettes or none", |c| {
        let b = pick_pool(c);
        cmp_infos(c, &b, &PLAIN)
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; 8 sets of other options by turns", |c| {
        let (k, b) = pick_head(c);
        let o = PLAIN.with(k * 9 % SETS);
        cmp_infos(c, &b, &PLAIN)?;
        if applies(&b, &o) { cmp_infos(c, &b, &o)? }
        Ok(())
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: metadata by next_frame_info or with the pixels"), |c| {
        let (_, b) = pick_count(c);
        let o = PLAIN.unknown();
        if c.flag() { return cmp_infos(c, &b, &o); }
        cmp(c, &b, &o, &Style::Next)
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: metadata by next_frame_info, the pixels read, or raw"), |c| {
        let (_, b, _) = pick_combo(c);
        match c.choose(3) { 0 => cmp_infos(c, &b, &PLAIN), 1 => cmp(c, &b, &PLAIN, &Style::Next), _ => cmp(c, &b, &PLAIN.skip(), &Style::Next) }
    }));
    v
}

fn c13(t: Tier) -> Vec<Exploration> {
    fn one(c: &Ctx, sw: u16, sh: u16, l: u16, tp: u16, w: u16, h: u16) -> Res {
        let p = pal(4, 1);
        let i = Img { left: l, top: tp, w, h, ..Img::raw(0, 0, 2, vec![0x04, 0x05]) };
        let b = File::new(sw, sh, Some(&p)).img(&Img::pat(0, 0, 2, 1)).img(&i).img(&Img::raw(0, 0, 2, vec![0x2C])).end();
        cmp_infos(c, &b, &PLAIN)?;
        cmp_infos(c, &b, &Opts { consistency: true, ..PLAIN })?;
        Ok(())
    }
    let mut v = vec![];
    let k = t.sel(5, 7);
    v.push(Exploration::new("grid", "all combinations of screen, position and size in 0..5 (thorough 0..7) in one dimension x a fitting, a touching and an overlapping other dimension", move |c| {
        let (s, l, w) = (c.choose(k) as u16, c.choose(k) as u16, c.choose(k) as u16);
        let (s2, l2, w2) = c.of(&[(4u16, 0u16, 4u16), (4, 2, 2), (4, 1, 4), (0, 0, 0), (0, 1, 0)]);
        if c.flag() { one(c, s, s2, l, l2, w, w2) } else { one(c, s2, s, l2, l, w2, w) }
    }));
    let big: Vec<u16> = { let mut b: Vec<u16> = vec![0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFEFF, 0xFF00, 0xFFFD, 0xFFFE, 0xFFFF]; if t.t() { b.extend([4, 5, 0xFF, 0x100, 0x3FFF, 0x4000, 0xBFFF, 0xC000, 0xFFFC, 0x0FFF, 0x1000]) } b };
    v.push(Exploration::new("boundaries", "all triples of boundary values (19, thorough 30) for screen, position and size, in each dimension", move |c| {
        let (s, l, w) = (c.of(&big), c.of(&big), c.of(&big));
        if c.flag() { one(c, s, 5, l, 0, w, 5) } else { one(c, 5, s, 0, l, 5, w) }
    }));
    v.push(Exploration::new("sweep", "all 65536 positions, sizes and screen sizes against fixed others, in each dimension", move |c| {
        let x = c.choose(65536) as u16;
        let (s, l, w) = match c.choose(4) { 0 => (x, 100, 200), 1 => (40000, x, 300), 2 => (40000, 300, x), _ => (x, x, 1) };
        if c.flag() { one(c, s, 5, l, 0, w, 5) } else { one(c, 5, s, 0, l, 5, w) }
    }));
    v.push(Exploration::new("pixels", "frames inside, touching and outside the screen decode (or are refused) identically in every reading style, under each of 64 sets of other options, and raw", |c| {
        let (l, tp, w, h) = (c.choose(4) as u16, c.choose(4) as u16, c.range(1, 4) as u16, c.range(1, 4) as u16);
        let p = pal(4, 1);
        let mut i = Img::pat(w, h, 2, 9).at(l, tp);
        i.interlaced = c.flag();
        let b = File::new(4, 4, Some(&p)).img(&Img::pat(4, 4, 2, 1)).img(&i).img(&Img::pat(2, 1, 2, 3)).end();
        let o = PLAIN.with(c.choose(SETS));
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Fill(vec![3])]).clone();
        cmp(c, &b, &o, &st)?;
        cmp(c, &b, &PLAIN.skip().with(if o.consistency { 2 } else { 0 } | if o.unknown { 4 } else { 0 }), &Style::Next)
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: frame consistency checked, the last image inside of the screen or not"), |c| {
        let (_, mut b) = pick_count(c);
        if c.flag() { let i = b.windows(10).rposition(|w| w[..9] == [0x2C, 0, 0, 0, 0, 3, 0, 5, 0]).ok_or("harness: no last image")?; b[i + 2] = 1; }
        cmp(c, &b, &Opts { consistency: true, ..PLAIN.unknown() }, &Style::Next)
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: frame consistency checked or not, metadata only, pixels, raw"), |c| {
        let (_, b, _) = pick_combo(c);
        let o = Opts { consistency: c.flag(), ..PLAIN };
        match c.choose(3) { 0 => cmp_infos(c, &b, &o), 1 => cmp(c, &b, &o, &Style::Next), _ => cmp(c, &b, &o.skip(), &Style::Next) }
    }));
    v
}

fn c14(t: Tier) -> Vec<Exploration> {
    // Blocks of a base file; unknown blocks go between any two of them.
    fn bases() -> Vec<Vec<Vec<u8>>> {
        let p = pal(4, 1);
        let fr = |f: File| f.b;
        let e = || File { b: vec![] };
        vec![
            vec![fr(File::new(3, 3, Some(&p))), fr(e().netscape(6)), fr(e().gce(5, 44, 2)), fr(e().img(&small(1))), fr(e().ext(0xFE, &[b"cmt"])), fr(e().gce(0x0E, 45, 1)), fr(e().ext(0xFF, &[b"XMP DataXMP", b"zz"])), fr(e().img(&small(2).il().pal(p.clone()))), vec![0x3B]],
            vec![fr(File::new(3, 3, None)), fr(e().gce(1, 9, 3)), fr(e().img(&small(1).pal(p.clone()))), fr(e().img(&small(5).pal(p.clone()))), vec![0x3B]],
            vec![fr(File::new(3, 3, Some(&p))), vec![0x3B]],
        ]
    }
    fn same(c: &Ctx, with: &[u8], without: &[u8], o: &Opts, st: &Style) -> Res {
        c.note("file", || hex(with));
        c.note("without", || hex(without));
        c.note("options", || format!("{o:?} {st:?}"));
        let a = decode(with, o, st)?;
        let b = decode(without, &Opts { unknown: false, ..o.clone() }, st)?;
        c.obs(&a);
        c.steps(2);
        if b.end != End::Done { return Err(format!("the base file does not decode: {:?}", b.end)); }
        if a != b { return Err(format!("decoding with unknown blocks gives {a:?}\ninstead of {b:?}")); }
        let e = expect(with, o);
        check(&a, &e, with)?;
        c.validated(1);
        // by default an error, after the earlier frames
        let d = Opts { unknown: false, ..o.clone() };
        let x = decode(with, &d, st)?;
        if x.end == End::Done { return Err("unknown block accepted by default".into()); }
        check(&x, &expect(with, &d), with)?;
        c.validated(1);
        Ok(())
    }
    let mut v = vec![];
    v.push(Exploration::new("introducers", "all 253 unknown introducers x every position in 3 base files x 4 contents", |c| {
        let b = c.pick(&bases()).clone();
        let at = c.range(1, b.len() - 1);
        let x = c.choose(256) as u8;
        if [0x2C, 0x21, 0x3B].contains(&x) { return Ok(()); }
        let bl: &[&[u8]] = *c.pick::<&[&[u8]]>(&[&[], &[b"\x07\x01\x02\x03"], &[b"NETSCAPE2.0", b"\x01\x02\x03"], &[b"\x00"]]);
        let with = [b[..at].concat(), File { b: vec![] }.unknown(x, bl).b, b[at..].concat()].concat();
        same(c, &with, &b.concat(), &PLAIN.unknown(), &Style::Next)
    }));
    v.push(Exploration::new("contents", "sub-block sizes 1..=255 (first), contents of one repeated byte for the 8 structural bytes, every position, all reading styles", move |c| {
        let b = c.pick(&bases()).clone();
        let at = c.range(1, b.len() - 1);
        let n = c.range(1, 255);
        let fill = c.of(&[0x00u8, 0x2C, 0x21, 0x3B, 0xF9, 0xFF, 0x04, 0x01]);
        let data = vec![fill; n];
        let two: Vec<&[u8]> = vec![&data, &data[..n.min(5)]];
        let with = [b[..at].concat(), File { b: vec![] }.unknown(0x7F, if n % 2 == 0 { &two } else { &two[..1] }).b, b[at..].concat()].concat();
        let st = if t.t() { c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Fill(vec![1])]).clone() } else { Style::Next };
        same(c, &with, &b.concat(), &PLAIN.unknown(), &st)
    }));
    let k = t.sel(2, 3);
    v.push(Exploration::new("several", "up to 2 (thorough 3) unknown blocks at all positions, 5 contents each, indexed and RGBA and raw", move |c| {
        let b = c.pick(&bases()).clone();
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip()]).clone().unknown();
        let mut left = k;
        let mut with = b[0].clone();
        for x in &b[1..] {
            while left > 0 {
                let q = c.choose(6);
                if q == 0 { break; }
                left -= 1;
                let f = File { b: vec![] };
                with.extend(match q {
                    1 => f.unknown(0x00, &[]),
                    2 => f.unknown(0x21 ^ 0x80, &[b"\x05\x01\x00\x02"]),
                    3 => f.unknown(0xF9, &[b"\x01\x02\x03\x04"]),
                    4 => f.unknown(0xFF, &[b"NETSCAPE2.0", b"\x01\x09\x00"]),
                    _ => f.unknown(0x04, &[b";,!", b"\x00", b"\x3b\x00"]),
                }.b);
            }
            with.extend(x);
        }
        if left == k { return Ok(()); }
        same(c, &with, &b.concat(), &o, &Style::Next)
    }));
    v.push(Exploration::new("options", "an unknown block at every position, 5 contents, under each of 64 sets of other options, raw or not, 4 styles", |c| {
        let b = c.pick(&bases()).clone();
        let at = c.range(1, b.len() - 1);
        let f = File { b: vec![] };
        let with = [b[..at].concat(), match c.choose(5) {
            0 => f.unknown(0x00, &[]), 1 => f.unknown(0xA1, &[b"\x05\x01\x00\x02"]), 2 => f.unknown(0xF9, &[b"\x01\x02\x03\x04"]), 3 => f.unknown(0xFF, &[b"NETSCAPE2.0", b"\x01\x09\x00"]), _ => f.unknown(0x3A, &[&[0x3B; 255], &[0x2C; 255], &[0x21; 3]]),
        }.b, b[at..].concat()].concat();
        let o = if c.flag() { PLAIN.skip() } else { PLAIN }.with(c.choose(SETS)).unknown();
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Fill(vec![3])]).clone();
        same(c, &with, &b.concat(), &o, &st)
    }));
    v.push(Exploration::new("long", "unknown blocks of 1000, 9000 and 70 000 bytes (in sub-blocks of 255, 1 and 100) and 1 to 300 unknown blocks in a row, at every position, in pieces of 1, 1000 and all bytes", |c| {
        let b = c.pick(&bases()).clone();
        let at = c.range(1, b.len() - 1);
        let mut f = File { b: vec![] };
        if c.flag() {
            let d = vec![c.of(&[0x3Bu8, 0x00]); c.of(&[1000, 9000, 70_000])];
            let bl: Vec<&[u8]> = d.chunks(c.of(&[255, 1, 100])).collect();
            f = f.unknown(0x55, &bl);
        } else {
            for i in 0..c.of(&[1u16, 2, 3, 255, 256, 257, 300]) { f = f.unknown((i % 30) as u8, &[&[i as u8; 3]]); }
        }
        let with = [b[..at].concat(), f.b, b[at..].concat()].concat();
        let o = PLAIN.unknown();
        let k = c.of(&[usize::MAX, 1000, 1]);
        c.note("case", || format!("at block {at}, {} bytes, pieces of {k}", with.len()));
        let a = decode(Script::new(&with, |_, _| Ans::Give(k)), &o, &Style::Next)?;
        let e = decode(&b.concat()[..], &PLAIN, &Style::Next)?;
        c.obs(&a);
        c.validated(1);
        if a != e { return Err(format!("{a:?}\ninstead of {e:?}")); }
        Ok(())
    }));
    let w = t.sel(2, 3);
    v.push(Exploration::new("delivery", "an unknown block delivered with every pair (thorough: triple) of split points of the file", move |c| {
        let b = c.pick(&bases()[..2]).clone();
        let at = c.range(1, b.len() - 1);
        let with = [b[..at].concat(), File { b: vec![] }.unknown(0x42, &[b"\x07\x01\x02\x03", b"x"]).b, b[at..].concat()].concat();
        let lo = b[..at].concat().len();
        // split points in and around the unknown block
        let mut pts: Vec<usize> = (0..w).map(|_| lo - 1 + c.choose(14)).collect();
        pts.sort();
        let o = PLAIN.unknown();
        let a = decode(Script::new(&with, |p, _| Ans::Give(pts.iter().find(|&&x| x > p).map_or(usize::MAX, |x| x - p))), &o, &Style::Next)?;
        c.note("file", || hex(&with));
        c.note("splits", || format!("{pts:?}"));
        c.obs(&a);
        let mut e = decode(&b.concat()[..], &PLAIN, &Style::Next)?;
        e.rest = a.rest.clone();
        c.validated(1);
        if a != e { return Err(format!("{a:?}\ninstead of {e:?}")); }
        Ok(())
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images with an unknown block in front of, between or behind them (5 places by turns), 2 styles, indexed, RGBA and raw by turns", |c| {
        let p = pool();
        let (x, y) = (c.choose(p.len()), c.choose(p.len()));
        let g = pal(8, 1);
        let f = || File { b: vec![] };
        let im = |i: usize| -> Vec<Vec<u8>> { let mut v = vec![]; if let Some((a, b, c)) = p[i].0 { v.push(f().gce(a, b, c).b); } v.push(f().img(&p[i].1).b); v };
        let mut parts = vec![File::new(9, 9, Some(&g)).b];
        parts.extend(im(x));
        parts.extend(im(y));
        parts.push(vec![0x3B]);
        let at = 1 + (x * 3 + y) % (parts.len() - 1);
        let u = f().unknown(c.of(&[0x00, 0xF9, 0x40]), &[&[0x3B, 0x2C, 0x21], &[0xFF; 20]]).b;
        let with = [parts[..at].concat(), u, parts[at..].concat()].concat();
        let o = [PLAIN, PLAIN.rgba(), PLAIN.skip()][(x + 2 * y) % 3].clone().unknown();
        let st = c.pick(&[Style::Next, Style::Fill(vec![5])]).clone();
        same(c, &with, &parts.concat(), &o, &st)
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), 11 things behind the trailer, an unknown block before or behind the image, 2 styles", |c| {
        let i = c.choose(heads().len());
        let t = c.choose(tails().len());
        let without = head_n(i, t, false);
        let (at, u) = (c.flag(), File { b: vec![] }.unknown(c.of(&[0x00, 0x2D, 0xFF]), &[&[0x3B, 0x2C, 0x21], &[0; 9]]).b);
        let at = if at { heads()[i].b.len() } else { without.len() - 1 - tails()[t].len() };
        let with = [&without[..at], &u[..], &without[at..]].concat();
        let o = [PLAIN, PLAIN.rgba(), PLAIN.skip()][(i + t) % 3].clone().unknown();
        let st = c.pick(&[Style::Next, Style::Iter]).clone();
        same(c, &with, &without, &o, &st)
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: unknown blocks accepted or not"), |c| {
        let (_, b) = pick_count(c);
        cmp(c, &b, &if c.flag() { PLAIN.unknown() } else { PLAIN }, &Style::Next)
    }).cpu(60.0));
    v
}

fn c16(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    let files = || good_seeds();
    let depth = t.sel(3, 5);
    v.push(Exploration::new("after-the-end", "every good seed file read to the end in every style and option set, then all call histories of length 3 (thorough 5)", move |c| {
        let (_, b) = c.pick(&files()).clone();
        let k = c.choose(2 + SETS / 4);
        let o = if k < 2 { PLAIN.skip().with(k * 14) } else { PLAIN.with(k - 2) };
        if !applies(&b, &o) { return Ok(()); }
        let st = c.pick(&[Style::Next, Style::Into(0), Style::Fill(vec![2])]).clone();
        c.note("file", || hex(&b));
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        let e = expect(&b, &o);
        if !matches!(e.gif.stop, Stop::Trailer(_)) { return Ok(()); } // a frame outside of its screen
        for i in 0.. {
            match read_frame(&mut d, &o, &st)? {
                Ok(Some(f)) => if e.frames.get(i) != Some(&f) { return Err(format!("frame {i} differs: {f:?} instead of {:?}", e.frames.get(i))); },
                Ok(None) => { if i != e.frames.len() { return Err(format!("{i} frames instead of {}", e.frames.len())); } break }
                Err(x) => return Err(format!("frame {i}: error {x:?}")),
            }
        }
        c.validated(1);
        let mut into_iter = false;
        for _ in 0..depth {
            let what = c.choose(4);
            let r = match what {
                0 => d.next_frame_info().map(|x| x.is_some()),
                1 => d.read_next_frame().map(|x| x.is_some()),
                2 => { into_iter = true; break }
                _ => break,
            };
            c.obs(&(what, r.is_ok()));
            match r { Ok(false) => {}, Ok(true) => return Err("a frame after the end".into()), Err(x) => return Err(format!("error after the end: {x:?}")) }
        }
        let Stop::Trailer(p) = e.gif.stop else { unreachable!() };
        let r = if into_iter {
            let mut it = d.into_iter();
            for _ in 0..3 { if let Some(x) = it.next() { return Err(format!("the iterator yields {x:?} after the end")); } }
            rest(it.into_inner())
        } else { rest(d.into_inner()) };
        if r != b[p..] { return Err(format!("the reader continues with {} instead of {}", hex(&r), hex(&b[p..]))); }
        Ok(())
    }));
    v.push(Exploration::new("iterator", "every seed file (good and bad) through the iterator, also with trailing garbage: frames, at most one error, then nothing", |c| {
        let (name, mut b) = c.pick(&seeds()).clone();
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.unknown()]).clone();
        if c.flag() { b.extend_from_slice(b"\x2c\x00GIF89a\x3b\x3b"); }
        c.note("file", || format!("{name} {}", hex(&b)));
        let Ok(d) = o.build().read_info(&b[..]) else { return Ok(()) };
        let e = expect(&b, &o);
        let mut it = d.into_iter();
        let mut over = false;
        let mut frames = 0;
        for i in 0..e.frames.len() + 12 {
            let x = it.next();
            c.obs(&(i, x.is_some(), x.as_ref().map_or(false, |r| r.is_ok())));
            match x {
                _ if over && x.is_some() => return Err(format!("the iterator yields {x:?} after it ended")),
                None => over = true,
                Some(Err(_)) => over = true,
                Some(Ok(f)) => {
                    if let Some(w) = e.frames.get(frames) { if w.1 != f.buffer[..] || w.0 != meta_of(&f) { return Err(format!("frame {frames} differs")); } }
                    frames += 1;
                }
            }
        }
        if frames < e.frames.len() { return Err(format!("{frames} frames instead of {}", e.frames.len())); }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("no-frames", "images without any frame: 0 to 3 extensions, with and without palette, every trailing length 0..=20, delivered whole and byte by byte", |c| {
        let gp = pal(2, 1);
        let mut f = File::full(c.pick(&[b"GIF89a", b"GIF87a"]).as_slice(), 3, 4, c.flag().then_some(&gp[..]), 0, 0, 0);
        for _ in 0..3 {
            f = match c.choose(5) { 0 => break, 1 => f.netscape(3), 2 => f.gce(1, 2, 3), 3 => f.ext(0xFE, &[b"a"]), _ => f.ext(0xFE, &[]) };
        }
        let mut b = f.end();
        let n = c.choose(21);
        b.extend(std::iter::repeat(c.of(&[0x3Bu8, 0x00, 0x2C])).take(n));
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(0)]).clone();
        if c.flag() {
            c.note("file", || hex(&b));
            let obs = decode(Script::new(&b, |_, _| Ans::Give(1)), &PLAIN, &st)?;
            c.obs(&obs);
            check(&obs, &expect(&b, &PLAIN), &b)
        } else { cmp(c, &b, &PLAIN, &st) }
    }));
    v.push(Exploration::new("zero-area", "all sequences of up to 4 frames out of 0x0, 0x2, 3x0, 2x2 frames (interlaced or not, with data or none), all styles", |c| {
        let gp = pal(4, 1);
        let mut f = File::new(3, 4, Some(&gp));
        let il = c.flag();
        for n in 0..4u8 {
            let q = c.choose(6);
            if q == 0 { break; }
            let mut i = match q { 1 => Img::pat(0, 0, 2, 1), 2 => Img::pat(0, 2, 2, 1), 3 => Img::pat(3, 0, 2, 1), 4 => Img::raw(0, 2, 2, vec![]), _ => Img::pat(2, 2, 2, n) };
            i.interlaced = il;
            f = f.gce(1, n.into(), 2).img(&i);
        }
        let b = f.end();
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip()]).clone();
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Into(3), Style::Fill(vec![1, 2])]).clone();
        cmp(c, &b, &o, &st)
    }));
    let step = t.sel(1, 1);
    v.push(Exploration::new("trailing-data", "trailing data of length 0..=300 and around the 8 KiB read buffer; the trailer at every offset around the buffer boundary", move |c| {
        let gp = pal(4, 1);
        let img = Img::pat(3, 3, 2, 7);
        let mk = |pad: usize| {
            // comment blocks to move the trailer
            let mut f = File::new(3, 4, Some(&gp)).img(&img);
            let mut left = pad;
            while left > 0 {
                let n = left.min(200);
                f = f.ext(0xFE, &[&vec![b'x'; n][..]]);
                left -= n;
            }
            f.end()
        };
        let b = match c.choose(3) {
            0 => { let mut b = mk(0); b.extend(vec![0xEE; c.choose(301)]); b }
            1 => { let mut b = mk(0); let n = 8192 - b.len() - 20 + c.choose(41) * step; b.extend(vec![0x3B; n]); b }
            _ => { let mut b = mk(7800 + c.choose(260)); b.extend(b"\x3btail"); b }
        };
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(0)]).clone();
        cmp(c, &b, &PLAIN, &st)
    }));
    let _ = (lzw::encode(2, &[0], STD), 0);
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images, with data behind the trailer: through the iterator and read_next_frame, indexed, RGBA and raw by turns", |c| {
        let n = pool().len();
        let (x, y) = (c.choose(n), c.choose(n));
        let mut b = pool_file(x, y, x % 2);
        b.extend_from_slice(b"\x2c\x00\x3b");
        let o = [PLAIN, PLAIN.rgba(), PLAIN.skip()][(x + 2 * y) % 3].clone();
        cmp(c, &b, &o, &if c.flag() { Style::Iter } else { Style::Next })
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; through the iterator and read_next_frame, indexed, RGBA and raw", |c| {
        let (k, b) = pick_head(c);
        let o = [PLAIN, PLAIN.rgba(), PLAIN.skip()][k % 3].clone();
        cmp(c, &b, &o, &if c.flag() { Style::Iter } else { Style::Next })
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: all frames, nothing more, and the reader behind the trailer, through the iterator and read_into_buffer"), |c| {
        let (_, b) = pick_count(c);
        cmp(c, &b, &PLAIN.unknown(), &if c.flag() { Style::Iter } else { Style::Into(0) })
    }).cpu(60.0));
    v.push(Exploration::new("adaptors", "every good seed file through the iterator by every sequence of 3 out of 9 calls (next, nth, take, skip, step_by, size_hint, find), then collected, counted, the last one asked for or the reader recovered, 4 option sets: the same as calling next", |c| {
        let (_, b) = c.pick(good_seeds()).clone();
        let o = c.pick(&[PLAIN, PLAIN.rgba(), PLAIN.skip(), PLAIN.endcode()]).clone();
        if !applies(&b, &o) { return Ok(()); }
        c.note("file", || hex(&b));
        let all: Vec<(Meta, Vec<u8>)> = expect(&b, &o).frames;
        let mut it = o.build().read_info(&b[..]).map_err(|e| err("open", e))?.into_iter();
        let mut p = 0usize;
        let mut calls = vec![];
        type F = Option<Result<gif::Frame<'static>, gif::DecodingError>>;
        let same = |x: F, want: Option<&(Meta, Vec<u8>)>, what: &str| -> Res {
            match (x, want) {
                (None, None) => Ok(()),
                (Some(Ok(f)), Some(w)) if meta_of(&f) == w.0 && f.buffer[..] == w.1 => Ok(()),
                (x, w) => Err(format!("{what}: {x:?} instead of {w:?}").chars().take(1500).collect()),
            }
        };
        for _ in 0..3 {
            let k = c.choose(9);
            calls.push(k);
            match k {
                0 => { same(it.next(), all.get(p), "next")?; p += 1 }
                1..=3 => { same(it.nth(k - 1), all.get(p + k - 1), "nth")?; p += k }
                4 => { let x: Vec<_> = it.by_ref().take(2).collect(); if x.len() != all.len().saturating_sub(p).min(2) { return Err(format!("take(2) gives {}", x.len())); } for y in x { same(Some(y), all.get(p), "take")?; p += 1 } }
                5 => { same(it.by_ref().skip(1).next(), all.get(p + 1), "skip")?; p += 2 }
                6 => { let mut s = it.by_ref().step_by(2); same(s.next(), all.get(p), "step_by")?; same(s.next(), all.get(p + 2), "step_by")?; p += 3 }
                7 => { let (lo, hi) = it.size_hint(); let left = all.len().saturating_sub(p); if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("size_hint {lo} {hi:?} with {left} frames left")); } }
                _ => { same(it.find(|x| x.is_ok()), all.get(p), "find")?; p += 1 }
            }
        }
        let left = all.len().saturating_sub(p);
        let k = c.choose(4);
        c.note("calls", || format!("{calls:?} then {k}, {o:?}"));
        match k {
            0 => { let x: Vec<_> = it.collect(); if x.len() != left { return Err(format!("collect gives {} frames instead of {left}", x.len())); } for y in x { same(Some(y), all.get(p), "collect")?; p += 1 } }
            1 => { let n = it.count(); if n != left { return Err(format!("count gives {n} instead of {left}")); } }
            2 => same(it.last(), if left > 0 { all.last() } else { None }, "last")?,
            _ => {
                for x in it.by_ref() { same(Some(x), all.get(p), "for")?; p += 1 }
                if let Some(x) = it.next() { return Err(format!("{x:?} after the end")); }
                let Stop::Trailer(e) = model::parse(&b, &o.ropts()).stop else { return Err("harness: bad file".into()) };
                let r = rest(it.into_inner());
                if r != b[e..] { return Err("the reader continues elsewhere".into()); }
            }
        }
        c.obs(&(p, calls, k));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("adaptors-after-an-error", "every seed file, and good ones with one read call out of 60 failing, read byte by byte through the iterator until it ends, then every 3 of 5 calls (next, nth 0 to 2, last): nothing comes", |c| {
        let faulty = c.flag();
        let b = if faulty { c.pick(good_seeds()).1.clone() } else { c.pick(seeds()).1.clone() };
        let at = if faulty { c.choose(60) } else { usize::MAX };
        c.note("file", || format!("read call {at} fails, {}", hex(&b)));
        let Ok(d) = PLAIN.build().read_info(Script::new(&b, |_, i| if i == at { Ans::Fail(std::io::ErrorKind::Other) } else { Ans::Give(1) })) else { return Ok(()) };
        let mut it = d.into_iter();
        let mut n = 0;
        let mut failed = false;
        loop {
            n += 1;
            match it.next() { Some(Ok(_)) => {}, Some(Err(_)) => { failed = true; break }, None => break }
            if n > 1000 { return Err("the iterator does not end".into()); }
        }
        for _ in 0..2 {
            let x = match c.choose(4) { 0 => it.next(), k => it.nth(k - 1) };
            if let Some(x) = x { return Err(format!("{x:?} after the end").chars().take(600).collect()); }
        }
        if c.flag() { if let Some(x) = it.last() { return Err(format!("last is {x:?} after the end").chars().take(600).collect()); } } else if it.count() != 0 { return Err("counts more after the end".into()); }
        c.obs(&(n, failed));
        c.validated(1);
        c.outcome(if failed { "error" } else { "complete" });
        Ok(())
    }));
    v
}
