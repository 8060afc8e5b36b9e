//! C04 LZW, C05 interlacing, C06 RGBA, C07 reading styles.
use super::*;
use crate::drive::*;
use crate::engine::Exploration;
use crate::genr::*;
use crate::lzw::{self, Packer, Strat, STD};
use crate::model::{self, deinterlace};
use crate::{CheckInfo, Tier};
use gif::streaming_decoder::FrameDecoder;
use gif::{ColorOutput, DecodeOptions, Frame, MemoryLimit};
use std::borrow::Cow;
use std::sync::OnceLock;

pub fn checks() -> Vec<CheckInfo> {
    vec![
        CheckInfo { id: "C04", level: "model_checking", rule: "every execution decodes one code sequence in a file and with the frame decoder and compares with the reference LZW decoder", assumptions: &["minimum code size 1 and literals above 255 (code sizes 9 to 11) are only required not to crash (C01)"], build: c04 },
        CheckInfo { id: "C05", level: "model_checking", rule: "every execution decodes one image of given width and height and compares every row with the specification's row order", assumptions: &[], build: c05 },
        CheckInfo { id: "C06", level: "model_checking", rule: "every execution decodes an image holding every index and compares with the palette lookup", assumptions: &[], build: c06 },
        CheckInfo { id: "C07", level: "model_checking", rule: "every execution reads the same image in one style or one sequence of buffer sizes and compares with the reference pixels", assumptions: &["what a call returns after fill_buffer returned false is not specified"], build: c07 },
    ]
}

pub fn frame_dec(o: &Opts) -> FrameDecoder { FrameDecoder::new(o.build()) }
pub fn lzw_frame(w: u16, h: u16, interlaced: bool, mcs: u8, data: &[u8]) -> Frame<'static> {
    let mut b = vec![mcs];
    b.extend_from_slice(data);
    Frame { width: w, height: h, interlaced, buffer: Cow::Owned(b), ..Frame::default() }
}

/// The same compressed data in a file (styles) and in the frame decoder.
fn lzw_case(c: &Ctx, mcs: u8, data: &[u8], w: u16, h: u16, split: Split, styles: &[Style]) -> Res {
    static G: OnceLock<Vec<u8>> = OnceLock::new();
    let g = G.get_or_init(|| pal(2, 1));
    let i = Img::raw(w, h, mcs, data.to_vec()).split(split);
    // a second frame: nothing may spill over
    let b = File::new(w, h, Some(g)).img(&i).img(&Img::raw(2, 1, 2, vec![0x0C, 0x0A])).end();
    for s in styles { cmp(c, &b, &PLAIN, s)?; }
    let o = lzw::decode(mcs, data, w as usize * h as usize);
    let n = w as usize * h as usize;
    let want = (o.pixels.len() >= n).then(|| &o.pixels[..n]);
    let mut f = lzw_frame(w, h, false, mcs, data);
    match (frame_dec(&PLAIN).decode_lzw_encoded_frame(&mut f), want) {
        (Ok(()), Some(p)) if f.buffer[..] == *p => {}
        (Ok(()), Some(p)) => return Err(diff("frame decoder", &f.buffer, p)),
        (Ok(()), None) => return Err(format!("the frame decoder made up pixels: {}", hex(&f.buffer))),
        (Err(e), Some(_)) => return Err(format!("the frame decoder fails: {e}")),
        (Err(_), None) => {}
    }
    c.validated(1);
    Ok(())
}
fn both() -> [Style; 2] { [Style::Next, Style::Fill(vec![1])] }

fn c04(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    let depth = t.sel(5, 6);
    v.push(Exploration::new("all-codes-2", "code size 2: every sequence of up to 5 (thorough 6) codes out of all values of the current width, ended by an undefined or end code, image one smaller, equal and one larger than the data", move |c| {
        let mut p = Packer::new(2);
        let mut seq = vec![];
        for _ in 0..depth {
            let x = c.choose((1 << p.width) + 1);
            if x == 0 { break; }
            let code = (x - 1) as u16;
            p.push(code);
            seq.push(code);
            if code == 5 || usize::from(code) > p.next { break; }
        }
        c.note("codes", || format!("{seq:?}"));
        sizes(c, 2, &p.finish(), Split::Max, t)
    }));
    let depth = t.sel(5, 6);
    v.push(Exploration::new("edge-codes", "code sizes 2..=11: every sequence of up to 5 (thorough 6) codes out of 0, 1, largest literal (at most 255), clear, end, last, next and undefined, in one sub-block and in sub-blocks of 1", move |c| {
        let mcs = c.range(2, 11) as u8;
        let split = c.of(&[Split::Max, Split::Each(1)]);
        let mut p = Packer::new(mcs);
        let mut seq = vec![];
        let clear = 1u16 << mcs;
        for _ in 0..depth {
            let next = p.next as u16;
            let code = match c.choose(9) { 0 => break, 1 => 0, 2 => 1, 3 => (clear - 1).min(255), 4 => clear, 5 => clear + 1, 6 => next - 1, 7 => next, _ => next + 1 };
            if usize::from(code) >= 1 << p.width { break; }
            p.push(code);
            seq.push(code);
            if code == clear + 1 { break; }
        }
        c.note("codes", || format!("code size {mcs} {seq:?}"));
        sizes(c, mcs, &p.finish(), split, t)
    }));
    v.push(Exploration::new("clear-anywhere", "code sizes 2..=11: 4200 codes with 1 to 3 clear codes before the p-th code, for every p, literal and greedy coding", move |c| {
        let mcs = c.range(2, 11) as u8;
        let literal = c.flag();
        let clears = c.range(1, t.sel(2, 3));
        let p = c.choose(t.sel(4200, 4200));
        if !t.t() && !(p < 600 || p > 3800 || p % 7 == 0) && mcs != 8 { return Ok(()); }
        let n = if literal { 4200 } else { 9000 };
        let px = if literal { pattern(n, mcs, 5) } else { pattern(n, mcs.min(3), 5) };
        let cs = lzw::codes(mcs, &px, Strat { literal, clear_at: p, clears, deferred: true, ..STD });
        let data = lzw::pack(mcs, &cs);
        lzw_case(c, mcs, &data, (n / 100) as u16, 100, Split::Max, &[Style::Next])
    }));
    v.push(Exploration::new("table-full", "code sizes 2..=11: literal codes, every count from 1 to 2200 (every third) and from 3840 to 4400 with the table left full, with and without end code and initial clear code", |c| {
        let mcs = c.range(2, 11) as u8;
        let n = c.choose(734 + 561);
        let n = if n < 734 { n * 3 + 1 } else { n - 734 + 3840 };
        let (end, initial_clear) = (c.flag(), c.flag());
        let data = lzw::encode(mcs, &pattern(n, mcs, 6), Strat { literal: true, deferred: true, end, initial_clear, ..STD });
        lzw_case(c, mcs, &data, n as u16, 1, Split::Max, &[Style::Next])
    }));
    v.push(Exploration::new("runs", "greedy coding of images with 1 to 4 alternating colours, every length 1..=1200 and powers of two up to 65535, code sizes 2..=11", |c| {
        let mcs = c.range(2, 11) as u8;
        let k = c.range(1, 4);
        let n = c.choose(1212);
        let n = if n < 1200 { n + 1 } else { [2048, 4095, 4096, 4097, 8191, 8192, 16384, 20000, 32768, 40000, 65534, 65535][n - 1200] };
        let px: Vec<u8> = (0..n).map(|i| (i % k) as u8).collect();
        lzw_case(c, mcs, &lzw::encode(mcs, &px, STD), n as u16, 1, Split::Max, &[Style::Next])
    }));
    v.push(Exploration::new("sub-blocks", "about 1000 bytes of data cut into sub-blocks: first size 1..=255 x following sizes (7 values, thorough all 255), uniform sizes 1..=255, end code in a block of its own", move |c| {
        let px = pattern(900, 8, 3);
        let s = match c.choose(3) {
            0 => Split::FirstThen(c.range(1, 255), if t.t() { c.range(1, 255) } else { c.of(&[1, 2, 3, 127, 128, 254, 255]) }),
            1 => Split::Each(c.range(1, 255)),
            _ => Split::EndAlone,
        };
        let (end, rest) = (c.flag(), c.flag());
        let mut data = lzw::encode(8, &px, Strat { end, ..STD });
        if rest { data.extend([0xFF; 60]); }
        lzw_case(c, 8, &data, 30, 30, s, &[Style::Next])
    }));
    v.push(Exploration::new("code-size-byte", "all 256 values of the minimum code size byte", |c| {
        let m = c.choose(256) as u8;
        if m == 1 { return Ok(()); }
        let g = pal(4, 1);
        let data = if m <= 11 && m >= 2 { lzw::encode(m, &[1, 0, 1, 1], STD) } else { vec![0x84, 0x51, 0x04, 0x05] };
        let b = File::new(2, 2, Some(&g)).img(&Img::pat(1, 1, 2, 2)).img(&Img::raw(2, 2, m, data.clone())).end();
        for s in both() { cmp(c, &b, &PLAIN, &s)?; }
        cmp(c, &b, &PLAIN.skip(), &Style::Next)?;
        let mut f = lzw_frame(2, 2, false, m, &data);
        let r = frame_dec(&PLAIN).decode_lzw_encoded_frame(&mut f);
        if r.is_ok() != (2..=11).contains(&m) { return Err(format!("frame decoder: code size {m} gives {r:?}")); }
        Ok(())
    }));
    v.push(Exploration::new("after-the-pixels", "every pair of bytes behind complete pixel data (with and without end code in between), in the same and in another sub-block", move |c| {
        let end = c.flag();
        let tail = c.choose(65536);
        let split = c.of(&[Split::Max, Split::Each(1), Split::FirstThen(3, 255)]);
        if !t.t() && split != Split::Max && tail % 5 != 0 { return Ok(()); }
        let mut data = lzw::encode(2, &pattern(12, 2, 4), Strat { end, ..STD });
        data.extend((tail as u16).to_le_bytes());
        let px = lzw::decode(2, &data, 1 << 20).pixels.len();
        debug_assert!(px >= 12);
        lzw_case(c, 2, &data, 4, 3, split, &both())
    }));
    v.push(Exploration::new("short-interlaced", "interlaced images of width 1 to 3 and height 0 to 40 (thorough 100) with data for every smaller number of pixels and for one more, with and without end code; indexed and RGBA, 5 styles and the frame decoder", move |c| {
        let (w, h) = (c.range(1, 3), c.choose(t.sel(41, 101)));
        let n = c.choose(w * h + 2);
        let data = lzw::encode(2, &pattern(n, 2, 8), Strat { end: c.flag(), ..STD });
        let o = Opts { rgba: c.flag(), ..PLAIN };
        let g = pal(4, 1);
        let i = Img::raw(w as u16, h as u16, 2, data).il();
        let b = File::new(9, 9, Some(&g)).img(&i).img(&Img::pat(2, 5, 2, 3).il()).end();
        let st = [Style::Next, Style::Iter, Style::Into(0), Style::Into(3), Style::Fill(vec![2])];
        cmp(c, &b, &o, &st[(w + h + n) % 5])?;
        if (w + h + n) % 5 != 0 { cmp(c, &b, &o, &st[0])?; }
        let mut fd = frame_dec(&o);
        fd.set_global_palette(g);
        let mut f = lzw_frame(w as u16, h as u16, true, 2, &i.data);
        let r = fd.decode_lzw_encoded_frame(&mut f);
        // the padding behind the last code may hold one more
        let n = lzw::decode(2, &i.data, 1 << 20).pixels.len();
        if r.is_ok() != (n >= w * h) { return Err(format!("frame decoder: {n} pixels for {w}x{h}: {r:?}")); }
        Ok(())
    }));
    v.push(Exploration::new("options", "code sizes 2, 5, 8, 11: images of 1 to 60 pixels with more, enough or too little data, literal and greedy, clear codes, under each of 64 sets of other options, 3 styles", |c| {
        let mcs = c.of(&[2u8, 5, 8, 11]);
        let n = c.range(1, 60);
        let s = Strat { literal: c.flag(), clear_every: c.of(&[0usize, 3]), clears: 1, ..STD };
        let data = lzw::encode(mcs, &pattern(n, mcs, 4), s);
        let size = (n + 1).saturating_sub(c.choose(3)).max(1);
        let o = PLAIN.with(c.choose(SETS));
        let b = File::new(61, 9, Some(&pal(4, 1))).img(&Img::raw(size as u16, 1, mcs, data)).img(&Img::pat(2, 2, 2, 1)).end();
        cmp(c, &b, &o, c.pick(&[Style::Next, Style::Fill(vec![1]), Style::Into(2)]))
    }));
    v.push(Exploration::new("cut-data", "image data of code sizes 2..=11 cut after every byte, with and without end code, in one and in many sub-blocks", |c| {
        let mcs = c.range(2, 11) as u8;
        let full = lzw::encode(mcs, &pattern(100, mcs, 8), Strat { end: c.flag(), ..STD });
        let k = c.choose(full.len() + 1);
        lzw_case(c, mcs, &full[..k], 10, 10, c.of(&[Split::Max, Split::Each(1), Split::Each(7)]), &both())
    }));
    v.push(Exploration::new("undefined-code", "code sizes 2..=11: valid codes, then every undefined value of the current width, after every number of codes up to 300", |c| {
        let mcs = c.range(2, 11) as u8;
        let n = c.choose(300);
        let mut p = Packer::new(mcs);
        p.push(1 << mcs);
        for _ in 0..n { p.push(0); }
        // the first code behind a clear code must be a literal; later ones may be at most `next`
        let lo = if n == 0 { (1 << mcs) + 2 } else { p.next + 1 };
        if lo >= 1 << p.width { return Ok(()); }
        let all = (1 << p.width) - lo;
        let code = lo + if all > 6 { let k = c.choose(6); [0, 1, all / 2, all - 2, all - 1, all / 3][k] } else { c.choose(all) };
        p.push(code as u16);
        p.push(0);
        let data = p.finish();
        for size in [n + 1, n, n.saturating_sub(1)] {
            lzw_case(c, mcs, &data, size as u16, 1, c.of(&[Split::Max, Split::Each(1)]), &both())?;
        }
        Ok(())
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: whole and 8000 pixels at a time"), |c| {
        let (_, b) = pick_count(c);
        cmp(c, &b, &PLAIN.unknown(), &if c.flag() { Style::Fill(vec![8000]) } else { Style::Next })
    }).cpu(60.0));
    v
}
fn sizes(c: &Ctx, mcs: u8, data: &[u8], split: Split, t: Tier) -> Res {
    let n = lzw::decode(mcs, data, 1 << 20).pixels.len();
    let d = c.choose(3);
    let size = match d { 0 => n, 1 => n + 1, _ => if n > 1 { n - 1 } else { return Ok(()) } };
    let st = both();
    lzw_case(c, mcs, data, size as u16, 1, split, if t.t() || d == 0 { &st } else { &st[..1] })
}

fn c05(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    let (mw, mh) = t.sel((9, 70), (20, 300));
    v.push(Exploration::new("grid", "widths 0..=9 (thorough 20) x heights 0..=70 (thorough 300), interlaced and not, indexed and RGBA, read_next_frame, read_into_buffer, iterator and frame decoder", move |c| {
        let (w, h) = (c.choose(mw + 1), c.choose(mh + 1));
        let (il, rgba) = (c.flag(), c.flag());
        let o = Opts { rgba, ..PLAIN };
        let px: Vec<u8> = (0..w * h).map(|i| (i / w * 7 + i % w * 31 + i / 251) as u8).collect();
        let g = pal(256, 5);
        let mut i = Img::px(w as u16, h as u16, 8, &px);
        i.interlaced = il;
        let b = File::new(9, 9, Some(&g)).img(&i).end();
        cmp(c, &b, &o, &Style::Next)?;
        cmp(c, &b, &o, &Style::Into(h % 3))?;
        cmp(c, &b, &o, &Style::Iter)?;
        let mut fd = frame_dec(&o);
        fd.set_global_palette(g.clone());
        let mut f = lzw_frame(w as u16, h as u16, il, 8, &i.data);
        let want = if il { deinterlace(&px, w, h) } else { px };
        let want = if rgba { model::rgba(&want, &g, None) } else { want };
        if fd.buffer_size(&f) != want.len() { return Err(format!("frame decoder: buffer_size {}", fd.buffer_size(&f))); }
        let mut buf = vec![STALE; want.len() + 2];
        fd.decode_lzw_encoded_frame_into_buffer(&f, &mut buf).map_err(|e| err("frame decoder", e))?;
        settle(&mut buf[..want.len()], rgba);
        if buf[..want.len()] != want[..] || buf[want.len()..] != [STALE; 2] { return Err(diff("frame decoder (into buffer)", &buf[..want.len()], &want)); }
        fd.decode_lzw_encoded_frame(&mut f).map_err(|e| err("frame decoder", e))?;
        if f.buffer[..] != want[..] { return Err(diff("frame decoder", &f.buffer, &want)); }
        if f.interlaced { return Err("still marked as interlaced".into()); }
        c.obs(&(w, h, il, rgba));
        c.validated(1);
        Ok(())
    }));
    // one stream whose k-th row of two pixels is the number k, so that every height can use a prefix
    static ROWS: OnceLock<Vec<u8>> = OnceLock::new();
    fn rows() -> &'static Vec<u8> {
        ROWS.get_or_init(|| {
            let px: Vec<u8> = (0..=65535u16).flat_map(|k| k.to_le_bytes()).collect();
            let mut v = vec![8];
            v.extend(lzw::encode(8, &px, STD));
            v
        })
    }
    for rgba in [false, true] {
        v.push(Exploration::new(if rgba { "all-heights-rgba" } else { "all-heights" },
            "frame decoder, width 2: every height 0..=65535 (RGBA in the quick tier: 0..=2100 and around powers of two); row k of the stream holds the number k", move |c| {
            let h = c.choose(65536);
            if rgba && !t.t() && h > 2100 && !near_pow2(h) { return Ok(()); }
            let f = Frame { width: 2, height: h as u16, interlaced: true, buffer: Cow::Borrowed(rows()), ..Frame::default() };
            let mut o = DecodeOptions::new();
            o.set_memory_limit(MemoryLimit::Unlimited);
            if rgba { o.set_color_output(ColorOutput::RGBA); }
            let mut d = FrameDecoder::new(o);
            // colour i is (i, 255-i, i^0x55)
            if rgba { d.set_global_palette((0..=255u8).flat_map(|i| [i, 255 - i, i ^ 0x55]).collect()); }
            let bpp = if rgba { 4 } else { 1 };
            let mut buf = vec![STALE; 2 * h * bpp];
            d.decode_lzw_encoded_frame_into_buffer(&f, &mut buf).map_err(|e| err("decode", e))?;
            let mut k = 0usize;
            for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] {
                let mut r = start;
                while r < h {
                    let o = r * 2 * bpp;
                    let got = usize::from(buf[o]) | usize::from(buf[o + bpp]) << 8;
                    if got != k || (rgba && (buf[o + 1] != 255 - buf[o] || buf[o + 2] != buf[o] ^ 0x55 || buf[o + 3] != 255 || buf[o + 7] != 255)) {
                        return Err(format!("height {h}: row {r} holds stored row {got} instead of {k}"));
                    }
                    k += 1;
                    r += step;
                }
            }
            c.obs(&(h, k));
            c.validated(1);
            Ok(())
        }).cpu(30.0));
    }
    // one stream in which pixel i depends on i and i/256, so that every width can use a prefix
    static WIDE: OnceLock<Vec<u8>> = OnceLock::new();
    fn wide_px(i: usize) -> u8 { (i ^ i >> 8 ^ i >> 15) as u8 }
    fn wide() -> &'static Vec<u8> {
        WIDE.get_or_init(|| {
            let px: Vec<u8> = (0..65535 * 5).map(wide_px).collect();
            let mut v = vec![8];
            v.extend(lzw::encode(8, &px, STD));
            v
        })
    }
    v.push(Exploration::new("all-widths", "every width 1..=65535 x 3 rows (5 rows for every 64th width and around powers of two and multiples of 1/3), frame decoder, indexed and RGBA (RGBA in the quick tier: every 16th width and those)", move |c| {
        let w = 1 + c.choose(65535);
        let special = near_pow2(w) || near_pow2(w * 3) || w % 64 == 7 || w > 65500;
        let h = if special { 5 } else { 3 };
        let rgba = c.flag();
        if rgba && !t.t() && !special && w % 16 != 3 { return Ok(()); }
        let f = Frame { width: w as u16, height: h as u16, interlaced: true, buffer: Cow::Borrowed(wide()), ..Frame::default() };
        let mut d = frame_dec(&Opts { rgba, limit: Limit::Unlimited, ..PLAIN });
        if rgba { d.set_global_palette((0..=255u8).flat_map(|i| [i, 255 - i, i ^ 0x55]).collect()); }
        let bpp = if rgba { 4 } else { 1 };
        let mut buf = vec![STALE; w * h * bpp];
        d.decode_lzw_encoded_frame_into_buffer(&f, &mut buf).map_err(|e| err("decode", e))?;
        // rows of the display in stored order
        let order: &[usize] = if h == 5 { &[0, 4, 2, 1, 3] } else { &[0, 2, 1] };
        for (k, &r) in order.iter().enumerate() {
            let row = &buf[r * w * bpp..(r + 1) * w * bpp];
            for (x, p) in row.chunks_exact(bpp).enumerate() {
                let v = wide_px(k * w + x);
                if p[0] != v || (rgba && p != [v, 255 - v, v ^ 0x55, 255]) { return Err(format!("{w}x{h}: row {r}, pixel {x} is {p:?}, expected index {v} of stored row {k}")); }
            }
        }
        c.obs(&(w, h, rgba));
        c.validated(1);
        Ok(())
    }).cpu(30.0));
    v.push(Exploration::new("options", "widths 0 to 4 x heights 0 to 24, interlaced or not, under each of 64 sets of other options, 4 styles", |c| {
        let (w, h) = (c.choose(5), c.choose(25));
        let mut i = Img::pat(w as u16, h as u16, 3, 9);
        i.interlaced = c.flag();
        let b = File::new(9, 30, Some(&pal(8, 1))).gce(1, 2, 3).img(&i).img(&Img::pat(2, 9, 2, 3).il()).end();
        let o = PLAIN.with(c.choose(SETS));
        cmp(c, &b, &o, c.pick(&[Style::Next, Style::Iter, Style::Into(2), Style::Fill(vec![5])]))
    }));
    v.push(Exploration::new("large-files", "whole files with interlaced and other images of 12 shapes up to 65535 wide or high and up to 1.2 million pixels, indexed and RGBA, 4 styles", move |c| {
        let (w, h) = c.of(&[(65535usize, 3usize), (16384, 5), (16383, 6), (32769, 2), (40000, 9), (3, 65535), (5, 40000), (1, 65535), (260, 257), (1024, 1024), (363, 361), (2049, 130)]);
        let il = c.flag();
        let o = Opts { rgba: c.flag(), ..PLAIN };
        let st = c.pick(&[Style::Next, Style::Into(3), Style::Iter, Style::Fill(vec![w, 65536, 1])]).clone();
        let px: Vec<u8> = (0..w * h).map(wide_px).collect();
        let g = pal(256, 5);
        let mut i = Img::px(w as u16, h as u16, 8, &px);
        i.interlaced = il;
        let b = File::new(9, 9, Some(&g)).img(&i).img(&Img::pat(2, 3, 2, 1).il()).end();
        cmp(c, &b, &o, &st)
    }).cpu(30.0));
    let max = t.sel(1100, 6000);
    v.push(Exploration::new("files", "whole files with an interlaced image of width 1 and 3, every height up to 1100 (thorough 6000), and of every width up to that with 11 rows", move |c| {
        let k = c.range(1, max);
        let (w, h) = match c.choose(3) { 0 => (1, k), 1 => (3, k), _ => (k, 11) };
        let rgba = c.flag();
        if rgba && !t.t() && k % 8 > 1 { return Ok(()); }
        let g = pal(256, 5);
        let px: Vec<u8> = (0..w * h).map(|i| (i / w + (i / w >> 8) * 3 + i % w * 5) as u8).collect();
        let b = File::new(9, 9, Some(&g)).img(&Img::px(w as u16, h as u16, 8, &px).il()).img(&Img::px(1, 2, 2, &[1, 2]).il()).end();
        cmp(c, &b, &Opts { rgba, ..PLAIN }, &if k % 2 == 0 { Style::Next } else { Style::Into(0) })
    }));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: pixels indexed and RGBA, by lines or as a whole"), |c| {
        let (k, b, _) = pick_combo(c);
        let o = if c.flag() { PLAIN.rgba() } else { PLAIN };
        cmp(c, &b, &o, &[Style::Next, Style::Into(1)][k % 2])
    }));
    v.push(Exploration::new("held", &format!("raw images of the pool, {HELD}: decoded by the frame decoder in place, indexed and RGBA, twice"), |c| {
        let p = c.pick(pool());
        let how = c.choose(5);
        let o = if c.flag() { PLAIN.rgba() } else { PLAIN };
        let b = with_pics(File::new(9, 9, Some(&pal(256, 5))), &[p]).end();
        c.note("file", || hex(&b));
        c.note("held", || format!("{how} {o:?}"));
        let e = expect(&b, &o);
        let Some(want) = e.frames.first() else { c.outcome("not decodable"); return Ok(()) };
        let raw = PLAIN.skip().build().read_info(&b[..]).map_err(|e| err("open", e))?.into_iter().next().ok_or("no frame")?.map_err(|e| err("raw", e))?;
        let mut fd = frame_dec(&o);
        fd.set_global_palette(pal(256, 5));
        for _ in 0..2 {
            let mut room = vec![];
            let mut f = held(&raw, how, &mut room);
            fd.decode_lzw_encoded_frame(&mut f).map_err(|e| err("decode", e))?;
            let m = meta_of(&f);
            if m != want.0 { return Err(format!("the frame is {m:?} instead of {:?}", want.0)); }
            if f.buffer[..] != want.1 { return Err(diff("pixels", &f.buffer, &want.1)); }
        }
        c.obs(want);
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("earlier-contents", EARLIER, earlier_contents));
    v.push(Exploration::new("huge", &format!("{HUGE} (thorough: also indexed and not interlaced); read_into_buffer, interlaced"), move |c| huge(c, !(t.t() && c.flag()), true, !(t.t() && c.flag()))).cpu(300.0));
    v
}
fn near_pow2(h: usize) -> bool { let p = h.next_power_of_two(); p - h <= 9 || h - p / 2 <= 9 }

fn c06(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    static ALL: OnceLock<Vec<u8>> = OnceLock::new();
    fn all() -> &'static Vec<u8> { ALL.get_or_init(|| lzw::encode(8, &(0..=255u8).collect::<Vec<_>>(), STD)) }
    let step = t.sel(1, 1);
    v.push(Exploration::new("palettes", "global palettes none, 2..256 colours x local palettes none, 2..256 colours x transparent index none, 0..=255, image holding all 256 indices, all styles", move |c| {
        let (gn, ln) = (c.choose(9), c.choose(9));
        if gn == 0 && ln == 0 { return Ok(()); }
        let tr = c.choose(257 / step);
        let (gp, lp) = (pal(1 << gn, 0x31), pal(1 << ln, 0xC2));
        let mut i = Img::raw(16, 16, 8, all().clone());
        if ln > 0 { i = i.pal(lp.clone()); }
        let mut f = File::new(16, 16, (gn > 0).then_some(&gp[..]));
        if tr > 0 { f = f.gce(1, 0, (tr - 1) as u8); } else if c.flag() { f = f.gce(0, 0, 7); }
        let b = f.img(&i).end();
        let st = if t.t() { c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Fill(vec![7])]).clone() } else { [Style::Next, Style::Into(0), Style::Fill(vec![7])][tr % 3].clone() };
        cmp(c, &b, &PLAIN.rgba(), &st)
    }));
    v.push(Exploration::new("repeated-colours", "global or local palettes of 2, 4, 16, 128, 256 colours in which colours occur more than once (one colour only, 2 or 3 by turns, in runs of 2 or 5, second half like the first, mirrored; black, white, grey) x transparent index none, 0..=255, image holding all 256 indices, 3 styles by turns", |c| {
        let n = c.of(&[2usize, 4, 16, 128, 256]);
        let local = c.flag();
        let k = c.choose(10);
        let tr = c.choose(257);
        let base = pal(256, 0x51);
        let p: Vec<u8> = (0..n).flat_map(|i| {
            let j = match k { 0 => 7, 1 => i % 2, 2 => i % 3, 3 => i / 2, 4 => i / 5, 5 => i % (n / 2), 6 => i.min(n - 1 - i), _ => i };
            match k { 7 => [0; 3], 8 => [255; 3], 9 => [i as u8 / 8 * 8; 3], _ => [base[j * 3], base[j * 3 + 1], base[j * 3 + 2]] }
        }).collect();
        let mut i = Img::raw(16, 16, 8, all().clone());
        if local { i = i.pal(p.clone()); }
        let other = pal(4, 9);
        let mut f = File::new(16, 16, Some(if local { &other } else { &p }));
        if tr > 0 { f = f.gce(1, 0, (tr - 1) as u8); }
        cmp(c, &f.img(&i).end(), &PLAIN.rgba(), &[Style::Next, Style::Into(0), Style::Fill(vec![7])][(tr + k) % 3])
    }));
    v.push(Exploration::new("options", "local, global or both palettes of 2, 16, 256 colours, 6 transparent indices, image holding all 256 indices, under each of 64 sets of other options, 4 styles", |c| {
        let (gn, ln) = (c.of(&[0usize, 1, 4, 8]), c.of(&[0usize, 1, 4, 8]));
        if gn == 0 && ln == 0 { return Ok(()); }
        let (gp, lp) = (pal(1 << gn, 0x31), pal(1 << ln, 0xC2));
        let mut i = Img::raw(16, 16, 8, all().clone());
        i.interlaced = c.flag();
        if ln > 0 { i = i.pal(lp); }
        let mut f = File::new(16, 16, (gn > 0).then_some(&gp[..]));
        if let Some(x) = c.of(&[None, Some(0u8), Some(1), Some(15), Some(16), Some(255)]) { f = f.gce(1, 0, x); }
        let b = f.img(&i).end();
        let o = PLAIN.rgba().with(c.choose(SETS / 2) * 2);
        cmp(c, &b, &o, c.pick(&[Style::Next, Style::Iter, Style::Into(4), Style::Fill(vec![7])]))
    }));
    v.push(Exploration::new("untouched", "preset output buffers (4 fill bytes): out-of-palette pixels keep them, in read_into_buffer, fill_buffer (pieces of 1..=16 rows) and the frame decoder; interlaced and not", |c| {
        let n = c.range(1, 8);
        let bg = c.of(&[0u8, 0xFF, 0x5A, 0x01]);
        let tr = c.of(&[None, Some(0u8), Some(1), Some(3), Some(200), Some(255)]);
        let local = c.flag();
        let il = c.flag();
        let p = pal(1 << n, 0x77);
        let other = pal(256, 0x11);
        let mut i = Img::raw(16, 16, 8, all().clone());
        i.interlaced = il;
        if local { i = i.pal(p.clone()); }
        let mut f = File::new(16, 16, Some(if local { &other } else { &p }));
        if let Some(x) = tr { f = f.gce(1, 0, x); }
        let b = f.img(&i).end();
        c.note("file", || hex(&b));
        let px: Vec<u8> = (0..=255).collect();
        let stored = model::rgba_onto(&px, &p, tr, bg);
        let shown = if il { model::rgba_onto(&deinterlace(&px, 16, 16), &p, tr, bg) } else { stored.clone() };
        let open = || -> Result<_, String> {
            let mut d = PLAIN.rgba().build().read_info(&b[..]).map_err(|e| err("open", e))?;
            d.next_frame_info().map_err(|e| err("info", e))?;
            Ok(d)
        };
        let mut buf = vec![bg; 1024];
        open()?.read_into_buffer(&mut buf).map_err(|e| err("read", e))?;
        if buf != shown { return Err(diff("read_into_buffer", &buf, &shown)); }
        let mut buf = vec![bg; 1024];
        let rows = c.range(1, 16);
        let mut d = open()?;
        for x in buf.chunks_mut(rows * 64) { if !d.fill_buffer(x).map_err(|e| err("fill", e))? { return Err("fill_buffer returned false".into()); } }
        if buf != stored { return Err(diff("fill_buffer", &buf, &stored)); }
        let mut fd = frame_dec(&PLAIN.rgba());
        fd.set_global_palette(if local { other } else { p.clone() });
        let mut f = lzw_frame(16, 16, il, 8, all());
        f.transparent = tr;
        if local { f.palette = Some(p.clone()); }
        let mut buf = vec![bg; 1024];
        fd.decode_lzw_encoded_frame_into_buffer(&f, &mut buf).map_err(|e| err("frame decoder", e))?;
        if buf != shown { return Err(diff("frame decoder", &buf, &shown)); }
        c.obs(&(n, bg, tr, local, il));
        c.validated(3);
        Ok(())
    }));
    v.push(Exploration::new("odd-palettes", "frame decoder with global and local palettes of 0..=256 colours (also not a power of two), transparent index none, 0, last, last+1", |c| {
        let (local, n) = (c.flag(), c.choose(257));
        let tr = match c.choose(4) { 0 => None, 1 => Some(0), 2 => Some(n.saturating_sub(1) as u8), _ => Some(n.min(255) as u8) };
        let p = pal(n, 0x3C);
        let mut fd = frame_dec(&PLAIN.rgba());
        let mut f = lzw_frame(32, 8, false, 8, all());
        f.transparent = tr;
        if local { fd.set_global_palette(pal(256, 1)); f.palette = Some(p.clone()); } else { fd.set_global_palette(p.clone()); }
        fd.decode_lzw_encoded_frame(&mut f).map_err(|e| err("frame decoder", e))?;
        let px: Vec<u8> = (0..=255).collect();
        let want = model::rgba(&px, &p, tr);
        if f.buffer[..] != want[..] { return Err(diff(&format!("palette of {n}"), &f.buffer, &want)); }
        c.obs(&(n, local, tr));
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("frames", "all sequences of 3 frames with local palette or not, transparency or not, different sizes: each frame uses its own palette and transparency", |c| {
        let g = pal(4, 3);
        let mut f = File::new(4, 4, Some(&g));
        for n in 0..3u8 {
            let k = c.choose(8);
            let mut i = Img::pat(1 + (n as u16 + k as u16) % 4, 3, 3, n);
            if k & 1 != 0 { i = i.pal(pal(8, 50 + n)); }
            if k & 2 != 0 { i.interlaced = true; }
            if k & 4 != 0 { f = f.gce(1, 0, n + 1); }
            f = f.img(&i);
        }
        let b = f.end();
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(5), Style::Fill(vec![2, 1])]).clone();
        cmp(c, &b, &PLAIN.rgba(), &st)
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images, with one of 2 global palettes or none, 3 styles by turns", |c| {
        let n = pool().len();
        let (x, y) = (c.choose(n), c.choose(n));
        let st = [Style::Next, Style::Into(0), Style::Fill(vec![37])][(x + y) % 3].clone();
        cmp(c, &pool_file(x, y, c.choose(3)), &PLAIN.rgba(), &st)
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; RGBA with 3 styles by turns and as indexed", |c| {
        let (k, b) = pick_head(c);
        cmp(c, &b, &PLAIN.rgba(), &[Style::Next, Style::Fill(vec![7]), Style::Into(0)][k % 3])?;
        cmp(c, &b, &PLAIN, &Style::Next)
    }));
    v.push(Exploration::new("twins", "two images that differ in one pixel, by two pixels or two colours exchanged, in one byte of the palette, or in one field, at every place: read in the order first, second, first from one file, RGBA", |c| {
        let t = pick_twin(c);
        let b = twin_file(&t);
        let o = PLAIN.rgba();
        cmp(c, &b, &o, &c.pick(&[Style::Next, Style::Fill(vec![9])]).clone())
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: as RGBA"), |c| {
        let (_, b) = pick_count(c);
        cmp(c, &b, &roomy_rgba(), &Style::Next)
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: RGBA"), |c| {
        let (_, b, _) = pick_combo(c);
        cmp(c, &b, &PLAIN.rgba(), c.pick(&[Style::Next, Style::Fill(vec![5])]))
    }));
    v.push(Exploration::new("earlier-contents", EARLIER, earlier_contents));
    v
}

fn c07(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("styles", "every seed, history and larger file x 11 reading styles x 64 sets of other options", |c| {
        let b = c.pick(super::dec_hist::files_all());
        let o = PLAIN.with(c.choose(SETS));
        if !applies(b, &o) { return Ok(()); }
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Into(1), Style::Into(4), Style::Into(100), Style::Fill(vec![1]), Style::Fill(vec![2]), Style::Fill(vec![3, 1]), Style::Fill(vec![0, 5]), Style::Fill(vec![1000])]).clone();
        cmp(c, &b, &o, &st)
    }));
    // images for exact buffer protocols
    fn images() -> Vec<Img> {
        let nc = Strat { end: false, ..STD };
        vec![
            Img::pat(3, 2, 2, 5),
            Img::px(4, 2, 2, &[0; 8]),
            Img::px(2, 4, 2, &[1, 1, 1, 1, 1, 2, 1, 1]).il().split(Split::Each(1)),
            Img::raw(3, 2, 3, lzw::encode(3, &[5, 5, 5, 5, 5, 1], nc)),
            Img::raw(3, 2, 2, lzw::encode(2, &pattern(30, 2, 1), STD)).split(Split::Each(2)),
            Img::raw(3, 2, 2, lzw::encode(2, &[2; 6], Strat { literal: true, clear_every: 2, clears: 2, ..STD })).split(Split::EndAlone),
            Img::px(1, 1, 2, &[3]),
        ]
    }
    let zeros = t.sel(1, 2);
    v.push(Exploration::new("buffer-sizes", "7 small images: every sequence of fill_buffer sizes (0 up to one more than what is left; at most 1, thorough 2, empty ones) with its results, then one further call, then the next frame", move |c| {
        let i = c.pick(&images()).clone();
        let rgba = c.flag();
        let bpp = if rgba { 4 } else { 1 };
        let o = Opts { rgba, ..PLAIN };
        let g = pal(8, 1);
        let b = File::new(4, 4, Some(&g)).img(&i).img(&Img::pat(2, 2, 2, 9)).end();
        c.note("file", || hex(&b));
        let n = i.w as usize * i.h as usize;
        let rf = model::parse(&b, &o.ropts()).frames.remove(0);
        // data may denote more pixels than the image has; what happens with those is not specified
        let surplus = rf.lzw().pixels.len() > n;
        let stored = rf.stored().unwrap();
        let want = if rgba { model::rgba(&stored, &g, None) } else { stored };
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        d.next_frame_info().map_err(|e| err("info", e))?.ok_or("no frame")?;
        let (mut p, mut z) = (0, zeros);
        let mut sizes = vec![];
        loop {
            let left = n - p;
            let lo = if z > 0 { 0 } else { 1 };
            let k = lo + c.choose(left + 2 - lo);
            sizes.push(k);
            let mut buf = vec![STALE; k * bpp];
            let r = d.fill_buffer(&mut buf);
            settle(&mut buf, rgba);
            c.obs(&(k, r.as_ref().ok(), &buf));
            let r = match r { Ok(r) => r, Err(e) => return Err(format!("sizes {sizes:?}: error {e}")) };
            if r != (k <= left) && !(surplus && k > left) { return Err(format!("sizes {sizes:?}: returned {r}")); }
            let m = k.min(left);
            if buf[..m * bpp] != want[p * bpp..(p + m) * bpp] { return Err(diff(&format!("sizes {sizes:?}"), &buf[..m * bpp], &want[p * bpp..(p + m) * bpp])); }
            p += m;
            if k == 0 { z -= 1; }
            if !r || k > left || (p == n && c.flag()) { break; }
        }
        c.note("sizes", || format!("{sizes:?}"));
        let f = d.read_next_frame().map_err(|e| err(&format!("sizes {sizes:?}: next frame"), e))?.ok_or("no second frame")?;
        let px = pattern(4, 2, 9);
        if f.buffer[..] != if rgba { model::rgba(&px, &g, None) } else { px }[..] { return Err(format!("sizes {sizes:?}: the next frame is wrong")); }
        if d.read_next_frame().map_err(|e| err("end", e))?.is_some() { return Err("a third frame".into()); }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("pieces", "a 61x40 image read in pieces: every uniform size 1..=2500 and every first size with the rest in one piece, indexed and RGBA, interlaced and not", move |c| {
        let k = c.range(1, 2500);
        let two = c.flag();
        let rgba = c.flag();
        if !t.t() && rgba && k % 3 != 0 { return Ok(()); }
        let mut i = Img::pat(61, 40, 4, 5);
        i.interlaced = c.flag();
        let g = pal(16, 1);
        let b = File::new(61, 40, Some(&g)).img(&i).img(&Img::pat(2, 2, 2, 9)).end();
        cmp(c, &b, &Opts { rgba, ..PLAIN }, &Style::Fill(if two { vec![k, 100_000] } else { vec![k] }))
    }));
    v.push(Exploration::new("into-buffer", "read_into_buffer and the frame decoder with buffers from 0 to 70 bytes more than needed, and with every smaller size (an error, then the next frame is fine)", |c| {
        let i = c.pick(&images()).clone();
        let rgba = c.flag();
        let o = Opts { rgba, ..PLAIN };
        let n = i.w as usize * i.h as usize * o.bpp();
        let len = c.choose(n + 71);
        let g = pal(8, 1);
        let b = File::new(4, 4, Some(&g)).img(&i).img(&Img::pat(2, 2, 2, 9)).end();
        c.note("file", || hex(&b));
        let e = expect(&b, &o);
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        d.next_frame_info().map_err(|e| err("info", e))?;
        let mut buf = vec![0x99; len];
        let r = d.read_into_buffer(&mut buf);
        c.obs(&(len, r.is_ok(), &buf));
        if r.is_ok() != (len >= n) { return Err(format!("buffer of {len} for {n}: {r:?}")); }
        if len >= n && (buf[..n] != e.frames[0].1[..] || buf[n..].iter().any(|&x| x != 0x99)) { return Err(format!("buffer of {len} for {n}: wrong content")); }
        let f = d.read_next_frame().map_err(|e| err("next frame", e))?.ok_or("no next frame")?;
        if f.buffer[..] != e.frames[1].1[..] { return Err("the next frame is wrong".into()); }
        let mut fd = frame_dec(&o);
        fd.set_global_palette(g.clone());
        let f = lzw_frame(i.w, i.h, i.interlaced, i.mcs, &i.data);
        let mut buf = vec![0x99; len];
        let r = fd.decode_lzw_encoded_frame_into_buffer(&f, &mut buf);
        if r.is_ok() != (len >= n) { return Err(format!("frame decoder: buffer of {len} for {n}: {r:?}")); }
        if len >= n && (buf[..n] != e.frames[0].1[..] || buf[n..].iter().any(|&x| x != 0x99)) { return Err(format!("frame decoder: buffer of {len} for {n}: wrong content")); }
        c.validated(2);
        Ok(())
    }));
    v.push(Exploration::new("mixed-styles", "a file of 4 different frames, each read in one of 6 styles: all 1296 combinations x indexed and RGBA", |c| {
        let g = pal(4, 1);
        let b = File::new(5, 9, Some(&g)).gce(1, 5, 1).img(&Img::pat(5, 9, 2, 1).il()).img(&Img::pat(3, 3, 3, 2).pal(pal(8, 9)).split(Split::Each(2)))
            .gce(4, 6, 1).img(&Img::pat(1, 1, 2, 3)).img(&Img::pat(4, 5, 2, 4).il().pal(pal(4, 77)).split(Split::EndAlone)).end();
        let o = c.pick(&[PLAIN, PLAIN.rgba()]).clone();
        c.note("file", || hex(&b));
        let e = expect(&b, &o);
        let mut d = o.build().read_info(&b[..]).map_err(|e| err("open", e))?;
        for i in 0..4 {
            let st = c.pick(&[Style::Next, Style::Into(0), Style::Into(9), Style::Fill(vec![1]), Style::Fill(vec![4, 0, 3]), Style::Fill(vec![999])]).clone();
            match read_frame(&mut d, &o, &st)? {
                Ok(Some(f)) if f == e.frames[i] => c.obs(&f),
                x => return Err(format!("frame {i} in style {st:?}: {x:?} instead of {:?}", e.frames[i])),
            }
        }
        if d.read_next_frame().map_err(|e| err("end", e))?.is_some() { return Err("a fifth frame".into()); }
        c.validated(1);
        Ok(())
    }));
    v.push(Exploration::new("pairs", "every pair out of a pool of 144 images x 7 reading styles, with one of 2 global palettes or none, indexed or RGBA", |c| {
        let n = pool().len();
        let (x, y) = (c.choose(n), c.choose(n));
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Into(7), Style::Fill(vec![1]), Style::Fill(vec![2, 3]), Style::Fill(vec![0, 900])]).clone();
        cmp(c, &pool_file(x, y, (x + y) % 3), &if c.flag() { PLAIN.rgba() } else { PLAIN }, &st)
    }));
    v.push(Exploration::new("pool-pieces", "each of a pool of 144 images in pieces of every uniform size up to its size + 1 (at most 500), indexed and RGBA", |c| {
        let p = pool();
        let i = c.choose(p.len());
        let n = p[i].1.w as usize * p[i].1.h as usize;
        let k = c.range(1, (n + 1).min(500));
        cmp(c, &pool_file(i, (i + 7) % 144, i % 2), &if c.flag() { PLAIN.rgba() } else { PLAIN }, &Style::Fill(vec![k]))
    }));
    v.push(Exploration::new("heads", "192 beginnings of a file (screens 0x0 to 65535x65535, 0 to 256 palette colours, 24 lists of extensions), one or two images, 11 things behind the trailer; 6 reading styles, indexed and RGBA", |c| {
        let (k, b) = pick_head(c);
        let st = c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Fill(vec![1]), Style::Fill(vec![3, 100]), Style::Fill(vec![0, 5000])]).clone();
        cmp(c, &b, &if k % 2 == 0 { PLAIN } else { PLAIN.rgba() }, &st)
    }));
    v.push(Exploration::new("counts", &format!("{COUNTED}: 5 styles"), |c| {
        let (k, b) = pick_count(c);
        let o = if k % 2 == 0 { PLAIN.unknown() } else { roomy_rgba() };
        cmp(c, &b, &o, c.pick(&[Style::Next, Style::Iter, Style::Into(0), Style::Fill(vec![1, 300]), Style::Fill(vec![100])]))
    }).cpu(60.0));
    v.push(Exploration::new("contexts", &format!("{COMBOS}: every style of 4, indexed and RGBA by turns"), |c| {
        let (k, b, _) = pick_combo(c);
        cmp(c, &b, &[PLAIN, PLAIN.rgba()][k % 2], c.pick(&[Style::Iter, Style::Into(0), Style::Fill(vec![1]), Style::Fill(vec![4, 9])]))
    }));
    v.push(Exploration::new("earlier-contents", EARLIER, earlier_contents));
    v.push(Exploration::new("huge", &format!("{HUGE}; fill_buffer in pieces of 65536 pixels"), |c| huge(c, c.flag(), false, false)).cpu(300.0));
    v
}
