//! Frames made from RGB and RGBA pixels: C23 and C24.
use super::err;
use crate::drive::{self, Style, PLAIN};
use crate::engine::{catch, Ctx, Exploration, Res};
use crate::genr::hex;
use crate::{CheckInfo, Tier};
use gif::{DisposalMethod, Encoder, Frame};
use std::collections::HashSet;

pub fn checks() -> Vec<CheckInfo> {
    vec![
        CheckInfo { id: "C23", level: "model_checking", rule: "every execution makes frames from one image or one set of arguments (twice) and compares indices, palette and transparency with the pixels, or the refusal with the documented conditions", assumptions: &[], build: c23 },
        CheckInfo { id: "C24", level: "model_checking", rule: "every execution makes a frame from one image of more than 256 colours (twice), checks it for form, writes and decodes it", assumptions: &["closeness of the chosen colours is the quantiser's business and not judged"], build: c24 },
    ]
}

type Px = [u8; 4];
type Sig = (u16, u16, Vec<u8>, Option<Vec<u8>>, Option<u8>, (u16, u16, u16, bool, bool, u8));
fn sig(f: &Frame<'_>) -> Sig {
    (f.width, f.height, f.buffer.to_vec(), f.palette.clone(), f.transparent, (f.left, f.top, f.delay, f.needs_user_input, f.interlaced, drive::dispose_u8(f.dispose)))
}
/// Fields the constructors do not set.
fn plain_fields(f: &Frame<'_>) -> Res {
    if (f.left, f.top, f.delay, f.needs_user_input, f.interlaced, f.dispose) != (0, 0, 0, false, false, DisposalMethod::Keep) { return Err(format!("unexpected fields in {:?}", sig(f).5)); }
    Ok(())
}
fn distinct(px: &[Px]) -> usize { px.iter().map(|p| if p[3] == 0 { [0; 4] } else { [p[0], p[1], p[2], 255] }).collect::<HashSet<_>>().len() }

/// What both properties ask for.
fn shape_of(f: &Frame<'_>, w: u16, h: u16) -> Result<Vec<u8>, String> {
    if (f.width, f.height) != (w, h) { return Err(format!("size {}x{} instead of {w}x{h}", f.width, f.height)); }
    if f.buffer.len() != w as usize * h as usize { return Err(format!("{} indices for {w}x{h}", f.buffer.len())); }
    let p = f.palette.clone().ok_or("no palette")?;
    if p.len() % 3 != 0 || p.len() > 768 { return Err(format!("palette of {} bytes", p.len())); }
    if let Some(i) = f.buffer.iter().position(|&i| i as usize >= p.len() / 3) { return Err(format!("index {} of pixel {i} is outside the palette of {} colours", f.buffer[i], p.len() / 3)); }
    if let Some(t) = f.transparent { if t as usize >= p.len() / 3 { return Err(format!("transparent index {t} is outside the palette")); } }
    plain_fields(f)?;
    Ok(p)
}
fn exact(f: &Frame<'_>, w: u16, h: u16, px: &[Px]) -> Res {
    let p = shape_of(f, w, h)?;
    for (i, x) in px.iter().enumerate() {
        let k = f.buffer[i];
        if (x[3] == 0) != (f.transparent == Some(k)) { return Err(format!("pixel {i} {x:?} has index {k}, transparent is {:?}", f.transparent)); }
        let col = &p[k as usize * 3..][..3];
        if x[3] != 0 && *col != x[..3] { return Err(format!("pixel {i} {x:?} became {col:?}")); }
    }
    Ok(())
}
/// Writes the frame and decodes it with RGBA output.
fn through_file(f: &Frame<'_>) -> Res {
    let mut out = vec![];
    {
        let mut e = Encoder::new(&mut out, f.width, f.height, &[]).map_err(|e| err("new", e))?;
        e.write_frame(f).map_err(|e| format!("the frame cannot be encoded: {e}"))?;
    }
    let obs = drive::decode(&out[..], &PLAIN, &Style::Next)?;
    if obs.end != drive::End::Done || obs.frames.len() != 1 { return Err(format!("the encoded frame decodes to {} frames, {:?}", obs.frames.len(), obs.end)); }
    let (m, px) = &obs.frames[0];
    if px[..] != f.buffer[..] { return Err(drive::diff("decoded indices", px, &f.buffer)); }
    let p = f.palette.as_ref().unwrap();
    if m.transparent != f.transparent || m.palette.as_ref().map_or(true, |q| !q.starts_with(p)) { return Err("transparency or palette is lost on the way through a file".into()); }
    Ok(())
}
fn make(w: u16, h: u16, px: &[Px], speed: i32) -> Frame<'static> { Frame::from_rgba_speed(w, h, &mut px.concat(), speed) }
/// Makes the frame; what is left in the caller's pixels must be the same picture and give the same frame.
fn make_kept(w: u16, h: u16, px: &[Px], speed: i32) -> Result<Frame<'static>, String> {
    let before = px.concat();
    let mut left = before.clone();
    let f = Frame::from_rgba_speed(w, h, &mut left, speed);
    if left == before { return Ok(f); }
    for (i, (a, b)) in px.iter().zip(left.chunks(4)).enumerate() {
        if (a[3] == 0) != (b[3] == 0) || a[3] != 0 && a[..3] != b[..3] { return Err(format!("pixel {i} {a:?} of the caller's buffer became {b:?}")); }
    }
    if sig(&Frame::from_rgba_speed(w, h, &mut left, speed)) != sig(&f) { return Err("the pixels left in the caller's buffer give another frame".into()); }
    Ok(f)
}
fn note_px(c: &Ctx, w: u16, h: u16, px: &[Px], speed: i32) {
    c.note("image", || format!("{w}x{h} speed {speed} {} distinct: {}", distinct(px), hex(&px.concat())));
}
fn c23_case(c: &Ctx, w: u16, h: u16, px: &[Px], speed: i32) -> Res {
    note_px(c, w, h, px, speed);
    if distinct(px) > 256 { return Err("harness: too many colours".into()); }
    let f = make_kept(w, h, px, speed)?;
    c.obs(&sig(&f));
    c.validated(1);
    exact(&f, w, h, px)?;
    if sig(&make(w, h, px, speed)) != sig(&f) { return Err("made twice with different results".into()); }
    if speed == 1 && sig(&Frame::from_rgba(w, h, &mut px.concat())) != sig(&f) { return Err("from_rgba differs".into()); }
    if px.iter().all(|p| p[3] == 255) {
        let rgb: Vec<u8> = px.iter().flat_map(|p| [p[0], p[1], p[2]]).collect();
        let g = Frame::from_rgb_speed(w, h, &rgb, speed);
        exact(&g, w, h, px).map_err(|e| format!("from_rgb_speed: {e}"))?;
        exact(&Frame::from_rgb(w, h, &rgb), w, h, px).map_err(|e| format!("from_rgb: {e}"))?;
        if sig(&g) != sig(&Frame::from_rgb_speed(w, h, &rgb, speed)) { return Err("from_rgb_speed: made twice with different results".into()); }
    }
    if !px.is_empty() { through_file(&f)?; }
    Ok(())
}
/// k different colours
fn colour(sort: usize, i: usize) -> [u8; 3] {
    match sort {
        0 => [i as u8, (i >> 8) as u8, 7],
        1 => [255 - i as u8, i as u8, (i >> 8) as u8 ^ 0xFF],
        2 => { let x = (i as u32).wrapping_mul(0x9E_3779) & 0xFF_FFFF; [x as u8, (x >> 8) as u8, (x >> 16) as u8] }
        3 => [(i / 16 % 16) as u8 * 17, (i % 16) as u8 * 17, (i / 256) as u8 * 40],
        4 => [128 + (i % 7) as u8, 128 + (i / 7 % 7) as u8, 128 + (i / 49) as u8],
        _ => [0, (i >> 8) as u8, i as u8],
    }
}

fn c23(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("small", "every image of 0 to 5 (thorough 6) pixels over 8 RGBA values (equal colours with alpha 0, 1 and 255; different colours with alpha 0), one row or one column, speeds 1, 10 and 30", move |c| {
        let al: [Px; 8] = [[1, 2, 3, 255], [1, 2, 3, 0], [0, 0, 0, 0], [0, 0, 0, 255], [1, 2, 3, 1], [255, 255, 255, 128], [1, 2, 4, 255], [9, 9, 9, 0]];
        let n = c.range(0, t.sel(5, 6));
        let px: Vec<Px> = (0..n).map(|_| c.of(&al)).collect();
        let (w, h) = if c.flag() { (n as u16, 1) } else { (1, n as u16) };
        c23_case(c, w, h, &px, c.of(&[1, 10, 30]))
    }));
    v.push(Exploration::new("count", "every number 0 to 256 of different opaque colours, 6 sorts of colours, in 3 orders, with 0, 1 or 3 sorts of transparent pixels in front, behind or in between (at most 256 in all), 3 ways of using alpha", |c| {
        let k = c.choose(257);
        let sort = c.choose(6);
        let tr = c.of(&[0usize, 1, 3, 300]);
        if k + tr.min(1) > 256 || (k == 0 && tr == 0) { return Ok(()); }
        let mut cols: Vec<Px> = (0..k).map(|i| { let [r, g, b] = colour(sort, i); [r, g, b, 255] }).collect();
        match c.choose(3) { 0 => {} 1 => cols.reverse(), _ => { let m = cols.len(); cols = (0..m).map(|i| cols[(i * 89 + 5) % m]).collect::<HashSet<_>>().into_iter().collect(); cols.sort_by_key(|c| c[0].wrapping_mul(57) ^ c[1]); } }
        // the same colours again, backwards, with other alphas
        let alpha = c.choose(3);
        let again: Vec<Px> = cols.iter().rev().map(|p| [p[0], p[1], p[2], [255, 1, 254][alpha]]).collect();
        let ts: Vec<Px> = (0..tr).map(|i| { let [r, g, b] = colour((sort + 1) % 6, i); [r, g, b, 0] }).collect();
        let mut px = vec![];
        match if tr == 0 { 0 } else { c.choose(3) } {
            0 => { px.extend(&ts); px.extend(&cols); px.extend(&again); }
            1 => { px.extend(&cols); px.extend(&again); px.extend(&ts); }
            _ => { px.extend(&cols); px.extend(&ts); px.extend(&again); px.extend(&ts); }
        }
        if distinct(&px) > 256 { return Ok(()); }
        c.outcome(match distinct(&px) { 256 => "exactly 256", 255 => "255", _ => "fewer" });
        c23_case(c, px.len() as u16, 1, &px, 1 + (k % 30) as i32)
    }));
    v.push(Exploration::new("alpha", "every alpha 0 to 255 in an image of 3 pixels, next to the same colour with alpha 0 and 255, x speeds 1 to 30", |c| {
        let a = c.choose(256) as u8;
        let px: [Px; 3] = [[[5, 6, 7, a], [5, 6, 7, 255], [8, 8, 8, 255]], [[5, 6, 7, 0], [5, 6, 7, a], [8, 8, 8, a]], [[5, 6, 8, a], [5, 6, 7, a], [5, 6, 7, 0]]][c.choose(3)];
        c23_case(c, 3, 1, &px, c.range(1, 30) as i32)
    }));
    v.push(Exploration::new("shapes", "every size up to 12x12 and 4 large ones with up to 5 colours, transparent pixels or none", |c| {
        let k = c.choose(13 * 13 + 4);
        let (w, h) = if k < 169 { (k / 13, k % 13) } else { [(65535, 1), (1, 65535), (300, 200), (256, 256)][k - 169] };
        let tr = c.flag();
        let px: Vec<Px> = (0..w * h).map(|i| { let j = i * 7 % 11 % 5; [j as u8, 1, 2, if tr && j == 3 { 0 } else { 255 }] }).collect();
        c23_case(c, w as u16, h as u16, &px, 10)
    }));
    v.push(Exploration::new("sparse", "images of 1000 (thorough 20000) pixels with a new colour only at one of 20 places, and 256 colours in all", move |c| {
        let n = t.sel(1000, 20_000);
        let k = c.choose(20);
        let last = c.flag();
        let mut px: Vec<Px> = (0..n).map(|i| { let [r, g, b] = colour(2, i % 254); [r, g, b, 255] }).collect();
        px[k * (n - 1) / 19] = [200, 100, 50, if c.flag() { 0 } else { 255 }];
        if last { px[n - 1] = [1, 1, 1, 77]; }
        c23_case(c, n as u16, 1, &px, 5)
    }));
    v.push(Exploration::new("neighbours", "images of 1x256, 16x16, 257x256, 65535x2 and 400x400 pixels with 256 (or 255 and transparent pixels) colours that differ only in one of the channels, 5 values of the other two, in rising, falling and mixed order, speeds 1, 10, 11 and 30, opaque with alpha 255 or all alphas but 0", |c| {
        let (w, h) = c.of(&[(1u16, 256u16), (16, 16), (257, 256), (65535, 2), (400, 400)]);
        let ch = c.choose(3);
        let base = c.of(&[0u8, 1, 127, 254, 255]);
        let order = c.choose(3);
        let tr = c.flag();
        let alpha = c.flag();
        let speed = c.of(&[1, 10, 11, 30]);
        let px: Vec<Px> = (0..w as usize * h as usize).map(|i| {
            let k = match order { 0 => i as u8, 1 => 255 - i as u8, _ => (i * 89 + i / 256) as u8 };
            if tr && k == 100 { return [k, (i / 256) as u8, 0, 0]; }
            let mut p = [base, base, base, if alpha { 1 + (i % 255) as u8 } else { 255 }];
            p[ch] = k;
            p
        }).collect();
        c23_case(c, w, h, &px, speed)
    }));
    v.push(Exploration::new("late", "images of more than 65536 pixels (65537 in a row, 256x257, 300x300, 2x65535, 512x512): a colour, the only transparent pixel, or colour number 256 only at one of 12 places (first, around 2^15, 2^16 and 2^17, at a third and half, last but one, last), 1 to 255 other colours", |c| {
        let (w, h) = c.of(&[(65535u16, 2u16), (256, 257), (300, 300), (2, 65535), (512, 512)]);
        let n = w as usize * h as usize;
        let at = c.of(&[0, 255, 32767, 32768, 65535, 65536, n / 3, n / 2, n - 300, n - 2, n - 1, 131_072]);
        if at >= n { return Ok(()); }
        let k = c.of(&[1usize, 17, 255]);
        let x: Px = c.of(&[[200, 100, 51, 255], [200, 100, 51, 0], [200, 100, 51, 3]]);
        let mut px: Vec<Px> = (0..n).map(|i| { let [r, g, b] = colour(0, i % k); [r, g, b, 255] }).collect();
        px[at] = x;
        c23_case(c, w, h, &px, 10)
    }).cpu(60.0));
    v.push(Exploration::new("constructors", "palette and index constructors: every image of up to 3x3 pixels of 3 contents, 8 palette lengths, 4 transparent indices keep all arguments", |c| {
        let (w, h) = (c.choose(4) as u16, c.choose(4) as u16);
        let n = w as usize * h as usize;
        let k = c.choose(3);
        let px: Vec<u8> = (0..n).map(|i| match k { 0 => i as u8, 1 => 255 - i as u8, _ => 0 }).collect();
        let tr = c.of(&[None, Some(0), Some(7), Some(255)]);
        let f = Frame::default();
        plain_fields(&f).map_err(|e| format!("Frame::default: {e}"))?;
        if (f.width, f.height, f.buffer.len(), &f.palette, f.transparent) != (0, 0, 0, &None, None) { return Err(format!("Frame::default: {:?}", sig(&f))); }
        let f = Frame::from_indexed_pixels(w, h, px.clone(), tr);
        plain_fields(&f)?;
        if (f.width, f.height, &f.buffer[..], &f.palette, f.transparent) != (w, h, &px[..], &None, tr) { return Err(format!("from_indexed_pixels: {:?}", sig(&f))); }
        let p: Vec<u8> = (0..c.of(&[0usize, 1, 3, 6, 7, 300, 767, 768])).map(|i| i as u8).collect();
        let f = Frame::from_palette_pixels(w, h, px.clone(), p.clone(), tr);
        plain_fields(&f)?;
        c.obs(&sig(&f));
        c.validated(1);
        if (f.width, f.height, &f.buffer[..], f.palette.as_deref(), f.transparent) != (w, h, &px[..], Some(&p[..]), tr) { return Err(format!("from_palette_pixels: {:?}", sig(&f))); }
        Ok(())
    }));
    v.push(Exploration::new("refusals", "all constructors with pixel data that is right or off by 1, by a pixel, or a channel, or as long as it would be modulo 2^16, x speeds -1 to 32 and extremes, x palette lengths 765 to 775: a panic exactly when documented", |c| {
        let (w, h) = c.of(&[(0u16, 0u16), (1, 1), (2, 3), (0, 7), (256, 256)]);
        let n = w as usize * h as usize;
        let which = c.choose(6);
        let unit = match which { 0 | 1 => 4, 2 | 3 => 3, _ => 1 };
        let len = match c.choose(9) {
            0 => Some(n * unit), 1 => (n * unit).checked_sub(1), 2 => Some(n * unit + 1), 3 => (n * unit).checked_sub(unit), 4 => Some(n * unit + unit), 5 => Some(n), 6 => Some((n + 1) * unit),
            7 => Some(n * unit & 0xFFFF), _ => Some(n * 4),
        };
        let Some(len) = len else { return Ok(()) };
        let mut ok = len == n * unit;
        let d = vec![9u8; len];
        let speed = if matches!(which, 1 | 3) { let k = c.choose(36); if k < 34 { k as i32 - 1 } else { [i32::MIN, i32::MAX][k - 34] } } else { 1 };
        ok &= (1..=30).contains(&speed);
        let pl = if which == 4 { c.range(764, 776) } else { 0 };
        ok &= pl <= 768;
        c.note("arguments", || format!("constructor {which} {w}x{h} {len} bytes speed {speed} palette {pl}"));
        let r = catch(|| match which {
            0 => sig(&Frame::from_rgba(w, h, &mut d.clone())),
            1 => sig(&Frame::from_rgba_speed(w, h, &mut d.clone(), speed)),
            2 => sig(&Frame::from_rgb(w, h, &d)),
            3 => sig(&Frame::from_rgb_speed(w, h, &d, speed)),
            4 => sig(&Frame::from_palette_pixels(w, h, d.clone(), vec![1; pl], None)),
            _ => sig(&Frame::from_indexed_pixels(w, h, d.clone(), None)),
        });
        c.outcome(if r.is_ok() { "accepted" } else { "refused" });
        c.obs(&r.is_ok());
        if r.is_ok() != ok { return Err(format!("{}, expected {}", match &r { Ok(_) => "accepted".into(), Err(m) => format!("panicked ({m})") }, if ok { "a frame" } else { "a panic" })); }
        Ok(())
    }));
    v.push(Exploration::new("twins", "two pictures of 300 pixels and 200 colours that differ in one colour channel of one pixel, at every place, or by two pixels exchanged, or in one pixel's alpha: made into frames in the order first, second, first", |c| {
        let n = 300;
        let mut px: Vec<Px> = (0..n).map(|i| { let [r, g, b] = colour(2, i * 7 % 200); [r, g, b, 255] }).collect();
        let one = px.clone();
        let i = c.choose(n - 1);
        match c.choose(5) { k @ 0..=2 => px[i][k] ^= 1, 3 => px[i][3] = 0, _ => px.swap(i, i + 1) }
        let s = c.of(&[1, 10]);
        c23_case(c, n as u16, 1, &one, s)?;
        c23_case(c, n as u16, 1, &px, s)?;
        c23_case(c, n as u16, 1, &one, s)
    }));
    v
}

fn c24_case(c: &Ctx, w: u16, h: u16, px: &[Px], speed: i32) -> Res {
    note_px(c, w, h, px, speed);
    if distinct(px) <= 256 { return Err("harness: too few colours".into()); }
    let f = make_kept(w, h, px, speed)?;
    c.obs(&sig(&f));
    c.validated(1);
    shape_of(&f, w, h)?;
    let mut any = false;
    for (i, x) in px.iter().enumerate() {
        if x[3] == 0 {
            any = true;
            if f.transparent != Some(f.buffer[i]) { return Err(format!("transparent pixel {i} {x:?} has index {}, transparent is {:?}", f.buffer[i], f.transparent)); }
        }
    }
    for (i, x) in px.iter().enumerate() { if x[3] != 0 && f.transparent == Some(f.buffer[i]) { return Err(format!("opaque pixel {i} {x:?} has the transparent index")); } }
    if !any && f.transparent.is_some() { return Err("a transparent index without transparent pixels".into()); }
    if sig(&make(w, h, px, speed)) != sig(&f) { return Err("made twice with different results".into()); }
    if speed == 1 && sig(&Frame::from_rgba(w, h, &mut px.concat())) != sig(&f) { return Err("from_rgba differs from from_rgba_speed at speed 1".into()); }
    if px.iter().all(|p| p[3] == 255) {
        let rgb: Vec<u8> = px.iter().flat_map(|p| [p[0], p[1], p[2]]).collect();
        let g = Frame::from_rgb_speed(w, h, &rgb, speed);
        shape_of(&g, w, h).map_err(|e| format!("from_rgb_speed: {e}"))?;
        if sig(&g) != sig(&f) { return Err("from_rgb_speed differs from from_rgba_speed with opaque pixels".into()); }
        if speed == 1 && sig(&Frame::from_rgb(w, h, &rgb)) != sig(&f) { return Err("from_rgb differs from from_rgb_speed at speed 1".into()); }
        if g.transparent.is_some() { return Err("from_rgb_speed gives a transparent index".into()); }
        if sig(&g) != sig(&Frame::from_rgb_speed(w, h, &rgb, speed)) { return Err("from_rgb_speed: made twice with different results".into()); }
    }
    through_file(&f)
}
fn c24(t: Tier) -> Vec<Exploration> {
    let mut v = vec![];
    v.push(Exploration::new("counts", "every number 256 to 290 (thorough 600) of opaque colours, 6 sorts, x 9 sets of transparent pixels (none, one or many, same or different colours, colours that also occur opaque; first, last, spread), speeds 1, 10, 30", move |c| {
        let k = 256 + c.choose(t.sel(35, 345));
        let sort = c.choose(6);
        let tr = c.choose(9);
        let mut px: Vec<Px> = (0..k).map(|i| { let [r, g, b] = colour(sort, i); [r, g, b, 255] }).collect();
        match tr {
            0 => {}
            1 => px.insert(0, [3, 3, 3, 0]),
            2 => px.push([0, 0, 0, 0]),
            3 => { px.insert(0, [0, 0, 0, 0]); px.push([255, 255, 255, 0]); }
            4 => { for i in 0..40 { let [r, g, b] = colour(5 - sort, i * 7); px.insert(i * 5, [r, g, b, 0]); } }
            5 => { let p = px[k / 2]; px.insert(k / 3, [p[0], p[1], p[2], 0]); }
            6 => { for i in 0..300 { let [r, g, b] = colour((sort + 2) % 6, i * 3); px.push([r, g, b, 0]); } }
            7 => { for i in 0..k { if i % 2 == 0 { let p = px[i]; px.push([p[0], p[1], p[2], 0]); } } }
            _ => { let p = px[0]; for x in &mut px { x[3] = 1; } px.push([p[0], p[1], p[2], 0]); px.push([p[0] ^ 1, p[1], p[2], 0]); }
        }
        if distinct(&px) <= 256 { return Ok(()); }
        c.outcome(&format!("{} colours beyond 256", match distinct(&px) - 256 { 1 => "1", 2 => "2", _ => "more" }));
        c24_case(c, px.len() as u16, 1, &px, c.of(&[10, 1, 30]))
    }));
    v.push(Exploration::new("speeds", "every speed 1 to 30 x 6 sorts of colours x number of pixels 257, 300, 503, 1000 and 5000 x transparent pixels or none", move |c| {
        let s = c.range(1, 30) as i32;
        let sort = c.choose(6);
        let n = c.of(&[257usize, 300, 503, 1000, 5000]);
        let mut px: Vec<Px> = (0..n).map(|i| { let [r, g, b] = colour(sort, i % 500); [r, g, b, 255] }).collect();
        if c.flag() { px[n / 3][3] = 0; px[n - 1] = [1, 9, 1, 0]; }
        if distinct(&px) <= 256 { return Ok(()); }
        c24_case(c, n as u16, 1, &px, s)
    }));
    v.push(Exploration::new("place", "one pixel beyond 256 colours at each place of images of 257 to 270 pixels, opaque or transparent, x 3 sorts", |c| {
        let n = c.range(257, 270);
        let sort = c.choose(3);
        let at = c.choose(n);
        let x: Px = c.of(&[[77, 78, 79, 255], [77, 78, 79, 0], [0, 0, 7, 0]]);
        let mut px: Vec<Px> = (0..n - 1).map(|i| { let [r, g, b] = colour(sort, i); [r, g, b, 255] }).collect();
        px.insert(at, x);
        if distinct(&px) <= 256 { return Ok(()); }
        c24_case(c, n as u16, 1, &px, 30)
    }));
    v.push(Exploration::new("late", "images of more than 65536 pixels (256x257, 300x300, 2x65535): the first pixels have 256 colours; a 257th, or a transparent pixel beside 300 colours, comes only at one of 9 places up to the last", |c| {
        let (w, h) = c.of(&[(256u16, 257u16), (300, 300), (2, 65535)]);
        let n = w as usize * h as usize;
        let at = c.of(&[256, 32768, 65535, 65536, n / 2, n - 300, n - 2, n - 1, 3]);
        let (k, x): (usize, Px) = c.of(&[(256, [200, 100, 51, 255]), (256, [200, 100, 51, 0]), (300, [200, 100, 51, 0])]);
        let mut px: Vec<Px> = (0..n).map(|i| { let [r, g, b] = colour(0, i % k); [r, g, b, 255] }).collect();
        px[at] = x;
        if distinct(&px) <= 256 { return Err("harness: too few colours".into()); }
        c24_case(c, w, h, &px, c.of(&[10, 30]))
    }).cpu(60.0));
    v.push(Exploration::new("sizes", "photograph-like gradients of 12 sizes up to 256x256 (thorough 1000x500) with a transparent border or none, speeds 1, 10, 30", move |c| {
        let (w, h) = c.of(&[(17u16, 17u16), (257, 1), (1, 300), (20, 30), (64, 64), (100, 7), (256, 2), (255, 255), (256, 256), (300, 100), (1000, 20), (1000, 500)]);
        if w as usize * h as usize > t.sel(66_000, 600_000) { return Ok(()); }
        let border = c.flag();
        let px: Vec<Px> = (0..h as usize).flat_map(|y| (0..w as usize).map(move |x| {
            let e = border && (x == 0 || y == 0 || x + 1 == w as usize || y + 1 == h as usize);
            [(x * 255 / w as usize) as u8, (y * 255 / h as usize) as u8, ((x * 3) ^ (y * 5)) as u8, if e { 0 } else { 255 }]
        })).collect();
        if distinct(&px) <= 256 { return Ok(()); }
        c24_case(c, w, h, &px, c.of(&[10, 30, 1]))
    }).cpu(60.0));
    v
}
