//! A strict GIF89a reader for what the encoder wrote.
use crate::lzw;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Block {
    Ext { label: u8, blocks: Vec<Vec<u8>> },
    Image { left: u16, top: u16, w: u16, h: u16, interlaced: bool, lpal: Option<Vec<u8>>, mcs: u8, blocks: Vec<Vec<u8>> },
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SGif { pub w: u16, pub h: u16, pub gpal: Option<Vec<u8>>, pub bg: u8, pub aspect: u8, pub blocks: Vec<Block> }

pub fn parse(b: &[u8]) -> Result<SGif, String> {
    let mut p = 0usize;
    fn take<'a>(b: &'a [u8], p: &mut usize, n: usize, what: &str) -> Result<&'a [u8], String> {
        let r = b.get(*p..*p + n).ok_or_else(|| format!("file ends inside {what} at {}", *p))?;
        *p += n;
        Ok(r)
    }
    fn subs(b: &[u8], p: &mut usize, what: &str) -> Result<Vec<Vec<u8>>, String> {
        let mut v = vec![];
        loop {
            let n = take(b, p, 1, what)?[0] as usize;
            if n == 0 { return Ok(v); }
            v.push(take(b, p, n, what)?.to_vec());
        }
    }
    let le = |x: &[u8]| u16::from(x[0]) | u16::from(x[1]) << 8;
    if take(b, &mut p, 6, "signature")? != b"GIF89a" { return Err("signature is not GIF89a".into()); }
    let d = take(b, &mut p, 7, "screen descriptor")?;
    let mut g = SGif { w: le(d), h: le(&d[2..]), gpal: None, bg: d[5], aspect: d[6], blocks: vec![] };
    if d[4] & 0x80 != 0 { g.gpal = Some(take(b, &mut p, 3 << ((d[4] & 7) + 1), "global palette")?.to_vec()); }
    loop {
        match take(b, &mut p, 1, "block list (no trailer)")?[0] {
            0x3B => {
                if p != b.len() { return Err(format!("{} bytes behind the trailer: {}", b.len() - p, crate::genr::hex(&b[p..]))); }
                return Ok(g);
            }
            0x21 => {
                let label = take(b, &mut p, 1, "extension")?[0];
                g.blocks.push(Block::Ext { label, blocks: subs(b, &mut p, "extension")? });
            }
            0x2C => {
                let d = take(b, &mut p, 9, "image descriptor")?;
                let (left, top, w, h, f) = (le(d), le(&d[2..]), le(&d[4..]), le(&d[6..]), d[8]);
                if f & 0x38 != 0 { return Err(format!("reserved or sort bits set in image flags {f:#x}")); }
                let lpal = if f & 0x80 != 0 { Some(take(b, &mut p, 3 << ((f & 7) + 1), "local palette")?.to_vec()) } else { None };
                let mcs = take(b, &mut p, 1, "code size")?[0];
                g.blocks.push(Block::Image { left, top, w, h, interlaced: f & 0x40 != 0, lpal, mcs, blocks: subs(b, &mut p, "image data")? });
            }
            x => return Err(format!("byte {x:#x} at {} where a block should start", p - 1)),
        }
    }
}

/// The offsets at which header and palette, each block, and the trailer of a well-formed file end.
pub fn ends(b: &[u8]) -> Option<Vec<usize>> {
    fn subs(b: &[u8], mut p: usize) -> Option<usize> { loop { let n = *b.get(p)? as usize; p += n + 1; if n == 0 { return Some(p); } } }
    let pal = |f: u8| if f & 0x80 != 0 { 3usize << ((f & 7) + 1) } else { 0 };
    let mut p = 13 + pal(*b.get(10)?);
    let mut v = vec![p];
    loop {
        p = match *b.get(p)? {
            0x21 => subs(b, p + 2)?,
            0x2C => subs(b, p + 11 + pal(*b.get(p + 9)?))?,
            _ => { v.push(p + 1); return Some(v); }
        };
        v.push(p);
    }
}

/// Strict check of the compressed data of one image against its pixels.
pub fn check_lzw(mcs: u8, blocks: &[Vec<u8>], px: &[u8]) -> Result<(), String> {
    if !(2..=8).contains(&mcs) { return Err(format!("minimum code size {mcs}")); }
    let data = blocks.concat();
    let o = lzw::decode(mcs, &data, usize::MAX >> 1);
    if o.codes.first() != Some(&(1 << mcs)) { return Err("image data does not start with a clear code".into()); }
    match o.end {
        lzw::End::Code => {}
        e => return Err(format!("image data ends with {e:?} instead of an end code")),
    }
    if data.len() * 8 - o.bits >= 8 { return Err(format!("{} bits behind the end code", data.len() * 8 - o.bits)); }
    if data.len() * 8 != o.bits && data.last().unwrap() >> (8 - (data.len() * 8 - o.bits)) != 0 { return Err("padding bits behind the end code are not zero".into()); }
    if o.pixels != px { return Err(crate::drive::diff("decoded image data", &o.pixels, px)); }
    Ok(())
}
