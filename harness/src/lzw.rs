//! Reference GIF LZW: a plain decoder, a code packer and encoders with different strategies.
//! Nothing here shares code with weezl.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End { Code, Starved, Invalid }

pub struct Out {
    pub pixels: Vec<u8>,
    pub end: End,
    /// number of bits consumed, including the end code
    pub bits: usize,
    pub codes: Vec<u16>,
}

/// Decodes everything the data denotes (not more than about `max` pixels).
pub fn decode(mcs: u8, data: &[u8], max: usize) -> Out {
    let clear = 1usize << mcs;
    let mut o = Out { pixels: vec![], end: End::Starved, bits: 0, codes: vec![] };
    let (mut pre, mut suf, mut len) = (vec![0u16; 4096], vec![0u8; 4096], vec![0u32; 4096]);
    for i in 0..clear.min(256) { suf[i] = i as u8; len[i] = 1; }
    let (mut next, mut width, mut prev): (usize, usize, Option<usize>) = (clear + 2, mcs as usize + 1, None);
    loop {
        if o.bits + width > data.len() * 8 { return o; }
        let mut code = 0usize;
        for b in 0..width {
            let p = o.bits + b;
            code |= ((data[p / 8] >> (p % 8) & 1) as usize) << b;
        }
        o.bits += width;
        o.codes.push(code as u16);
        if code == clear {
            next = clear + 2; width = mcs as usize + 1; prev = None;
            continue;
        }
        if code == clear + 1 { o.end = End::Code; return o; }
        match prev {
            None => {
                if code > clear { o.end = End::Invalid; return o; }
                o.pixels.push(code as u8);
            }
            Some(p) => {
                let (src, kwkwk) = if code < next { (code, false) } else if code == next && next < 4096 { (p, true) } else { o.end = End::Invalid; return o; };
                let n = len[src] as usize;
                let start = o.pixels.len();
                o.pixels.resize(start + n, 0);
                let mut c = src;
                for i in (0..n).rev() {
                    o.pixels[start + i] = suf[c];
                    c = pre[c] as usize;
                }
                let first = o.pixels[start];
                if kwkwk { o.pixels.push(first); }
                if next < 4096 {
                    pre[next] = p as u16; suf[next] = first; len[next] = len[p] + 1;
                    next += 1;
                    if next == 1 << width && width < 12 { width += 1; }
                }
            }
        }
        prev = Some(code);
        if o.pixels.len() > max { return o; }
    }
}

/// Writes codes with the widths a decoder expects at each point.
pub struct Packer { mcs: u8, pub bytes: Vec<u8>, acc: u64, nbits: u32, pub next: usize, pub width: usize, has_prev: bool }
impl Packer {
    pub fn new(mcs: u8) -> Self {
        Packer { mcs, bytes: vec![], acc: 0, nbits: 0, next: (1 << mcs) + 2, width: mcs as usize + 1, has_prev: false }
    }
    pub fn push(&mut self, code: u16) {
        debug_assert!((code as usize) < 1 << self.width, "code {code} does not fit");
        self.acc |= u64::from(code) << self.nbits;
        self.nbits += self.width as u32;
        while self.nbits >= 8 { self.bytes.push(self.acc as u8); self.acc >>= 8; self.nbits -= 8; }
        let clear = 1u16 << self.mcs;
        if code == clear {
            self.next = (1 << self.mcs) + 2; self.width = self.mcs as usize + 1; self.has_prev = false;
        } else if code != clear + 1 {
            if self.has_prev && self.next < 4096 {
                self.next += 1;
                if self.next == 1 << self.width && self.width < 12 { self.width += 1; }
            }
            self.has_prev = true;
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        if self.nbits > 0 { self.bytes.push(self.acc as u8); }
        self.bytes
    }
}
pub fn pack(mcs: u8, codes: &[u16]) -> Vec<u8> {
    let mut p = Packer::new(mcs);
    for &c in codes { p.push(c); }
    p.finish()
}

#[derive(Clone, Copy, Debug)]
pub struct Strat {
    pub initial_clear: bool,
    pub end: bool,
    /// only codes below the clear code
    pub literal: bool,
    /// a clear code before every n-th code (0: never)
    pub clear_every: usize,
    /// one clear code before this code (usize::MAX: none)
    pub clear_at: usize,
    /// number of clear codes each time
    pub clears: usize,
    /// when the table is full, keep using it instead of clearing
    pub deferred: bool,
}
pub const STD: Strat = Strat { initial_clear: true, end: true, literal: false, clear_every: 0, clear_at: usize::MAX, clears: 1, deferred: false };

pub fn codes(mcs: u8, px: &[u8], s: Strat) -> Vec<u16> {
    let clear = 1u16 << mcs;
    let mut out = vec![];
    if s.initial_clear { for _ in 0..s.clears { out.push(clear); } }
    let mut dict: HashMap<(u16, u8), u16> = HashMap::new();
    let (mut next, mut first, mut n) = (clear + 2, true, 0usize);
    let mut i = 0;
    while i < px.len() {
        if (s.clear_every > 0 && n > 0 && n % s.clear_every == 0) || n == s.clear_at || (next == 4096 && !s.deferred) {
            for _ in 0..s.clears { out.push(clear); }
            dict.clear(); next = clear + 2; first = true;
        }
        let mut cur = u16::from(px[i]);
        i += 1;
        if !s.literal {
            while i < px.len() {
                match dict.get(&(cur, px[i])) { Some(&c) => { cur = c; i += 1; } None => break }
            }
        }
        out.push(cur);
        n += 1;
        // the decoder adds (previous string + first symbol of this one) now; the encoder knows the
        // entry (this string + next symbol) one code earlier, which is only usable after that
        if !first && next < 4096 { next += 1; }
        if i < px.len() && next < 4096 && !s.literal {
            let id = next; // will be defined when the next code arrives
            dict.entry((cur, px[i])).or_insert(id);
        }
        first = false;
    }
    if s.end { out.push(clear + 1); }
    out
}

pub fn encode(mcs: u8, px: &[u8], s: Strat) -> Vec<u8> { pack(mcs, &codes(mcs, px, s)) }
