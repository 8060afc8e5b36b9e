//! Counting global allocator: per-thread current and peak heap bytes, with a hard cap per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

/// A single thread may not hold more than this; allocation then fails (an abort or an error,
/// depending on how the code under test allocates).
pub const CAP: isize = 3 << 30;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(CAP) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) -> bool {
    CUR.with(|c| {
        let v = c.get() + n;
        if n > 0 && v > LIMIT.with(|l| l.get()) {
            return false;
        }
        c.set(v);
        PEAK.with(|p| if v > p.get() { p.set(v) });
        true
    })
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) { return std::ptr::null_mut(); }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) { return std::ptr::null_mut(); }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as isize - l.size() as isize) { return std::ptr::null_mut(); }
        System.realloc(p, l, n)
    }
}

/// Another cap for this thread, until the value is dropped.
pub struct Raised;
impl Raised { pub fn to(n: isize) -> Self { LIMIT.with(|l| l.set(n)); Raised } }
impl Drop for Raised { fn drop(&mut self) { LIMIT.with(|l| l.set(CAP)); } }

/// Starts a measurement: returns the current level and resets the peak to it.
pub fn start() -> isize {
    let c = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(c));
    c
}

/// Peak above the level returned by `start`.
pub fn peak_since(base: isize) -> isize {
    PEAK.with(|p| p.get()) - base
}

/// Zeroed memory that is not counted, for buffers above the cap.
pub struct Uncounted { p: *mut u8, l: Layout }
impl Uncounted {
    pub fn new(n: usize) -> Option<Self> {
        let l = Layout::from_size_align(n.max(1), 4096).ok()?;
        let p = unsafe { System.alloc_zeroed(l) };
        (!p.is_null()).then_some(Uncounted { p, l })
    }
    pub fn bytes(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.p, self.l.size()) } }
}
impl Drop for Uncounted {
    fn drop(&mut self) { unsafe { System.dealloc(self.p, self.l) } }
}
