//! Stateless explorer: depth-first enumeration of every choice vector of a harness body.
//!
//! A body makes *data choices* (`choose`, enumerated fully) and *environment deviations*
//! (`deviate`, 0 is the default answer; at most `dev_budget` non-default answers per execution).
//! Executions always run to completion. The tree of choices is explored completely by several
//! worker threads that hand each other untouched subtrees.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;
pub type Body = Box<dyn Fn(&Ctx) -> Res + Send + Sync>;

pub struct Exploration {
    pub name: String,
    /// what is enumerated and within which bounds, for the evidence file
    pub about: String,
    pub dev_budget: u32,
    pub cpu_limit_s: f64,
    pub body: Body,
}

impl Exploration {
    pub fn new(name: &str, about: &str, body: impl Fn(&Ctx) -> Res + Send + Sync + 'static) -> Self {
        Exploration { name: name.into(), about: about.into(), dev_budget: 0, cpu_limit_s: 10.0, body: Box::new(body) }
    }
    pub fn dev(mut self, n: u32) -> Self {
        self.dev_budget = n;
        self
    }
    pub fn cpu(mut self, s: f64) -> Self {
        self.cpu_limit_s = s;
        self
    }
}

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^ (x >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8);
        for c in it.by_ref() {
            self.write_u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let mut v = 0u64;
        for &x in it.remainder() {
            v = v << 8 | u64::from(x);
        }
        self.write_u64(v ^ ((b.len() as u64) << 56));
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u8(&mut self, v: u8) { self.write_u64(v.into()) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v.into()) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v.into()) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, v: u64) { self.0 = v }
}
type IdSet = HashSet<u64, BuildHasherDefault<Ident>>;

const STATE_CAP: usize = 12_000_000; // per worker

/// What a body sees.
pub struct Ctx {
    prefix: RefCell<Vec<u32>>,
    trace: RefCell<Vec<(u32, u32)>>,
    dev_left: Cell<u32>,
    diverged: Cell<bool>,
    // observations
    run_hash: Cell<u64>,
    states: RefCell<IdSet>,
    transitions: Cell<u64>,
    validated: Cell<u64>,
    evaluations: Cell<u64>,
    nontrivial: RefCell<IdSet>,
    outcomes: RefCell<BTreeMap<String, u64>>,
    // notes are only rendered when somebody wants to read them
    pub verbose: bool,
    notes: RefCell<Vec<(String, String)>>,
    slot: Cell<*const Slot>,
}

impl Ctx {
    fn new(verbose: bool) -> Self {
        Ctx {
            prefix: Default::default(), trace: Default::default(), dev_left: Cell::new(0), diverged: Cell::new(false),
            run_hash: Cell::new(0), states: Default::default(), transitions: Cell::new(0), validated: Cell::new(0),
            evaluations: Cell::new(0), nontrivial: Default::default(), outcomes: Default::default(), verbose,
            notes: Default::default(), slot: Cell::new(std::ptr::null()),
        }
    }
    fn raw_choice(&self, n: usize) -> usize {
        let mut tr = self.trace.borrow_mut();
        let i = tr.len();
        let pf = self.prefix.borrow();
        let c = if i < pf.len() { pf[i] } else { 0 };
        if c as usize >= n {
            self.diverged.set(true);
            drop(tr);
            panic!("explorer: choice {c} out of range {n} at depth {i}: the harness or the code is not deterministic");
        }
        tr.push((c, n as u32));
        let s = self.slot.get();
        if !s.is_null() {
            unsafe { (*s).push(i, c) };
        }
        c as usize
    }
    /// A data choice among `n` alternatives, all explored.
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if n == 1 { return 0; }
        self.raw_choice(n)
    }
    pub fn flag(&self) -> bool { self.choose(2) == 1 }
    pub fn range(&self, lo: usize, hi_incl: usize) -> usize { lo + self.choose(hi_incl - lo + 1) }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T { &xs[self.choose(xs.len())] }
    pub fn of<T: Copy>(&self, xs: &[T]) -> T { xs[self.choose(xs.len())] }
    /// A deviation of the environment: 0 is the normal answer.
    pub fn deviate(&self, n: usize) -> usize {
        if n <= 1 || self.dev_left.get() == 0 { return 0; }
        let c = self.raw_choice(n);
        if c != 0 { self.dev_left.set(self.dev_left.get() - 1); }
        c
    }
    /// One step of the implementation was taken and this was observed.
    pub fn obs<T: Hash + ?Sized>(&self, t: &T) {
        let mut h = Fx(self.run_hash.get());
        t.hash(&mut h);
        let v = h.finish();
        self.run_hash.set(v);
        self.transitions.set(self.transitions.get() + 1);
        let mut s = self.states.borrow_mut();
        if s.len() < STATE_CAP { s.insert(v); }
    }
    pub fn steps(&self, n: u64) { self.transitions.set(self.transitions.get() + n); }
    /// The implementation was compared against the reference model on this execution (n traces).
    pub fn validated(&self, n: u64) { self.validated.set(self.validated.get() + n); }
    pub fn evaluated(&self, n: u64) { self.evaluations.set(self.evaluations.get() + n); }
    /// This case is non-trivial by the rule of the check; cases with equal keys count once.
    pub fn nontrivial<T: Hash + ?Sized>(&self, key: &T) {
        let mut s = self.nontrivial.borrow_mut();
        if s.len() < STATE_CAP { s.insert(hash_of(key)); }
    }
    pub fn outcome(&self, what: &str) {
        let mut o = self.outcomes.borrow_mut();
        if let Some(v) = o.get_mut(what) { *v += 1; } else { o.insert(what.to_string(), 1); }
    }
    pub fn note(&self, key: &str, f: impl FnOnce() -> String) {
        if self.verbose { self.notes.borrow_mut().push((key.into(), f())); }
    }
    fn reset(&self, prefix: &[u32], budget: u32) {
        let mut p = self.prefix.borrow_mut();
        p.clear();
        p.extend_from_slice(prefix);
        self.trace.borrow_mut().clear();
        self.dev_left.set(budget);
        self.run_hash.set(0);
        self.notes.borrow_mut().clear();
    }
}

// ---------------------------------------------------------------- crash slots

/// The path of the execution a worker is running, in memory shared with the supervisor.
#[repr(C)]
pub struct Slot {
    pub active: AtomicU64,
    pub exploration: AtomicU64,
    pub len: AtomicU64,
    pub path: [std::sync::atomic::AtomicU32; SLOT_PATH],
}
pub const SLOT_PATH: usize = 16384 - 6;
pub const SLOTS: usize = 16;
impl Slot {
    unsafe fn push(&self, i: usize, c: u32) {
        if i < SLOT_PATH {
            self.path[i].store(c, Relaxed);
            self.len.store(i as u64 + 1, Relaxed);
        }
    }
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub unsafe fn map_slots(file: &std::fs::File) -> *const Slot {
    use std::os::fd::AsRawFd;
    let len = std::mem::size_of::<Slot>() * SLOTS;
    file.set_len(len as u64).expect("slot file");
    let p = mmap(std::ptr::null_mut(), len, 3, 1, file.as_raw_fd(), 0);
    assert!(p as isize != -1, "mmap failed");
    p as *const Slot
}

fn my_clock() -> i32 {
    let mut id = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut id) };
    id
}
fn cpu_of(id: i32) -> f64 {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(id, &mut ts) } != 0 { return 0.0; }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

// ---------------------------------------------------------------- panics

thread_local! {
    static IN_BODY: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_BODY.with(|b| b.get()) {
            let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} (at {at})")));
        } else {
            old(info)
        }
    }));
}

/// Runs code of the implementation that is allowed to panic; Err is the message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn run_body(e: &Exploration, c: &Ctx) -> Res {
    IN_BODY.with(|b| b.set(true));
    let r = catch(|| (e.body)(c));
    IN_BODY.with(|b| b.set(false));
    match r {
        Ok(r) => r,
        Err(msg) => Err(format!("panicked: {msg}")),
    }
}

// ---------------------------------------------------------------- exploration

pub struct Violation {
    pub exploration: String,
    pub path: Vec<u32>,
    pub message: String,
    pub kind: &'static str,
}

#[derive(Default)]
pub struct Report {
    pub name: String,
    pub about: String,
    pub executions: u64,
    pub states: u64,
    pub states_capped: bool,
    pub transitions: u64,
    pub validated: u64,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub max_depth: usize,
    pub dev_budget: u32,
    pub outcomes: BTreeMap<String, u64>,
    pub complete: bool,
    pub wall_s: f64,
    pub samples: Vec<(Vec<u32>, Vec<(String, String)>)>,
    pub violation: Option<Violation>,
    pub error: Option<String>,
}

struct Lvl { cur: u32, hi: u32 }
struct Task { prefix: Vec<u32>, lo: u32, hi: u32, root: bool }

struct Shared {
    queue: Mutex<(VecDeque<Task>, usize)>, // tasks, number of idle workers
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    timed_out: AtomicBool,
    violation: Mutex<Option<Violation>>,
    error: Mutex<Option<String>>,
    workers: usize,
}

struct Watch { clock: AtomicU64, start_us: AtomicU64, running: AtomicBool }

#[derive(Default)]
struct WorkerOut {
    executions: u64, transitions: u64, validated: u64, evaluations: u64, max_depth: usize,
    states: IdSet, nontrivial: IdSet, outcomes: BTreeMap<String, u64>, last: Vec<u32>, mid: Vec<u32>,
}

pub struct Engine {
    pub threads: usize,
    pub deadline: Option<Instant>,
    pub slots: *const Slot,
    /// called from the watchdog when an execution does not end; must not return
    pub on_hang: Box<dyn Fn(Violation) + Send + Sync>,
}
unsafe impl Sync for Engine {}

impl Engine {
    pub fn run(&self, idx: usize, e: &Exploration) -> Report {
        let t0 = Instant::now();
        let n = self.threads.max(1);
        let sh = Shared {
            queue: Mutex::new((VecDeque::from([Task { prefix: vec![], lo: 0, hi: 0, root: true }]), 0)),
            cv: Condvar::new(), idle: AtomicUsize::new(0), stop: AtomicBool::new(false), timed_out: AtomicBool::new(false),
            violation: Mutex::new(None), error: Mutex::new(None), workers: n,
        };
        let watches: Vec<Watch> = (0..n).map(|_| Watch { clock: AtomicU64::new(0), start_us: AtomicU64::new(0), running: AtomicBool::new(false) }).collect();
        let paths: Vec<Mutex<Vec<u32>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
        let all_done = AtomicBool::new(false);
        let outs: Vec<WorkerOut> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n).map(|w| {
                let (sh, watch, path) = (&sh, &watches[w], &paths[w]);
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || self.worker(idx, e, w, sh, watch, path)).unwrap()
            }).collect();
            let dog = s.spawn(|| {
                while !all_done.load(SeqCst) {
                    std::thread::park_timeout(Duration::from_millis(200));
                    for (w, x) in watches.iter().enumerate() {
                        if !x.running.load(SeqCst) { continue; }
                        let st = x.start_us.load(SeqCst);
                        let now = (cpu_of(x.clock.load(SeqCst) as i64 as i32) * 1e6) as u64;
                        if now > st && (now - st) as f64 * 1e-6 > e.cpu_limit_s && x.running.load(SeqCst) && x.start_us.load(SeqCst) == st {
                            let mut path = paths[w].lock().unwrap().clone();
                            if !self.slots.is_null() && w < SLOTS {
                                // the slot also has the choices made after the known prefix
                                let s = unsafe { &*self.slots.add(w) };
                                path = (0..(s.len.load(SeqCst) as usize).min(SLOT_PATH)).map(|i| s.path[i].load(SeqCst)).collect();
                            }
                            (self.on_hang)(Violation {
                                exploration: e.name.clone(), path, kind: "hang",
                                message: format!("the execution did not end within {} s of CPU time: a call loops forever", e.cpu_limit_s),
                            });
                        }
                    }
                    if let Some(d) = self.deadline {
                        if Instant::now() > d && !sh.stop.load(SeqCst) {
                            sh.timed_out.store(true, SeqCst);
                            sh.stop.store(true, SeqCst);
                            sh.cv.notify_all();
                        }
                    }
                }
            });
            let outs = hs.into_iter().map(|h| h.join().expect("worker")).collect();
            all_done.store(true, SeqCst);
            dog.thread().unpark();
            outs
        });
        let mut r = Report { name: e.name.clone(), about: e.about.clone(), dev_budget: e.dev_budget, ..Report::default() };
        let (mut st, mut nt) = (IdSet::default(), IdSet::default());
        let mut sample_paths: Vec<Vec<u32>> = vec![vec![]];
        for o in outs {
            r.executions += o.executions;
            r.transitions += o.transitions;
            r.validated += o.validated;
            r.evaluations += o.evaluations;
            r.max_depth = r.max_depth.max(o.max_depth);
            r.states_capped |= o.states.len() >= STATE_CAP;
            if st.is_empty() { st = o.states } else { st.extend(o.states) }
            if nt.is_empty() { nt = o.nontrivial } else { nt.extend(o.nontrivial) }
            for (k, v) in o.outcomes { *r.outcomes.entry(k).or_default() += v; }
            if o.executions > 2 && sample_paths.len() < 3 {
                sample_paths.push(o.mid);
                sample_paths.push(o.last);
            }
        }
        r.states = st.len() as u64;
        r.nontrivial = nt.len() as u64;
        r.violation = sh.violation.into_inner().unwrap();
        r.error = sh.error.into_inner().unwrap();
        r.complete = !sh.timed_out.load(SeqCst) && r.violation.is_none() && r.error.is_none();
        if r.violation.is_none() && r.error.is_none() {
            for p in sample_paths.into_iter().take(3) {
                let (_, notes, path) = replay(e, &p);
                r.samples.push((path, notes));
            }
        }
        r.wall_s = t0.elapsed().as_secs_f64();
        r
    }

    fn worker(&self, idx: usize, e: &Exploration, w: usize, sh: &Shared, watch: &Watch, path: &Mutex<Vec<u32>>) -> WorkerOut {
        let ctx = Ctx::new(false);
        let clock = my_clock();
        watch.clock.store(clock as i64 as u64, SeqCst);
        let slot: Option<&Slot> = if self.slots.is_null() || w >= SLOTS { None } else { Some(unsafe { &*self.slots.add(w) }) };
        if let Some(s) = slot {
            ctx.slot.set(s);
            s.exploration.store(idx as u64, SeqCst);
        }
        let mut out = WorkerOut::default();
        let mut cur: Vec<u32> = vec![];
        'tasks: loop {
            let task = {
                let mut q = sh.queue.lock().unwrap();
                q.1 += 1;
                sh.idle.store(q.1, SeqCst);
                loop {
                    if sh.stop.load(SeqCst) { break 'tasks; }
                    if let Some(t) = q.0.pop_front() {
                        q.1 -= 1;
                        sh.idle.store(q.1, SeqCst);
                        break t;
                    }
                    if q.1 == sh.workers {
                        sh.stop.store(true, SeqCst);
                        sh.cv.notify_all();
                        break 'tasks;
                    }
                    q = sh.cv.wait_timeout(q, Duration::from_millis(300)).unwrap().0;
                }
            };
            let mut stack: Vec<Lvl> = task.prefix.iter().map(|&p| Lvl { cur: p, hi: p + 1 }).collect();
            if !task.root { stack.push(Lvl { cur: task.lo, hi: task.hi }); }
            loop {
                if sh.stop.load(Relaxed) { break 'tasks; }
                cur.clear();
                cur.extend(stack.iter().map(|l| l.cur));
                ctx.reset(&cur, e.dev_budget);
                if slot.is_none() {
                    let mut p = path.lock().unwrap();
                    p.clear();
                    p.extend_from_slice(&cur);
                }
                if let Some(s) = slot { s.len.store(0, Relaxed); s.active.store(1, Relaxed); }
                watch.start_us.store((cpu_of(clock) * 1e6) as u64, SeqCst);
                watch.running.store(true, SeqCst);
                let r = run_body(e, &ctx);
                watch.running.store(false, SeqCst);
                if let Some(s) = slot { s.active.store(0, Relaxed); }
                out.executions += 1;
                let tr = ctx.trace.borrow();
                if ctx.diverged.get() || tr.len() < stack.len() {
                    // An execution that fails before it consumed its prefix is still a failure.
                    if let (Err(m), false) = (&r, ctx.diverged.get()) {
                        self.report(sh, e, tr.iter().map(|t| t.0).collect(), m.clone());
                    } else {
                        *sh.error.lock().unwrap() = Some(format!("replay of a prefix diverged in {}: {:?}", e.name, &cur));
                    }
                    sh.stop.store(true, SeqCst);
                    sh.cv.notify_all();
                    break 'tasks;
                }
                out.max_depth = out.max_depth.max(tr.len());
                if let Err(m) = r {
                    self.report(sh, e, tr.iter().map(|t| t.0).collect(), m);
                    sh.stop.store(true, SeqCst);
                    sh.cv.notify_all();
                    break 'tasks;
                }
                for &(c, n) in &tr[stack.len()..] {
                    debug_assert_eq!(c, 0);
                    stack.push(Lvl { cur: c, hi: n });
                }
                drop(tr);
                out.last.clear();
                out.last.extend(stack.iter().map(|l| l.cur));
                if out.executions.is_power_of_two() { out.mid = out.last.clone(); }
                while let Some(l) = stack.last() {
                    if l.cur + 1 < l.hi { break; }
                    stack.pop();
                }
                match stack.last_mut() {
                    None => break,
                    Some(l) => l.cur += 1,
                }
                if sh.idle.load(Relaxed) > 0 {
                    self.donate(sh, &mut stack);
                }
            }
        }
        out.transitions = ctx.transitions.get();
        out.validated = ctx.validated.get();
        out.evaluations = ctx.evaluations.get();
        out.states = ctx.states.take();
        out.nontrivial = ctx.nontrivial.take();
        out.outcomes = ctx.outcomes.take();
        out
    }

    fn donate(&self, sh: &Shared, stack: &mut [Lvl]) {
        let Some(d) = stack.iter().position(|l| l.cur + 1 < l.hi) else { return };
        let mut q = sh.queue.lock().unwrap();
        if q.0.len() >= sh.workers || q.1 == 0 { return; }
        let prefix: Vec<u32> = stack[..d].iter().map(|l| l.cur).collect();
        let (lo, hi) = (stack[d].cur + 1, stack[d].hi);
        // give away the upper half of the untouched alternatives (all of them if there is only one)
        let mid = lo + (hi - lo) / 2;
        q.0.push_back(Task { prefix, lo: mid, hi, root: false });
        stack[d].hi = mid;
        drop(q);
        sh.cv.notify_one();
    }

    fn report(&self, sh: &Shared, e: &Exploration, path: Vec<u32>, message: String) {
        let mut v = sh.violation.lock().unwrap();
        if v.is_none() {
            *v = Some(Violation { exploration: e.name.clone(), path, message, kind: "violation" });
        }
    }
}

/// Runs one execution again, verbosely.
pub fn replay(e: &Exploration, path: &[u32]) -> (Res, Vec<(String, String)>, Vec<u32>) {
    let ctx = Ctx::new(true);
    ctx.reset(path, e.dev_budget);
    let r = run_body(e, &ctx);
    let notes = ctx.notes.take();
    let p = ctx.trace.borrow().iter().map(|t| t.0).collect();
    (r, notes, p)
}
