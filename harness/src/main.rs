//! gifmc: bounded exhaustive exploration of the gif crate against a reference model.
mod alloc;
mod checks;
mod drive;
mod engine;
mod genr;
mod lzw;
mod model;
mod strict;

use engine::{Engine, Exploration, Report, Violation};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

pub struct CheckInfo {
    pub id: &'static str,
    /// "model_checking" or "fault_enumeration"
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub build: fn(Tier) -> Vec<Exploration>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn t(self) -> bool { self == Tier::Thorough }
    pub fn sel<T>(self, q: T, t: T) -> T { if self.t() { t } else { q } }
    fn name(self) -> &'static str { self.sel("quick", "thorough") }
}

struct Args { id: String, tier: Tier, root: PathBuf, merge: Option<PathBuf>, counts_out: Option<PathBuf>, only: Option<String>, max_s: u64, threads: usize, slots: Option<PathBuf>, label: String }

fn parse_args(mut it: impl Iterator<Item = String>) -> Args {
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let mut a = Args { id: String::new(), tier, root: PathBuf::from("/verif"), merge: None, counts_out: None, only: None, max_s: 0,
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()), slots: None, label: String::new() };
    while let Some(x) = it.next() {
        let mut val = || it.next().unwrap_or_else(|| die("missing value"));
        match x.as_str() {
            "--tier" => a.tier = match val().as_str() { "quick" => Tier::Quick, "thorough" => Tier::Thorough, _ => die("tier?") },
            "--root" => a.root = val().into(),
            "--merge" => a.merge = Some(val().into()),
            "--counts-out" => a.counts_out = Some(val().into()),
            "--only" => a.only = Some(val()),
            "--max-s" => a.max_s = val().parse().unwrap_or_else(|_| die("max-s?")),
            "--threads" => a.threads = val().parse().unwrap_or_else(|_| die("threads?")),
            "--slots" => a.slots = Some(val().into()),
            "--label" => a.label = val(),
            s if a.id.is_empty() && !s.starts_with("--") => a.id = s.into(),
            s => die(&format!("unknown argument {s}")),
        }
    }
    if a.max_s == 0 { a.max_s = a.tier.sel(600, 6 * 3600); }
    a
}
fn die(m: &str) -> ! {
    eprintln!("gifmc: {m}");
    std::process::exit(2)
}

fn main() {
    let mut it = std::env::args().skip(1);
    match it.next().as_deref() {
        Some("list") => for c in checks::all() { println!("{} {}", c.id, c.level); },
        Some("check") => supervise(std::env::args().skip(2).collect()),
        Some("child") => child(parse_args(it)),
        Some("replay") => replay_cmd(it.collect()),
        // used by the supervisor: run one execution and die or not
        Some("exec") => exec_cmd(it.collect()),
        _ => die("usage: gifmc check ID [--tier quick|thorough] | replay FILE | list"),
    }
}

fn find(id: &str) -> CheckInfo { checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| die("no such check")) }

/// Runs the check in a child process, so that a crash of the code under test (abort, stack
/// overflow, failed allocation) becomes a verdict if, and only if, it can be reproduced.
fn supervise(raw: Vec<String>) {
    let a = parse_args(raw.clone().into_iter());
    let dir = a.root.join("harness/target/run");
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| die(&format!("{}: {e}", dir.display())));
    let slots = dir.join(format!("{}{}-{}.slots", a.id, a.label, std::process::id()));
    let exe = std::env::current_exe().unwrap_or_else(|_| die("exe"));
    let mut st = std::process::Command::new(&exe).arg("child").args(&raw).arg("--slots").arg(&slots).spawn().unwrap_or_else(|e| die(&format!("child: {e}")));
    let status = st.wait().unwrap_or_else(|e| die(&format!("wait: {e}")));
    let code = match status.code() {
        Some(c) => c,
        None => {
            eprintln!("gifmc: the explorer died: {status}");
            after_crash(&a, &exe, &slots)
        }
    };
    let _ = std::fs::remove_file(&slots);
    std::process::exit(code)
}

fn after_crash(a: &Args, exe: &Path, slots: &Path) -> i32 {
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(slots) else { return 2 };
    let base = unsafe { engine::map_slots(&f) };
    let info = find(&a.id);
    let ex = (info.build)(a.tier);
    for i in 0..engine::SLOTS {
        let s = unsafe { &*base.add(i) };
        if s.active.load(SeqCst) != 1 { continue; }
        let path: Vec<u32> = (0..(s.len.load(SeqCst) as usize).min(engine::SLOT_PATH)).map(|k| s.path[k].load(SeqCst)).collect();
        let Some(e) = ex.get(s.exploration.load(SeqCst) as usize) else { continue };
        let p = path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let tries: Vec<_> = (0..2).map(|_| std::process::Command::new(exe).args(["exec", &a.id, a.tier.name(), &e.name, &p]).status()).collect();
        if tries.iter().all(|t| matches!(t, Ok(s) if s.code().is_none())) {
            let v = Violation { exploration: e.name.clone(), path, message: "the process was killed by a signal (abort, stack overflow or memory exhaustion) while running this execution".into(), kind: "crash" };
            let rep = Report { name: e.name.clone(), about: e.about.clone(), ..Report::default() };
            report_violation(a, &v, &[]);
            write_evidence(a, &info, &[rep], 0.0, 1);
            return 1;
        }
    }
    eprintln!("gifmc: the crash could not be reproduced");
    2
}

fn exec_cmd(v: Vec<String>) {
    engine::install_panic_hook();
    let info = find(&v[0]);
    let tier = if v[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let path: Vec<u32> = v[3].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    for e in (info.build)(tier) {
        if e.name == v[2] { let _ = engine::replay(&e, &path); }
    }
}

fn child(a: Args) {
    engine::install_panic_hook();
    let info = find(&a.id);
    let t0 = Instant::now();
    let slots = match &a.slots {
        Some(p) => {
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap_or_else(|e| die(&format!("slots: {e}")));
            unsafe { engine::map_slots(&f) }
        }
        None => std::ptr::null(),
    };
    // what the hang handler needs
    static PENDING: Mutex<Vec<Report>> = Mutex::new(Vec::new());
    let (id, tier, root, label) = (a.id.clone(), a.tier, a.root.clone(), a.label.clone());
    let eng = Engine {
        threads: a.threads.min(engine::SLOTS),
        deadline: Some(t0 + Duration::from_secs(a.max_s)),
        slots,
        on_hang: Box::new(move |v| {
            let mut a = parse_args(std::iter::empty());
            a.id = id.clone(); a.tier = tier; a.root = root.clone(); a.label = label.clone();
            let mut reps = std::mem::take(&mut *PENDING.lock().unwrap());
            reps.push(Report { name: v.exploration.clone(), ..Report::default() });
            report_violation(&a, &v, &[]);
            write_evidence(&a, &find(&a.id), &reps, t0.elapsed().as_secs_f64(), 1);
            std::process::exit(1);
        }),
    };
    let mut code = 0;
    for (i, e) in (info.build)(a.tier).iter().enumerate() {
        if a.only.as_ref().map_or(false, |o| !e.name.contains(o.as_str())) { continue; }
        let mut r = eng.run(i, e);
        println!("  {:<34} {:>9} executions {:>9} states {:>10} transitions {:>7.2}s{}", r.name, r.executions, r.states, r.transitions, r.wall_s,
            if r.complete { "" } else { " (not completed)" });
        let v = r.violation.take();
        let err = r.error.take();
        PENDING.lock().unwrap().push(r);
        if let Some(m) = err {
            eprintln!("gifmc: {m}");
            code = 2;
            break;
        }
        if let Some(v) = v {
            let mut again = vec![];
            let mut same = 0;
            for _ in 0..2 {
                let (r, notes, _) = engine::replay(e, &v.path);
                if r.is_err() { same += 1; }
                again = notes;
            }
            again.push(("replayed".into(), format!("{same} of 2 replays fail again")));
            report_violation(&a, &v, &again);
            code = 1;
            break;
        }
    }
    let reps = std::mem::take(&mut *PENDING.lock().unwrap());
    write_evidence(&a, &info, &reps, t0.elapsed().as_secs_f64(), code);
    std::process::exit(code);
}

fn report_violation(a: &Args, v: &Violation, notes: &[(String, String)]) {
    let dir = a.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.txt", a.id, v.exploration.replace(|c: char| !c.is_ascii_alphanumeric(), "-")));
    let mut s = String::new();
    s += &format!("property: {}\nexploration: {}\ntier: {}\nkind: {}\nvariant: {}\nmessage: {}\n", a.id, v.exploration, a.tier.name(), v.kind, if !cfg!(feature = "raii") { "no raii_no_panic" } else if !cfg!(debug_assertions) { "no debug assertions" } else { "default" }, v.message.replace('\n', " "));
    s += &format!("choices: {}\n", v.path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    for (k, t) in notes { s += &format!("{k}: {}\n", t.replace('\n', " ")); }
    s += "# run again with: /verif/run.sh replay <this file>\n";
    let _ = std::fs::write(&path, s);
    println!("violation in {}: {}", v.exploration, v.message);
    for (k, t) in notes { println!("    {k}: {}", t.chars().take(700).collect::<String>()); }
    println!("VIOLATION property={} replay={}", a.id, path.display());
    let _ = std::io::stdout().flush();
}

fn replay_cmd(v: Vec<String>) {
    engine::install_panic_hook();
    let text = std::fs::read_to_string(v.first().unwrap_or_else(|| die("file?"))).unwrap_or_else(|e| die(&e.to_string()));
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string();
    let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let path: Vec<u32> = get("choices").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let info = find(&get("property"));
    for e in (info.build)(tier) {
        if e.name == get("exploration") {
            let (r, notes, _) = engine::replay(&e, &path);
            for (k, t) in notes { println!("{k}: {t}"); }
            match r {
                Ok(()) => println!("holds on this execution"),
                Err(m) => { println!("fails: {m}"); std::process::exit(1) }
            }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(a: &Args, info: &CheckInfo, reps: &[Report], wall: f64, code: i32) {
    let sum = |f: fn(&Report) -> u64| reps.iter().map(f).sum::<u64>();
    let mut counts = [sum(|r| r.states), sum(|r| r.transitions), sum(|r| r.validated), sum(|r| r.evaluations), sum(|r| r.nontrivial), sum(|r| r.executions)];
    let mut exhaustive = !reps.is_empty() && reps.iter().all(|r| r.complete) && a.only.is_none();
    let mut variants = String::new();
    if let Some(p) = &a.counts_out {
        let s = counts.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" ");
        let _ = std::fs::write(p, format!("{s} {}", exhaustive as u8));
    }
    if let Some(m) = &a.merge {
        if let Ok(s) = std::fs::read_to_string(m) {
            let v: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if v.len() == 7 {
                for i in 0..6 { counts[i] += v[i]; }
                exhaustive &= v[6] == 1;
                variants = format!(",\n    \"executions_without_{}\": {}", if a.id == "C20" { "raii_no_panic" } else { "debug_assertions" }, v[5]);
            }
        }
    }
    let mut samples = vec![];
    for r in reps {
        for (path, notes) in r.samples.iter().take(2) {
            let n = notes.iter().take(12).map(|(k, t)| format!("{}: {}", js(k), js(&t.chars().take(400).collect::<String>()))).collect::<Vec<_>>().join(", ");
            let p = path.iter().take(200).map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            samples.push(format!("{{\"exploration\": {}, \"choices\": [{}], \"detail\": {{{}}}}}", js(&r.name), p, n));
        }
    }
    let ex: Vec<String> = reps.iter().map(|r| {
        let oc = r.outcomes.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ");
        format!("{{\"name\": {}, \"enumerates\": {}, \"executions\": {}, \"states\": {}, \"states_capped\": {}, \"transitions\": {}, \"compared_with_model\": {}, \"max_choices\": {}, \"environment_deviations\": {}, \"complete\": {}, \"outcomes\": {{{}}}, \"wall_s\": {:.2}}}",
            js(&r.name), js(&r.about), r.executions, r.states, r.states_capped, r.transitions, r.validated, r.max_depth, r.dev_budget, r.complete, oc, r.wall_s)
    }).collect();
    let main = if info.level == "fault_enumeration" {
        format!("\"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"states\": {},\n    \"transitions\": {}", counts[3], counts[4], js(info.rule), counts[0], counts[1])
    } else {
        format!("\"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"rule\": {}", counts[0], counts[1], counts[2], js(info.rule))
    };
    let s = format!("{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    {},\n    \"executions\": {},\n    \"exhaustive\": {}{},\n    \"explorations\": [\n      {}\n    ],\n    \"samples\": [\n      {}\n    ]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        js(&a.id), js(a.tier.name()), std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1), js(info.level), main, counts[5], exhaustive, variants,
        ex.join(",\n      "), samples.join(",\n      "), info.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "), wall, if code == 1 { 1 } else { 0 });
    let dir = a.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let name = if a.label.is_empty() { format!("{}.json", a.id) } else { return };
    if let Err(e) = std::fs::write(dir.join(name), s) { eprintln!("gifmc: evidence: {e}"); std::process::exit(2); }
}
