//! The explorer every check is built on: bounded-exhaustive families of executions of the real
//! code, each compared with a reference model, plus counting, replay files, known findings,
//! evidence, and the containment of crashes and hangs.
//!
//! A check is a list of *families*. A family is a finite, indexed space of executions (operation
//! sequences, graphs, meshes, option sets, ...); the explorer runs every index. Inside one
//! execution `Rec::explore` can enumerate every hash-iteration order of the mirrored crate.

pub mod la;

pub use mcstd::choice::Mode;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const SLOTS: usize = 64;
const SLOT: usize = 512;
/// a single execution that takes this long has not terminated (ordinary ones take milliseconds)
const HANG_S: u64 = 100;
/// narrower limits for mutation sweeps
fn env_or(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
const MAX_VIOLATIONS: usize = 40;

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn hash_of(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub detail: String,
    pub family: String,
    pub case: u64,
    pub choices: Option<(Mode, Vec<u32>)>,
}

#[derive(Default)]
struct FamStat {
    name: String,
    bound: String,
    cases: u64,
    ran: u64,
    steps: u64,
    traces: u64,
    executions: u64,
    choice_points: u64,
    capped: bool,
    outcomes: HashSet<u64>,
    wall: f64,
}

/// What one worker records.
pub struct Rec {
    family: String,
    case: u64,
    choices: Option<(Mode, Vec<u32>)>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    steps: u64,
    traces: u64,
    executions: u64,
    choice_points: u64,
    capped: bool,
    want_sample: bool,
    samples: Vec<String>,
    viols: Vec<Violation>,
    replay_choices: Option<(Mode, Vec<u32>)>,
    thorough: bool,
    failed: u64,
    slot: *mut u8,
}
unsafe impl Send for Rec {}

impl Rec {
    pub fn case(&self) -> u64 {
        self.case
    }
    pub fn thorough(&self) -> bool {
        self.thorough
    }
    /// one call into the real code; a panic comes back as Err(message)
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.steps += 1;
        guarded(f)
    }
    pub fn steps(&mut self, n: u64) {
        self.steps += n
    }
    /// an execution was driven to its end and compared with the reference
    pub fn trace(&mut self) {
        self.traces += 1
    }
    /// a distinct state / input reached
    pub fn state(&mut self, s: impl Hash) {
        self.states.insert(hash_of((&self.family, hash_of(s))));
    }
    /// a distinct observable outcome
    pub fn outcome(&mut self, s: impl Hash) {
        if self.outcomes.len() < 200_000 {
            self.outcomes.insert(hash_of(s));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1
                }
                s.truncate(k);
                s.push_str(" ...");
            }
            self.samples.push(format!("{}[{}]: {}", self.family, self.case, s));
        }
    }
    pub fn fail(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        let key = key.into();
        let mut detail = detail.into();
        if detail.len() > 20_000 {
            let k = (0..=20_000).rev().find(|k| detail.is_char_boundary(*k)).unwrap_or(0);
            detail.truncate(k);
            detail.push_str(" ...");
        }
        self.failed += 1;
        if self.viols.iter().filter(|v| v.key == key).count() < 6 && self.viols.len() < 50 * MAX_VIOLATIONS {
            self.viols.push(Violation {
                key,
                detail,
                family: self.family.clone(),
                case: self.case,
                choices: self.choices.clone(),
            });
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(key, d);
        }
        ok
    }
    pub fn failed(&self) -> bool {
        self.failed > 0
    }
    pub fn failures(&self) -> usize {
        self.failed as usize
    }

    /// Enumerate hash-iteration orders of the mirrored crate: every choice sequence with at most
    /// `bound` non-default choices (and `cap` executions, reported when hit).
    pub fn explore(&mut self, mode: Mode, bound: usize, cap: u64, mut f: impl FnMut(&mut Rec)) {
        if let Some((m, c)) = self.replay_choices.clone() {
            if m == mode {
                self.choices = Some((m, c.clone()));
                mcstd::choice::run_with(m, &c, || f(self));
                self.choices = None;
            }
            return;
        }
        let before = self.viols.len();
        let me = self as *mut Rec;
        let e = mcstd::choice::explore(mode, bound, cap, |prefix| {
            // SAFETY: `self` is not used by anyone else while `explore` runs
            let rec = unsafe { &mut *me };
            rec.choices = Some((mode, prefix.to_vec()));
            f(rec);
            rec.viols.len() == before
        });
        self.choices = None;
        self.executions += e.executions;
        self.choice_points += e.choice_points;
        // a tree that changes under the explorer was not enumerated in full
        self.capped |= e.capped || e.diverged > 0;
    }

    /// set what a crash or hang of this execution will be reported as
    fn mark(&mut self, fam: &str, case: u64) {
        let s = format!("{}[{}]", fam, case);
        let b = s.as_bytes();
        let n = b.len().min(SLOT - 2);
        unsafe {
            *self.slot = 0;
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.slot.add(1), n);
            *self.slot.add(1 + n) = 0;
            *self.slot = 1;
        }
    }
    fn unmark(&mut self) {
        unsafe { *self.slot = 0 }
    }
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow().clone())),
    }
}

struct Shared {
    stop: AtomicBool,
    /// per worker: start time in ms since `t0` of the execution under way, or 0
    since: Vec<AtomicU64>,
    what: Vec<Mutex<(String, u64)>>,
}

pub struct Harness {
    id: &'static str,
    thorough: bool,
    seed: u64,
    root: PathBuf,
    t0: Instant,
    fams: Vec<FamStat>,
    states: HashSet<u64>,
    samples: Vec<String>,
    viols: Vec<Violation>,
    replay: Option<(String, u64, Option<(Mode, Vec<u32>)>)>,
    only: Option<String>,
    known: BTreeMap<String, String>,
    assumptions: Vec<String>,
    extra: Vec<(String, String)>,
    shared: Arc<Shared>,
    slots: *mut u8,
    threads: usize,
    verbose: bool,
}

fn map_slots(path: &Path) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
    f.set_len((SLOTS * SLOT) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}

impl Harness {
    pub fn new(id: &'static str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let work = root.join("build/run");
        std::fs::create_dir_all(&work).unwrap();
        let slot_path = work.join(format!("{}.slots", id));
        if !args.iter().any(|a| a == "--child") {
            parent(id, &root, &slot_path, &args);
        }
        let slots = map_slots(&slot_path);
        unsafe {
            // 12 GB of address space: runaway allocation aborts this process, not the sandbox
            let gb = env_or("MC_MEM_GB", 12) << 30;
            let lim = [gb, gb];
            setrlimit(9, &lim);
        }
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC_MSG.with(|m| *m.borrow_mut() = format!("{}{}", msg, loc));
        }));
        let mut replay = None;
        let mut only = None;
        let mut verbose = false;
        let mut it = args.iter().skip(1);
        while let Some(a) = it.next() {
            match a.as_str() {
                "--replay" => {
                    let text = std::fs::read_to_string(it.next().expect("file")).expect("replay file");
                    let get = |k: &str| {
                        text.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|s| s.trim().to_string()))
                    };
                    let ch = get("choices").and_then(|c| {
                        let (m, v) = c.split_once(' ').unwrap_or((c.as_str(), ""));
                        let m = match m {
                            "Front" => Mode::Front,
                            "Full" => Mode::Full,
                            "Reversed" => Mode::Reversed,
                            "Off" => Mode::Off,
                            m => Mode::Rotate(m.strip_prefix("Rotate(")?.strip_suffix(')')?.parse().ok()?),
                        };
                        Some((m, v.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect()))
                    });
                    replay = Some((get("family").expect("family"), get("case").unwrap().parse().unwrap(), ch));
                }
                "--only" => only = it.next().cloned(),
                "--verbose" => verbose = true,
                _ => {}
            }
        }
        let mut known = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for l in t.lines() {
                // KNOWN property=C10 key=<exact key> :: what fails
                if let Some(rest) = l.strip_prefix(&format!("KNOWN property={} key=", id)) {
                    if let Some((k, d)) = rest.split_once(" :: ") {
                        known.insert(k.trim().to_string(), d.trim().to_string());
                    }
                }
            }
        }
        let threads = env_or("MC_THREADS", std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) as u64) as usize;
        let shared = Arc::new(Shared {
            stop: AtomicBool::new(false),
            since: (0..SLOTS).map(|_| AtomicU64::new(0)).collect(),
            what: (0..SLOTS).map(|_| Mutex::new((String::new(), 0))).collect(),
        });
        let h = Harness {
            id,
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            root,
            t0: Instant::now(),
            fams: vec![],
            states: HashSet::new(),
            samples: vec![],
            viols: vec![],
            replay,
            only,
            known,
            assumptions: vec![],
            extra: vec![],
            shared,
            slots,
            threads,
            verbose,
        };
        h.watchdog();
        h
    }

    pub fn thorough(&self) -> bool {
        self.thorough
    }
    /// quick or thorough bound
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into())
    }
    pub fn note(&mut self, k: &str, v: impl std::fmt::Display) {
        self.extra.push((k.into(), v.to_string()))
    }
    pub fn threads(&mut self, n: usize) {
        self.threads = n
    }
    pub fn scratch(&self) -> PathBuf {
        let d = self.root.join(format!("build/scratch/{}-{}", self.id, std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        d
    }

    fn watchdog(&self) {
        let sh = self.shared.clone();
        let t0 = self.t0;
        let id = self.id;
        let root = self.root.clone();
        let hang = env_or("MC_HANG_S", HANG_S);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_millis() as u64 + 1;
            for (i, s) in sh.since.iter().enumerate() {
                let v = s.load(SeqCst);
                if v != 0 && now.saturating_sub(v) > hang * 1000 {
                    let (fam, case) = sh.what[i].lock().map(|g| g.clone()).unwrap_or_default();
                    let v = Violation {
                        key: "no-termination".into(),
                        detail: format!("the execution did not finish within {} s", hang),
                        family: fam,
                        case,
                        choices: None,
                    };
                    let p = write_replay(&root, id, 0, &v);
                    println!("{}", describe(&v));
                    println!("VIOLATION property={} replay={}", id, p.display());
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
            }
        });
    }

    /// Run every execution of a family.
    pub fn family(&mut self, name: &str, bound: &str, n: u64, f: impl Fn(u64, &mut Rec) + Sync) {
        if let Some((fam, _, _)) = &self.replay {
            if fam != name {
                return;
            }
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if self.shared.stop.load(SeqCst) {
            return;
        }
        let t = Instant::now();
        let next = AtomicU64::new(0);
        let nthreads = if self.replay.is_some() { 1 } else { self.threads.min(n.max(1) as usize) };
        let chunk = (n / (nthreads as u64 * 16)).clamp(1, 256);
        let results: Mutex<Vec<Rec>> = Mutex::new(vec![]);
        let sh = self.shared.clone();
        let t0 = self.t0;
        let replay = self.replay.clone();
        let thorough = self.thorough;
        let slots = self.slots as usize;
        let total_viol = AtomicU64::new(0);
        let known = &self.known;
        std::thread::scope(|s| {
            for w in 0..nthreads {
                let (next, results, sh, f, replay, total_viol) = (&next, &results, &sh, &f, &replay, &total_viol);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut rec = Rec {
                            family: name.to_string(),
                            case: 0,
                            choices: None,
                            states: HashSet::new(),
                            outcomes: HashSet::new(),
                            steps: 0,
                            traces: 0,
                            executions: 0,
                            choice_points: 0,
                            capped: false,
                            want_sample: false,
                            samples: vec![],
                            viols: vec![],
                            replay_choices: replay.as_ref().and_then(|r| r.2.clone()),
                            thorough,
                            failed: 0,
                            slot: (slots + w * SLOT) as *mut u8,
                        };
                        'outer: loop {
                            let start = next.fetch_add(chunk, SeqCst);
                            if start >= n {
                                break;
                            }
                            for i in start..(start + chunk).min(n) {
                                if let Some((_, c, _)) = replay {
                                    if *c != i {
                                        continue;
                                    }
                                }
                                if total_viol.load(SeqCst) > MAX_VIOLATIONS as u64 {
                                    break 'outer;
                                }
                                rec.case = i;
                                rec.want_sample = i == 0 || i == n / 2;
                                rec.mark(name, i);
                                if let Ok(mut g) = sh.what[w].lock() {
                                    if g.0 != name {
                                        g.0 = name.to_string();
                                    }
                                    g.1 = i;
                                }
                                sh.since[w].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                let before = rec.viols.len();
                                mcstd::atomic::reset(0);
                                if let Err(m) = guarded(|| f(i, &mut rec)) {
                                    rec.fail("panic", format!("panicked: {}", m));
                                    rec.choices = None;
                                }
                                let fresh = rec.viols[before..].iter().filter(|v| !known.contains_key(&v.key)).count();
                                total_viol.fetch_add(fresh as u64, SeqCst);
                                sh.since[w].store(0, SeqCst);
                                rec.unmark();
                            }
                        }
                        results.lock().unwrap().push(rec);
                    })
                    .unwrap();
            }
        });
        let mut fs = FamStat { name: name.into(), bound: bound.into(), cases: n, ran: next.load(SeqCst).min(n), ..Default::default() };
        for r in results.into_inner().unwrap() {
            fs.steps += r.steps;
            fs.traces += r.traces;
            fs.executions += r.executions;
            fs.choice_points += r.choice_points;
            fs.capped |= r.capped;
            fs.outcomes.extend(r.outcomes.iter());
            self.states.extend(r.states);
            self.samples.extend(r.samples);
            self.viols.extend(r.viols);
        }
        fs.wall = t.elapsed().as_secs_f64();
        println!(
            "  {:<34} cases={} steps={} traces={} order-executions={} outcomes={}{} {:.1}s  [{}]",
            fs.name,
            fs.cases,
            fs.steps,
            fs.traces,
            fs.executions,
            fs.outcomes.len(),
            if fs.capped { " (order cap hit)" } else { "" },
            fs.wall,
            fs.bound
        );
        if self.verbose {
            for v in self.viols.iter().filter(|v| v.family == name).take(20) {
                println!("{}", describe(v));
            }
        }
        self.fams.push(fs);
        let fresh = self.viols.iter().filter(|v| !self.known.contains_key(&v.key)).count();
        if fresh > MAX_VIOLATIONS {
            self.shared.stop.store(true, SeqCst);
        }
    }

    pub fn finish(mut self) -> ! {
        let _ = std::fs::remove_dir_all(self.root.join(format!("build/scratch/{}-{}", self.id, std::process::id())));
        self.viols.sort_by(|a, b| {
            let fa = self.fams.iter().position(|f| f.name == a.family);
            let fb = self.fams.iter().position(|f| f.name == b.family);
            (fa, a.case).cmp(&(fb, b.case))
        });
        let mut known_seen: BTreeMap<String, String> = BTreeMap::new();
        let mut fresh: Vec<&Violation> = vec![];
        for v in &self.viols {
            if let Some(d) = self.known.get(&v.key) {
                known_seen.insert(v.key.clone(), d.clone());
            } else {
                fresh.push(v);
            }
        }
        for (k, d) in &known_seen {
            println!("KNOWN-FINDING: property={} {} :: {}", self.id, k, d);
        }
        let steps: u64 = self.fams.iter().map(|f| f.steps + f.choice_points).sum();
        let traces: u64 = self.fams.iter().map(|f| f.traces).sum();
        let wall = self.t0.elapsed().as_secs_f64();
        let mut e = String::new();
        let _ = writeln!(e, "{{");
        let _ = writeln!(e, " \"property\": {},", esc(self.id));
        let _ = writeln!(e, " \"tier\": {},", esc(if self.thorough { "thorough" } else { "quick" }));
        let _ = writeln!(e, " \"seed\": {},", self.seed);
        let _ = writeln!(e, " \"level\": \"model_checking\",");
        let _ = writeln!(e, " \"coverage\": {{");
        let _ = writeln!(e, "  \"states\": {},", self.states.len());
        let _ = writeln!(e, "  \"transitions\": {},", steps);
        let _ = writeln!(e, "  \"traces_validated_against_impl\": {},", traces);
        let _ = writeln!(e, "  \"exhaustive\": {},", !self.fams.iter().any(|f| f.capped) && fresh.is_empty() && self.replay.is_none() && self.only.is_none());
        let _ = writeln!(e, "  \"families\": [");
        for (i, f) in self.fams.iter().enumerate() {
            let _ = writeln!(
                e,
                "   {{\"name\": {}, \"bound\": {}, \"cases\": {}, \"calls\": {}, \"traces\": {}, \"order_executions\": {}, \"order_choice_points\": {}, \"order_cap_hit\": {}, \"distinct_outcomes\": {}, \"wall_s\": {:.2}}}{}",
                esc(&f.name), esc(&f.bound), f.ran, f.steps, f.traces, f.executions, f.choice_points, f.capped, f.outcomes.len(), f.wall,
                if i + 1 < self.fams.len() { "," } else { "" }
            );
        }
        let _ = writeln!(e, "  ],");
        for (k, v) in &self.extra {
            let _ = writeln!(e, "  {}: {},", esc(k), esc(v));
        }
        let _ = writeln!(e, "  \"known_findings_seen\": {},", known_seen.len());
        self.samples.sort();
        self.samples.dedup();
        let s: Vec<String> = self.samples.iter().take(24).map(|s| esc(s)).collect();
        let _ = writeln!(e, "  \"samples\": [\n   {}\n  ]", s.join(",\n   "));
        let _ = writeln!(e, " }},");
        let a: Vec<String> = self.assumptions.iter().map(|s| esc(s)).collect();
        let _ = writeln!(e, " \"assumptions\": [{}],", a.join(", "));
        let _ = writeln!(e, " \"violations\": {},", fresh.len());
        let _ = writeln!(e, " \"wall_s\": {:.3}", wall);
        let _ = writeln!(e, "}}");
        if self.replay.is_none() && self.only.is_none() {
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.id)), e).expect("evidence");
        }
        println!(
            "{}: states={} transitions={} traces={} violations={} known={} wall={:.1}s",
            self.id,
            self.states.len(),
            steps,
            traces,
            fresh.len(),
            known_seen.len(),
            wall
        );
        if fresh.is_empty() {
            if traces == 0 && self.replay.is_none() && self.only.is_none() {
                println!("ERROR: nothing was explored");
                let _ = std::io::stdout().flush();
                std::process::exit(3);
            }
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        }
        let mut shown: HashSet<(String, String)> = HashSet::new();
        let mut k = 0;
        for v in fresh {
            if k >= 8 || !shown.insert((v.family.clone(), v.key.clone())) {
                continue;
            }
            println!("{}", describe(v));
            let p = write_replay(&self.root, self.id, k, v);
            println!("VIOLATION property={} replay={}", self.id, p.display());
            k += 1;
        }
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }
}

fn describe(v: &Violation) -> String {
    let mut d = v.detail.clone();
    if d.len() > 1500 {
        let mut k = 1500;
        while !d.is_char_boundary(k) {
            k -= 1
        }
        d.truncate(k);
        d.push_str(" ...");
    }
    let ch = v.choices.as_ref().map(|(m, c)| format!(" orders={:?}{:?}", m, c)).unwrap_or_default();
    format!("violated: {}[{}]{} key={} :: {}", v.family, v.case, ch, v.key, d)
}

fn write_replay(root: &Path, id: &str, k: usize, v: &Violation) -> PathBuf {
    let dir = root.join("build/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.txt", id, k));
    let ch = v
        .choices
        .as_ref()
        .map(|(m, c)| format!("choices: {:?} {}\n", m, c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
        .unwrap_or_default();
    let _ = std::fs::write(
        &p,
        format!(
            "property: {}\nfamily: {}\ncase: {}\n{}key: {}\nrerun: ./check {} --replay {}\n\n{}\n",
            id,
            v.family,
            v.case,
            ch,
            v.key,
            id,
            p.display(),
            v.detail
        ),
    );
    p
}

/// Runs the real check as a child, so that a crash of the code under test is seen and attributed.
fn parent(id: &'static str, root: &Path, slot_path: &Path, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let _ = std::fs::remove_file(slot_path);
    let _ = map_slots(slot_path);
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(&args[1..]).arg("--child").stderr(if args.iter().any(|a| a == "--stderr") {
        std::process::Stdio::inherit()
    } else {
        std::process::Stdio::null()
    });
    let st = c.status().expect("child");
    if let Some(code) = st.code() {
        std::process::exit(code);
    }
    let sig = st.signal().unwrap_or(0);
    // SIGILL 4, SIGABRT 6, SIGBUS 7, SIGFPE 8, SIGSEGV 11: the code under test brought the process down
    if ![4, 6, 7, 8, 11].contains(&sig) {
        println!("ERROR: the explorer was ended by signal {}", sig);
        std::process::exit(4);
    }
    let data = std::fs::read(slot_path).unwrap_or_default();
    let mut inflight = vec![];
    for s in data.chunks(SLOT) {
        if s[0] == 1 {
            let end = s[1..].iter().position(|&b| b == 0).unwrap_or(0);
            inflight.push(String::from_utf8_lossy(&s[1..1 + end]).to_string());
        }
    }
    if inflight.is_empty() {
        println!("ERROR: the explorer crashed (signal {}) outside any execution", sig);
        std::process::exit(4);
    }
    let first = inflight[0].clone();
    let (fam, case) = first.rsplit_once('[').map(|(a, b)| (a.to_string(), b.trim_end_matches(']').parse().unwrap_or(0))).unwrap_or((first.clone(), 0));
    let v = Violation {
        key: "crash".into(),
        detail: format!("signal {} while executing one of {:?}", sig, inflight),
        family: fam,
        case,
        choices: None,
    };
    println!("{}", describe(&v));
    let p = write_replay(root, id, 0, &v);
    println!("VIOLATION property={} replay={}", id, p.display());
    std::process::exit(1);
}

/// Mixed-radix decoding of a case index: `d.take(3)` is a digit in 0..3.
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, base: impl TryInto<u64>) -> usize {
        let base: u64 = base.try_into().ok().unwrap();
        let r = self.0 % base;
        self.0 /= base;
        r as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.take(xs.len() as u64)]
    }
}

pub fn pow(b: u64, e: u32) -> u64 {
    b.pow(e)
}

/// all permutations of 0..n
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut cur: Vec<usize> = (0..n).collect();
    fn go(k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == cur.len() {
            out.push(cur.clone());
            return;
        }
        for i in k..cur.len() {
            cur.swap(k, i);
            go(k + 1, cur, out);
            cur.swap(k, i);
        }
    }
    go(0, &mut cur, &mut out);
    out
}

/// deterministic structured "noise" (no randomness: a fixed low-discrepancy pattern)
pub fn lattice(i: u64, j: u64) -> f64 {
    let x = (i as f64 + 1.0) * 0.754877666246693 + (j as f64 + 1.0) * 0.569840290998053;
    x - x.floor()
}
