//! Monitor driver: seeded case scheduling, panic/crash/hang detection, counting, evidence and replays.

use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A violation: `sig` identifies the failing call site / history (matched against known findings),
/// `msg` is the full detail.
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)+) => {
        if !($cond) {
            return $crate::fw::fail($sig, format!($($fmt)+));
        }
    };
}

#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, 0x1234_5678_9ABC_DEF1 ^ seed.rotate_left(32));
        for _ in 0..8 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        // splitmix64 over a counter, mixed with a second lane
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0 ^ self.1;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn f32(&mut self) -> f32 {
        (self.u64() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * self.f32()
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.usize(s.len())]
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, f64>,
    pub samples: Vec<Value>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(f64::NEG_INFINITY);
            if v > *e {
                *e = v;
            }
        }
        for s in o.samples {
            if self.samples.len() < 64 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub n: u64,
    pub section: &'a str,
    pub stats: &'a mut Stats,
    pub desc: String,
    pub input: Option<Vec<u8>>,
    pub thorough: bool,
}

impl<'a> Case<'a> {
    /// Describe the case (goes to samples and replay files)
    pub fn desc(&mut self, s: impl Into<String>) {
        self.desc = s.into();
    }
    /// One oracle judgement
    pub fn eval(&mut self) {
        self.stats.evaluations += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.stats.evaluations += n;
    }
    /// Count a distinct non-trivial case by its content
    pub fn distinct<T: Hash + ?Sized>(&mut self, t: &T) {
        let h = hash_of(&(self.section, hash_of(t)));
        if self.stats.distinct.len() < 4_000_000 {
            self.stats.distinct.insert(h);
        }
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(v) = self.stats.counters.get_mut(name) {
            *v += n;
        } else {
            self.stats.counters.insert(name.to_owned(), n);
        }
    }
    /// Record the worst deviation seen (evidence of how close to the tolerance runs get)
    pub fn max(&mut self, name: &str, v: f64) {
        if let Some(e) = self.stats.maxima.get_mut(name) {
            if v > *e {
                *e = v;
            }
        } else {
            self.stats.maxima.insert(name.to_owned(), v);
        }
    }
}

const SLOTS: usize = 64;
#[repr(C)]
struct Slot {
    section: AtomicUsize,
    case: AtomicU64, // n + 1, 0 = idle
    started_ms: AtomicU64,
}

pub struct Mon {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub extra: Map<String, Value>,
    stats: Mutex<Stats>,
    fails: Mutex<Vec<Value>>,
    known_hits: Mutex<BTreeMap<String, String>>,
    known: Vec<(String, String)>,
    sections: Mutex<Vec<String>>,
    section_stats: Mutex<BTreeMap<String, u64>>,
    slots: &'static [Slot],
    start: Instant,
    pub threads: usize,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}

fn map_slots(path: &str) -> &'static [Slot] {
    use std::os::unix::io::AsRawFd;
    let len = SLOTS * std::mem::size_of::<Slot>();
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
    f.set_len(len as u64).expect("slot len");
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const Slot, SLOTS)
    }
}

pub fn env_num(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default).max(1)
}

/// The sanitizer this binary is built with ("" for none; set by check.sh)
pub fn san() -> String {
    std::env::var("VERIF_SAN").unwrap_or_default()
}

/// Options for the sanitizers' run times; reports go to `log`.<pid>, the exit code is 66
pub fn san_env(cmd: &mut std::process::Command, log: &std::path::Path) {
    let l = log.display();
    cmd.env("ASAN_OPTIONS", format!("exitcode=66:detect_leaks=0:allocator_may_return_null=1:log_path={}", l));
    cmd.env("MSAN_OPTIONS", format!("exit_code=66:allocator_may_return_null=1:log_path={}", l));
    cmd.env("TSAN_OPTIONS", format!("exitcode=66:halt_on_error=1:second_deadlock_stack=1:allocator_may_return_null=1:log_path={}", l));
}

/// Text of the sanitizer reports written to `log`.*; the files are removed
pub fn san_reports(log: &std::path::Path) -> String {
    let mut out = String::new();
    let (dir, name) = (log.parent().unwrap(), log.file_name().unwrap().to_string_lossy().to_string() + ".");
    if let Ok(d) = std::fs::read_dir(dir) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().starts_with(&name) {
                out += &std::fs::read_to_string(e.path()).unwrap_or_default();
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    out
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_owned()))
}

pub fn replay_dir() -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d
}

/// Run `f`, returning Ok(value) or Err(panic message); the panic is not reported as a violation.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn load_known(id: &str) -> Vec<(String, String)> {
    // known_findings.txt:  "open: property=<id> sig=<sig> :: <what fails>"
    let p = verif_dir().join("known_findings.txt");
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("open: ") {
                if let Some((head, what)) = rest.split_once(" :: ") {
                    let pid = head.split_whitespace().find_map(|w| w.strip_prefix("property="));
                    let sig = head.split_once("sig=").map(|(_, s)| s.trim());
                    if let (Some(pid), Some(sig)) = (pid, sig) {
                        if pid == id {
                            out.push((sig.to_owned(), what.to_owned()));
                        }
                    }
                }
            }
        }
    }
    out
}

impl Mon {
    pub fn new(id: &str, slot_file: &str, only: Option<(String, u64)>) -> Mon {
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".to_owned());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        }));
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
        Mon {
            id: id.to_owned(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            only,
            level: "exploration",
            rule: String::new(),
            assumptions: vec![],
            extra: Map::new(),
            stats: Mutex::default(),
            fails: Mutex::default(),
            known_hits: Mutex::default(),
            known: load_known(id),
            sections: Mutex::default(),
            section_stats: Mutex::default(),
            slots: map_slots(slot_file),
            start: Instant::now(),
            threads,
        }
    }

    /// quick / thorough case counts
    pub fn n(&self, quick: u64, factor: u64) -> u64 {
        let n = if self.thorough { quick * factor } else { quick * self.more() };
        // sanitizer builds run a share of the cases
        (n / env_num("VERIF_DIV", 1)).max(1)
    }

    /// Properties whose cases are cheap get more of them in the quick tier (each check about 10-15 s)
    fn more(&self) -> u64 {
        match &self.id[..] {
            "C13" | "C15" | "C16" | "C17" | "C19" | "C28" => 4,
            "C03" | "C21" | "C30" | "C32" => 3,
            "C01" | "C02" | "C20" | "C22" | "C29" | "C33" => 2,
            _ => 1,
        }
    }

    pub fn rng_for(&self, section: &str, n: u64) -> Rng {
        Rng::new(hash_of(&(self.seed, &self.id, section, n)))
    }

    fn now_ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }

    pub fn report(&self, section: &str, n: u64, f: &Fail, desc: &str, input: Option<&[u8]>) -> bool {
        for (sig, what) in &self.known {
            if *sig == f.sig {
                let mut k = self.known_hits.lock().unwrap();
                if k.insert(sig.clone(), what.clone()).is_none() {
                    println!("KNOWN-FINDING: property={} {}", self.id, what);
                }
                return false;
            }
        }
        let mut fails = self.fails.lock().unwrap();
        let name = format!("{}-{}-{}-{}", self.id, section, n, self.seed);
        let path = replay_dir().join(format!("{}.json", name));
        let mut v = json!({
            "property": self.id, "section": section, "case": n, "seed": self.seed,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "sig": f.sig, "what": f.msg, "input": desc,
            "rerun": format!("VERIF_SEED={} VERIF_TIER={} ./check.sh {} --section {} --case {}",
                self.seed, if self.thorough {"thorough"} else {"quick"}, self.id, section, n),
        });
        if let Some(b) = input {
            let bp = replay_dir().join(format!("{}.bin", name));
            let _ = std::fs::write(&bp, b);
            v["input_file"] = json!(bp.to_string_lossy());
        }
        if fails.len() < 20 {
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        }
        if fails.len() < 5 {
            println!("VIOLATION property={} replay={}", self.id, path.display());
            let m: String = f.msg.chars().take(600).collect();
            println!("  [{}] case {}: {}: {}", section, n, f.sig, m);
            let d: String = desc.chars().take(300).collect();
            println!("  input: {}", d);
        }
        fails.push(v);
        true
    }

    pub fn failed(&self) -> bool {
        !self.fails.lock().unwrap().is_empty()
    }

    /// Run `n` cases of `section` over all cores.
    pub fn cases<F>(&self, section: &str, n: u64, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        self.cases_on(section, n, self.threads, f)
    }

    /// Run cases one after the other (stateful or process-wide monitors)
    pub fn serial<F>(&self, section: &str, n: u64, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        self.cases_on(section, n, 1, f)
    }

    pub fn cases_on<F>(&self, section: &str, n: u64, threads: usize, f: F)
    where
        F: Fn(&mut Case) -> R + Sync,
    {
        let range = match &self.only {
            Some((s, k)) if s == section => *k..*k + 1,
            Some(_) => return,
            None => 0..n,
        };
        let sec_idx = {
            let mut s = self.sections.lock().unwrap();
            s.push(section.to_owned());
            s.len()
        };
        let next = AtomicU64::new(range.start);
        let section_fails = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        // two samples per section, chosen deterministically
        let sample_at = [range.start, range.start + (range.end - range.start) / 2];
        std::thread::scope(|sc| {
            for t in 0..threads {
                let next = &next;
                let f = &f;
                let section_fails = &section_fails;
                let done = &done;
                let range = range.clone();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut stats = Stats::default();
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= range.end || section_fails.load(SeqCst) >= 3 {
                                break;
                            }
                            let slot = &self.slots[t];
                            slot.section.store(sec_idx, SeqCst);
                            slot.started_ms.store(self.now_ms(), SeqCst);
                            slot.case.store(i + 1, SeqCst);
                            let mut case = Case {
                                rng: self.rng_for(section, i),
                                n: i,
                                section,
                                stats: &mut stats,
                                desc: String::new(),
                                input: None,
                                thorough: self.thorough,
                            };
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
                            let (desc, input) = (std::mem::take(&mut case.desc), case.input.take());
                            slot.case.store(0, SeqCst);
                            done.fetch_add(1, SeqCst);
                            match r {
                                Ok(Ok(())) => {
                                    if sample_at.contains(&i) && !desc.is_empty() {
                                        let d: String = desc.chars().take(400).collect();
                                        stats.samples.push(json!({"section": section, "case": i, "input": d}));
                                    }
                                }
                                Ok(Err(e)) => {
                                    if self.report(section, i, &e, &desc, input.as_deref()) {
                                        section_fails.fetch_add(1, SeqCst);
                                    }
                                }
                                Err(_) => {
                                    let m = LAST_PANIC
                                        .with(|p| p.borrow_mut().take())
                                        .unwrap_or_else(|| "panic".into());
                                    let e = Fail { sig: format!("{}:panic", section), msg: format!("panicked: {}", m) };
                                    if self.report(section, i, &e, &desc, input.as_deref()) {
                                        section_fails.fetch_add(1, SeqCst);
                                    }
                                }
                            }
                        }
                        self.stats.lock().unwrap().merge(stats);
                    })
                    .unwrap();
            }
            // watchdog
            let deadline_ms: u64 =
                std::env::var("VERIF_CASE_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(150) * 1000;
            let next = &next;
            let done = &done;
            let section_fails = &section_fails;
            let (start_n, end_n) = (range.start, range.end);
            sc.spawn(move || loop {
                std::thread::sleep(Duration::from_millis(5));
                let busy = (0..threads).any(|t| self.slots[t].case.load(SeqCst) != 0);
                if !busy
                    && (done.load(SeqCst) >= end_n - start_n
                        || (section_fails.load(SeqCst) >= 3 && next.load(SeqCst) > start_n))
                {
                    break;
                }
                for t in 0..threads {
                    let c = self.slots[t].case.load(SeqCst);
                    if c != 0 {
                        let age = self.now_ms().saturating_sub(self.slots[t].started_ms.load(SeqCst));
                        if age > deadline_ms {
                            let e = Fail {
                                sig: format!("{}:hang", section),
                                msg: format!("case did not terminate within {} s", deadline_ms / 1000),
                            };
                            self.report(section, c - 1, &e, "", None);
                            self.finish_and_exit();
                        }
                    }
                }
            });
        });
        self.section_stats.lock().unwrap().insert(section.to_owned(), done.load(SeqCst));
    }

    /// Record measurements taken outside `cases`
    pub fn with_stats<T>(&self, f: impl FnOnce(&mut Stats) -> T) -> T {
        f(&mut self.stats.lock().unwrap())
    }

    fn write_evidence(&self) -> usize {
        let stats = self.stats.lock().unwrap();
        let fails = self.fails.lock().unwrap();
        let mut cov = self.extra.clone();
        cov.insert("evaluations".into(), json!(stats.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(stats.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(stats.samples));
        cov.insert("observed_events".into(), json!(stats.counters));
        cov.insert("worst_deviation".into(), json!(stats.maxima));
        cov.insert("cases_per_section".into(), json!(*self.section_stats.lock().unwrap()));
        let known: Vec<_> = self.known_hits.lock().unwrap().keys().cloned().collect();
        cov.insert("known_findings_hit".into(), json!(known));
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": fails.len(),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.id));
        // a further build adds to what the first one observed
        let ev = match std::env::var("VERIF_MERGE") {
            Ok(tag) => merge_evidence(&path, &tag, ev),
            Err(_) => ev,
        };
        std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");
        fails.len()
    }

    pub fn finish_and_exit(&self) -> ! {
        let nf = if self.only.is_none() { self.write_evidence() } else { self.fails.lock().unwrap().len() };
        let st = self.stats.lock().unwrap();
        println!(
            "{} {}: {} evaluations, {} distinct, {} violations, {:.1} s",
            self.id,
            if nf == 0 { "held" } else { "VIOLATED" },
            st.evaluations,
            st.distinct.len(),
            nf,
            self.start.elapsed().as_secs_f64()
        );
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(if nf == 0 { 0 } else { 1 })
    }
}

fn merge_evidence(path: &std::path::Path, tag: &str, new: Value) -> Value {
    let mut ev: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => return new,
    };
    let num = |v: &Value| v.as_u64().unwrap_or(0);
    let sum = num(&ev["coverage"]["evaluations"]) + num(&new["coverage"]["evaluations"]);
    ev["coverage"]["evaluations"] = json!(sum);
    let v = num(&ev["violations"]) + num(&new["violations"]);
    ev["violations"] = json!(v);
    let w = ev["wall_s"].as_f64().unwrap_or(0.0) + new["wall_s"].as_f64().unwrap_or(0.0);
    ev["wall_s"] = json!(w);
    ev["coverage"][format!("{} build", tag)] = new["coverage"].clone();
    ev
}

/// Parent: run the worker in a child process so that aborts and signals are observed, too.
pub fn supervise(id: &str, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let slot_file = std::env::temp_dir().join(format!("mon-slots-{}-{}", id, std::process::id()));
    let sf = slot_file.to_string_lossy().to_string();
    let slots = map_slots(&sf);
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("--worker").arg(&sf).arg(id).args(args);
    let log = std::env::temp_dir().join(format!("mon-san-{}-{}", id, std::process::id()));
    san_env(&mut cmd, &log);
    let st = cmd.status();
    let _ = std::fs::remove_file(&slot_file);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start worker: {}", e);
            std::process::exit(2)
        }
    };
    let reports = san_reports(&log);
    if let Some(c) = st.code() {
        if c == 0 || c == 1 || c == 2 {
            std::process::exit(c)
        }
    }
    let how = match st.signal() {
        _ if !reports.is_empty() => format!("stopped by {}", reports.lines().find(|l| l.contains("Sanitizer")).unwrap_or("a sanitizer").trim_start_matches('=').trim()),
        Some(libc::SIGKILL) => {
            eprintln!("worker was killed (out of memory?): check error");
            std::process::exit(2)
        }
        Some(s) => format!("killed by signal {}", s),
        None => format!("exited with status {:?}", st.code()),
    };
    if st.signal().is_none() && reports.is_empty() && slots.iter().all(|s| s.case.load(SeqCst) == 0) {
        eprintln!("the monitor itself failed: worker {}", how);
        std::process::exit(2)
    }
    let cases: Vec<String> = slots
        .iter()
        .filter(|s| s.case.load(SeqCst) != 0)
        .map(|s| format!("section#{} case {}", s.section.load(SeqCst), s.case.load(SeqCst) - 1))
        .collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
    let v = json!({"property": id, "what": format!("worker process {}", how), "running_cases": cases,
        "seed": seed, "tier": tier, "sanitizer_report": reports.chars().take(20_000).collect::<String>()});
    let p = replay_dir().join(format!("{}-crash.json", id));
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    println!("VIOLATION property={} replay={}", id, p.display());
    println!("  worker process {} while running {:?}", how, cases);
    for l in reports.lines().filter(|l| l.trim_start().starts_with('#')).take(6) {
        println!("  {}", l.trim());
    }
    let ev = json!({"property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": cases.len(), "distinct_nontrivial": 0, "rule": "worker process crashed", "samples": cases},
        "wall_s": t0.elapsed().as_secs_f64(), "violations": 1});
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap());
    std::process::exit(1)
}

/// Entry of the worker process
pub fn worker_args() -> Option<(String, String, Option<(String, u64)>)> {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) != Some("--worker") {
        return None;
    }
    let mut only: (Option<String>, Option<u64>) = (None, None);
    let mut i = 4;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--section" => only.0 = Some(a[i + 1].clone()),
            "--case" => only.1 = a[i + 1].parse().ok(),
            _ => {}
        }
        i += 2;
    }
    let only = match only {
        (Some(s), Some(c)) => Some((s, c)),
        _ => None,
    };
    Some((a[2].clone(), a[3].clone(), only))
}

pub struct TempDir(pub PathBuf);
static TMP_SEQ: AtomicU64 = AtomicU64::new(0);
impl TempDir {
    pub fn new(tag: &str) -> TempDir {
        let p = std::env::temp_dir().join(format!(
            "d10mon-{}-{}-{}",
            tag,
            std::process::id(),
            TMP_SEQ.fetch_add(1, SeqCst)
        ));
        std::fs::create_dir_all(&p).expect("temp dir");
        TempDir(p)
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
