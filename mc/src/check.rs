//! The exploration engine: runs every case of a finite space on all cores, counts states,
//! transitions and outcomes, turns panics, crashes and hangs of the code under test into
//! violations, and writes the evidence and the replay files.

use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::ffi::{c_int, c_void};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: c_int) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn signal(sig: c_int, h: usize) -> usize;
    fn _exit(code: c_int) -> !;
    fn sigaction(sig: c_int, act: *const SigAction, old: *mut c_void) -> c_int;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}

/// Wall clock limit of one case. A case takes milliseconds.
const HANG: Duration = Duration::from_secs(100);

const NSLOTS: usize = 64;
static SLOTS: [Mutex<Option<(String, Instant)>>; NSLOTS] = [const { Mutex::new(None) }; NSLOTS];
static INFO: Mutex<Option<(String, PathBuf, i32)>> = Mutex::new(None);

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    /// Within `caught`
    static CAUGHT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static SLOT: RefCell<usize> = const { RefCell::new(NSLOTS) };
    /// For the signal handler
    static CURRENT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn h64(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn payload(e: Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
/// Run code under test
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = CAUGHT.replace(true);
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    CAUGHT.set(outer);
    r.map_err(|e| {
        let p = payload(e);
        let l = LAST_PANIC.with(|l| l.borrow().clone());
        if l.is_empty() {
            p
        } else {
            l
        }
    })
}

extern "C" fn on_abort(_: c_int) {
    // The process is lost (stack overflow, out of memory): say which case it was
    let cur = CURRENT.try_with(|c| c.try_borrow().map(|c| c.clone()).unwrap_or_default()).unwrap_or_default();
    if let Ok(i) = INFO.try_lock() {
        if let Some((id, dir, fd)) = i.as_ref() {
            emit_violation(id, dir, *fd, "crash", &cur, "the process was aborted (stack overflow, double panic or out of memory)");
        }
    }
    unsafe { _exit(1) }
}

fn raw_write(fd: i32, s: &str) {
    unsafe {
        crate::env::write(fd, s.as_ptr() as *const c_void, s.len());
    }
}

fn emit_violation(id: &str, dir: &std::path::Path, fd: i32, n: &str, case: &str, msg: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    let path = dir.join(format!("{id}-{n}.txt"));
    let _ = std::fs::write(
        &path,
        format!("property: {id}\ncase: {case}\nwhat: {msg}\nreplay: bash /verif/check.sh {id} --replay {}\n", path.display()),
    );
    raw_write(fd, &format!("VIOLATION property={id} replay={}\n  case: {case}\n  what: {}\n", path.display(), msg.replace('\n', " ")));
    path
}

#[derive(Default)]
struct Total {
    cases: u64,
    transitions: u64,
    states: HashSet<u64>,
    nontrivial: HashSet<u64>,
    outcomes: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    samples: BTreeMap<String, Vec<String>>,
    validated: u64,
    counters: BTreeMap<String, u64>,
    violations: Vec<(String, String)>,
    reruns: u64,
    rerun_mismatch: u64,
    /// States explored by another process
    more_states: u64,
    failed_parts: u64,
}

pub struct Check {
    pub id: &'static str,
    level: &'static str,
    rule: &'static str,
    pub thorough: bool,
    pub seed: u64,
    replay: Option<String>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeSet<String>>,
    total: Mutex<Total>,
    start: Instant,
    out: i32,
    verif: PathBuf,
    pub assumptions: Mutex<Vec<String>>,
    pub exhaustive: AtomicBool,
    pub threads: usize,
    /// Cases that failed
    bad: AtomicUsize,
    limit: f64,
    /// So many failing cases are enough
    enough: usize,
}

impl Check {
    pub fn start(id: &'static str, level: &'static str, rule: &'static str) -> Check {
        let out = unsafe { dup(1) };
        if std::env::var_os("MC_DEBUG").is_none() {
            let null = std::fs::File::options().read(true).write(true).open("/dev/null").unwrap();
            unsafe {
                use std::os::fd::AsRawFd;
                dup2(null.as_raw_fd(), 1);
                dup2(null.as_raw_fd(), 2);
            }
        }
        std::panic::set_hook(Box::new(|i| {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else {
                "panic".into()
            };
            if std::env::var_os("MC_DEBUG").is_some() {
                eprintln!("panic at {loc}: {msg}");
            }
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("panicked at {loc}: {msg}"));
            // outside of the cases, where the check prepares them with the code under test
            if std::thread::current().name() == Some("main") && !CAUGHT.get() {
                if let Some((id, dir, fd)) = INFO.lock().unwrap_or_else(|e| e.into_inner()).as_ref() {
                    emit_violation(id, dir, *fd, "setup", "", &format!("the check could not go on: panicked at {loc}: {msg}"));
                    unsafe { _exit(1) }
                }
            }
        }));
        let verif = std::env::var_os("VERIF_DIR")
            .map(PathBuf::from)
            .unwrap_or_else(|| PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")));
        let mut replay = None;
        let args: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i < args.len() {
            if args[i] == "--replay" {
                let f = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                replay = f.lines().find_map(|l| l.strip_prefix("case: ").map(|s| s.to_string()));
            } else if args[i] == "--case" {
                replay = Some(args[i + 1].clone());
            }
            i += 2;
        }
        let known = std::fs::read_to_string(verif.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| l.strip_prefix(&format!("known: property={id} case=")))
            .filter_map(|l| l.split_once(" :: ").map(|(a, b)| (a.to_string(), b.to_string())))
            .collect();
        *INFO.lock().unwrap() = Some((id.to_string(), verif.join("replays"), out));
        unsafe {
            signal(13, 1);
            let act = SigAction { handler: on_abort as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
            sigaction(6, &act, std::ptr::null_mut());
        }
        let verif2 = verif.join("replays");
        crate::env::set_spin_hook(Box::new(move |msg| {
            let cur = CURRENT.with(|c| c.borrow().clone());
            emit_violation(id, &verif2, out, "spin", &cur, &format!("the code under test does not stop: {msg}"));
        }));
        let c = Check {
            id,
            level,
            rule,
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            replay,
            known,
            known_hit: Mutex::default(),
            total: Mutex::default(),
            start: Instant::now(),
            out,
            verif,
            assumptions: Mutex::default(),
            exhaustive: AtomicBool::new(true),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16),
            bad: AtomicUsize::new(0),
            enough: if std::env::var_os("MC_FIRST").is_some() { 1 } else { 1000 },
            limit: std::env::var("MC_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") { 1e9 } else { 600.0 }),
        };
        if let Err(e) = crate::refc::self_test() {
            raw_write(out, &format!("harness error: {e}\n"));
            std::process::exit(2);
        }
        let (id2, dir2) = (id, c.verif.join("replays"));
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in SLOTS.iter() {
                let hung = match &*crate::env::lk(s) {
                    Some((c, t)) if t.elapsed() > HANG => Some(c.clone()),
                    _ => None,
                };
                if let Some(c) = hung {
                    emit_violation(id2, &dir2, out, "hang", &c, &format!("the code under test did not stop within {HANG:?}"));
                    std::process::exit(1);
                }
            }
        });
        c
    }
    pub fn replaying(&self) -> bool {
        self.replay.is_some()
    }
    /// The case to be repeated, if it is of this family
    pub fn replay_id(&self, family: &str) -> Option<String> {
        self.replay.as_ref()?.strip_prefix(&format!("{family}/")).map(|s| s.to_string())
    }
    pub fn workers(&self) -> usize {
        self.threads
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn say(&self, s: &str) {
        raw_write(self.out, &format!("{s}\n"));
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// The verdict is clear, or the time is over: what is left is not explored, and the evidence says so
    pub fn stopped(&self) -> bool {
        if self.replay.is_some() {
            return false;
        }
        let bad = self.bad.load(Ordering::Relaxed);
        let t = self.elapsed();
        let stop = bad >= self.enough || bad >= 20 && t > 30.0 || bad > 0 && t > 90.0 || t > self.limit;
        if stop {
            self.exhaustive.store(false, Ordering::SeqCst);
        }
        stop
    }
    /// Is a case to be repeated whose family starts like this?
    pub fn replay_prefix(&self, p: &str) -> bool {
        self.replay.as_ref().is_some_and(|r| r.starts_with(p))
    }
    /// Run another executable, a part of this check, which explores the families it has
    pub fn part(&self, exe: &std::path::Path) {
        let o = match std::process::Command::new(exe).args(std::env::args().skip(1)).env("MC_PART", "1").output() {
            Ok(o) => o,
            Err(e) => {
                raw_write(self.out, &format!("harness error: {}: {e}\n", exe.display()));
                std::process::exit(2);
            }
        };
        let mut t = self.total.lock().unwrap();
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Some(rest) = l.strip_prefix("PART ") else {
                raw_write(self.out, &format!("{l}\n"));
                continue;
            };
            let mut w = rest.splitn(3, ' ');
            let (Some(what), Some(n)) = (w.next(), w.next().and_then(|n| n.parse::<u64>().ok())) else { continue };
            let name = w.next().unwrap_or("").to_string();
            match what {
                "cases" => t.cases += n,
                "states" => t.more_states += n,
                "transitions" => t.transitions += n,
                "validated" => t.validated += n,
                "exhaustive" if n == 0 => self.exhaustive.store(false, Ordering::SeqCst),
                "family" => *t.families.entry(name).or_insert(0) += n,
                "outcome" => *t.outcomes.entry(name).or_insert(0) += n,
                "counter" => *t.counters.entry(name).or_insert(0) += n,
                _ => (),
            }
        }
        if o.status.code() == Some(0) {
            return;
        }
        if o.status.code().is_none() {
            emit_violation(self.id, &self.verif.join("replays"), self.out, "part", "?", &format!("the process ended with {}", o.status));
        } else if o.status.code() != Some(1) {
            raw_write(self.out, &format!("harness error: {} ended with {}\n", exe.display(), o.status));
            std::process::exit(2);
        }
        t.failed_parts += 1;
        self.bad.fetch_add(1000, Ordering::SeqCst);
    }
    /// Run f for every item, on all cores
    pub fn each<T: Sync>(&self, family: &str, items: &[T], f: impl Fn(&T, &mut Case) + Sync) {
        self.range(family, items.len(), |i, c| f(&items[i], c))
    }
    pub fn range(&self, family: &str, n: usize, f: impl Fn(usize, &mut Case) + Sync) {
        if let Some(r) = &self.replay {
            if !r.starts_with(&format!("{family}/")) {
                return;
            }
        }
        let next = AtomicUsize::new(0);
        let threads = self.threads.min(n.max(1));
        let t0 = Instant::now();
        std::thread::scope(|s| {
            for t in 0..threads {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|s| *s.borrow_mut() = t);
                        let mut c = Case::new(self, family);
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || self.stopped() {
                                break;
                            }
                            if let Err(e) = caught(|| f(i, &mut c)) {
                                c.fail(format!("unexpected behaviour, the harness could not go on: {e}"));
                            }
                            c.end();
                        }
                        c.flush();
                        *crate::env::lk(&SLOTS[t]) = None;
                    })
                    .unwrap();
            }
        });
        if std::env::var_os("MC_TIME").is_some() {
            self.say(&format!("  {family}: {n} items {:?}", t0.elapsed()));
        }
    }

    pub fn finish(self) -> ! {
        let t = self.total.into_inner().unwrap();
        let mut code = (t.failed_parts > 0) as i32;
        let part = std::env::var_os("MC_PART").is_some();
        let mut printed = 0;
        let mut seen = BTreeSet::new();
        let mut viol = t.violations.clone();
        viol.sort();
        for (case, msg) in &viol {
            // one of a kind
            let kind: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
            let fam = case.split('/').next().unwrap_or("").to_string();
            if !seen.insert((fam, kind)) || printed >= 6 {
                continue;
            }
            printed += 1;
            let tag = format!("{}{printed}", if part { "part" } else { "" });
            emit_violation(self.id, &self.verif.join("replays"), self.out, &tag, case, msg);
            code = 1;
        }
        for k in self.known_hit.lock().unwrap().iter() {
            raw_write(self.out, &format!("KNOWN-FINDING: property={} {k}\n", self.id));
        }
        if self.replay.is_some() {
            raw_write(self.out, &format!("replayed {} cases, {} violations\n", t.cases, viol.len()));
            std::process::exit(code);
        }
        if part {
            let mut o = vec![format!("cases {}", t.cases), format!("states {}", t.states.len()), format!("transitions {}", t.transitions), format!("validated {}", t.validated)];
            o.push(format!("exhaustive {}", self.exhaustive.load(Ordering::SeqCst) as u8));
            o.extend(t.families.iter().map(|(k, v)| format!("family {v} {k}")));
            o.extend(t.outcomes.iter().map(|(k, v)| format!("outcome {v} {k}")));
            o.extend(t.counters.iter().map(|(k, v)| format!("counter {v} {k}")));
            for l in o {
                raw_write(self.out, &format!("PART {l}\n"));
            }
            std::process::exit(code);
        }
        let js = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o += "\\\"",
                    '\\' => o += "\\\\",
                    c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
                    c => o.push(c),
                }
            }
            o + "\""
        };
        let map = |m: &BTreeMap<String, u64>| {
            format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
        };
        let samples: Vec<String> = t.samples.values().flatten().map(|s| js(s)).collect();
        let mut cov = vec![];
        if self.level == "model_checking" {
            cov.push(format!("\"states\": {}", t.states.len() as u64 + t.more_states));
            cov.push(format!("\"transitions\": {}", t.transitions));
            cov.push(format!("\"traces_validated_against_impl\": {}", t.validated));
        } else {
            cov.push(format!("\"evaluations\": {}", t.cases));
            cov.push(format!("\"distinct_nontrivial\": {}", t.nontrivial.len()));
            if !t.states.is_empty() {
                cov.push(format!("\"states\": {}", t.states.len()));
            }
            if t.transitions > 0 {
                cov.push(format!("\"transitions\": {}", t.transitions));
            }
        }
        cov.push(format!("\"rule\": {}", js(self.rule)));
        cov.push(format!("\"exhaustive\": {}", self.exhaustive.load(Ordering::SeqCst)));
        cov.push(format!("\"cases_per_family\": {}", map(&t.families)));
        cov.push(format!("\"distinct_outcomes\": {}", t.outcomes.len()));
        let mut top: Vec<_> = t.outcomes.iter().collect();
        top.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
        cov.push(format!(
            "\"outcomes\": {{{}}}",
            top.iter().take(40).map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ")
        ));
        if !t.counters.is_empty() {
            cov.push(format!("\"counters\": {}", map(&t.counters)));
        }
        if t.reruns > 0 {
            cov.push(format!("\"determinism_reruns\": {}, \"determinism_mismatches\": {}", t.reruns, t.rerun_mismatch));
        }
        cov.push(format!("\"samples\": [{}]", samples.join(", ")));
        let ev = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
            js(self.id),
            js(if self.thorough { "thorough" } else { "quick" }),
            self.seed,
            js(self.level),
            cov.join(",\n  "),
            self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            viol.len(),
            self.start.elapsed().as_secs_f64()
        );
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::File::create(dir.join(format!("{}.json", self.id))).and_then(|mut f| f.write_all(ev.as_bytes())) {
            raw_write(self.out, &format!("evidence: {e}\n"));
        }
        raw_write(
            self.out,
            &format!(
                "{}: {} cases, {} states, {} transitions, {} distinct outcomes, {} violations, {:.1} s\n",
                self.id,
                t.cases,
                t.states.len() as u64 + t.more_states,
                t.transitions,
                t.outcomes.len(),
                viol.len(),
                self.start.elapsed().as_secs_f64()
            ),
        );
        std::process::exit(code);
    }
}

pub struct Case<'a> {
    chk: &'a Check,
    family: String,
    id: String,
    active: bool,
    failed: bool,
    local: Total,
    validated: bool,
    /// Digest of everything observed in the current case
    pub trace: u64,
    last_outcome: String,
}

impl<'a> Case<'a> {
    fn new(chk: &'a Check, family: &str) -> Case<'a> {
        Case {
            chk,
            family: family.into(),
            id: String::new(),
            active: false,
            failed: false,
            local: Total::default(),
            validated: false,
            trace: 0,
            last_outcome: String::new(),
        }
    }
    /// Start the case with this name; false if it is not to be run
    pub fn begin(&mut self, id: impl AsRef<str>) -> bool {
        self.end();
        let id = format!("{}/{}", self.family, id.as_ref());
        if let Some(r) = &self.chk.replay {
            if *r != id {
                return false;
            }
        } else if self.chk.stopped() {
            return false;
        }
        let slot = SLOT.with(|s| *s.borrow());
        if slot < NSLOTS {
            *crate::env::lk(&SLOTS[slot]) = Some((id.clone(), Instant::now()));
        }
        CURRENT.with(|c| *c.borrow_mut() = id.clone());
        LAST_PANIC.with(|l| l.borrow_mut().clear());
        crate::env::take_peer_panic();
        self.id = id;
        self.active = true;
        self.failed = false;
        self.validated = false;
        self.trace = 0;
        self.last_outcome.clear();
        true
    }
    /// Is the named case, or one below it, to be run?
    pub fn wanted_below(&self, id: &str) -> bool {
        match &self.chk.replay {
            None => true,
            Some(r) => r.starts_with(&format!("{}/{id}", self.family)),
        }
    }
    /// A long case makes progress: restart the time after which it counts as hanging
    pub fn alive(&self) {
        let slot = SLOT.with(|s| *s.borrow());
        if slot < NSLOTS {
            if let Some(x) = crate::env::lk(&SLOTS[slot]).as_mut() {
                x.1 = Instant::now();
            }
        }
    }
    pub fn id(&self) -> &str {
        &self.id
    }
    pub fn end(&mut self) {
        if !self.active {
            return;
        }
        if crate::env::take_peer_panic() {
            let l = LAST_PANIC.with(|l| l.borrow().clone());
            self.fail(format!("unexpected data, a reference peer could not go on: {l}"));
        }
        self.active = false;
        self.local.cases += 1;
        let n = self.local.families.entry(self.family.clone()).or_insert(0);
        *n += 1;
        if self.validated && !self.failed {
            self.local.validated += 1;
        }
        let s = self.local.samples.entry(self.family.clone()).or_default();
        if s.is_empty() || (s.len() < 2 && *n == 40) {
            s.push(format!("{} => {}", self.id, self.last_outcome));
        }
    }
    pub fn fail(&mut self, msg: impl AsRef<str>) {
        let full = if self.id.is_empty() { format!("{}/?", self.family) } else { self.id.clone() };
        for (k, d) in &self.chk.known {
            if full == *k {
                self.chk.known_hit.lock().unwrap().insert(format!("{k} {d}"));
                return;
            }
        }
        if !self.failed {
            self.chk.bad.fetch_add(1, Ordering::Relaxed);
        }
        self.failed = true;
        if self.local.violations.len() < 200 {
            self.local.violations.push((full, msg.as_ref().to_string()));
        }
    }
    pub fn failed(&self) -> bool {
        self.failed
    }
    pub fn check(&mut self, ok: bool, msg: impl AsRef<str>) {
        if !ok {
            self.fail(msg);
        }
    }
    pub fn state(&mut self, x: impl Hash) {
        self.local.states.insert(h64(x));
    }
    pub fn trans(&mut self, n: usize) {
        self.local.transitions += n as u64;
    }
    /// Counted as distinct and not trivial
    pub fn nontrivial(&mut self, x: impl Hash) {
        self.local.nontrivial.insert(h64(x));
    }
    pub fn outcome(&mut self, s: impl AsRef<str>) {
        self.last_outcome = s.as_ref().to_string();
        *self.local.outcomes.entry(s.as_ref().to_string()).or_insert(0) += 1;
    }
    pub fn count(&mut self, s: &str, n: u64) {
        *self.local.counters.entry(s.to_string()).or_insert(0) += n;
    }
    /// The prediction of the model was compared with the implementation in this case
    pub fn validated(&mut self) {
        self.validated = true;
    }
    pub fn observe(&mut self, x: impl Hash) {
        self.trace = h64((self.trace, h64(x)));
    }
    pub fn rerun(&mut self, same: bool) {
        self.local.reruns += 1;
        if !same {
            self.local.rerun_mismatch += 1;
        }
    }
    fn flush(&mut self) {
        self.end();
        let l = std::mem::take(&mut self.local);
        let mut t = self.chk.total.lock().unwrap();
        t.cases += l.cases;
        t.transitions += l.transitions;
        t.states.extend(l.states);
        t.nontrivial.extend(l.nontrivial);
        t.validated += l.validated;
        t.reruns += l.reruns;
        t.rerun_mismatch += l.rerun_mismatch;
        for (k, v) in l.outcomes {
            *t.outcomes.entry(k).or_insert(0) += v;
        }
        for (k, v) in l.families {
            *t.families.entry(k).or_insert(0) += v;
        }
        for (k, v) in l.counters {
            *t.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in l.samples {
            let s = t.samples.entry(k).or_default();
            for x in v {
                if s.len() < 2 {
                    s.push(x);
                }
            }
        }
        t.violations.extend(l.violations);
    }
}

/// What is known after the word was run on the implementation
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    /// The implementation waits for the next action
    Waiting,
    Over,
}

/// All words over the alphabet up to the depth, depth first order by levels. A word is extended only
/// if the implementation waits for more input after it; every run starts from the beginning.
pub fn words(
    chk: &Check,
    family: &str,
    alphabet: &[&'static str],
    depth: usize,
    run: impl Fn(&[&'static str], &mut Case) -> End + Sync,
) {
    let mut frontier: Vec<Vec<&'static str>> = vec![vec![]];
    for _ in 0..depth {
        let mut items: Vec<Vec<&'static str>> = vec![];
        for w in &frontier {
            for a in alphabet {
                let mut x = w.clone();
                x.push(a);
                items.push(x);
            }
        }
        let next: Mutex<Vec<Vec<&'static str>>> = Mutex::default();
        chk.each(family, &items, |w, c| {
            let id = w.join(".");
            if !c.begin(&id) {
                if chk.replaying() && c.wanted_below(&id) {
                    next.lock().unwrap().push(w.clone());
                }
                return;
            }
            c.trans(1);
            if run(w, c) == End::Waiting {
                next.lock().unwrap().push(w.clone());
            }
        });
        frontier = next.into_inner().unwrap();
        frontier.sort();
    }
}
