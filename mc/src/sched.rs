//! A controlled scheduler. Threads of the code under test stop before every operation on their
//! environment (and, on demand, at allocations); exactly one runs at a time and the explorer
//! decides which. All schedules up to a number of preemptions are enumerated.

use crate::check::{Case, Check};
use crate::env::{lk, VSock};
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Start,
    Recv,
    Send,
    Close,
    Accept,
    Open,
    Write,
    FileClose,
    Random,
    Alloc,
    /// A branch, or an access to a static, of the code under test
    Point,
    /// A point chosen by the harness
    User(u32),
}

#[derive(Clone, PartialEq)]
enum Th {
    Running,
    /// Waits for its turn before this operation
    Parked(Op),
    /// Waits for something else than its turn
    Blocked,
    Done,
}
struct St {
    th: Vec<Th>,
    tid: Vec<i32>,
    /// The sockets the parked threads want to read
    sock: Vec<Option<Arc<Mutex<VSock>>>>,
    /// The thread which may go on
    go: Option<usize>,
    /// No control any more
    free: bool,
}
pub struct Gate {
    /// Only before these operations the threads stop
    mask: fn(Op) -> bool,
    st: Mutex<St>,
    ctl: Condvar,
    cv: Vec<Condvar>,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Gate>, usize)>> = const { RefCell::new(None) };
    /// At which of its allocations (counted from 1) the thread stops; counter
    static ALLOC: RefCell<(u64, u64, bool)> = const { RefCell::new((0, 0, false)) };
}
extern "C" {
    fn gettid() -> i32;
}

/// Stop here until it is the turn of this thread
pub fn gate(op: Op, sock: Option<&Arc<Mutex<VSock>>>) {
    let cur = CUR.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten();
    let Some((g, me)) = cur else { return };
    if !(g.mask)(op) {
        return;
    }
    let mut st = lk(&g.st);
    if st.free {
        return;
    }
    st.th[me] = Th::Parked(op);
    st.sock[me] = sock.cloned();
    g.ctl.notify_one();
    while st.go != Some(me) && !st.free {
        st = g.cv[me].wait(st).unwrap_or_else(|e| e.into_inner());
    }
    st.go = None;
    st.sock[me] = None;
    st.th[me] = Th::Running;
}

/// Stop at the n-th allocation from now on (0: only count)
pub fn alloc_stop(n: u64) {
    ALLOC.with(|a| *a.borrow_mut() = (n, 0, true));
}
pub fn alloc_count() -> u64 {
    ALLOC.with(|a| {
        let mut a = a.borrow_mut();
        a.2 = false;
        a.1
    })
}
/// What the harness itself allocates does not count
pub fn alloc_pause<T>(f: impl FnOnce() -> T) -> T {
    let old = ALLOC.with(|a| std::mem::replace(&mut a.borrow_mut().2, false));
    let r = f();
    ALLOC.with(|a| a.borrow_mut().2 = old);
    r
}
/// Called by the allocator of the harness
#[inline]
pub fn alloc_point() {
    let hit = ALLOC.try_with(|a| match a.try_borrow_mut() {
        Ok(mut a) if a.2 => {
            a.1 += 1;
            a.0 == a.1
        }
        _ => false,
    });
    if hit == Ok(true) {
        gate(Op::Alloc, None);
    }
}

/// What can go on, and where the threads stand
pub struct View<'a> {
    pub step: usize,
    /// The thread which ran last
    pub last: Option<usize>,
    pub enabled: &'a [usize],
    pub at: &'a [Option<Op>],
}
/// One decision
#[derive(Clone, Debug)]
pub struct Choice {
    pub enabled: Vec<usize>,
    pub chosen: usize,
    pub last: Option<usize>,
    pub op: Op,
}
#[derive(Default, Clone, Debug)]
pub struct Trace {
    pub choices: Vec<Choice>,
    /// A thread waited for another thread, which stood before this operation
    pub blocked: Vec<(usize, Vec<Option<Op>>)>,
    /// All threads waited for data that nobody sends
    pub deadlock: bool,
}
impl Trace {
    pub fn switches(&self) -> usize {
        self.choices.iter().filter(|c| c.last.is_some_and(|l| l != c.chosen)).count()
    }
}

fn sleeping(tid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s.rsplit(") ").next().is_some_and(|s| s.starts_with('S')),
        Err(_) => false,
    }
}

/// Run the threads under the control of choose, which gets what is enabled and returns a thread
pub fn run_threads<R: Send>(jobs: Vec<Box<dyn FnOnce() -> R + Send + '_>>, choose: impl FnMut(&View) -> usize) -> (Vec<R>, Trace) {
    run_threads_masked(jobs, |_| true, choose)
}
pub fn run_threads_masked<R: Send>(jobs: Vec<Box<dyn FnOnce() -> R + Send + '_>>, mask: fn(Op) -> bool, mut choose: impl FnMut(&View) -> usize) -> (Vec<R>, Trace) {
    let n = jobs.len();
    let g = Arc::new(Gate {
        mask,
        st: Mutex::new(St { th: vec![Th::Running; n], tid: vec![0; n], sock: vec![None; n], go: None, free: false }),
        ctl: Condvar::new(),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    });
    let mut trace = Trace::default();
    let res = std::thread::scope(|sc| {
        let handles: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(i, job)| {
                let g = g.clone();
                sc.spawn(move || {
                    lk(&g.st).tid[i] = unsafe { gettid() };
                    CUR.with(|c| *c.borrow_mut() = Some((g.clone(), i)));
                    gate(Op::Start, None);
                    let r = job();
                    CUR.with(|c| *c.borrow_mut() = None);
                    let mut st = lk(&g.st);
                    st.th[i] = Th::Done;
                    g.ctl.notify_one();
                    drop(st);
                    r
                })
            })
            .collect();
        let mut last = None;
        let mut step = 0;
        loop {
            // until all threads stand
            let mut st = lk(&g.st);
            let mut sleeps = vec![0; n];
            loop {
                if !st.th.iter().any(|t| *t == Th::Running) && st.go.is_none() {
                    break;
                }
                let (s, t) = g.ctl.wait_timeout(st, Duration::from_millis(if sleeps.iter().any(|s| *s > 0) { 2 } else { 20 })).unwrap_or_else(|e| e.into_inner());
                st = s;
                if t.timed_out() && st.go.is_none() {
                    for i in 0..n {
                        if st.th[i] == Th::Running && st.tid[i] != 0 && sleeping(st.tid[i]) {
                            sleeps[i] += 1;
                            if sleeps[i] >= 5 {
                                st.th[i] = Th::Blocked;
                                let at = st.th.iter().map(|t| if let Th::Parked(o) = t { Some(*o) } else { None }).collect();
                                trace.blocked.push((i, at));
                            }
                        } else {
                            sleeps[i] = 0;
                        }
                    }
                }
            }
            if st.th.iter().all(|t| *t == Th::Done) {
                break;
            }
            let at: Vec<Option<Op>> = st.th.iter().map(|t| if let Th::Parked(o) = t { Some(*o) } else { None }).collect();
            let enabled: Vec<usize> = (0..n).filter(|i| at[*i].is_some() && st.sock[*i].as_ref().is_none_or(|s| lk(s).ready())).collect();
            if enabled.is_empty() {
                if at.iter().any(|a| a.is_some()) {
                    trace.deadlock = true;
                }
                // let everything go
                st.free = true;
                drop(st);
                for c in &g.cv {
                    c.notify_all();
                }
                break;
            }
            drop(st);
            let t = choose(&View { step, last, enabled: &enabled, at: &at });
            debug_assert!(enabled.contains(&t));
            trace.choices.push(Choice { enabled, chosen: t, last, op: at[t].unwrap() });
            step += 1;
            last = Some(t);
            let mut st = lk(&g.st);
            // threads that were blocked may stand now or run
            for i in 0..n {
                if st.th[i] == Th::Blocked {
                    st.th[i] = Th::Running;
                }
            }
            st.th[t] = Th::Running;
            st.go = Some(t);
            g.cv[t].notify_one();
            drop(st);
        }
        handles.into_iter().map(|h| h.join().expect("a thread of the harness")).collect()
    });
    (res, trace)
}

/// A schedule: at these steps another thread than by default goes on
pub type Deviations = Vec<(usize, usize)>;

/// The default is to go on with the same thread, then with the first that can
pub fn default_choice(v: &View) -> usize {
    match v.last {
        Some(l) if v.enabled.contains(&l) => l,
        _ => v.enabled[0],
    }
}
pub fn choice_of<'a>(dev: &'a Deviations) -> impl FnMut(&View) -> usize + 'a {
    move |v| match dev.iter().find(|d| d.0 == v.step) {
        Some(d) if v.enabled.contains(&d.1) => d.1,
        _ => default_choice(v),
    }
}
pub fn name_of(dev: &Deviations) -> String {
    let v: Vec<String> = dev.iter().map(|(s, t)| format!("s{s}t{t}")).collect();
    v.join("-")
}
/// The schedules which differ from the explored one at one more step, after its last deviation
pub fn next_deviations(dev: &Deviations, trace: &Trace) -> Vec<Deviations> {
    let from = dev.last().map_or(0, |d| d.0 + 1);
    let mut out = vec![];
    for (i, c) in trace.choices.iter().enumerate().skip(from) {
        for t in &c.enabled {
            if *t != c.chosen {
                let mut d = dev.clone();
                d.push((i, *t));
                out.push(d);
            }
        }
    }
    out
}

/// Run every schedule with at most bound deviations from the default one. run makes one execution
/// with these deviations and judges it.
pub fn explore(chk: &Check, family: &str, bound: usize, run: impl Fn(&mut Case, &Deviations) -> Trace + Sync) {
    if chk.replaying() {
        let Some(id) = chk.replay_id(family) else { return };
        let dev: Deviations = id
            .split('-')
            .filter_map(|s| {
                let (s, t) = s.strip_prefix('s')?.split_once('t')?;
                Some((s.parse().ok()?, t.parse().ok()?))
            })
            .collect();
        chk.range(family, 1, |_, c| {
            if c.begin(name_of(&dev)) {
                run(c, &dev);
            }
        });
        return;
    }
    // what is left to be run, and how many are running
    let work = Mutex::new((vec![Deviations::new()], 0usize));
    let more = Condvar::new();
    chk.range(family, chk.workers(), |_, c| loop {
        let dev = {
            let mut w = lk(&work);
            loop {
                if let Some(d) = w.0.pop() {
                    w.1 += 1;
                    break d;
                }
                if w.1 == 0 {
                    return;
                }
                w = more.wait(w).unwrap_or_else(|e| e.into_inner());
            }
        };
        if !c.begin(name_of(&dev)) {
            lk(&work).1 -= 1;
            more.notify_all();
            return;
        }
        let trace = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(c, &dev)));
        let mut w = lk(&work);
        w.1 -= 1;
        match trace {
            Ok(trace) => {
                if dev.len() < bound {
                    w.0.extend(next_deviations(&dev, &trace));
                }
                c.count("schedules", 1);
            }
            Err(_) => c.fail("unexpected behaviour, the harness could not go on"),
        }
        more.notify_all();
    });
}
