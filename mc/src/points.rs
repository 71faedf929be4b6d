//! Points inside of the code under test. If its crate is compiled by instrument.sh, it calls these
//! functions at every branch and before every load and store; those of statics and the branches
//! are points where a thread can be preempted.

use crate::sched::{gate, Op};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

/// A branch (0) or an access to a static at this offset, after this branch
pub type Point = (usize, u32);

static EDGES: AtomicU32 = AtomicU32::new(0);
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Off,
    Record,
    /// Stop when this point is reached so often
    Stop(Point, u64),
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static LAST: Cell<u32> = const { Cell::new(0) };
    static EDGE: Cell<u32> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static SEEN: RefCell<BTreeMap<Point, u64>> = const { RefCell::new(BTreeMap::new()) };
}
pub fn instrumented() -> bool {
    EDGES.load(Ordering::SeqCst) > 0
}
pub fn edges() -> u32 {
    EDGES.load(Ordering::SeqCst)
}
pub fn record() {
    SEEN.with(|s| s.borrow_mut().clear());
    MODE.with(|m| m.set(Mode::Record));
}
/// All points since record, and how often each was reached
pub fn recorded() -> BTreeMap<Point, u64> {
    MODE.with(|m| m.set(Mode::Off));
    SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()))
}
pub fn stop_at(p: Point, nth: u64) {
    COUNT.with(|c| c.set(0));
    EDGE.with(|c| c.set(if p.0 == 0 { p.1 } else { 0 }));
    MODE.with(|m| m.set(Mode::Stop(p, nth)));
}
/// Was the point reached?
pub fn stopped() -> bool {
    let Mode::Stop(_, n) = MODE.with(|m| m.replace(Mode::Off)) else { return false };
    COUNT.with(|c| c.get()) >= n
}
#[cold]
fn hit(p: Point) {
    match MODE.with(|m| m.get()) {
        Mode::Off => (),
        Mode::Record => {
            // the map allocates; an allocation does not come here
            SEEN.with(|s| *s.borrow_mut().entry(p).or_insert(0) += 1);
        }
        Mode::Stop(q, n) => {
            if q == p {
                let k = COUNT.with(|c| c.get()) + 1;
                COUNT.with(|c| c.set(k));
                if k == n {
                    gate(Op::Point, None);
                }
            }
        }
    }
}
#[inline]
fn access(a: usize) {
    let from = &raw const __data_start as usize;
    let to = &raw const _end as usize;
    if a >= from && a < to {
        hit((a - from + 1, LAST.with(|l| l.get())));
    }
}
macro_rules! accesses {
    ($($n:ident)*) => { $( #[no_mangle] pub extern "C" fn $n(p: *const u8) { access(p as usize) } )* }
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
accesses!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// # Safety
/// called by the compiled code only
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    if s == e || *s != 0 {
        return;
    }
    while s < e {
        *s = EDGES.fetch_add(1, Ordering::SeqCst) + 1;
        s = s.add(1);
    }
}
/// # Safety
/// called by the compiled code only
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let g = *g;
    LAST.with(|l| l.set(g));
    match MODE.with(|m| m.get()) {
        Mode::Off => (),
        Mode::Record => hit((0, g)),
        Mode::Stop(..) => {
            if EDGE.with(|e| e.get()) == g {
                hit((0, g))
            }
        }
    }
}
