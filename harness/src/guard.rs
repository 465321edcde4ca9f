//! Cases that do not come back: the library loops for ever, overflows the stack or aborts.  Each
//! worker thread notes the case it is on; a watcher outside takes a case for lost when its thread
//! has spent `limit` seconds of its own processor time on it (cases take micro- to milliseconds),
//! or when a fatal signal came from it.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};

pub struct Slot {
    pub active: AtomicBool,
    pub crashed: AtomicBool,
    pub idx: AtomicU64,
    pub count: AtomicU64,
    clock: AtomicI32,
}
pub const SLOTS: usize = 32;
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { active: AtomicBool::new(false), crashed: AtomicBool::new(false), idx: AtomicU64::new(0), count: AtomicU64::new(0), clock: AtomicI32::new(0) };
pub static SLOT: [Slot; SLOTS] = [EMPTY; SLOTS];
thread_local! {
    static MINE: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[repr(C)]
struct TimeSpec {
    s: i64,
    ns: i64,
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut TimeSpec) -> i32;
    fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    fn pause() -> i32;
    fn setrlimit(what: i32, to: *const [u64; 2]) -> i32;
}
const SIGNALS: [i32; 5] = [4, 6, 7, 8, 11];
extern "C" fn on_signal(sig: i32) {
    let k = MINE.with(|m| m.get());
    if k < SLOTS {
        SLOT[k].crashed.store(true, Ordering::SeqCst);
        loop {
            unsafe { pause() };
        }
    }
    // not a case: as it would have gone
    unsafe { sigaction(sig, &SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 }, std::ptr::null_mut()) };
}
pub fn install() {
    for s in SIGNALS {
        // on the stack the runtime set aside for overflows
        unsafe { sigaction(s, &SigAction { handler: on_signal as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 }, std::ptr::null_mut()) };
    }
}
/// memory that grows without end becomes an abort
pub fn memory(gb: u64) {
    unsafe { setrlimit(9, &[gb << 30, gb << 30]) };
}
/// this thread runs cases under slot k
pub fn enter(k: usize) {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    SLOT[k].clock.store(c, Ordering::SeqCst);
    SLOT[k].crashed.store(false, Ordering::SeqCst);
    MINE.with(|m| m.set(k));
    SLOT[k].active.store(true, Ordering::SeqCst);
}
pub fn leave(k: usize) {
    SLOT[k].active.store(false, Ordering::SeqCst);
    MINE.with(|m| m.set(usize::MAX));
}
#[inline]
pub fn at(k: usize, idx: u64) {
    SLOT[k].idx.store(idx, Ordering::Relaxed);
    SLOT[k].count.fetch_add(1, Ordering::Relaxed);
}
fn cpu(k: usize) -> Option<f64> {
    let mut t = TimeSpec { s: 0, ns: 0 };
    let r = unsafe { clock_gettime(SLOT[k].clock.load(Ordering::SeqCst), &mut t) };
    if r == 0 {
        Some(t.s as f64 + t.ns as f64 * 1e-9)
    } else {
        None
    }
}
/// (for replays of lost cases the parent process sets a shorter one)
pub fn limit() -> f64 {
    std::env::var("VP_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(30.0)
}
pub fn what(crashed: bool) -> String {
    if crashed {
        "the call did not return: fatal signal (stack overflow or abort)".into()
    } else {
        "the call did not return".into()
    }
}
/// watches until `end`; a lost case goes to `lost(slot, crashed)`, which does not return
pub fn watch<E: Fn() -> bool, L: Fn(usize, bool)>(end: E, lost: L) {
    let lim = limit();
    let mut last: Vec<(u64, f64, u64)> = vec![(u64::MAX, 0.0, 0); SLOTS];
    while !end() {
        std::thread::sleep(std::time::Duration::from_millis(20));
        for (k, l) in last.iter_mut().enumerate() {
            let s = &SLOT[k];
            if s.crashed.load(Ordering::SeqCst) {
                lost(k, true);
                return;
            }
            if !s.active.load(Ordering::SeqCst) {
                l.0 = u64::MAX;
                continue;
            }
            let n = s.count.load(Ordering::Relaxed);
            if n != l.0 {
                *l = (n, cpu(k).unwrap_or(0.0), 0);
                continue;
            }
            // rounds of this loop, not wall time: nothing counts while the process is stopped
            l.2 += 1;
            let spent = cpu(k).map(|c| c - l.1).unwrap_or(0.0);
            if (spent > lim || l.2 as f64 > 400.0 * lim) && s.active.load(Ordering::SeqCst) && s.count.load(Ordering::Relaxed) == n {
                lost(k, false);
                return;
            }
        }
    }
}
