//! Property-based testing engine: every random choice goes through `Src`, which records the
//! choices as a tape of small integers.  A case is a pure function of its tape, so replaying and
//! shrinking work on the tape (delete chunks, zero chunks, lower values) whatever the generator.
use crate::guard;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Src {
    rng: u64,
    replay: bool,
    /// past the end of the tape: go on at random instead of with the simplest choice
    guided: bool,
    /// the choices are to be known even if the case does not come back
    live: bool,
    pub tape: Vec<u64>,
    pos: usize,
    pub used: usize,
    pub dict: &'static [f64],
}
pub static LIVE: Mutex<Vec<u64>> = Mutex::new(vec![]);
#[inline]
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Src {
    pub fn random(seed: u64, buf: Vec<u64>, dict: &'static [f64]) -> Src {
        let mut tape = buf;
        tape.clear();
        Src { rng: seed, replay: false, guided: false, live: false, tape, pos: 0, used: 0, dict }
    }
    pub fn replay(tape: Vec<u64>, dict: &'static [f64]) -> Src {
        Src { rng: 0, replay: true, guided: false, live: false, tape, pos: 0, used: 0, dict }
    }
    pub fn guided(tape: Vec<u64>, seed: u64, dict: &'static [f64]) -> Src {
        Src { rng: seed, replay: true, guided: true, live: false, tape, pos: 0, used: 0, dict }
    }
    pub fn live(mut self) -> Src {
        self.live = true;
        self
    }
    /// A choice in 0..n; 0 is the simplest.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if self.replay {
            let v = if self.pos < self.tape.len() {
                let v = self.tape[self.pos];
                let v = if v < n {
                    v
                } else if self.guided {
                    // (a random 64-bit value becomes a random choice)
                    ((v as u128 * n as u128) >> 64) as u64
                } else {
                    n - 1
                };
                self.tape[self.pos] = v;
                v
            } else {
                if self.tape.len() > 100000 {
                    panic!("tape too long");
                }
                let v = if self.guided { ((splitmix(&mut self.rng) as u128 * n as u128) >> 64) as u64 } else { 0 };
                self.tape.push(v);
                v
            };
            self.pos += 1;
            self.used = self.pos;
            if self.live {
                LIVE.lock().unwrap().push(v);
            }
            v
        } else {
            let r = splitmix(&mut self.rng);
            let v = ((r as u128 * n as u128) >> 64) as u64;
            self.tape.push(v);
            self.used = self.tape.len();
            v
        }
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == n - 1
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for &v in &self.tape[..self.used] {
            h ^= v;
            h = h.wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
        h
    }
}

/// Per-case record: classes, non-triviality, and (only when verbose) a readable description.
pub struct Case {
    pub verbose: bool,
    pub nontrivial: bool,
    pub desc: Vec<(String, String)>,
    pub classes: Vec<&'static str>,
    pub steps: u64,
}
impl Case {
    pub fn new(verbose: bool) -> Case {
        Case { verbose, nontrivial: false, desc: vec![], classes: vec![], steps: 0 }
    }
    #[inline]
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    #[inline]
    pub fn show<F: FnOnce() -> String>(&mut self, k: &str, f: F) {
        if self.verbose {
            self.desc.push((k.to_string(), f()));
        }
    }
}
pub type Res = Result<(), String>;
pub type PropFn = fn(&mut Src, &mut Case) -> Res;

/// the one panic the harness raises on purpose, from inside the library
pub const UNFINISHED: &str = "the query does not finish";
thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
/// silences panics and notes where they come from: one in the harness itself is an error of the check
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = at);
    }));
}
pub fn run_case(f: PropFn, src: &mut Src, case: &mut Case) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(src, case))) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let at = PANIC_AT.with(|p| p.borrow().clone());
            if m.contains("HARNESS") || (at.starts_with("src/") && !m.starts_with(UNFINISHED)) {
                eprintln!("harness error: {} at {}", m, at);
                std::process::exit(3);
            }
            Err(format!("panicked: {} (at {})", m, at))
        }
    }
}

/// distinct cases are counted among this many non-trivial ones at most (a lower bound beyond)
pub const HASH_CAP: usize = 64_000_000;
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub counted: u64,
    pub hashes: Vec<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub samples: Vec<(u64, String)>,
    pub fail: Option<(u64, Vec<u64>, String)>,
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut s = seed ^ 0x1234_5678_9abc_def1;
    for b in id.bytes() {
        s = splitmix(&mut s) ^ b as u64;
    }
    s = splitmix(&mut s) ^ idx;
    splitmix(&mut s)
}

pub fn run<L: Fn(u64, bool) + Sync>(id: &str, f: PropFn, cases: u64, seed: u64, dict: &'static [f64], lost: L) -> Stats {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    const BLOCK: u64 = 2048;
    let next = AtomicU64::new(0);
    let minfail = AtomicU64::new(u64::MAX);
    let all: Mutex<Vec<Stats>> = Mutex::new(vec![]);
    let done = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for th in 0..threads {
            let (next, minfail, all, done) = (&next, &minfail, &all, &done);
            sc.spawn(move || {
                let mut st = Stats { evals: 0, nontrivial: 0, counted: 0, hashes: vec![], classes: BTreeMap::new(), steps: 0, samples: vec![], fail: None };
                let mut cl: Vec<(&'static str, u64)> = vec![];
                let mut buf = Vec::with_capacity(256);
                guard::enter(th);
                'outer: loop {
                    let b = next.fetch_add(BLOCK, Ordering::Relaxed);
                    if b >= cases || b > minfail.load(Ordering::Relaxed) {
                        break;
                    }
                    for idx in b..(b + BLOCK).min(cases) {
                        if idx > minfail.load(Ordering::Relaxed) {
                            break 'outer;
                        }
                        guard::at(th, idx);
                        let mut src = Src::random(case_seed(seed, id, idx), std::mem::take(&mut buf), dict);
                        let mut case = Case::new(false);
                        let r = run_case(f, &mut src, &mut case);
                        st.evals += 1;
                        st.steps += case.steps;
                        if case.nontrivial {
                            st.nontrivial += 1;
                            if st.hashes.len() < HASH_CAP / threads {
                                st.hashes.push(src.hash());
                            }
                        }
                        for c in &case.classes {
                            match cl.iter_mut().find(|x| std::ptr::eq(x.0, *c)) {
                                Some(x) => x.1 += 1,
                                None => cl.push((c, 1)),
                            }
                        }
                        if let Err(m) = r {
                            minfail.fetch_min(idx, Ordering::Relaxed);
                            if st.fail.as_ref().map(|x| x.0 > idx).unwrap_or(true) {
                                st.fail = Some((idx, src.tape.clone(), m));
                            }
                        }
                        buf = src.tape;
                    }
                }
                guard::leave(th);
                for (c, n) in cl {
                    *st.classes.entry(c).or_insert(0) += n;
                }
                done.fetch_add(1, Ordering::SeqCst);
                all.lock().unwrap().push(st);
            });
        }
        let (done, lost) = (&done, &lost);
        sc.spawn(move || guard::watch(|| done.load(Ordering::SeqCst) == threads as u64, |k, crashed| lost(guard::SLOT[k].idx.load(Ordering::SeqCst), crashed)));
    });
    let mut tot = Stats { evals: 0, nontrivial: 0, counted: 0, hashes: vec![], classes: BTreeMap::new(), steps: 0, samples: vec![], fail: None };
    for mut st in all.into_inner().unwrap() {
        tot.evals += st.evals;
        tot.nontrivial += st.nontrivial;
        tot.steps += st.steps;
        tot.hashes.append(&mut st.hashes);
        for (c, n) in st.classes {
            *tot.classes.entry(c).or_insert(0) += n;
        }
        if let Some(f) = st.fail {
            if tot.fail.as_ref().map(|x| x.0 > f.0).unwrap_or(true) {
                tot.fail = Some(f);
            }
        }
    }
    tot.counted = tot.hashes.len() as u64;
    tot.hashes.sort_unstable();
    tot.hashes.dedup();
    tot
}

/// decided in a thread of its own, so that nothing an earlier case left in thread-local state counts
/// (and a case that does not come back can be left behind)
pub fn fails(f: PropFn, tape: &[u64], dict: &'static [f64]) -> Option<(Vec<u64>, String)> {
    const K: usize = guard::SLOTS - 1;
    let (tx, rx) = std::sync::mpsc::channel();
    let tape = tape.to_vec();
    guard::SLOT[K].crashed.store(false, Ordering::SeqCst);
    std::thread::spawn(move || {
        guard::enter(K);
        let mut src = Src::replay(tape, dict);
        let mut case = Case::new(false);
        let r = run_case(f, &mut src, &mut case).err().map(|m| {
            src.tape.truncate(src.used);
            (src.tape, m)
        });
        guard::leave(K);
        let _ = tx.send(r);
    });
    for _ in 0..100 {
        match rx.recv_timeout(std::time::Duration::from_millis(50)) {
            Ok(r) => return r,
            Err(_) if guard::SLOT[K].crashed.load(Ordering::SeqCst) => return None,
            Err(_) => {}
        }
    }
    None
}
fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}
pub fn shrink<F: Fn(&[u64]) -> Option<(Vec<u64>, String)>>(fails: F, tape: Vec<u64>, msg: String, limit: u64, secs: u64) -> (Vec<u64>, String, u64) {
    let t0 = std::time::Instant::now();
    let mut best = tape;
    let mut bm = msg;
    let mut evals = 0u64;
    macro_rules! go {
        () => {
            evals < limit && t0.elapsed().as_secs() < secs
        };
    }
    macro_rules! attempt {
        ($t:expr) => {{
            evals += 1;
            match fails(&$t) {
                Some((t, m)) if simpler(&t, &best) => {
                    best = t;
                    bm = m;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        for size in [4096usize, 1024, 256, 128, 64, 32, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && go!() {
                let mut t = best.clone();
                t.drain(i..i + size);
                if !attempt!(t) {
                    i += 1;
                }
            }
        }
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && go!() {
                let mut t = best.clone();
                let mut ch = false;
                for x in &mut t[i..i + size] {
                    ch |= *x != 0;
                    *x = 0;
                }
                if ch {
                    attempt!(t);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && go!() {
            let (mut lo, hi) = (0u64, best[i]);
            let mut hi = hi;
            while lo < hi && go!() {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.clone();
                if i >= t.len() {
                    break;
                }
                t[i] = mid;
                if attempt!(t) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || !go!() {
            break;
        }
    }
    (best, bm, evals)
}
