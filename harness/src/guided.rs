//! Coverage-guided search over tapes.  Runs only in the build in which the library counts the
//! edges it takes (profile `cov`, tools/rustc-cov.sh); one process per worker, so the counters
//! belong to one case at a time and a worker is a pure function of (seed, property, worker).
use crate::engine::*;
use crate::guard;
use std::collections::HashSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    START.store(start as usize, Ordering::SeqCst);
    STOP.store(stop as usize, Ordering::SeqCst);
}
/// the edge counters of the library (empty in the plain build)
fn counters() -> &'static mut [u8] {
    let (a, b) = (START.load(Ordering::SeqCst), STOP.load(Ordering::SeqCst));
    if a == 0 {
        return &mut [];
    }
    unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) }
}
fn bucket(n: u8) -> usize {
    match n {
        1 => 0,
        2 => 1,
        3 => 2,
        4..=7 => 3,
        8..=15 => 4,
        16..=31 => 5,
        32..=127 => 6,
        _ => 7,
    }
}
struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        ((splitmix(&mut self.0) as u128 * n as u128) >> 64) as usize
    }
}
fn mutate(r: &mut Rng, t: &mut Vec<u64>, other: &[u64]) {
    for _ in 0..1 + r.below(4) {
        if t.is_empty() {
            return;
        }
        let i = r.below(t.len());
        match r.below(12) {
            // another choice here
            0 | 1 | 2 => t[i] = splitmix(&mut r.0),
            3 => t[i] = t[i].wrapping_add(1 + r.below(4) as u64),
            4 => t[i] = t[i].saturating_sub(1 + r.below(4) as u64),
            5 => t[i] = 0,
            // the same choice in two places
            6 => {
                let j = r.below(t.len());
                let n = (1 + r.below(8)).min(t.len() - i).min(t.len() - j);
                let c: Vec<u64> = t[j..j + n].to_vec();
                t[i..i + n].copy_from_slice(&c);
            }
            7 => {
                let n = (1 + r.below(4)).min(t.len() - i);
                t.drain(i..i + n);
            }
            8 => {
                let n = 1 + r.below(4);
                for _ in 0..n {
                    let x = splitmix(&mut r.0);
                    t.insert(i, x);
                }
            }
            // go on at random from here
            9 => t.truncate(i),
            // go on as another case does
            10 => {
                if !other.is_empty() {
                    let j = r.below(other.len());
                    t.truncate(i);
                    t.extend_from_slice(&other[j..]);
                }
            }
            _ => {
                if !other.is_empty() {
                    let j = r.below(other.len());
                    let n = (1 + r.below(8)).min(t.len() - i).min(other.len() - j);
                    t[i..i + n].copy_from_slice(&other[j..j + n]);
                }
            }
        }
    }
}
/// one worker: prints what it did, and the failing tape if there is one
pub fn worker(id: &str, f: PropFn, seed: u64, k: u64, cases: u64, dict: &'static [f64]) {
    let cnt = counters();
    if cnt.is_empty() {
        eprintln!("guided: this build does not count edges");
        std::process::exit(2);
    }
    guard::enter(0);
    std::thread::spawn(|| {
        guard::watch(
            || false,
            |_, crashed| {
                let c = CASE.lock().unwrap();
                println!("guided-lost {} {} {}", crashed as u64, c.1, c.0.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                println!("guided-done 0 0 0 0 0 0");
                std::process::exit(0);
            },
        )
    });
    let mut r = Rng(case_seed(seed, id, 1 << 40 | k));
    let nf = cnt.len() * 8;
    // per feature: how often seen, and the shortest tape that shows it
    let mut freq = vec![0u32; nf];
    let mut owner: Vec<Vec<u64>> = vec![vec![]; nf];
    let mut known: Vec<u32> = vec![];
    let mut paths: HashSet<u64> = HashSet::new();
    let mut pool: Vec<Vec<u64>> = vec![];
    let (mut nontrivial, mut steps) = (0u64, 0u64);
    let mut feats: Vec<u32> = vec![];
    for i in 0..cases {
        let mut tape = vec![];
        // (the first cases may not have reached the library)
        if !known.is_empty() {
            let pick = |r: &mut Rng| -> usize {
                // the rarest of a few features
                (0..3).map(|_| known[r.below(known.len())] as usize).min_by_key(|x| freq[*x]).unwrap()
            };
            let how = r.below(6);
            if how > 0 {
                let o = pool[r.below(pool.len())].clone();
                tape = if how < 4 { owner[pick(&mut r)].clone() } else { pool[r.below(pool.len())].clone() };
                mutate(&mut r, &mut tape, &o);
            }
        }
        cnt.fill(0);
        let then = splitmix(&mut r.0);
        *CASE.lock().unwrap() = (tape.clone(), then);
        guard::at(0, i);
        let mut src = Src::guided(tape, then, dict);
        let mut case = Case::new(false);
        let res = run_case(f, &mut src, &mut case);
        // (nothing is lost from here on)
        guard::at(0, i);
        src.tape.truncate(src.used);
        steps += case.steps;
        nontrivial += case.nontrivial as u64;
        if let Err(m) = res {
            println!("guided-fail {} {}", i, src.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            println!("guided-message {}", m.replace('\n', " "));
            println!("guided-done {} {} {} {} {} {}", i + 1, nontrivial, steps, known.len(), paths.len(), cnt.len());
            return;
        }
        feats.clear();
        let mut h = 0xcbf29ce484222325u64;
        let words = unsafe { cnt.align_to::<u64>() };
        let mut at = |j: usize, n: u8| {
            let x = (j * 8 + bucket(n)) as u32;
            feats.push(x);
            h = (h ^ x as u64).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        };
        for (j, n) in words.0.iter().enumerate() {
            if *n > 0 {
                at(j, *n);
            }
        }
        let off = words.0.len();
        for (w, x) in words.1.iter().enumerate() {
            if *x != 0 {
                for (b, n) in x.to_le_bytes().iter().enumerate() {
                    if *n > 0 {
                        at(off + 8 * w + b, *n);
                    }
                }
            }
        }
        let off = off + 8 * words.1.len();
        for (j, n) in words.2.iter().enumerate() {
            if *n > 0 {
                at(off + j, *n);
            }
        }
        for x in &feats {
            let x = *x as usize;
            if freq[x] == 0 {
                known.push(x as u32);
            }
            if freq[x] == 0 || src.tape.len() < owner[x].len() {
                owner[x] = src.tape.clone();
            }
            freq[x] = freq[x].saturating_add(1);
        }
        if paths.len() < 1_000_000 && paths.insert(h) {
            if pool.len() < 4096 {
                pool.push(src.tape);
            } else {
                let j = r.below(4096);
                pool[j] = src.tape;
            }
        }
    }
    println!("guided-done {} {} {} {} {} {}", cases, nontrivial, steps, known.len(), paths.len(), cnt.len());
}
/// the case the worker is on: its tape, and the seed it goes on with past the end of it
static CASE: Mutex<(Vec<u64>, u64)> = Mutex::new((vec![], 0));

pub struct Guided {
    pub workers: u64,
    pub evals: u64,
    pub nontrivial: u64,
    pub features: u64,
    pub paths: u64,
    pub edges: u64,
    pub fail: Option<(u64, Vec<u64>, String)>,
    /// a case that did not come back: by a signal?, the tape, the seed past its end
    pub lost: Option<(bool, Vec<u64>, u64)>,
}
/// all workers; their results do not depend on how many run at a time
pub fn run(exe: &str, id: &str, seed: i64, cases: u64) -> Guided {
    let workers = 8u64;
    let kids: Vec<_> = (0..workers)
        .map(|k| {
            std::process::Command::new(exe)
                .arg(id)
                .arg("--guided")
                .arg(format!("{},{}", k, (cases / workers).max(1)))
                .env("VERIF_SEED", seed.to_string())
                .stdout(std::process::Stdio::piped())
                .spawn()
        })
        .collect();
    let mut g = Guided { workers, evals: 0, nontrivial: 0, features: 0, paths: 0, edges: 0, fail: None, lost: None };
    for (k, c) in kids.into_iter().enumerate() {
        let out = match c.and_then(|c| c.wait_with_output()) {
            Ok(o) => o,
            Err(e) => {
                eprintln!("guided worker: {}", e);
                std::process::exit(3);
            }
        };
        let t = String::from_utf8_lossy(&out.stdout).into_owned();
        let line = |p: &str| t.lines().find_map(|l| l.strip_prefix(p).map(|x| x.trim().to_string()));
        let done = match line("guided-done") {
            Some(d) => d,
            None => {
                eprintln!("guided worker {} ended with {}", k, out.status);
                std::process::exit(out.status.code().filter(|c| *c > 1).unwrap_or(3));
            }
        };
        let n: Vec<u64> = done.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        g.evals += n[0];
        g.nontrivial += n[1];
        g.features = g.features.max(n[3]);
        g.paths = g.paths.max(n[4]);
        g.edges = n[5];
        if let (Some(x), None) = (line("guided-lost"), &g.lost) {
            let v: Vec<u64> = x.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            g.lost = Some((v[0] == 1, v[2..].to_vec(), v[1]));
        }
        if let (Some(x), None) = (line("guided-fail"), &g.fail) {
            let v: Vec<u64> = x.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            g.fail = Some((v[0], v[1..].to_vec(), line("guided-message").unwrap_or_default()));
        }
    }
    g
}
