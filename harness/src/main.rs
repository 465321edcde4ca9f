//! `vp <ID> [--tier quick|thorough] [--replay FILE]`: decides one property by generated cases.
mod dd;
mod engine;
mod gens;
mod geom;
mod guard;
mod guided;
mod pairs;
mod props;
mod solids;
mod types;
use engine::*;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

/// one guided case per this many random ones
const GUIDED: u64 = 8;

fn repo_dir() -> PathBuf {
    PathBuf::from(std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into()))
}
/// numeric literals of the library sources (tests excluded): fed to the number generator, never to an oracle
fn dictionary() -> Vec<f64> {
    fn walk(d: &Path, out: &mut Vec<PathBuf>) {
        let mut es: Vec<PathBuf> = match std::fs::read_dir(d) {
            Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
            Err(_) => return,
        };
        es.sort();
        for p in es {
            if p.is_dir() {
                if p.file_name().map(|n| n != "test").unwrap_or(true) {
                    walk(&p, out);
                }
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                out.push(p);
            }
        }
    }
    let mut files = vec![];
    walk(&repo_dir().join("lib"), &mut files);
    let mut set: BTreeSet<u64> = BTreeSet::new();
    for f in files {
        let t = std::fs::read_to_string(&f).unwrap_or_default();
        for line in t.lines() {
            let line = line.split("//").next().unwrap_or("");
            let b = line.as_bytes();
            let mut i = 0;
            while i < b.len() {
                let prev = if i > 0 { b[i - 1] } else { b' ' };
                if b[i].is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == b'_' || prev == b'.') {
                    let s = i;
                    while i < b.len()
                        && (b[i].is_ascii_digit()
                            || b[i] == b'_'
                            || (b[i] == b'.' && !(i + 1 < b.len() && b[i + 1] == b'.') && !line[s..i].contains('.'))
                            || ((b[i] == b'e' || b[i] == b'E') && i + 1 < b.len() && (b[i + 1].is_ascii_digit() || b[i + 1] == b'-' || b[i + 1] == b'+'))
                            || ((b[i] == b'-' || b[i] == b'+') && (b[i - 1] == b'e' || b[i - 1] == b'E')))
                    {
                        i += 1;
                    }
                    let tok: String = line[s..i].chars().filter(|c| *c != '_').collect();
                    if let Ok(x) = tok.trim_end_matches('.').parse::<f64>() {
                        let small = x.fract() == 0.0 && x <= 8.0;
                        if x.is_finite() && x >= 1e-15 && x <= 1e15 && !small {
                            set.insert(x.to_bits());
                        }
                    }
                } else {
                    i += 1;
                }
            }
        }
    }
    let mut v: Vec<f64> = set.into_iter().map(f64::from_bits).collect();
    v.push(std::f64::consts::PI);
    v
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn describe(f: PropFn, tape: &[u64], repeat: u64, dict: &'static [f64]) -> (Case, Res) {
    let go = || {
        for _ in 1..repeat {
            let mut case = Case::new(true);
            let r = run_case(f, &mut Src::replay(tape.to_vec(), dict), &mut case);
            if r.is_err() {
                return (case, r);
            }
        }
        let mut src = Src::replay(tape.to_vec(), dict);
        let mut case = Case::new(true);
        let r = run_case(f, &mut src, &mut case);
        (case, r)
    };
    std::thread::scope(|s| s.spawn(go).join().expect("HARNESS"))
}
/// exit code and output of a replay in a process of its own; no code: it was ended after `secs`
fn replay_alone(id: &str, path: &Path, secs: u64) -> Option<(Option<i32>, String)> {
    let mut c = std::process::Command::new(std::env::current_exe().ok()?)
        .arg(id)
        .arg("--replay")
        .arg(path)
        .env("VP_LIMIT", "2")
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let mut out = c.stdout.take()?;
    let read = std::thread::spawn(move || {
        let mut t = String::new();
        let _ = std::io::Read::read_to_string(&mut out, &mut t);
        t
    });
    let t0 = std::time::Instant::now();
    loop {
        match c.try_wait().ok()? {
            Some(s) => return Some((s.code(), read.join().unwrap_or_default())),
            None if t0.elapsed().as_secs() >= secs => {
                let _ = c.kill();
                let _ = c.wait();
                return Some((None, String::new()));
            }
            None => std::thread::sleep(std::time::Duration::from_millis(1)),
        }
    }
}
/// A case that did not come back (see guard.rs): shrunk by replays in processes of their own.
#[allow(clippy::too_many_arguments)]
fn lost_case(id: &str, seed: i64, tier: &str, verif: &Path, dict: &[f64], tape: &[u64], then: u64, idx: u64, crashed: bool) {
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.txt", id, seed));
    let tmp = dir.join(format!("{}-{}.tmp", id, seed));
    let mut what = guard::what(crashed);
    let write = |path: &Path, t: &[u64], then: u64, what: &str| {
        let mut o = String::new();
        let _ = writeln!(o, "property: {}\nfailure: {}\nfound: seed {} case {}", id, what, seed, idx);
        let _ = writeln!(o, "tape: {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        let _ = writeln!(o, "then: {}", then);
        let _ = writeln!(o, "dict: {}", dict.iter().map(|x| format!("{:x}", x.to_bits())).collect::<Vec<_>>().join(" "));
        let _ = writeln!(o, "rerun: ./check.sh {} --replay {}", id, path.display());
        if let Err(e) = std::fs::write(path, o) {
            eprintln!("cannot write {}: {}", path.display(), e);
        }
    };
    write(&path, tape, then, &what);
    // the choices it made, then fewer and smaller ones (the simplest past the end: then 0 of a random
    // source is not the simplest choice, so the tape is kept whole)
    let again = |t: &[u64], then: u64| -> Option<(Vec<u64>, String)> {
        write(&tmp, t, then, "");
        let (code, out) = replay_alone(id, &tmp, 20)?;
        if code != Some(1) {
            return None;
        }
        let v = out.lines().find_map(|l| l.strip_prefix("live-tape: "))?.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let m = out.lines().find(|l| l.starts_with("the call did not return"))?.to_string();
        Some((v, m))
    };
    if let Some((t, m)) = again(tape, then) {
        let (t, m, _) = shrink(|t| again(t, 0), t, m, 400, 90);
        what = m;
        write(&path, &t, 0, &what);
    } else {
        what += "; alone it does return: earlier cases had left something in the library (rerun the check with this seed)";
        write(&path, tape, then, &what);
    }
    let _ = std::fs::remove_file(&tmp);
    let evals: u64 = guard::SLOT.iter().map(|s| s.count.load(std::sync::atomic::Ordering::SeqCst)).sum();
    let e = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": 0, \"rule\": \"ended by a case that did not return\", \"samples\": []}},\n \"assumptions\": [],\n \"wall_s\": 0,\n \"violations\": 1\n}}\n",
        esc(id),
        esc(tier),
        seed,
        evals
    );
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    let _ = std::fs::write(verif.join("evidence").join(format!("{}.json", id)), e);
    println!("  {}", what);
    println!("VIOLATION property={} replay={}", id, path.display());
    std::process::exit(1);
}
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let props = props::all();
    if args.iter().any(|a| a == "--list") {
        for p in &props {
            println!("{} {}", p.id, p.quick);
        }
        return;
    }
    let id = match args.first() {
        Some(x) => x.clone(),
        None => {
            eprintln!("usage: vp <ID> [--tier quick|thorough] [--replay FILE] | --list");
            std::process::exit(2);
        }
    };
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    };
    let verif = PathBuf::from(std::env::var("VP_DIR").unwrap_or_else(|_| ".".into()));
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let dict: &'static [f64] = Box::leak(dictionary().into_boxed_slice());
    install_hook();
    guard::install();
    guard::memory(if args.iter().any(|a| a == "--guided" || a == "--replay") { 3 } else { 16 });

    if let Some(file) = opt("--replay") {
        let t = std::fs::read_to_string(&file).unwrap_or_else(|e| {
            eprintln!("cannot read {}: {}", file, e);
            std::process::exit(2)
        });
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()));
        let tape: Vec<u64> = get("tape:").unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
        // the dictionary the case was made with
        let d: Vec<f64> = get("dict:").unwrap_or_default().split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).map(f64::from_bits).collect();
        let d: &'static [f64] = if d.is_empty() { dict } else { Box::leak(d.into_boxed_slice()) };
        // as often as it takes where the library keeps count of its calls
        let n: u64 = get("repeat:").and_then(|x| x.parse().ok()).unwrap_or(1);
        if let Some(then) = get("then:").and_then(|x| x.parse::<u64>().ok()) {
            // a case that did not come back: its choices so far, if it does not again
            let f = p.f;
            let tape = tape.clone();
            std::thread::spawn(move || {
                guard::enter(0);
                guard::at(0, 0);
                let mut case = Case::new(true);
                let r = run_case(f, &mut Src::guided(tape, then, d).live(), &mut case);
                guard::leave(0);
                for (k, v) in &case.desc {
                    println!("{} = {}", k, v);
                }
                match r {
                    Ok(()) => println!("held"),
                    Err(m) => println!("{}", m),
                }
                std::process::exit(0);
            });
            guard::watch(
                || false,
                |_, crashed| {
                    println!("live-tape: {}", LIVE.lock().unwrap().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                    println!("{}", guard::what(crashed));
                    println!("VIOLATION property={} replay={}", id, file);
                    std::process::exit(1);
                },
            );
        }
        let (case, r) = describe(p.f, &tape, n, d);
        for (k, v) in &case.desc {
            println!("{} = {}", k, v);
        }
        match r {
            Ok(()) => println!("held"),
            Err(m) => {
                println!("{}", m);
                println!("VIOLATION property={} replay={}", id, file);
                std::process::exit(1);
            }
        }
        return;
    }

    if let Some(a) = opt("--guided") {
        let v: Vec<u64> = a.split(',').filter_map(|x| x.parse().ok()).collect();
        guided::worker(p.id, p.f, seed as u64, v[0], v[1], dict);
        return;
    }

    let scale = std::env::var("VP_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let factor = if tier == "thorough" { 30.0 } else { 1.0 };
    let cases = (((p.quick as f64) * scale * factor) as u64).max(1);
    let t0 = std::time::Instant::now();
    let only = std::env::var("VP_NORANDOM").is_ok();
    let lost = |idx: u64, crashed: bool| lost_case(p.id, seed, tier, &verif, dict, &[], case_seed(seed as u64, p.id, idx), idx, crashed);
    let mut st = run(p.id, p.f, if only { 1 } else { cases }, seed as u64, dict, lost);
    // then guided by the edges the library takes
    let mut guide = None;
    if let (Ok(exe), None) = (std::env::var("VP_COV"), &st.fail) {
        let mut g = guided::run(&exe, p.id, seed, cases / GUIDED);
        st.fail = g.fail.take();
        if let (Some((crashed, tape, then)), None) = (&g.lost, &st.fail) {
            lost_case(p.id, seed, tier, &verif, dict, tape, *then, st.evals, *crashed);
        }
        guide = Some(g);
    }
    // samples: the first non-trivial cases of different classes
    let mut samples: Vec<String> = vec![];
    let mut seen: Vec<Vec<&'static str>> = vec![];
    for pass in 0..2 {
        for idx in 0..st.evals.min(3000) {
            if samples.len() >= 6 {
                break;
            }
            let mut src = Src::random(case_seed(seed as u64, p.id, idx), vec![], dict);
            let mut case = Case::new(true);
            if run_case(p.f, &mut src, &mut case).is_err() {
                continue;
            }
            if !(case.nontrivial || pass == 1) || seen.contains(&case.classes) {
                continue;
            }
            seen.push(case.classes.clone());
            let mut o = String::from("{\"case\": ");
            let _ = write!(o, "{}, \"classes\": [{}]", idx, case.classes.iter().map(|c| esc(c)).collect::<Vec<_>>().join(", "));
            for (k, v) in case.desc.iter().take(24) {
                let v: String = v.chars().take(400).collect();
                let _ = write!(o, ", {}: {}", esc(k), esc(&v));
            }
            o.push('}');
            samples.push(o);
        }
        if !samples.is_empty() {
            break;
        }
    }
    let mut viol = 0;
    let mut replay = String::new();
    if let Some((idx, tape, msg)) = &st.fail {
        viol = 1;
        let dir = verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.txt", p.id, seed));
        let write = |path: &Path, t: &[u64], repeat: u64, m: &str, n: u64, case: &Case, note: &str| {
            let mut o = String::new();
            let _ = writeln!(o, "property: {}", p.id);
            let _ = writeln!(o, "failure: {}", m.replace('\n', " "));
            let _ = writeln!(o, "found: seed {} case {} ({}), shrunk in {} evaluations", seed, idx, msg.replace('\n', " "), n);
            if !note.is_empty() {
                let _ = writeln!(o, "note: {}", note);
            }
            for (k, v) in &case.desc {
                let _ = writeln!(o, "  {} = {}", k, v);
            }
            let _ = writeln!(o, "tape: {}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            if repeat > 1 {
                let _ = writeln!(o, "repeat: {}", repeat);
            }
            let _ = writeln!(o, "dict: {}", dict.iter().map(|x| format!("{:x}", x.to_bits())).collect::<Vec<_>>().join(" "));
            let _ = writeln!(o, "rerun: ./check.sh {} --replay {}", p.id, path.display());
            if let Err(e) = std::fs::write(path, o) {
                eprintln!("cannot write {}: {}", path.display(), e);
            }
        };
        // a replay in a process of its own, where no earlier case has left anything behind
        let alone = |path: &Path| -> bool { replay_alone(&id, path, 20).map(|r| r.0 == Some(1)).unwrap_or(true) };
        let (mut t, mut m, mut n) = shrink(|t| fails(p.f, t, dict), tape.clone(), msg.clone(), 30000, 40);
        let (mut case, _) = describe(p.f, &t, 1, dict);
        write(&path, &t, 1, &m, n, &case, "");
        if !alone(&path) {
            // shrunk too far: earlier cases had left something in the library. Again, each attempt alone
            let tmp = dir.join(format!("{}-{}.tmp", p.id, seed));
            let try_alone = |t: &[u64], repeat: u64| -> Option<(Vec<u64>, String)> {
                write(&tmp, t, repeat, &msg, 0, &Case::new(false), "");
                if alone(&tmp) {
                    Some((t.to_vec(), msg.clone()))
                } else {
                    None
                }
            };
            let mut note = "decided by replays in processes of their own: the library keeps state between calls";
            // the case alone, or repeated often enough
            let repeat = [1, 100, 10_000, 1_000_000].iter().cloned().find(|k| try_alone(tape, *k).is_some());
            if let Some(k) = repeat {
                let r = shrink(&|t: &[u64]| try_alone(t, k), tape.clone(), msg.clone(), if k > 10_000 { 30 } else { 3000 }, 60);
                t = r.0;
                n += r.2;
            } else {
                t = tape.clone();
                note = "the case alone does not fail again; the failure depends on earlier cases of the run (rerun the check with this seed)";
            }
            let d = describe(p.f, &t, 1, dict);
            case = d.0;
            m = d.1.err().unwrap_or_else(|| msg.clone());
            write(&path, &t, repeat.unwrap_or(1), &m, n, &case, note);
            let _ = std::fs::remove_file(&tmp);
        }
        for (k, v) in &case.desc {
            println!("  {} = {}", k, v);
        }
        println!("  {}", m);
        replay = path.display().to_string();
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut e = String::from("{\n");
    let _ = writeln!(e, " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",", esc(p.id), esc(tier), seed);
    let _ = writeln!(e, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},", st.evals, st.hashes.len(), esc(p.rule));
    let _ = writeln!(e, "  \"nontrivial_with_repeats\": {},\n  \"distinct_counted_among\": {},", st.nontrivial, st.counted);
    if st.steps > 0 {
        let _ = writeln!(e, "  \"steps_inside_cases\": {},", st.steps);
    }
    let _ = writeln!(e, "  \"classes\": {{{}}},", st.classes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    if let Some(g) = &guide {
        let _ = writeln!(e, "  \"coverage_guided\": {{\"evaluations\": {}, \"nontrivial_with_repeats\": {}, \"workers\": {}, \"edge_counts_seen\": {}, \"paths_seen\": {}, \"edges_in_library\": {}}},", g.evals, g.nontrivial, g.workers, g.features, g.paths, g.edges);
    }
    let _ = writeln!(e, "  \"dictionary_size\": {},", dict.len());
    let _ = writeln!(e, "  \"samples\": [\n   {}\n  ]\n }},", samples.join(",\n   "));
    let _ = writeln!(e, " \"assumptions\": [\"double-double reference arithmetic and the rounding allowances in the harness\", \"inputs within the domains stated in DESIGN.md\"],");
    let _ = writeln!(e, " \"wall_s\": {:.3},\n \"violations\": {}\n}}", wall, viol);
    let dir = verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(dir.join(format!("{}.json", p.id)), e) {
        eprintln!("cannot write evidence: {}", x);
        std::process::exit(3);
    }
    let more = guide.map_or(String::new(), |g| format!(", {} guided by coverage ({} paths)", g.evals, g.paths));
    println!("{}: {} cases, {} distinct non-trivial{}, {:.1} s", p.id, st.evals, st.hashes.len(), more, wall);
    if viol > 0 {
        println!("VIOLATION property={} replay={}", p.id, replay);
        std::process::exit(1);
    }
}
