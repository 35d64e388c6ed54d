//! Runs a property: deterministic seeds, eight workers, counters, shrinking, evidence.

use crate::case::Case;
use crate::gen::{Small, SmallScope, Src};
use crate::known;
use crate::props::{self, Obs, Outcome, Prop};
use crate::run;
use crate::shrink;
use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
const STACK: usize = 768 << 20;
/// A single case of milliseconds that runs this long is a hang.
const HANG: Duration = Duration::from_secs(150);

pub enum Verdict {
    Pass,
    Skip(&'static str),
    Fail(String),
    /// the harness itself failed
    Broken(String),
}

pub fn evaluate(p: &Prop, c: &Case, o: &mut Obs) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| (p.check)(c, o))) {
        Ok(Outcome::Pass) => Verdict::Pass,
        Ok(Outcome::Skip(s)) => Verdict::Skip(s),
        Ok(Outcome::Fail(m)) => Verdict::Fail(m),
        Err(_) => Verdict::Broken(run::last_panic()),
    }
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ (x >> 31)
}

fn rng_seed(seed: u64, id: &str, worker: u64) -> [u8; 32] {
    let mut h = mix(seed);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ (worker << 32));
    let mut out = [0u8; 32];
    for k in 0..4 {
        out[8 * k..8 * k + 8].copy_from_slice(&mix(h ^ k as u64).to_le_bytes());
    }
    out
}

fn case_hash(c: &Case) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    c.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    skips: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    /// random non-trivial cases seen
    random_nontrivial: u64,
    ratio: (u64, u64, u64),
    /// cases of the exhaustive enumeration
    small: u64,
    small_nontrivial: u64,
}

struct Shared {
    stop: AtomicBool,
    /// no new cases after this
    until: Instant,
    running: Vec<Mutex<Option<(Instant, Case)>>>,
}

fn worker(p: &Prop, seed: u64, w: u64, cases: u32, thorough: bool, shared: &Shared, trace: Option<PathBuf>) -> (Stats, Option<(Case, String)>, Option<String>) {
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 1500,
        max_shrink_time: 60_000,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed(seed, p.id, w)));
    let stats = RefCell::new(Stats::default());
    let broken: RefCell<Option<String>> = RefCell::new(None);
    let failed = Cell::new(false);
    let run_case = |c: &Case, o: &mut Obs| -> Verdict {
        if let Some(t) = &trace {
            let _ = std::fs::write(t, c.to_text(p.id, "running when the process died"));
        }
        *shared.running[w as usize].lock().unwrap() = Some((Instant::now(), c.clone()));
        let v = evaluate(p, c, o);
        *shared.running[w as usize].lock().unwrap() = None;
        v
    };
    // every small case
    let (kind, quick, deep) = p.small;
    let [rhs, len] = if thorough { deep } else { quick };
    let scope = SmallScope::new(kind, rhs, len);
    let mut i = w;
    while i < scope.total() && !shared.stop.load(Ordering::Relaxed) && Instant::now() < shared.until && broken.borrow().is_none() {
        if let Some(c) = scope.case(i) {
            let mut o = Obs::default();
            let v = run_case(&c, &mut o);
            let mut s = stats.borrow_mut();
            s.small += 1;
            for k in &o.known {
                *s.known.entry(k).or_default() += 1;
            }
            match v {
                Verdict::Pass if o.nontrivial => {
                    s.small_nontrivial += 1;
                    s.nontrivial.insert(case_hash(&c));
                    if w == 0 && s.small_nontrivial == 200 {
                        s.samples.push(c.brief());
                    }
                }
                Verdict::Pass => {}
                Verdict::Skip(x) => *s.skips.entry(x).or_default() += 1,
                Verdict::Fail(m) => {
                    shared.stop.store(true, Ordering::Relaxed);
                    drop(s);
                    let r = shrink::shrink(c, m, &mut |c| match run_case(c, &mut Obs::default()) {
                        Verdict::Fail(m) => Some(m),
                        _ => None,
                    });
                    return (stats.into_inner(), Some(r), broken.into_inner());
                }
                Verdict::Broken(m) => {
                    *broken.borrow_mut() = Some(format!("{}\n{}", m, c.to_text(p.id, "")));
                }
            }
        }
        i += WORKERS;
    }
    let result = runner.run(&vec(any::<u32>(), 4..p.genes), |genes| {
        if !failed.get() && (shared.stop.load(Ordering::Relaxed) || Instant::now() >= shared.until || broken.borrow().is_some()) {
            return Ok(());
        }
        let c = (p.gen)(&mut Src::new(&genes));
        let mut o = Obs::default();
        let v = run_case(&c, &mut o);
        let mut s = stats.borrow_mut();
        if !failed.get() {
            s.evaluations += 1;
            for l in &o.labels {
                *s.labels.entry(l).or_default() += 1;
            }
            for k in &o.known {
                *s.known.entry(k).or_default() += 1;
            }
            if o.nontrivial && matches!(v, Verdict::Pass) && s.nontrivial.insert(case_hash(&c)) {
                s.random_nontrivial += 1;
                let n = s.random_nontrivial;
                if w == 0 && (n <= 2 || n == 50 || n == 500) || n == 10 + 100 * w {
                    s.samples.push(c.brief());
                }
            }
        }
        match v {
            Verdict::Pass => Ok(()),
            Verdict::Skip(x) => {
                if !failed.get() {
                    *s.skips.entry(x).or_default() += 1;
                }
                Ok(())
            }
            Verdict::Fail(m) => {
                if std::env::var_os("VP_DEBUG").is_some() {
                    eprintln!("failing: {} {}", m, c.brief());
                }
                failed.set(true);
                shared.stop.store(true, Ordering::Relaxed);
                Err(TestCaseError::fail(m))
            }
            Verdict::Broken(m) => {
                *broken.borrow_mut() = Some(format!("{}\n{}", m, c.to_text(p.id, "")));
                Ok(())
            }
        }
    });
    let failure = match result {
        Err(TestError::Fail(reason, genes)) => {
            let c = (p.gen)(&mut Src::new(&genes));
            let r = shrink::shrink(c, reason.to_string(), &mut |c| {
                match run_case(c, &mut Obs::default()) {
                    Verdict::Fail(m) => Some(m),
                    _ => None,
                }
            });
            Some(r)
        }
        Err(TestError::Abort(r)) => {
            *broken.borrow_mut() = Some(format!("proptest aborted: {}", r));
            None
        }
        Ok(()) => None,
    };
    let mut s = stats.into_inner();
    s.ratio = (props::RATIO.with(|x| x.get()), props::RATIO2.with(|x| x.get()), props::RATIO3.with(|x| x.get()));
    (s, failure, broken.into_inner())
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn obj(m: &BTreeMap<&'static str, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", esc(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn find(id: &str) -> Option<Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

fn write_replay(dir: &Path, id: &str, c: &Case, m: &str) -> PathBuf {
    let d = dir.join("replays");
    let _ = std::fs::create_dir_all(&d);
    let f = d.join(format!("{}-{:016x}.txt", id, case_hash(c)));
    let m: String = m.chars().take(3000).collect();
    let _ = std::fs::write(&f, c.to_text(id, &m));
    f
}

fn violation(id: &str, f: &Path, m: &str, c: Option<&Case>) {
    println!("VIOLATION property={} replay={}", id, f.display());
    let m: String = m.chars().take(2000).collect();
    println!("  {}", m);
    if let Some(c) = c {
        println!("  {}", c.brief());
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(dir: &Path, p: &Prop, tier: &str, seed: u64, s: &Stats, wall: f64, violations: u32, note: &[String]) {
    let samples: Vec<String> = s.samples.iter().take(16).map(|x| esc(x)).collect();
    let samples = if samples.is_empty() { esc("none") } else { samples.join(",\n      ") };
    let note: Vec<String> = note.iter().map(|x| esc(x)).collect();
    let [rhs, len] = if tier == "thorough" { p.small.2 } else { p.small.1 };
    let scope = match p.small.0 {
        Small::No => "none".to_string(),
        k => format!("all grammars of two non-terminals with up to two alternatives of up to {} symbols over two terminals, {:?}, inputs up to {} tokens", rhs, k, len),
    };
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"labels\": {},\n    \"skipped\": {},\n    \"known_findings_met\": {},\n    \"enumerated\": {{\"cases\": {}, \"non_trivial\": {}, \"scope\": {}}},\n    \"op_ratio_ppm\": [{}, {}, {}],\n    \"samples\": [\n      {}\n    ],\n    \"notes\": [{}]\n  }},\n  \"assumptions\": [\"symbols have lawful Eq/Hash/Clone\", \"left-recursive grammars are outside the domain of parsing\"],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        esc(p.id), esc(tier), seed, s.evaluations + s.small, s.nontrivial.len(), esc(p.rule), obj(&s.labels), obj(&s.skips),
        obj(&s.known), s.small, s.small_nontrivial, esc(&scope), s.ratio.0, s.ratio.1, s.ratio.2, samples, note.join(", "), wall, violations
    );
    let d = dir.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", p.id)), text).expect("evidence file");
}

/// The check proper, in the child process. Exit code.
pub fn child(dir: &Path, id: &str, seed: u64, tier: &str, trace: Option<PathBuf>) -> i32 {
    run::install_hook();
    let begun = Instant::now();
    let Some(p) = find(id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let findings = known::load(dir);
    let shared = Arc::new(Shared {
        stop: AtomicBool::new(false),
        until: begun + Duration::from_secs(if tier == "thorough" { 4 * 3600 } else { 400 }),
        running: (0..WORKERS).map(|_| Mutex::new(None)).collect(),
    });
    // known findings: replay their witnesses
    let mut notes = vec![];
    for f in findings.iter().filter(|f| f.property == id) {
        match std::fs::read_to_string(&f.replay).map_err(|e| e.to_string()).and_then(|t| Case::from_text(&t)) {
            Ok((_, c)) => {
                let mut o = Obs::default();
                let v = evaluate(&p, &c, &mut o);
                match v {
                    Verdict::Fail(m) => {
                        let r = write_replay(dir, id, &c, &m);
                        violation(id, &r, &m, Some(&c));
                        return 1;
                    }
                    Verdict::Broken(m) => {
                        eprintln!("harness error: {}", m);
                        return 2;
                    }
                    _ => {}
                }
                if o.known.iter().any(|k| *k == f.id) {
                    println!("KNOWN-FINDING: property={} {} [{}]", id, f.what, f.id);
                    notes.push(format!("known finding {} still present", f.id));
                } else {
                    notes.push(format!("known finding {} no longer shows on its witness", f.id));
                }
            }
            Err(e) => {
                eprintln!("known finding {}: {}", f.id, e);
                return 2;
            }
        }
    }
    let scale: f64 = std::env::var("VP_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let cases = ((if tier == "thorough" { p.thorough } else { p.quick }) as f64 * scale) as u32;
    let thorough = tier == "thorough";
    let mut handles = vec![];
    for w in 0..WORKERS {
        let shared = shared.clone();
        let id = id.to_string();
        let trace = trace.as_ref().map(|t| t.join(format!("w{}.txt", w)));
        handles.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || worker(&find(&id).unwrap(), seed, w, cases, thorough, &shared, trace))
                .expect("thread"),
        );
    }
    let debug = std::env::var_os("VP_DEBUG").is_some();
    // watchdog
    while handles.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for r in &shared.running {
            let hung = match &*r.lock().unwrap() {
                Some((t, c)) if t.elapsed() > HANG => Some(c.clone()),
                _ => None,
            };
            if debug {
                if let Some((t, c)) = &*r.lock().unwrap() {
                    if t.elapsed() > Duration::from_secs(3) {
                        eprintln!("slow: {:?} {}", t.elapsed(), c.brief());
                    }
                }
            }
            if let Some(c) = hung {
                let m = format!("no answer after {} s", HANG.as_secs());
                let f = write_replay(dir, id, &c, &m);
                violation(id, &f, &m, Some(&c));
                evidence(dir, &p, tier, seed, &Stats::default(), begun.elapsed().as_secs_f64(), 1, &[m]);
                std::process::exit(1);
            }
        }
    }
    let mut all = Stats::default();
    let mut failure: Option<(Case, String)> = None;
    let mut broken = vec![];
    for h in handles {
        match h.join() {
            Ok((s, f, b)) => {
                broken.extend(b);
                all.evaluations += s.evaluations;
                all.small += s.small;
                all.small_nontrivial += s.small_nontrivial;
                all.nontrivial.extend(s.nontrivial);
                for (a, b) in [(&mut all.labels, s.labels), (&mut all.skips, s.skips), (&mut all.known, s.known)] {
                    for (k, n) in b {
                        *a.entry(k).or_default() += n;
                    }
                }
                all.samples.extend(s.samples);
                all.ratio.0 = all.ratio.0.max(s.ratio.0);
                all.ratio.1 = all.ratio.1.max(s.ratio.1);
                all.ratio.2 = all.ratio.2.max(s.ratio.2);
                if let Some((c, m)) = f {
                    let size = |c: &Case| c.size() + c.inputs.iter().map(|i| i.len()).sum::<usize>();
                    if failure.as_ref().map(|(b, _)| size(&c) < size(b)).unwrap_or(true) {
                        failure = Some((c, m));
                    }
                }
            }
            Err(_) => broken.push("worker panicked".to_string()),
        }
    }
    for b in &broken {
        eprintln!("harness error: {}", b);
    }
    let wall = begun.elapsed().as_secs_f64();
    if shared.until <= Instant::now() {
        notes.push("ended by the time limit before all cases ran".to_string());
    }
    evidence(dir, &p, tier, seed, &all, wall, failure.is_some() as u32, &notes);
    if let Some((c, m)) = failure {
        let f = write_replay(dir, id, &c, &m);
        violation(id, &f, &m, Some(&c));
        return 1;
    }
    if !broken.is_empty() {
        return 2;
    }
    println!(
        "{} held on {} enumerated and {} random cases ({} distinct non-trivial, {} skipped) in {:.1} s",
        id,
        all.small,
        all.evaluations,
        all.nontrivial.len(),
        all.skips.values().sum::<u64>(),
        wall
    );
    0
}

/// One replay, in the child process.
pub fn replay_child(dir: &Path, file: &Path) -> i32 {
    run::install_hook();
    known::load(dir);
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file.display(), e);
            return 2;
        }
    };
    let (id, c) = match Case::from_text(&text) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{}: {}", file.display(), e);
            return 2;
        }
    };
    let file = file.to_path_buf();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let Some(p) = find(&id) else {
                eprintln!("unknown property {}", id);
                return 2;
            };
            // several times: hash seeds differ between containers
            for _ in 0..20 {
                let mut o = Obs::default();
                match evaluate(&p, &c, &mut o) {
                    Verdict::Pass => {
                        if let Some(k) = o.known.first() {
                            println!("KNOWN-FINDING: property={} [{}]", id, k);
                            return 0;
                        }
                    }
                    Verdict::Skip(s) => {
                        println!("{}: outside the domain: {}", id, s);
                        return 0;
                    }
                    Verdict::Fail(m) => {
                        violation(&id, &file, &m, Some(&c));
                        return 1;
                    }
                    Verdict::Broken(m) => {
                        eprintln!("harness error: {}", m);
                        return 2;
                    }
                }
            }
            println!("{} holds on this case", id);
            0
        })
        .expect("thread");
    h.join().unwrap_or(2)
}

enum End {
    Code(i32),
    Crash(i32),
    Other(String),
}

fn supervise(args: &[&str], quiet: bool, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let mut cmd = Command::new(exe);
    cmd.args(args);
    if quiet {
        cmd.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return End::Other(format!("cannot start: {}", e)),
    };
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                return match (st.code(), st.signal()) {
                    (Some(c), _) => End::Code(c),
                    (_, Some(s)) if [4, 6, 7, 8, 11].contains(&s) => End::Crash(s),
                    (_, s) => End::Other(format!("ended by signal {:?}", s)),
                }
            }
            Ok(None) => {
                if t.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return End::Other("time limit".into());
                }
                std::thread::sleep(Duration::from_millis(10));
            }
            Err(e) => return End::Other(e.to_string()),
        }
    }
}

pub fn check(dir: &Path, id: &str, seed: u64, tier: &str) -> i32 {
    let begun = Instant::now();
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 620 });
    let s = seed.to_string();
    let _ = std::fs::remove_file(dir.join("evidence").join(format!("{}.json", id)));
    match supervise(&["child", id, &s, tier], false, limit) {
        End::Code(c) => c,
        End::Other(m) => {
            eprintln!("check did not finish: {}", m);
            2
        }
        End::Crash(sig) => {
            // find the case: run again, noting each case before it runs
            let tmp = std::env::temp_dir().join(format!("vp-trace-{}", std::process::id()));
            let _ = std::fs::create_dir_all(&tmp);
            let tmps = tmp.display().to_string();
            let again = begun.elapsed() * 2 + Duration::from_secs(30);
            let _ = supervise(&["child", id, &s, tier, &tmps], true, again.min((limit + Duration::from_secs(60)).saturating_sub(begun.elapsed())));
            let mut code = 2;
            for w in 0..WORKERS {
                let f = tmp.join(format!("w{}.txt", w));
                let Ok(text) = std::fs::read_to_string(&f) else { continue };
                let fs = f.display().to_string();
                if let End::Crash(s2) = supervise(&["replay-child", &fs], true, Duration::from_secs(12)) {
                    let Ok((_, c)) = Case::from_text(&text) else { continue };
                    // minimise, one process per attempt
                    let probe = tmp.join("probe.txt");
                    let (c, m) = shrink::shrink(c, format!("the process is ended by signal {}", s2), &mut |c| {
                        let _ = std::fs::write(&probe, c.to_text(id, ""));
                        match supervise(&["replay-child", &probe.display().to_string()], true, Duration::from_secs(20)) {
                            End::Crash(s) => Some(format!("the process is ended by signal {}", s)),
                            _ => None,
                        }
                    });
                    let r = write_replay(dir, id, &c, &m);
                    violation(id, &r, &m, Some(&c));
                    if let Some(p) = find(id) {
                        evidence(dir, &p, tier, seed, &Stats::default(), begun.elapsed().as_secs_f64(), 1, &[m]);
                    }
                    code = 1;
                    break;
                }
            }
            let _ = std::fs::remove_dir_all(&tmp);
            if code == 2 {
                eprintln!("the check process was ended by signal {} and no single case reproduces it", sig);
            }
            code
        }
    }
}

pub fn replay(file: &Path) -> i32 {
    let f = file.display().to_string();
    match supervise(&["replay-child", &f], false, Duration::from_secs(600)) {
        End::Code(c) => c,
        End::Crash(s) => {
            let id = std::fs::read_to_string(file).ok().and_then(|t| Case::from_text(&t).ok()).map(|x| x.0).unwrap_or_default();
            violation(&id, file, &format!("the process is ended by signal {}", s), None);
            1
        }
        End::Other(m) => {
            eprintln!("replay did not finish: {}", m);
            2
        }
    }
}
