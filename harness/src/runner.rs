//! Drives suites: a parent process spreads the cases of every suite over worker processes, collects
//! what they covered, shrinks failures to a replay file and writes the evidence file.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::tape::{hash_bytes, Tape};

// ---------------------------------------------------------------------------------------------
// Work metering: a deterministic bound on the work of one case (number of allocations).

pub struct Meter;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const EXIT_WORK_BOUND: i32 = 77;

extern "C" {
    fn _exit(code: i32) -> !;
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

#[inline]
fn count() {
    let _ = ALLOCS.try_with(|a| {
        let n = a.get() + 1;
        a.set(n);
        if n > LIMIT.try_with(|l| l.get()).unwrap_or(u64::MAX) {
            unsafe { _exit(EXIT_WORK_BOUND) }
        }
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        count();
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        System.dealloc(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        count();
        System.realloc(ptr, layout, new_size)
    }
}

/// Runs `f` with at most `limit` allocations; beyond that the process ends with EXIT_WORK_BOUND,
/// which the parent reports as a failure of the case that was running.
pub fn bounded<R>(limit: u64, f: impl FnOnce() -> R) -> R {
    ALLOCS.with(|a| a.set(0));
    LIMIT.with(|l| l.set(limit));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LIMIT.with(|l| l.set(u64::MAX));
    match r {
        Ok(r) => r,
        Err(p) => std::panic::resume_unwind(p),
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Runs code under test, turning a panic into its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        LIMIT.with(|l| l.set(u64::MAX));
        LAST_PANIC.with(|m| m.borrow().clone())
    })
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|m| *m.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

// ---------------------------------------------------------------------------------------------

pub enum Res {
    /// Held; the flag says whether the case was non-trivial by the suite's rule.
    Ok(bool),
    Discard,
    Fail(String),
}

#[derive(Default)]
pub struct Cx {
    /// The case, written out.
    pub text: String,
    pub index: usize,
    pub thorough: bool,
    pub labels: BTreeMap<String, u64>,
    /// What the replay is checking.
    pub verbose: bool,
    /// Whether the operand stack is judged as well as what a program does.
    pub strict: bool,
}

impl Cx {
    pub fn label(&mut self, l: &str) {
        if let Some(n) = self.labels.get_mut(l) {
            *n += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
}

pub type CaseFn = fn(&mut Tape, &mut Cx) -> Res;

pub struct Suite {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: CaseFn,
    pub rule: &'static str,
}

pub struct Check {
    pub id: &'static str,
    pub suites: Vec<Suite>,
    pub assumptions: Vec<&'static str>,
    /// Known-finding probes: signature and a function that says whether the finding still shows.
    pub probes: Vec<(&'static str, fn() -> bool)>,
}

const WORKERS: usize = 8;
/// Cases that are spread over one round of workers: programs with cyclic values leave memory behind, so workers are
/// replaced from time to time.
const ROUND: usize = 100_000;
const STACK: usize = 512 << 20;
/// A case that runs for this long is given up on.
const CASE_LIMIT_S: u64 = 300;
/// A case that takes this much of processor time (ordinary ones take milliseconds) does not end.
const CASE_CPU_S: f64 = 50.0;
const PROBE_CPU_S: u64 = 40;

/// The processor time a process has used, in seconds.
fn cpu_time(pid: u32) -> f64 {
    let Ok(s) = fs::read_to_string(format!("/proc/{}/stat", pid)) else {
        return 0.0;
    };
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let ticks = |k: usize| f.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (ticks(11) + ticks(12)) / 100.0
}

fn case_seed(seed: u64, id: &str, suite: &str, index: usize) -> u64 {
    hash_bytes(format!("{}/{}/{}/{}", seed, id, suite, index).as_bytes())
}

/// Runs one case; any panic that the suite did not handle itself is a failure of the case.
fn run_case(suite: &Suite, tape: &mut Tape, cx: &mut Cx) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (suite.f)(tape, cx)));
    LIMIT.with(|l| l.set(u64::MAX));
    match r {
        Ok(r) => r,
        Err(_) => Res::Fail(format!("panic: {}", LAST_PANIC.with(|m| m.borrow().clone()))),
    }
}

fn on_big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(70))
}

fn class_of(msg: &str) -> &str {
    msg.split(|c| c == ':' || c == '\n').next().unwrap_or("")
}

// ---- escaping for the line protocol
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some('r') => out.push('\r'),
                Some(o) => out.push(o),
                None => {}
            }
        } else {
            out.push(c)
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Worker

/// `vh worker ID TIER SEED SUITE W START OUT`: runs the cases of suite number SUITE whose index is
/// W modulo WORKERS, from START on.
pub fn worker(checks: Vec<Check>, args: &[String]) -> i32 {
    let id = args[0].clone();
    let thorough = args[1] == "thorough";
    let seed: u64 = args[2].parse().unwrap();
    let si: usize = args[3].parse().unwrap();
    let w: usize = args[4].parse().unwrap();
    let start: usize = args[5].parse().unwrap();
    let out = PathBuf::from(&args[6]);
    unsafe {
        setrlimit(9, &[3 << 30, 3 << 30]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
    on_big_stack(move || {
        let check = checks.into_iter().find(|c| c.id == id).unwrap();
        let suite = &check.suites[si];
        let total = scaled(suite, thorough).min(start + ROUND);
        let mut status = fs::File::create(out.with_extension("status")).unwrap();
        let mut evaluations = 0u64;
        let mut discards = 0u64;
        let mut nontrivial = 0u64;
        let mut seen: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples: Vec<String> = Vec::new();
        let mut failure: Option<(usize, Vec<u32>, String, String)> = None;
        let mut i = start;
        while i < total {
            if i % WORKERS != w {
                i += 1;
                continue;
            }
            {
                use std::os::unix::fs::FileExt;
                let _ = status.write_all_at(&(i as u64).to_le_bytes(), 0);
                let _ = &mut status;
            }
            let mut tape = Tape::random(case_seed(seed, &id, suite.name, i));
            let mut cx = Cx {
                index: i,
                thorough,
                ..Cx::default()
            };
            let res = run_case(suite, &mut tape, &mut cx);
            evaluations += 1;
            for (k, v) in cx.labels {
                *labels.entry(k).or_insert(0) += v;
            }
            match res {
                Res::Ok(nt) => {
                    if nt {
                        nontrivial += 1;
                        if seen.insert(hash_bytes(cx.text.as_bytes())) && samples.len() < 2 && nontrivial > 3 {
                            samples.push(cx.text.chars().take(700).collect());
                        }
                    }
                }
                Res::Discard => discards += 1,
                Res::Fail(msg) => {
                    // Kept in case a shrinking step kills the process.
                    let d: Vec<String> = tape.data.iter().map(|d| d.to_string()).collect();
                    let first = format!(
                        "counts\t{}\t{}\t{}\nfail\t{}\t{}\t{}\t{}\n",
                        evaluations, discards, nontrivial, i, d.join(","), esc(&msg), esc(&cx.text)
                    );
                    fs::write(&out, first).unwrap();
                    let (data, msg, text) = shrink(suite, i, thorough, tape.data.clone(), msg, cx.text);
                    failure = Some((i, data, msg, text));
                    break;
                }
            }
            i += 1;
        }
        let mut o = String::new();
        o.push_str(&format!("counts\t{}\t{}\t{}\n", evaluations, discards, nontrivial));
        for (k, v) in labels {
            o.push_str(&format!("label\t{}\t{}\n", esc(&k), v));
        }
        for s in samples {
            o.push_str(&format!("sample\t{}\n", esc(&s)));
        }
        if let Some((i, data, msg, text)) = failure {
            let data: Vec<String> = data.iter().map(|d| d.to_string()).collect();
            o.push_str(&format!("fail\t{}\t{}\t{}\t{}\n", i, data.join(","), esc(&msg), esc(&text)));
        }
        fs::write(&out, o).unwrap();
        let mut h = Vec::with_capacity(seen.len() * 8);
        for s in seen {
            h.extend_from_slice(&s.to_le_bytes());
        }
        fs::write(out.with_extension("hashes"), h).unwrap();
        0
    })
}

fn scaled(suite: &Suite, thorough: bool) -> usize {
    if thorough {
        suite.thorough
    } else {
        suite.quick
    }
}

/// Edits the tape towards simpler cases as long as `probe` still fails.
fn shrink_tape(data: Vec<u32>, max_runs: usize, mut probe: impl FnMut(&[u32]) -> Option<usize>) -> Vec<u32> {
    let mut best = data;
    let mut runs = 0;
    let start = Instant::now();
    let mut improved = true;
    while improved && runs < max_runs {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if runs >= max_runs || start.elapsed() > Duration::from_secs(60) {
                    return best;
                }
                if size <= best.len() && i + size <= best.len() {
                    let mut cand = best.clone();
                    cand.drain(i..i + size);
                    runs += 1;
                    if let Some(used) = probe(&cand) {
                        cand.truncate(used);
                        best = cand;
                        improved = true;
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1)).min(best.len());
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut tries = vec![0, best[i] / 2, best[i] - 1];
                tries.dedup();
                for v in tries {
                    if v >= best[i] {
                        continue;
                    }
                    if runs >= max_runs || start.elapsed() > Duration::from_secs(60) {
                        return best;
                    }
                    let mut cand = best.clone();
                    cand[i] = v;
                    runs += 1;
                    if let Some(used) = probe(&cand) {
                        cand.truncate(used);
                        best = cand;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}

fn shrink(
    suite: &Suite,
    index: usize,
    thorough: bool,
    data: Vec<u32>,
    msg: String,
    text: String,
) -> (Vec<u32>, String, String) {
    let class = class_of(&msg).to_string();
    let run = |d: &[u32]| {
        let mut tape = Tape::replay(d.to_vec());
        let mut cx = Cx {
            index,
            thorough,
            ..Cx::default()
        };
        match run_case(suite, &mut tape, &mut cx) {
            Res::Fail(m) if class_of(&m) == class => Some((tape.used(), m, cx.text)),
            _ => None,
        }
    };
    if run(&data).is_none() {
        return (data, format!("{} (NOT REPRODUCED on replay)", msg), text);
    }
    let best = shrink_tape(data, 4000, |d| run(d).map(|r| r.0));
    match run(&best) {
        Some((_, m, t)) => (best, m, t),
        None => (best, msg, text),
    }
}

// ---------------------------------------------------------------------------------------------
// Parent

struct Done {
    evaluations: u64,
    discards: u64,
    nontrivial: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    fail: Option<(usize, Vec<u32>, String, String)>,
}

pub fn root() -> PathBuf {
    std::env::var_os("VH_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn check(checks: Vec<Check>, id: &str, tier: &str) -> i32 {
    let started = Instant::now();
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let Some(check) = checks.into_iter().find(|c| c.id == id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();

    let known = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    for (sig, probe) in &check.probes {
        let listed = known.lines().any(|l| l.starts_with(&format!("known: property={} sig={} ", id, sig)));
        let shows = probe();
        if shows && listed {
            println!("KNOWN-FINDING: property={} {}", id, sig);
        } else if shows {
            let replay = write_replay(id, "probe", 0, seed, thorough, &[], &format!("unlisted finding {}", sig), "");
            println!("VIOLATION property={} replay={}", id, replay.display());
            let _ = fs::remove_dir_all(&dir);
            return 1;
        }
    }

    let mut total = Done {
        evaluations: 0,
        discards: 0,
        nontrivial: 0,
        labels: BTreeMap::new(),
        samples: vec![],
        fail: None,
    };
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut failures: Vec<(String, usize, Vec<u32>, String, String)> = Vec::new();
    let mut per_suite: Vec<String> = Vec::new();
    let mut trouble: Option<String> = None;

    // One queue of (suite, worker) jobs.
    let mut queue: Vec<(usize, usize, usize)> = Vec::new();
    for (si, suite) in check.suites.iter().enumerate() {
        for start in (0..scaled(suite, thorough)).step_by(ROUND) {
            for w in 0..WORKERS {
                if scaled(suite, thorough) > start + w {
                    queue.push((si, w, start));
                }
            }
        }
    }
    queue.reverse();
    struct Running {
        job: (usize, usize, usize),
        child: std::process::Child,
        out: PathBuf,
        last: (u64, Instant, f64),
    }
    let exe = std::env::current_exe().unwrap();
    let mut running: Vec<Running> = Vec::new();
    let mut suite_counts: BTreeMap<usize, (u64, u64, u64)> = BTreeMap::new();
    let mut failed_suites: HashSet<usize> = HashSet::new();
    let mut suite_samples: BTreeMap<usize, usize> = BTreeMap::new();
    while !queue.is_empty() || !running.is_empty() {
        while running.len() < WORKERS && !queue.is_empty() {
            let job = queue.pop().unwrap();
            if failed_suites.contains(&job.0) {
                continue;
            }
            let out = dir.join(format!("{}-{}-{}", job.0, job.1, job.2));
            let child = Command::new(&exe)
                .arg("worker")
                .arg(id)
                .arg(tier)
                .arg(seed.to_string())
                .arg(job.0.to_string())
                .arg(job.1.to_string())
                .arg(job.2.to_string())
                .arg(&out)
                .env("NO_COLOR", "1")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            running.push(Running {
                job,
                child,
                out,
                last: (u64::MAX, Instant::now(), 0.0),
            });
        }
        let mut k = 0;
        let mut any = false;
        while k < running.len() {
            let r = &mut running[k];
            match r.child.try_wait().unwrap() {
                None => {
                    let cur = read_status(&r.out);
                    if cur != r.last.0 {
                        r.last = (cur, Instant::now(), cpu_time(r.child.id()));
                    } else if r.last.1.elapsed() > Duration::from_secs(CASE_CPU_S as u64)
                        && cpu_time(r.child.id()) - r.last.2 > CASE_CPU_S
                    {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        let si = r.job.0;
                        let suite = &check.suites[si];
                        failed_suites.insert(si);
                        running.remove(k);
                        any = true;
                        let (data, text, reproduced) =
                            shrink_crash(&exe, &dir, id, si, cur as usize, seed, thorough, Some(PROBE_CPU_S));
                        if reproduced {
                            let what = format!("no end: the case takes more than {} s of processor time", PROBE_CPU_S);
                            failures.push((suite.name.to_string(), cur as usize, data, what, text));
                            // Other suites are likely to run into it as well: this is enough.
                            queue.clear();
                            for r in running.iter_mut() {
                                let _ = r.child.kill();
                                let _ = r.child.wait();
                            }
                            running.clear();
                        } else {
                            trouble = Some(format!("suite {} case {} takes very long", suite.name, cur));
                        }
                        continue;
                    } else if r.last.1.elapsed() > Duration::from_secs(CASE_LIMIT_S) {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        let suite = &check.suites[r.job.0];
                        trouble = Some(format!("suite {} case {} did not finish", suite.name, cur));
                        failed_suites.insert(r.job.0);
                        running.remove(k);
                        any = true;
                        continue;
                    }
                    k += 1;
                }
                Some(st) => {
                    any = true;
                    let r = running.remove(k);
                    let suite = &check.suites[r.job.0];
                    if r.out.exists() {
                        let d = parse_out(&r.out);
                        total.evaluations += d.evaluations;
                        total.discards += d.discards;
                        total.nontrivial += d.nontrivial;
                        let e = suite_counts.entry(r.job.0).or_insert((0, 0, 0));
                        e.0 += d.evaluations;
                        e.1 += d.discards;
                        e.2 += d.nontrivial;
                        for (k, v) in d.labels {
                            *total.labels.entry(format!("{}:{}", suite.name, k)).or_insert(0) += v;
                        }
                        for s in d.samples {
                            let n = suite_samples.entry(r.job.0).or_insert(0);
                            if *n < 2 {
                                *n += 1;
                                total.samples.push(format!("[{}] {}", suite.name, s));
                            }
                        }
                        if let Ok(h) = fs::read(r.out.with_extension("hashes")) {
                            for c in h.chunks_exact(8) {
                                distinct.insert(
                                    u64::from_le_bytes(c.try_into().unwrap())
                                        ^ hash_bytes(suite.name.as_bytes()),
                                );
                            }
                        }
                        if let Some((i, data, msg, text)) = d.fail {
                            failed_suites.insert(r.job.0);
                            failures.push((suite.name.to_string(), i, data, msg, text));
                            if std::env::var_os("VH_FIRST").is_some() {
                                // For rechecking planted bugs: one failure is enough.
                                queue.clear();
                                for r in running.iter_mut() {
                                    let _ = r.child.kill();
                                    let _ = r.child.wait();
                                }
                                running.clear();
                                break;
                            }
                        }
                    } else {
                        // The worker died: a crash or the work bound of the case it was running.
                        let cur = read_status(&r.out);
                        let sig = st.signal();
                        let bound = st.code() == Some(EXIT_WORK_BOUND);
                        if cur == u64::MAX || (sig.is_none() && !bound) || sig == Some(9) {
                            trouble = Some(format!(
                                "worker of suite {} ended with {:?} at case {}",
                                suite.name, st, cur
                            ));
                            failed_suites.insert(r.job.0);
                        } else {
                            let what = if bound {
                                "work bound: the case did not end within its bound on the number of allocations"
                                    .to_string()
                            } else {
                                format!("crash: the process ended with signal {}", sig.unwrap())
                            };
                            let (data, text, reproduced) =
                                shrink_crash(&exe, &dir, id, r.job.0, cur as usize, seed, thorough, None);
                            failed_suites.insert(r.job.0);
                            if reproduced {
                                failures.push((suite.name.to_string(), cur as usize, data, what, text));
                            } else {
                                trouble = Some(format!("{} (not reproduced) suite {} case {}", what, suite.name, cur));
                            }
                        }
                    }
                }
            }
        }
        if !any {
            std::thread::sleep(Duration::from_millis(3));
        }
    }
    let _ = fs::remove_dir_all(&dir);

    for (si, suite) in check.suites.iter().enumerate() {
        let (e, d, n) = suite_counts.get(&si).copied().unwrap_or((0, 0, 0));
        per_suite.push(format!(
            "{}: {} ({} cases, {} discarded, {} non-trivial)",
            suite.name, suite.rule, e, d, n
        ));
    }

    // Evidence
    let ev_dir = root().join("evidence");
    let _ = fs::create_dir_all(&ev_dir);
    let wall = started.elapsed().as_secs_f64();
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", js(id), js(if thorough { "thorough" } else { "quick" }), seed));
    j.push_str("  \"coverage\": {\n");
    j.push_str(&format!("    \"evaluations\": {},\n", total.evaluations));
    j.push_str(&format!("    \"distinct_nontrivial\": {},\n", distinct.len()));
    j.push_str(&format!("    \"discarded\": {},\n", total.discards));
    j.push_str(&format!("    \"rule\": {},\n", js(&per_suite.join("; "))));
    j.push_str(&format!(
        "    \"labels\": {{{}}},\n",
        total.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str(&format!(
        "    \"samples\": [{}]\n  }},\n",
        total.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n      ")
    ));
    j.push_str(&format!(
        "  \"assumptions\": [{}],\n",
        check.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
    ));
    j.push_str(&format!("  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", wall, failures.len()));
    fs::write(ev_dir.join(format!("{}.json", id)), j).unwrap();

    println!(
        "{} {}: {} cases, {} distinct non-trivial, {} discarded, {:.1} s",
        id,
        tier,
        total.evaluations,
        distinct.len(),
        total.discards,
        wall
    );
    if std::env::var_os("VH_LABELS").is_some() {
        for s in &per_suite {
            println!("  {}", s);
        }
        for (k, v) in &total.labels {
            println!("  {} = {}", k, v);
        }
    }
    if !failures.is_empty() {
        for (suite, i, data, msg, text) in failures {
            let replay = write_replay(id, &suite, i, seed, thorough, &data, &msg, &text);
            println!("--- {} case {}: {}\n{}\n---", suite, i, clip(&msg, 3000), clip(&text, 2000));
            println!("VIOLATION property={} replay={}", id, replay.display());
        }
        return 1;
    }
    if let Some(t) = trouble {
        eprintln!("error: {}", t);
        println!("error: {}", t);
        return 3;
    }
    if total.evaluations > 0 && distinct.len() < 2 {
        eprintln!("error: nothing non-trivial explored");
        return 3;
    }
    0
}

fn clip(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn read_status(out: &Path) -> u64 {
    match fs::read(out.with_extension("status")) {
        Ok(b) if b.len() >= 8 => u64::from_le_bytes(b[..8].try_into().unwrap()),
        _ => u64::MAX,
    }
}

fn parse_out(out: &Path) -> Done {
    let mut d = Done {
        evaluations: 0,
        discards: 0,
        nontrivial: 0,
        labels: BTreeMap::new(),
        samples: vec![],
        fail: None,
    };
    for line in fs::read_to_string(out).unwrap().lines() {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "counts" => {
                d.evaluations = f[1].parse().unwrap();
                d.discards = f[2].parse().unwrap();
                d.nontrivial = f[3].parse().unwrap();
            }
            "label" => {
                d.labels.insert(unesc(f[1]), f[2].parse().unwrap());
            }
            "sample" => d.samples.push(unesc(f[1])),
            "fail" => {
                d.fail = Some((
                    f[1].parse().unwrap(),
                    f[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
                    unesc(f[3]),
                    unesc(f[4]),
                ))
            }
            _ => {}
        }
    }
    d
}

fn write_replay(
    id: &str,
    suite: &str,
    index: usize,
    seed: u64,
    thorough: bool,
    data: &[u32],
    msg: &str,
    text: &str,
) -> PathBuf {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}.replay", id, suite, seed, index));
    let data: Vec<String> = data.iter().map(|d| d.to_string()).collect();
    let mut o = String::new();
    o.push_str(&format!(
        "property {}\nsuite {}\nindex {}\nseed {}\ntier {}\ntape {}\n",
        id,
        suite,
        index,
        seed,
        if thorough { "thorough" } else { "quick" },
        data.join(",")
    ));
    o.push_str("# run it again: /verif/run.sh replay <this file>\n");
    o.push_str(&format!("=== failure\n{}\n=== case\n{}\n", msg, text));
    let _ = fs::File::create(&path).and_then(|mut f| f.write_all(o.as_bytes()));
    path
}

// ---- crashing cases: probe in subprocesses

/// `vh probe ID SUITE# INDEX SEED TIER MODE FILE TEXTFILE`: MODE is `gen` (draw from the PRNG and
/// mirror the tape to FILE) or `tape` (replay FILE).
pub fn probe(checks: Vec<Check>, args: &[String]) -> i32 {
    let id = args[0].clone();
    let si: usize = args[1].parse().unwrap();
    let index: usize = args[2].parse().unwrap();
    let seed: u64 = args[3].parse().unwrap();
    let thorough = args[4] == "thorough";
    let gen = args[5] == "gen";
    let file = args[6].clone();
    unsafe {
        setrlimit(9, &[3 << 30, 3 << 30]);
        setrlimit(4, &[0, 0]);
        if let Ok(s) = std::env::var("VH_CPU") {
            let s: u64 = s.parse().unwrap();
            setrlimit(0, &[s, s]); // RLIMIT_CPU
        }
    }
    let text_file = args[7].clone();
    TEXT_FILE.with(|_| ());
    on_big_stack(move || {
        TEXT_FILE.with(|t| *t.borrow_mut() = Some(text_file));
        let check = checks.into_iter().find(|c| c.id == id).unwrap();
        let suite = &check.suites[si];
        let mut tape = if gen {
            let mut t = Tape::random(case_seed(seed, &id, suite.name, index));
            t.set_mirror(fs::File::create(&file).unwrap());
            t
        } else {
            let bytes = fs::read(&file).unwrap();
            Tape::replay(bytes.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
        };
        let mut cx = Cx {
            index,
            thorough,
            ..Cx::default()
        };
        match run_case(suite, &mut tape, &mut cx) {
            Res::Fail(_) => 1,
            _ => 0,
        }
    })
}

thread_local! {
    static TEXT_FILE: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Suites call this right before handing a case to the code under test, so that a crash can show it.
pub fn announce(text: &str) {
    TEXT_FILE.with(|t| {
        if let Some(f) = &*t.borrow() {
            let _ = fs::write(f, text);
        }
    });
}

fn shrink_crash(
    exe: &Path,
    dir: &Path,
    id: &str,
    si: usize,
    index: usize,
    seed: u64,
    thorough: bool,
    cpu: Option<u64>,
) -> (Vec<u32>, String, bool) {
    let tape_file = dir.join("crash.tape");
    let text_file = dir.join("crash.text");
    let run = |mode: &str, data: Option<&[u32]>, cpu: Option<u64>| -> bool {
        if let Some(d) = data {
            let mut b = Vec::new();
            for v in d {
                b.extend_from_slice(&v.to_le_bytes());
            }
            let _ = fs::write(&tape_file, b);
        }
        let mut c = Command::new(exe);
        if let Some(s) = cpu {
            c.env("VH_CPU", s.to_string());
        }
        let st = c
            .arg("probe")
            .arg(id)
            .arg(si.to_string())
            .arg(index.to_string())
            .arg(seed.to_string())
            .arg(if thorough { "thorough" } else { "quick" })
            .arg(mode)
            .arg(&tape_file)
            .arg(&text_file)
            .env("NO_COLOR", "1")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status();
        match st {
            Ok(st) => st.signal().map_or(false, |s| s != 9 || cpu.is_some()) || st.code() == Some(EXIT_WORK_BOUND),
            Err(_) => false,
        }
    };
    if !run("gen", None, cpu) {
        return (vec![], String::new(), false);
    }
    let data: Vec<u32> = fs::read(&tape_file)
        .unwrap_or_default()
        .chunks_exact(4)
        .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
        .collect();
    // For a case that does not end, shorter runs have to do while shrinking.
    let best = if cpu.is_some() {
        shrink_tape(data, 60, |d| if run("tape", Some(d), Some(2)) { Some(d.len()) } else { None })
    } else {
        shrink_tape(data, 300, |d| if run("tape", Some(d), None) { Some(d.len()) } else { None })
    };
    run("tape", Some(&best), cpu.map(|_| 2));
    let text = fs::read_to_string(&text_file).unwrap_or_default();
    (best, text, true)
}

/// `vh replay FILE`
pub fn replay(checks: Vec<Check>, file: &str) -> i32 {
    let text = fs::read_to_string(file).unwrap();
    let mut get: BTreeMap<String, String> = BTreeMap::new();
    for l in text.lines() {
        if l.starts_with("===") {
            break;
        }
        if let Some((k, v)) = l.split_once(' ') {
            get.insert(k.to_string(), v.to_string());
        } else {
            get.insert(l.to_string(), String::new());
        }
    }
    let data: Vec<u32> = get
        .get("tape")
        .cloned()
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap())
        .collect();
    on_big_stack(move || {
        let check = checks.into_iter().find(|c| c.id == get["property"]).unwrap();
        let Some(suite) = check.suites.iter().find(|s| s.name == get["suite"]) else {
            println!("no such suite");
            return 2;
        };
        let mut tape = Tape::replay(data);
        let mut cx = Cx {
            index: get["index"].parse().unwrap(),
            thorough: get["tier"] == "thorough",
            verbose: true,
            strict: false,
            ..Cx::default()
        };
        match run_case(suite, &mut tape, &mut cx) {
            Res::Fail(m) => {
                println!("FAILS: {}\n=== case\n{}", m, cx.text);
                1
            }
            Res::Ok(_) => {
                println!("holds\n=== case\n{}", cx.text);
                0
            }
            Res::Discard => {
                println!("discarded\n=== case\n{}", cx.text);
                0
            }
        }
    })
}
