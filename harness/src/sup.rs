//! Runs the cases of a property in several processes, judges what happened to them, writes evidence and replays.

use crate::ctx::{install_panic_hook, take_panic, Ctx, Tier};
use crate::props::{self, Prop};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Default, Debug)]
struct Report {
    cases: u64,
    evals: u64,
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: Vec<String>,
    scales: [u64; 4],
    slowest_ms: u64,
    slowest_case: u64,
    violation: Option<(u64, String)>,
    harness: Option<(u64, String)>,
    out_of_time: bool,
}

#[derive(Debug)]
enum Verdict {
    Held,
    Violated(String),
    Harness(String),
}

fn run_case(p: &Prop, seed: u64, idx: u64, tier: Tier) -> (Verdict, Ctx) {
    let mut ctx = Ctx::new(seed, p.id, idx, tier);
    let r = catch_unwind(AssertUnwindSafe(|| match props::stress::of(p.id, tier, idx) {
        Some(k) => props::stress::run(&mut ctx, k, props::stress::DEEP_STACK),
        None => (p.run)(&mut ctx),
    }));
    let v = match r {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(m)) => Verdict::Violated(m),
        Err(_) => {
            let (m, l) = take_panic();
            if m.contains("HARNESS:") {
                if p.id == "C24" {
                    // Another property's monitor could not go on: not a crash of the code under test
                    Verdict::Held
                } else {
                    Verdict::Harness(format!("{} at {}", m, l))
                }
            } else if p.id == "C24" && l.starts_with("src/") {
                Verdict::Held
            } else {
                Verdict::Violated(format!("panicked: {} at {}", m, l))
            }
        }
    };
    (v, ctx)
}

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        "tiny" => Tier::Tiny,
        _ => Tier::Quick,
    }
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(96 << 20).spawn(f).unwrap().join().unwrap()
}

/// worker <prop> <seed> <tier> <k> <workers> <cases> <seconds> <dir>
pub fn worker(a: &[String]) -> i32 {
    install_panic_hook();
    let p = props::find(&a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let tier = tier_of(&a[2]);
    let k: u64 = a[3].parse().unwrap();
    let w: u64 = a[4].parse().unwrap();
    let cases: u64 = a[5].parse().unwrap();
    let secs: f64 = a[6].parse().unwrap();
    let dir = PathBuf::from(&a[7]);
    let (report, prints) = on_big_stack(move || {
        let t0 = Instant::now();
        let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join(format!("{}.at", k))).unwrap();
        let mut r = Report::default();
        let mut prints: HashSet<u64> = HashSet::new();
        let mut idx = k;
        while idx < cases {
            progress.write_at(&(idx + 1).to_le_bytes(), 0).unwrap();
            if t0.elapsed().as_secs_f64() > secs {
                r.out_of_time = true;
                break;
            }
            let c0 = Instant::now();
            let (v, ctx) = run_case(p, seed, idx, tier);
            let ms = c0.elapsed().as_millis() as u64;
            if ms > r.slowest_ms {
                r.slowest_ms = ms;
                r.slowest_case = idx;
            }
            r.cases += 1;
            r.evals += ctx.evals;
            r.scales[ctx.scale as usize] += 1;
            for (n, x) in ctx.counters {
                *r.counters.entry(n.to_string()).or_insert(0) += x;
            }
            for (n, x) in ctx.maxima {
                let e = r.maxima.entry(n.to_string()).or_insert(0);
                *e = (*e).max(x);
            }
            if r.samples.len() < 4 {
                r.samples.extend(ctx.samples);
            }
            if prints.len() < 4_000_000 {
                prints.extend(ctx.fingerprints);
            }
            match v {
                Verdict::Held => {}
                Verdict::Violated(m) => {
                    r.violation = Some((idx, m));
                    break;
                }
                Verdict::Harness(m) => {
                    r.harness = Some((idx, m));
                    break;
                }
            }
            idx += w;
        }
        let mut bytes = Vec::with_capacity(prints.len() * 8);
        for p in &prints {
            bytes.extend_from_slice(&p.to_le_bytes());
        }
        std::fs::write(dir.join(format!("{}.fp", k)), bytes).unwrap();
        std::fs::write(dir.join(format!("{}.tmp", k)), serde_json::to_vec(&r).unwrap()).unwrap();
        std::fs::rename(dir.join(format!("{}.tmp", k)), dir.join(format!("{}.json", k))).unwrap();
        (r, prints.len())
    });
    let _ = (report, prints);
    0
}

/// one <prop> <seed> <tier> <case>
pub fn one(a: &[String]) -> i32 {
    install_panic_hook();
    let p = props::find(&a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let tier = tier_of(&a[2]);
    let idx: u64 = a[3].parse().unwrap();
    on_big_stack(move || {
        let t0 = Instant::now();
        let (v, ctx) = run_case(p, seed, idx, tier);
        match v {
            Verdict::Held => {
                println!("HELD {} case {} ({} evaluations, {} ms)", p.id, idx, ctx.evals, t0.elapsed().as_millis());
                0
            }
            Verdict::Violated(m) => {
                println!("VIOLATED {} case {}: {}", p.id, idx, m);
                1
            }
            Verdict::Harness(m) => {
                println!("INCONCLUSIVE {} case {}: {}", p.id, idx, m);
                2
            }
        }
    })
}

/// tiny <prop> <seed> <k> <workers> <cases>: for the interpreter; a line per case
pub fn tiny(a: &[String]) -> i32 {
    install_panic_hook();
    let p = props::find(&a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let k: u64 = a[2].parse().unwrap();
    let w: u64 = a[3].parse().unwrap();
    let cases: u64 = a[4].parse().unwrap();
    let mut idx = k;
    while idx < cases {
        let (v, ctx) = run_case(p, seed, idx, Tier::Tiny);
        match v {
            Verdict::Held => println!("TINY held {} {}", idx, ctx.evals),
            Verdict::Violated(m) => {
                println!("TINY violated {} {}", idx, m.replace('\n', " "));
                return 1;
            }
            Verdict::Harness(m) => {
                println!("TINY harness {} {}", idx, m.replace('\n', " "));
                return 2;
            }
        }
        idx += w;
    }
    println!("TINY done");
    0
}

/// crowd <prop> <seed> <tier> <threads> <cases> <seconds>: the same cases, in threads of one process that run at the same time.
/// What they use is their own, so nothing one does may show in another
pub fn crowd(a: &[String]) -> i32 {
    install_panic_hook();
    let p = props::find(&a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let tier = tier_of(&a[2]);
    let threads: u64 = a[3].parse().unwrap();
    let cases: u64 = a[4].parse().unwrap();
    let secs: f64 = a[5].parse().unwrap();
    let t0 = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let stop = stop.clone();
            let body = move || {
                let (mut n, mut evals, mut idx) = (0u64, 0u64, t);
                while idx < cases && t0.elapsed().as_secs_f64() < secs && !stop.load(Ordering::SeqCst) {
                    if props::stress::of(p.id, tier, idx).is_none() {
                        let (v, ctx) = run_case(p, seed, idx, tier);
                        n += 1;
                        evals += ctx.evals;
                        if let Verdict::Violated(m) = v {
                            stop.store(true, Ordering::SeqCst);
                            return (n, evals, Some((idx, m)));
                        }
                    }
                    idx += threads;
                }
                (n, evals, None)
            };
            std::thread::Builder::new().stack_size(96 << 20).spawn(body).unwrap()
        })
        .collect();
    let (mut n, mut evals, mut bad) = (0, 0, None);
    for h in handles {
        let (a, b, v) = h.join().unwrap();
        n += a;
        evals += b;
        bad = bad.or(v);
    }
    match bad {
        Some((idx, m)) => {
            println!("CROWD violated {} {}", idx, m.replace('\n', " "));
            1
        }
        None => {
            println!("CROWD held {} {}", n, evals);
            0
        }
    }
}

/// The threads a crowd has
const CROWD: u64 = 8;

/// Runs a crowd. What was found in it, or how many cases and evaluations it saw
fn run_crowd(exe: &Path, p: &Prop, seed: u64, tier_name: &str, cases: u64, secs: f64) -> Result<(u64, u64), (u64, String)> {
    let mut killed = 0;
    for _ in 0..3 {
        let args: Vec<String> = vec!["crowd".into(), p.id.into(), seed.to_string(), tier_name.into(), CROWD.to_string(), cases.to_string(), secs.to_string()];
        let mut c = spawn(exe, &args, false, Stdio::piped());
        let err = drain_stderr(&mut c);
        let mut out = c.stdout.take().unwrap();
        let out = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = out.read_to_string(&mut s);
            s
        });
        let t0 = Instant::now();
        let (mut used, mut used_at) = (0.0, Instant::now());
        let status = loop {
            if let Some(st) = c.try_wait().unwrap() {
                break Some(st);
            }
            let now = cpu(&c);
            if now > used + 0.02 {
                used = now;
                used_at = Instant::now();
            }
            if used_at.elapsed().as_secs_f64() > 60.0 {
                let _ = c.kill();
                let _ = c.wait();
                return Err((0, format!("{} threads, each with cases of its own, wait for each other without end", CROWD)));
            }
            if t0.elapsed().as_secs_f64() > secs + 100.0 {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        let (o, e) = (out.join().unwrap(), err.join().unwrap());
        let st = match status {
            Some(st) => st,
            None => return Ok((0, 0)),
        };
        if matches!(st.signal(), Some(4) | Some(6) | Some(7) | Some(11)) && !e.contains("memory allocation of") {
            killed += 1;
            if killed == 2 {
                return Err((0, format!("twice, a process in which {} threads run cases of their own is killed by signal {} ({})", CROWD, st.signal().unwrap(), e.trim())));
            }
            continue;
        }
        let line = o.lines().find(|l| l.starts_with("CROWD ")).unwrap_or("").to_string();
        let f: Vec<&str> = line.splitn(4, ' ').collect();
        return match f.get(1) {
            Some(&"violated") => Err((f[2].parse().unwrap(), format!("while {} threads run cases of their own: {}", CROWD, f.get(3).unwrap_or(&"")))),
            Some(&"held") => Ok((f[2].parse().unwrap(), f[3].trim().parse().unwrap())),
            _ => Ok((0, 0)),
        };
    }
    Ok((0, 0))
}

/// digest <seed> <n>
pub fn digest(a: &[String]) -> i32 {
    install_panic_hook();
    let seed: u64 = a[0].parse().unwrap();
    let n: u64 = a[1].parse().unwrap();
    on_big_stack(move || {
        for i in 0..n {
            println!("{} {:016x}", i, props::patterns::digest(seed, i));
        }
        0
    })
}

// ---- supervisor -------------------------------------------------------------------------------------------------------------

fn home() -> PathBuf {
    std::env::var("MONITOR_HOME").map(PathBuf::from).unwrap_or_else(|_| Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf())
}

/// CPU seconds a child of ours has used
fn cpu(child: &Child) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", child.id())).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

fn spawn(exe: &Path, args: &[String], limit_memory: bool, stdout: Stdio) -> Child {
    let mut c = if limit_memory {
        let mut c = Command::new("sh");
        c.arg("-c").arg("ulimit -v 3500000; exec \"$0\" \"$@\"").arg(exe);
        c
    } else {
        Command::new(exe)
    };
    c.args(args).stdin(Stdio::null()).stdout(stdout).stderr(Stdio::piped());
    c.env("ASAN_OPTIONS", "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:hard_rss_limit_mb=3500:allocator_may_return_null=0:detect_stack_use_after_return=0");
    c.env("RUST_BACKTRACE", "0");
    c.spawn().expect("start a worker")
}

fn drain_stderr(c: &mut Child) -> std::thread::JoinHandle<String> {
    let e = c.stderr.take().unwrap();
    std::thread::spawn(move || {
        let mut head = String::new();
        for line in BufReader::new(e).lines() {
            match line {
                Ok(l) => {
                    if head.len() < 20_000 {
                        head.push_str(&l);
                        head.push('\n');
                    }
                }
                Err(_) => break,
            }
        }
        head
    })
}

enum End {
    Exit(i32, String, String),
    Signal(i32, String),
    Hang(f64),
}

/// Runs one case alone, giving it this much CPU
fn alone(exe: &Path, p: &Prop, seed: u64, tier: &str, idx: u64, limit_memory: bool, cpu_limit: f64) -> End {
    let args = vec!["one".to_string(), p.id.into(), seed.to_string(), tier.into(), idx.to_string()];
    let mut c = spawn(exe, &args, limit_memory, Stdio::piped());
    let err = drain_stderr(&mut c);
    let mut out = c.stdout.take().unwrap();
    let out = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let (o, e) = (out.join().unwrap(), err.join().unwrap());
            return match st.code() {
                Some(code) => End::Exit(code, o, e),
                None => End::Signal(st.signal().unwrap_or(0), e),
            };
        }
        let used = cpu(&c);
        if used > cpu_limit || t0.elapsed().as_secs_f64() > (cpu_limit * 10.0).min(400.0) {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hang(used);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

struct Running {
    child: Child,
    err: Option<std::thread::JoinHandle<String>>,
    at: u64,
    cpu_at: f64,
    done: bool,
}

pub struct Found {
    idx: u64,
    what: String,
    how: &'static str,
    /// The build it was found in, as replay.sh calls it
    build: &'static str,
}

fn write_replay(p: &Prop, seed: u64, tier: &str, f: &Found) -> PathBuf {
    let dir = home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}-{}.json", p.id, tier, seed, f.idx));
    let v = serde_json::json!({
        "property": p.id, "seed": seed, "tier": tier, "case": f.idx, "detected_by": f.how, "what": f.what,
        "replay": format!("/verif/replay.sh {} {} {} {}{}", p.id, seed, if f.build == " miri" { "tiny" } else { tier }, f.idx, f.build),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

pub fn supervise(id: &str) -> i32 {
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            return 2;
        }
    };
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i128>().ok()).unwrap_or(1) as u64;
    let tier_name = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
    let tier = tier_of(tier_name);
    let workers: u64 = std::env::var("MONITOR_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 16));
    let mut cases = props::count(p, tier);
    if let Some(n) = std::env::var("MONITOR_CASES").ok().and_then(|s| s.parse().ok()) {
        cases = n;
    }
    let secs: f64 = std::env::var("MONITOR_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 150.0 } else { 800.0 });
    let asan = std::env::var("MONITOR_ASAN").ok().filter(|_| id == "C24").map(PathBuf::from);
    if id == "C24" && asan.is_none() {
        eprintln!("C24 needs the sanitizer build (run check.sh)");
        return 2;
    }
    let exe = asan.clone().unwrap_or_else(|| std::env::current_exe().unwrap());
    // Some of the workers run a build as programs are released: no debug assertions, arithmetic wraps
    let plain = std::env::var("MONITOR_PLAIN").ok().map(PathBuf::from);
    let is_plain = |k: u64| plain.is_some() && if asan.is_some() { k % 4 == 3 } else { k % 2 == 1 };
    let exe_of = |k: u64| if is_plain(k) { plain.clone().unwrap() } else { exe.clone() };
    let limit_of = |k: u64| asan.is_none() || is_plain(k);
    // A case takes milliseconds (at worst a second or so); this is CPU time, so load does not matter. The stress cases are so large that
    // code can be correct and merely much slower on them: they get several minutes before it counts as no end
    let stuck = if asan.is_some() { 60.0 } else { 25.0 };
    let limit = |idx: u64| if props::is_stress(id, tier, idx) { 150.0 } else { stuck };
    let patience = |idx: u64| if props::is_stress(id, tier, idx) { 220.0 } else { stuck * 1.2 };
    // Died in a case that alone does not fail
    let mut suspect: Option<Found> = None;
    let dir = std::env::temp_dir().join(format!("concordance-monitor-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();

    // Interpreter runs next to the workers
    let miri_dir = std::env::var("MONITOR_MIRI").ok().filter(|_| id == "C24" || id == "C19");
    let mut miri: Vec<(Child, std::thread::JoinHandle<String>, std::thread::JoinHandle<Vec<String>>)> = vec![];
    if let Some(h) = &miri_dir {
        let (procs, n) = match (id, tier) {
            ("C24", Tier::Quick) => (8u64, 108u64),
            ("C24", _) => (8, 2700),
            (_, Tier::Quick) => (2, 12),
            _ => (8, 300),
        };
        for k in 0..procs {
            let mut c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "--offline", "--quiet", "--no-default-features", "--features"])
                .arg(format!("threads,{}", id.to_lowercase()))
                .args(["--target-dir"])
                .arg(std::env::var("MONITOR_MIRI_TARGET").unwrap_or_else(|_| format!("{}/target-miri", h)))
                .arg("--manifest-path")
                .arg(format!("{}/Cargo.toml", h))
                .args(["--", "tiny", id, &seed.to_string(), &k.to_string(), &procs.to_string(), &n.to_string()]);
            c.env("MIRIFLAGS", format!("-Zmiri-ignore-leaks -Zmiri-seed={}", seed & 0xffff));
            c.env_remove("RUSTFLAGS");
            c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
            let mut c = match c.spawn() {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("cannot start Miri: {}", e);
                    return 2;
                }
            };
            let err = drain_stderr(&mut c);
            let out = c.stdout.take().unwrap();
            let out = std::thread::spawn(move || BufReader::new(out).lines().map_while(Result::ok).collect::<Vec<_>>());
            miri.push((c, err, out));
        }
    }

    let mut running: Vec<Running> = vec![];
    for k in 0..workers {
        let args: Vec<String> = vec![
            "worker".into(), id.into(), seed.to_string(), tier_name.into(), k.to_string(), workers.to_string(), cases.to_string(),
            secs.to_string(), dir.to_string_lossy().into_owned(),
        ];
        let mut child = spawn(&exe_of(k), &args, limit_of(k), Stdio::null());
        let err = drain_stderr(&mut child);
        running.push(Running { child, err: Some(err), at: 0, cpu_at: 0.0, done: false });
    }
    let mut found: Option<Found> = None;
    let mut inconclusive: Option<String> = None;
    'watch: loop {
        let mut all = true;
        for k in 0..running.len() {
            let build = if is_plain(k as u64) { " plain" } else { "" };
            let r = &mut running[k];
            if r.done {
                continue;
            }
            all = false;
            let mut buf = [0u8; 8];
            let at = std::fs::File::open(dir.join(format!("{}.at", k))).ok().and_then(|f| f.read_exact_at(&mut buf, 0).ok()).map(|_| u64::from_le_bytes(buf)).unwrap_or(0);
            if let Some(st) = r.child.try_wait().unwrap() {
                r.done = true;
                let err = r.err.take().unwrap().join().unwrap();
                let wrote = dir.join(format!("{}.json", k)).exists();
                if wrote {
                    let rep: Report = serde_json::from_slice(&std::fs::read(dir.join(format!("{}.json", k))).unwrap()).unwrap();
                    if let Some((idx, what)) = rep.violation {
                        found = Some(Found { idx, what, how: "monitor", build });
                        break 'watch;
                    }
                    if let Some((idx, what)) = rep.harness {
                        inconclusive = Some(format!("case {}: {}", idx, what));
                        break 'watch;
                    }
                    continue;
                }
                // It died in a case
                if at == 0 {
                    inconclusive = Some(format!("a worker did not start: {:?} {}", st, err));
                    break 'watch;
                }
                let idx = at - 1;
                let again = alone(&exe_of(k as u64), p, seed, tier_name, idx, limit_of(k as u64), patience(idx));
                let (bad, what) = match again {
                    End::Signal(s, e) => (true, format!("the process is killed by signal {} ({})", s, e.trim())),
                    End::Exit(66, _, e) => (true, format!("AddressSanitizer: {}", e.trim())),
                    End::Exit(1, o, _) => (true, o.trim().to_string()),
                    End::Exit(0, _, _) | End::Exit(2, _, _) => (false, format!("a worker ended with {:?} in case {}, which alone does not fail: {}", st, idx, err.trim())),
                    End::Exit(c, o, e) => (true, format!("the process ends with status {}: {} {}", c, o.trim(), e.trim())),
                    End::Hang(s) => (true, format!("no end after {:.0} s of CPU time", s)),
                };
                if bad {
                    found = Some(Found { idx, what, how: "process exit", build });
                } else if id == "C24" && matches!(st.signal(), Some(4) | Some(6) | Some(7) | Some(11)) && !err.contains("memory allocation of") {
                    // Safe code only: something corrupted its memory before. The sanitizer's workers may still say what
                    suspect = Some(Found { idx, what, how: "process killed after memory was corrupted in an earlier case", build });
                    continue;
                } else {
                    inconclusive = Some(what);
                }
                break 'watch;
            }
            let used = cpu(&r.child);
            if at != r.at {
                r.at = at;
                r.cpu_at = used;
            } else if at > 0 && used - r.cpu_at > limit(at - 1) {
                let _ = r.child.kill();
                let idx = at - 1;
                match alone(&exe_of(k as u64), p, seed, tier_name, idx, limit_of(k as u64), patience(idx)) {
                    End::Hang(s) => found = Some(Found { idx, what: format!("no end after {:.0} s of CPU time (such a case takes milliseconds, a stress case at most a few seconds)", s), how: "CPU watchdog", build }),
                    End::Exit(1, o, _) => found = Some(Found { idx, what: o.trim().to_string(), how: "monitor", build }),
                    End::Exit(0, _, _) if props::is_stress(id, tier, idx) => {
                        // Slow, but right. What this worker had still to do is left out
                        let _ = r.child.wait();
                        r.done = true;
                        continue;
                    }
                    _ => inconclusive = Some(format!("case {} used {:.0} s of CPU time in a worker but ends alone", idx, used - r.cpu_at)),
                }
                break 'watch;
            }
        }
        if all {
            break;
        }
        std::thread::sleep(Duration::from_millis(25));
        if t0.elapsed().as_secs_f64() > secs.min(450.0) + 400.0 {
            inconclusive = Some("the workers did not finish in time".into());
            break;
        }
    }
    for r in running.iter_mut() {
        if !r.done {
            let _ = r.child.kill();
            let _ = r.child.wait();
        }
    }

    if found.is_none() && suspect.is_some() {
        found = suspect;
        inconclusive = None;
    }

    // Gather
    let mut total = Report::default();
    let mut prints: HashSet<u64> = HashSet::new();
    for k in 0..workers {
        if let Ok(b) = std::fs::read(dir.join(format!("{}.json", k))) {
            let r: Report = serde_json::from_slice(&b).unwrap();
            total.cases += r.cases;
            total.evals += r.evals;
            for i in 0..4 {
                total.scales[i] += r.scales[i];
            }
            for (n, x) in r.counters {
                *total.counters.entry(n).or_insert(0) += x;
            }
            for (n, x) in r.maxima {
                let e = total.maxima.entry(n).or_insert(0);
                *e = (*e).max(x);
            }
            if total.samples.len() < 12 {
                total.samples.extend(r.samples);
            }
            if r.slowest_ms > total.slowest_ms {
                total.slowest_ms = r.slowest_ms;
                total.slowest_case = r.slowest_case;
            }
            total.out_of_time |= r.out_of_time;
            if let Ok(b) = std::fs::read(dir.join(format!("{}.fp", k))) {
                prints.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    // Interpreter results
    let mut miri_cases = 0u64;
    if miri_dir.is_some() {
        let deadline = if tier == Tier::Quick { 240.0 } else { 860.0 };
        for (mut c, err, out) in miri {
            let mut late = false;
            let st = loop {
                if let Some(st) = c.try_wait().unwrap() {
                    break Some(st);
                }
                if found.is_some() || inconclusive.is_some() || t0.elapsed().as_secs_f64() > deadline {
                    // (cargo's child gets the end of its pipe)
                    kill_tree(&mut c);
                    late = true;
                    break None;
                }
                std::thread::sleep(Duration::from_millis(50));
            };
            if late {
                continue;
            }
            let lines = out.join().unwrap();
            let err = err.join().unwrap();
            miri_cases += lines.iter().filter(|l| l.starts_with("TINY held")).count() as u64;
            let done = lines.iter().any(|l| l == "TINY done");
            let last = lines.iter().filter_map(|l| l.split(' ').nth(2).and_then(|x| x.parse::<u64>().ok())).last();
            if let Some(l) = lines.iter().find(|l| l.starts_with("TINY violated")) {
                found = Some(Found { idx: last.unwrap_or(0), what: l.clone(), how: "monitor under Miri", build: " miri" });
            } else if err.contains("Undefined Behavior") || err.contains("Data race") || err.contains("deadlock") {
                found = Some(Found { idx: last.map(|x| x + 1).unwrap_or(0), what: format!("Miri: {}", err.trim()), how: "Miri", build: " miri" });
            } else if !done {
                inconclusive = Some(format!("Miri ended with {:?}: {}", st, err.chars().take(3000).collect::<String>()));
            }
        }
        total.counters.insert("cases_interpreted_by_miri".into(), miri_cases);
        if found.is_none() && inconclusive.is_none() && miri_cases == 0 {
            inconclusive = Some("nothing ran under Miri".into());
        }
    }

    // Answers compared between processes
    if id == "C23" && found.is_none() && inconclusive.is_none() {
        let (procs, n) = if tier == Tier::Quick { (6, 60u64) } else { (24, 400) };
        let me = std::env::current_exe().unwrap();
        let mut children: Vec<Child> = (0..procs)
            .map(|_| Command::new(&me).args(["digest", &seed.to_string(), &n.to_string()]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap())
            .collect();
        let mut first: Option<Vec<String>> = None;
        for c in children.iter_mut() {
            let lines: Vec<String> = BufReader::new(c.stdout.take().unwrap()).lines().map_while(Result::ok).collect();
            let ok = c.wait().unwrap().success();
            if !ok || lines.len() as u64 != n {
                inconclusive = Some("a process computing digests failed".into());
                break;
            }
            match &first {
                None => first = Some(lines),
                Some(f) => {
                    if let Some(i) = (0..n as usize).find(|i| f[*i] != lines[*i]) {
                        found = Some(Found { idx: i as u64, what: format!("two processes compiling the same token sets (digest group {}) get different answers: {} and {}", i, f[i], lines[i]), how: "digests of two processes", build: "" });
                        break;
                    }
                }
            }
        }
        for c in children.iter_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
        total.counters.insert("digest_groups_compared_between_processes".into(), n * (procs as u64 - 1));
    }

    // The same among threads
    if id != "C24" && found.is_none() && inconclusive.is_none() {
        match run_crowd(&exe, p, seed, tier_name, cases, if tier == Tier::Quick { 4.0 } else { 40.0 }) {
            Ok((n, evals)) => {
                total.counters.insert("cases_run_again_among_threads".into(), n);
                total.counters.insert("evaluations_among_threads".into(), evals);
            }
            Err((idx, what)) => {
                // Either way it is a violation; the replay is shorter if the case fails by itself
                found = Some(match alone(&exe, p, seed, tier_name, idx, false, patience(idx)) {
                    End::Exit(1, o, _) => Found { idx, what: o.trim().to_string(), how: "monitor", build: "" },
                    _ => Found { idx, what, how: "monitor, among threads", build: " crowd" },
                });
            }
        }
    }

    // Enough observed?
    let wanted = cases.min(props::count(p, Tier::Quick));
    if found.is_none() && inconclusive.is_none() {
        if total.cases * 12 < wanted {
            inconclusive = Some(format!("only {} of {} cases ran in time", total.cases, cases));
        } else if total.evals == 0 || prints.len() < 10 {
            inconclusive = Some(format!("nothing worth judging was observed ({} evaluations, {} non-trivial)", total.evals, prints.len()));
        }
    }

    let mut replay = None;
    if let Some(f) = &found {
        replay = Some(write_replay(p, seed, tier_name, f));
        total.samples.insert(0, format!("VIOLATION in case {}: {}", f.idx, f.what.chars().take(2000).collect::<String>()));
    }
    if total.samples.is_empty() {
        total.samples.push(format!("cases 0..{} of seed {}", total.cases, seed));
    }
    let mut coverage = serde_json::json!({
        "evaluations": total.evals,
        "distinct_nontrivial": prints.len(),
        "rule": p.rule,
        "samples": total.samples,
        "cases": total.cases,
        "cases_planned": cases,
        "cases_by_scale": total.scales,
        "observed": total.counters,
        "maxima": total.maxima,
        "slowest_case_ms": total.slowest_ms,
        "slowest_case": total.slowest_case,
        "stopped_by_time": total.out_of_time,
        "workers": workers,
        "workers_by_build": {
            "address sanitizer, debug assertions, overflow checks": if asan.is_some() { (0..workers).filter(|k| !is_plain(*k)).count() } else { 0 },
            "debug assertions, overflow checks": if asan.is_some() { 0 } else { (0..workers).filter(|k| !is_plain(*k)).count() },
            "as released (neither)": (0..workers).filter(|k| is_plain(*k)).count(),
        },
    });
    if id == "C20" {
        coverage["exhaustive_for"] = serde_json::json!(if tier == Tier::Quick { "u8 i8 u16 i16 char" } else { "u8 i8 u16 i16 char u32 i32" });
    }
    let evidence = serde_json::json!({
        "property": id,
        "tier": tier_name,
        "seed": seed as i64,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": [
            "what is checked is what was executed: the counts below say how much that was",
            "the reference semantics in harness/src (lang.rs and the models beside the workloads) say what the property means"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.is_some() as u64,
    });
    let ev = home().join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    if let Err(e) = std::fs::write(ev.join(format!("{}.json", id)), serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    let mut o = std::io::stdout();
    if let (Some(f), Some(path)) = (&found, &replay) {
        let _ = writeln!(o, "{} case {} (seed {}, {}; {}): {}", id, f.idx, seed, tier_name, f.how, f.what.chars().take(3000).collect::<String>());
        let _ = writeln!(o, "VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    if let Some(w) = inconclusive {
        let _ = writeln!(o, "INCONCLUSIVE {}: {}", id, w);
        return 2;
    }
    let _ = writeln!(
        o,
        "{} held: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
        id, total.cases, total.evals, prints.len(), t0.elapsed().as_secs_f64()
    );
    0
}

/// Ends a process we started and its descendants
fn kill_tree(c: &mut Child) {
    let mut list = vec![c.id()];
    let mut i = 0;
    while i < list.len() {
        if let Ok(s) = std::fs::read_to_string(format!("/proc/{}/task/{}/children", list[i], list[i])) {
            list.extend(s.split_whitespace().filter_map(|x| x.parse::<u32>().ok()));
        }
        i += 1;
    }
    for pid in list.iter().skip(1) {
        let _ = Command::new("kill").arg("-9").arg(pid.to_string()).stderr(Stdio::null()).status();
    }
    let _ = c.kill();
    let _ = c.wait();
}
