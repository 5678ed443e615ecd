//! Search engine: deterministic case streams over worker threads, panics and
//! crashes turned into failures, tape shrinking, replay files, evidence.
use crate::tape::{splitmix_mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// Per-case report filled in by the property.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub fp: u64,
    pub describe: bool,
    pub desc: String,
    /// Occurrences of recorded findings tolerated by exact signature.
    pub known: Vec<(&'static str, u64)>,
    pub work: u64,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) { self.labels.push(l); }
    pub fn label_if(&mut self, c: bool, l: &'static str) { if c { self.labels.push(l); } }
    pub fn input<T: Hash>(&mut self, t: &T) {
        let mut h = Fnv(self.fp ^ 0xcbf29ce484222325);
        t.hash(&mut h);
        self.fp = splitmix_mix(h.0);
    }
    pub fn show(&mut self, f: impl FnOnce() -> String) { if self.describe { let s = f(); if !self.desc.is_empty() { self.desc.push_str("; "); } self.desc.push_str(&s); } }
    pub fn known(&mut self, id: &'static str, n: u64) { if n > 0 { self.known.push((id, n)); } }
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
    fn write_u64(&mut self, v: u64) { self.0 = splitmix_mix(self.0 ^ v); }
    fn write_i64(&mut self, v: i64) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// cases per tier: (debug-assertions build, plain release build)
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
    pub f: fn(&mut Src, &mut Ctx) -> R,
    /// Concrete recorded findings: returns (finding id, description, still fails as recorded)
    pub findings: Option<fn() -> Vec<(&'static str, String, bool)>>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| { if std::env::var_os("GX_PANIC").is_some() { eprintln!("{info}"); }
        let m = info.payload().downcast_ref::<String>().cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{m} [at {loc}]"));
    }));
}
/// Run `f`, turning a panic of the code under test into an Err.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic in {what}: {}", PANIC.with(|p| p.borrow().clone())))
}
fn run_case(p: &Prop, src: &mut Src, describe: bool) -> (Ctx, R) {
    let mut ctx = Ctx { describe, ..Default::default() };
    crate::alloc::reset();
    crate::fuel::reset();
    let r = catch_unwind(AssertUnwindSafe(|| (p.f)(src, &mut ctx)));
    crate::alloc::off();
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    };
    (ctx, r)
}
fn case_seed(seed: u64, id: &str, stream: u64, i: u64) -> u64 {
    let mut h = Fnv(0x51_7c_c1_b7_27_22_0a_95);
    (seed, stream).hash(&mut h);
    h.write(id.as_bytes());
    splitmix_mix(splitmix_mix(h.0) ^ i.wrapping_mul(0x9e3779b97f4a7c15))
}
fn kind(m: &str) -> String { m.chars().take_while(|c| *c != ':' && !c.is_ascii_digit()).take(40).collect() }

pub struct Shrunk { pub tape: Vec<u64>, pub msg: String, pub desc: String }
/// Shrink a failing tape: delete blocks, zero blocks, lower single values.
/// `fails` re-executes a tape and returns (recorded tape, message) if it fails.
pub fn shrink(tape: Vec<u64>, msg: String, max_execs: usize, max_time: Duration, fails: &mut dyn FnMut(Vec<u64>) -> Option<(Vec<u64>, String)>) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let mut best = (tape, msg);
    let k = kind(&best.1);
    let mut execs = 0;
    macro_rules! attempt { ($cand:expr) => {{
        execs += 1;
        if execs > max_execs || t0.elapsed() > max_time { return best; }
        let c = $cand;
        match fails(c) {
            Some((t, m)) if kind(&m) == k && (t.len(), &t) < (best.0.len(), &best.0) => { best = (t, m); true }
            _ => false,
        }
    }} }
    loop {
        let before = best.0.clone();
        let mut size = (best.0.len() / 2).max(1);
        while size >= 1 {
            let mut at = 0;
            while at < best.0.len() {
                let end = (at + size).min(best.0.len());
                let mut c = best.0.clone();
                c.drain(at..end);
                if !attempt!(c) { at += size; }
            }
            if size == 1 { break; }
            size /= 2;
        }
        let mut size = 16;
        while size >= 1 {
            let mut at = 0;
            while at < best.0.len() {
                let end = (at + size).min(best.0.len());
                if best.0[at..end].iter().any(|v| *v != 0) {
                    let mut c = best.0.clone();
                    for v in &mut c[at..end] { *v = 0; }
                    attempt!(c);
                }
                at += size;
            }
            if size == 1 { break; }
            size /= 4;
        }
        for i in 0..best.0.len() {
            if i >= best.0.len() { break; }
            let (mut lo, mut hi) = (0u64, best.0[i]);
            let mut steps = 0;
            while lo < hi && steps < 12 {
                steps += 1;
                let mid = lo + (hi - lo) / 2;
                let mut c = best.0.clone();
                if i >= c.len() { break; }
                c[i] = mid;
                if attempt!(c) { hi = best.0.get(i).copied().unwrap_or(0).min(mid); } else { lo = mid + 1; }
            }
        }
        if best.0 == before { return best; }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

pub fn write_replay(path: &Path, id: &str, profile: &str, seed: u64, index: u64, tape: &[u64], msg: &str, desc: &str) {
    let t = tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
    let s = format!("{{\"property\":{},\"profile\":{},\"seed\":{seed},\"index\":{index},\n\"message\":{},\n\"input\":{},\n\"tape\":[{t}]}}\n",
        json_str(id), json_str(profile), json_str(msg), json_str(desc));
    std::fs::create_dir_all(path.parent().unwrap()).ok();
    std::fs::write(path, s).expect("write replay");
}
pub fn read_tape(path: &Path) -> (String, Vec<u64>) {
    let s = std::fs::read_to_string(path).expect("replay file");
    let id = s.split("\"property\":\"").nth(1).unwrap().split('"').next().unwrap().to_string();
    let t = s.rsplit("\"tape\":[").next().unwrap().split(']').next().unwrap();
    (id, t.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect())
}
pub fn replay(p: &Prop, tape: Vec<u64>) -> (Ctx, R) { run_case(p, &mut Src::replay(tape), true) }

/// Child process: run cases [0, n) of a stream and write a line based report.
/// Exit code 0: all passed, 1: a failure was found (and shrunk).
pub fn child(p: &Prop, seed: u64, stream: u64, n: u64, dir: &Path, profile: &str) -> i32 {
    let threads: usize = std::env::var("GX_THREADS").ok().and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4)).clamp(1, 64);
    let progress = std::fs::File::create(dir.join("progress")).unwrap();
    let next = AtomicU64::new(0);
    let fail_at = AtomicU64::new(u64::MAX);
    let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    struct Agg { evals: u64, nontriv: u64, hashes: Vec<u64>, labels: BTreeMap<&'static str, u64>, known: BTreeMap<&'static str, u64>, samples: BTreeSet<u64>, fails: BTreeMap<u64, (Vec<u64>, String)>, work: u64, max_work: u64 }
    let agg = Mutex::new(Agg { evals: 0, nontriv: 0, hashes: vec![], labels: BTreeMap::new(), known: BTreeMap::new(), samples: BTreeSet::new(), fails: BTreeMap::new(), work: 0, max_work: 0 });
    const BATCH: u64 = 32;
    let slow: u64 = std::env::var("GX_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
    let done = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, fail_at, agg, beat, progress, done) = (&next, &fail_at, &agg, &beat[t], &progress, &done);
            // the default 2 MiB stack: deep recursion in the code under test must show
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || {
                let mut a = Agg { evals: 0, nontriv: 0, hashes: vec![], labels: BTreeMap::new(), known: BTreeMap::new(), samples: BTreeSet::new(), fails: BTreeMap::new(), work: 0, max_work: 0 };
                'outer: loop {
                    let b = next.fetch_add(BATCH, SeqCst);
                    if b >= n { break; }
                    for i in b..(b + BATCH).min(n) {
                        if i > fail_at.load(SeqCst) { break 'outer; }
                        beat.store(i, SeqCst);
                        let _ = progress.write_at(&(i + 1).to_le_bytes(), 8 * t as u64);
                        let mut src = Src::random(case_seed(seed, p.id, stream, i));
                        let t1 = Instant::now();
                        let (ctx, r) = run_case(p, &mut src, false);
                        if slow > 0 && t1.elapsed().as_millis() as u64 > slow { eprintln!("SLOW case {i}: {:?} {:?}", t1.elapsed(), ctx.labels); }
                        a.evals += 1;
                        a.work += ctx.work;
                        a.max_work = a.max_work.max(ctx.work);
                        for l in ctx.labels { *a.labels.entry(l).or_default() += 1; }
                        for (k, c) in ctx.known { *a.known.entry(k).or_default() += c; }
                        if ctx.nontrivial {
                            a.nontriv += 1;
                            a.hashes.push(ctx.fp);
                            if a.samples.len() < 4 || a.samples.last().unwrap() > &i { a.samples.insert(i); if a.samples.len() > 4 { a.samples.pop_last(); } }
                        }
                        if let Err(m) = r {
                            fail_at.fetch_min(i, SeqCst);
                            a.fails.insert(i, (src.tape, m));
                        }
                    }
                }
                beat.store(u64::MAX, SeqCst);
                let _ = progress.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                let mut g = agg.lock().unwrap();
                g.evals += a.evals; g.nontriv += a.nontriv; g.hashes.extend(a.hashes);
                g.work += a.work; g.max_work = g.max_work.max(a.max_work);
                for (k, v) in a.labels { *g.labels.entry(k).or_default() += v; }
                for (k, v) in a.known { *g.known.entry(k).or_default() += v; }
                g.samples.extend(a.samples); g.fails.extend(a.fails);
                done.fetch_add(1, SeqCst);
            }).unwrap();
        }
        // watchdog: a case that does not end stops the child (78); the parent
        // re-runs the case alone under a limit on its processor time
        let (beat, done) = (&beat, &done);
        sc.spawn(move || {
            let mut last: Vec<(u64, Instant)> = beat.iter().map(|b| (b.load(SeqCst), Instant::now())).collect();
            while done.load(SeqCst) < threads as u64 {
                std::thread::sleep(Duration::from_millis(20));
                for (b, l) in beat.iter().zip(last.iter_mut()) {
                    let v = b.load(SeqCst);
                    if v != l.0 || v == u64::MAX { *l = (v, Instant::now()); }
                    else if l.1.elapsed() > Duration::from_secs(70) {
                        eprintln!("HANG case {v}");
                        std::process::exit(78);
                    }
                }
            }
        });
    });
    let mut g = agg.into_inner().unwrap();
    let mut out = String::new();
    let _ = writeln!(out, "evals {}", g.evals);
    let _ = writeln!(out, "nontriv {}", g.nontriv);
    let _ = writeln!(out, "work {} {}", g.work, g.max_work);
    for (k, v) in &g.labels { let _ = writeln!(out, "label {v} {k}"); }
    for (k, v) in &g.known { let _ = writeln!(out, "known {v} {k}"); }
    g.hashes.sort_unstable();
    g.hashes.dedup();
    let bytes: Vec<u8> = g.hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(dir.join("hashes"), bytes).unwrap();
    let mut code = 0;
    if let Some((i, (tape, msg))) = g.fails.into_iter().next() {
        code = 1;
        let (tape, _) = shrink(tape, msg, 6000, Duration::from_secs(60), &mut |t| {
            let mut s = Src::replay(t);
            let (_, r) = run_case(p, &mut s, false);
            r.err().map(|m| (s.tape, m))
        });
        let (ctx, r) = replay(p, tape.clone());
        let msg = r.err().unwrap_or_else(|| "not reproduced on replay".into());
        let path = dir.join("fail.json");
        write_replay(&path, p.id, profile, seed, i, &tape, &msg, &ctx.desc);
        let _ = writeln!(out, "fail {i} {}", clip(&msg.replace('\n', " "), 600));
        let _ = writeln!(out, "input {}", clip(&ctx.desc.replace('\n', " "), 1500));
    } else {
        for i in g.samples.iter().take(4) {
            let mut src = Src::random(case_seed(seed, p.id, stream, *i));
            let (ctx, _) = run_case(p, &mut src, true);
            let _ = writeln!(out, "sample case {i}: {}", clip(&ctx.desc.replace('\n', " "), 700));
        }
    }
    std::fs::write(dir.join("report"), out).unwrap();
    code
}
/// Run one case (by index, or from a tape), logging every draw to a file so
/// that the tape survives a crash.
pub fn child_one(p: &Prop, mut src: Src, log: &Path) -> i32 {
    extern "C" { fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32; }
    if let Some(s) = std::env::var("GX_CPU").ok().and_then(|v| v.parse::<u64>().ok()) { unsafe { setrlimit(0, &[s, s + 5]); } }
    src.log = Some(std::fs::File::create(log).unwrap());
    let h = std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || run_case(p, &mut src, false).1).unwrap().join()
    });
    match h { Ok(Ok(())) => 0, _ => 1 }
}
pub fn src_for(p: &Prop, seed: u64, stream: u64, i: u64) -> Src { Src::random(case_seed(seed, p.id, stream, i)) }

#[derive(Default)]
struct Total { evals: u64, nontriv: u64, hashes: Vec<u64>, labels: BTreeMap<String, u64>, known: BTreeMap<String, u64>, samples: Vec<String>, work: u64, max_work: u64, per: Vec<String> }

/// Parent: spawn one child per build profile, interpret their ends.
/// Returns the exit code of the check.
pub fn parent(p: &Prop, seed: u64, tier: &str, root: &Path, bins: &[(String, PathBuf)]) -> i32 {
    let t0 = Instant::now();
    let work = root.join("out").join(p.id);
    std::fs::remove_dir_all(&work).ok();
    std::fs::create_dir_all(&work).unwrap();
    let counts = if tier == "thorough" { p.thorough } else { p.quick };
    let scale: f64 = std::env::var("GX_SCALE").ok().and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let mut tot = Total::default();
    let mut violation: Option<(String, PathBuf)> = None;
    for (stream, (profile, bin)) in bins.iter().enumerate() {
        let n = ((if stream == 0 { counts.0 } else { counts.1 }) as f64 * scale) as u64;
        if n == 0 { continue; }
        let dir = work.join(profile);
        std::fs::create_dir_all(&dir).unwrap();
        let st = std::process::Command::new(bin)
            .args(["child", p.id, &seed.to_string(), &stream.to_string(), &n.to_string(), profile]).arg(&dir)
            .stderr(if std::env::var_os("GX_PANIC").is_some() || std::env::var_os("GX_SLOW").is_some() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
            .status().expect("spawn child");
        let replay_path = work.join(format!("violation-{profile}.json"));
        use std::os::unix::process::ExitStatusExt;
        match (st.code(), st.signal()) {
            (Some(0), _) | (Some(1), _) => {
                let rep = std::fs::read_to_string(dir.join("report")).unwrap_or_default();
                let mut fail = None;
                let mut input = String::new();
                for l in rep.lines() {
                    let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                    match k {
                        "evals" => { let e: u64 = v.parse().unwrap(); tot.evals += e; tot.per.push(format!("{profile}: {e} cases")); }
                        "nontriv" => tot.nontriv += v.parse::<u64>().unwrap(),
                        "work" => { let (a, b) = v.split_once(' ').unwrap(); tot.work += a.parse::<u64>().unwrap(); tot.max_work = tot.max_work.max(b.parse().unwrap()); }
                        "label" => { let (c, n) = v.split_once(' ').unwrap(); *tot.labels.entry(n.into()).or_default() += c.parse::<u64>().unwrap(); }
                        "known" => { let (c, n) = v.split_once(' ').unwrap(); *tot.known.entry(n.into()).or_default() += c.parse::<u64>().unwrap(); }
                        "sample" => tot.samples.push(format!("[{profile}] {v}")),
                        "fail" => fail = Some(v.to_string()),
                        "input" => input = v.to_string(),
                        _ => {}
                    }
                }
                if let Ok(b) = std::fs::read(dir.join("hashes")) {
                    tot.hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
                if let Some(m) = fail {
                    std::fs::copy(dir.join("fail.json"), &replay_path).ok();
                    violation = Some((format!("[{profile}] case {m}\n  input: {input}"), replay_path));
                    break;
                }
                if st.code() == Some(1) { eprintln!("child failed without a report"); return 2; }
            }
            (c, s) if c == Some(77) || c == Some(78) || c == Some(99) || matches!(s, Some(4 | 6 | 7 | 8 | 11)) => {
                // crash: confirm by re-running the cases that were in flight, one per process
                let b = std::fs::read(dir.join("progress")).unwrap_or_default();
                let cand: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|v| *v > 0).map(|v| v - 1).collect();
                let what = |c: Option<i32>, s: Option<i32>| match (c, s) {
                    (Some(77), _) => Some("runaway allocation (deterministic bound exceeded)".to_string()),
                    (Some(99), _) => Some("address sanitizer report".to_string()),
                    (_, Some(24)) => Some("does not end (stopped by a limit on its processor time)".to_string()),
                    (_, Some(s @ (4 | 6 | 7 | 8 | 11))) => Some(format!("process killed by signal {s}")),
                    _ => None,
                };
                let log = dir.join("draws");
                let run = |args: &[&str], cpu: u64| {
                    let st = std::process::Command::new(bin).args(args).arg(&log).env("GX_CPU", cpu.to_string())
                        .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().expect("spawn");
                    what(st.code(), st.signal()).map(|w| (read_log(&log), format!("crash: {w}")))
                };
                let mut cand = cand; cand.sort();
                let mut found = None;
                for i in cand {
                    if let Some((tape, m)) = run(&["one", p.id, &seed.to_string(), &stream.to_string(), &i.to_string()], 40) { found = Some((i, tape, m)); break; }
                }
                let Some((i, tape, m)) = found else {
                    eprintln!("ERROR: child of {} ended with {st:?}, and no single case reproduces it", p.id);
                    return 2;
                };
                let tf = dir.join("tape");
                let (tape, msg) = shrink(tape, m, 400, Duration::from_secs(60), &mut |t| {
                    write_replay(&tf, p.id, profile, seed, i, &t, "", "");
                    run(&["onetape", p.id, tf.to_str().unwrap()], 5)
                });
                write_replay(&replay_path, p.id, profile, seed, i, &tape, &msg, "(crashes the process: replay it to see the input)");
                violation = Some((format!("[{profile}] case {i} {msg}"), replay_path));
                break;
            }
            other => {
                eprintln!("ERROR: child of {} ended with {other:?}: no verdict", p.id);
                return 2;
            }
        }
    }
    // recorded findings: replayed as written down, never added to here
    let mut finding_lines = vec![];
    if violation.is_none() {
        if let Some(f) = p.findings {
            let listed = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
            crate::fuel::reset();
            for (id, desc, still) in f() {
                let is_listed = listed.lines().any(|l| l.starts_with(&format!("finding: property={} {id} ", p.id)));
                if still && is_listed { finding_lines.push(format!("KNOWN-FINDING: property={} {id} {desc}", p.id)); }
                if still && !is_listed {
                    let path = work.join(format!("violation-{id}.json"));
                    write_replay(&path, p.id, "concrete", seed, 0, &[], &desc, &desc);
                    violation = Some((format!("{id} {desc} (not listed in known-findings.txt)"), path));
                }
            }
        }
    }
    tot.hashes.sort_unstable();
    tot.hashes.dedup();
    let mut j = String::new();
    let _ = write!(j, "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{seed},\n\"level\":\"exploration\",\n\"coverage\":{{\n \"evaluations\":{},\n \"distinct_nontrivial\":{},\n \"nontrivial_total\":{},\n \"rule\":{},\n", json_str(p.id), json_str(tier), tot.evals, tot.hashes.len(), tot.nontriv, json_str(p.rule));
    let _ = write!(j, " \"profiles\":[{}],\n", tot.per.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    let _ = write!(j, " \"oracle_units_checked\":{},\n \"largest_case_units\":{},\n", tot.work, tot.max_work);
    let _ = write!(j, " \"classes\":{{{}}},\n", tot.labels.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(","));
    let _ = write!(j, " \"tolerated_known_finding_occurrences\":{{{}}},\n", tot.known.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(","));
    let samples = if tot.samples.is_empty() { vec![violation.as_ref().map(|v| v.0.clone()).unwrap_or_default()] } else { tot.samples.clone() };
    let _ = write!(j, " \"samples\":[{}]\n}},\n", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n  "));
    let _ = write!(j, "\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n", p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64(), violation.is_some() as u32);
    std::fs::create_dir_all(root.join("evidence")).ok();
    std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), j).unwrap();
    for l in finding_lines { println!("{l}"); }
    println!("{}: {} cases, {} distinct non-trivial, {:.1}s", p.id, tot.evals, tot.hashes.len(), t0.elapsed().as_secs_f64());
    match violation {
        None => 0,
        Some((m, path)) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", p.id, path.display());
            1
        }
    }
}
fn read_log(p: &Path) -> Vec<u64> {
    std::fs::read(p).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
