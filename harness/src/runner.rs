//! Command line: seeded search over worker processes, minimisation, replay, evidence.
use crate::exec::{self, History, RunOpts};
use crate::judge::Viol;
use crate::plan::Plan;
use crate::{gen, props, shrink};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// Seconds of processor time after which one run (about 1 ms) counts as hanging;
/// real time, which a busy machine stretches, may be three times that.
const HANG_S: u64 = 30;
use crate::world::HANG_EXIT;

fn root() -> PathBuf { std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif")) }
fn clip(s: &str, n: usize) -> String { if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" } }

pub fn execute(p: &Plan, text: bool) -> (History, Vec<Viol>) {
    let h = exec::run(p, &RunOpts { text, snap: true });
    let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::judge(p, &h))) {
        Ok(v) => v,
        Err(_) => vec![Viol { class: "HARNESS".into(), msg: format!("the judge panicked: {}", exec::last_panic()) }],
    };
    (h, v)
}

// ------------------------------------------------------------------ watching for hangs

static RUN_NO: AtomicU64 = AtomicU64::new(0);
fn watch() {
    std::thread::spawn(|| {
        let cpu = || { let mut t: libc::timespec = unsafe { std::mem::zeroed() }; unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) }; t.tv_sec as u64 };
        let (mut last, mut since, mut used) = (RUN_NO.load(Ordering::SeqCst), Instant::now(), cpu());
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let n = RUN_NO.load(Ordering::SeqCst);
            if n != last { last = n; since = Instant::now(); used = cpu(); }
            else if cpu() - used >= HANG_S || since.elapsed().as_secs() >= 3 * HANG_S { unsafe { libc::_exit(HANG_EXIT) } }
        }
    });
}
fn tick() { RUN_NO.fetch_add(1, Ordering::SeqCst); }

/// 16 bytes of a file shared with the parent: run number being executed + 1, runs finished.
struct Progress(*mut u64);
impl Progress {
    fn open(path: &str) -> Progress {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(16).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 16, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Progress(p as *mut u64)
    }
    fn set(&self, i: u64, done: u64) { unsafe { self.0.write_volatile(i + 1); self.0.add(1).write_volatile(done); } }
}
fn read_progress(path: &str) -> (u64, u64) {
    match std::fs::read(path) {
        Ok(b) if b.len() == 16 => (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap())),
        _ => (0, 0),
    }
}

// ------------------------------------------------------------------ worker

#[derive(Serialize, Deserialize, Default)]
struct Sums {
    runs: u64, nontrivial: u64, steps: u64, calls: u64, switches: u64, ops: u64, faulty: u64, rechecked: u64, mismatched: u64,
    max_steps: u64,
    stats: BTreeMap<String, u64>, families: BTreeMap<String, u64>, results: BTreeMap<String, u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Found {
    run: u64, class: String, msg: String,
    /// First run of the process that found it (filled in by the parent).
    #[serde(default)]
    first: u64,
}

impl Sums {
    fn add(&mut self, p: &Plan, h: &History, nontrivial: bool) {
        self.runs += 1;
        self.nontrivial += nontrivial as u64;
        self.steps += h.steps;
        self.max_steps = self.max_steps.max(h.steps);
        self.calls += h.calls;
        self.switches += h.ctx_switches;
        self.ops += h.recs.len() as u64;
        self.faulty += h.recs.iter().any(|r| r.fired.iter().any(|f| f.hard)) as u64;
        for (k, n) in &h.stats { *self.stats.entry(k.clone()).or_default() += n; }
        *self.families.entry(p.family.clone()).or_default() += 1;
        for r in &h.recs {
            let k = match &r.res { exec::Res::Ok(_) => "ok", exec::Res::Err { io: Some(_), .. } => "I/O error", exec::Res::Err { .. } => "refused", exec::Res::Panic(_) => "panic", exec::Res::Dead => "process died" };
            *self.results.entry(k.into()).or_default() += 1;
        }
    }
    fn merge(&mut self, o: Sums) {
        self.runs += o.runs; self.nontrivial += o.nontrivial; self.steps += o.steps; self.calls += o.calls; self.switches += o.switches;
        self.ops += o.ops; self.faulty += o.faulty; self.rechecked += o.rechecked; self.mismatched += o.mismatched;
        self.max_steps = self.max_steps.max(o.max_steps);
        for (a, b) in [(&mut self.stats, o.stats), (&mut self.families, o.families), (&mut self.results, o.results)] { for (k, n) in b { *a.entry(k).or_default() += n; } }
    }
}

/// Executes runs first, first+stride, ... below n; prints violations as they occur.
pub fn worker(prop: &str, seed: u64, first: u64, stride: u64, n: u64, secs: u64, base: &str) -> i32 {
    watch();
    let prog = Progress::open(&format!("{}.progress", base));
    let t0 = Instant::now();
    let mut sums = Sums::default();
    let mut hashes: Vec<u8> = vec![];
    let mut found = 0;
    let out = std::io::stdout();
    let mut i = first;
    while i < n && t0.elapsed().as_secs() < secs {
        prog.set(i, sums.runs);
        tick();
        let p = gen::generate(prop, seed, i);
        let (h, v) = execute(&p, false);
        let nt = props::nontrivial(&p, &h);
        if nt { hashes.extend(h.hash.to_le_bytes()); }
        sums.add(&p, &h, nt);
        // the same plan again: one plan must be one execution
        if i % 97 == 0 {
            let p2 = gen::generate(prop, seed, i);
            let h2 = exec::run(&p2, &RunOpts { text: false, snap: true });
            sums.rechecked += 1;
            if p2 != p || h2.hash != h.hash { sums.mismatched += 1; }
        }
        let mut seen = BTreeSet::new();
        for x in v {
            if !seen.insert(x.class.clone()) { continue; }
            let f = Found { run: i, class: x.class, msg: clip(&x.msg, 1500), first };
            let mut o = out.lock();
            writeln!(o, "V {}", serde_json::to_string(&f).unwrap()).unwrap();
            o.flush().unwrap();
        }
        if !seen.is_empty() { found += 1; if found >= 40 { i += stride; break; } }
        i += stride;
    }
    std::fs::write(format!("{}.hashes", base), &hashes).unwrap();
    std::fs::write(format!("{}.cov", base), crate::cov::seen()).unwrap();
    println!("S {}", serde_json::to_string(&sums).unwrap());
    0
}

// ------------------------------------------------------------------ replay files

#[derive(Serialize, Deserialize)]
pub struct Replay {
    property: String,
    class: String,
    message: String,
    /// Master seed and run number of the first failing run.
    seed: u64,
    run: u64,
    minimised: bool,
    candidates_tried: u64,
    event_log_hash: String,
    /// One entry per scheduling point, system call and call result.
    event_log: Vec<String>,
    /// Plans executed before in the same process (when the violation needs what they left behind).
    #[serde(default)]
    prelude: Vec<Plan>,
    /// Else: (first run, stride) of the worker process, all of whose runs are executed before.
    #[serde(default)]
    history: Option<(u64, u64)>,
    plan: Plan,
}

/// What one fresh process executes: some plans that are not judged, then one that is.
#[derive(Serialize, Deserialize, Clone)]
struct Case { prelude: Vec<Plan>, plan: Plan }

fn run_before(prelude: &[Plan]) { for p in prelude { tick(); exec::run(p, &RunOpts { text: false, snap: true }); } }
fn run_history(prop: &str, seed: u64, h: (u64, u64), upto: u64) {
    let mut i = h.0;
    while i < upto {
        tick();
        let p = gen::generate(prop, seed, i);
        execute(&p, false);
        if i % 97 == 0 { exec::run(&gen::generate(prop, seed, i), &RunOpts { text: false, snap: true }); }
        i += h.1;
    }
    tick();
    gen::generate(prop, seed, upto);
}

/// Writes the plans executed by the last `k` runs before run `i` and by generating run `i`.
pub fn record(prop: &str, seed: u64, i: u64, first: u64, stride: u64, k: u64, to: &str) -> i32 {
    watch();
    exec::record_plans();
    let from = i.saturating_sub(k * stride).max(first);
    run_history(prop, seed, (from + (i - from) % stride, stride), i);
    std::fs::write(to, serde_json::to_vec(&exec::record_plans()).unwrap()).unwrap();
    0
}

fn has_class(v: &[Viol], class: &str) -> bool { v.iter().any(|x| x.class == class) }

pub fn replay(path: &str, talk: bool) -> i32 {
    let r: Replay = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => { eprintln!("cannot read replay file {}", path); return 2; }
    };
    watch();
    tick();
    run_before(&r.prelude);
    if let Some(h) = r.history { run_history(&r.property, r.seed, h, r.run); }
    tick();
    let (h, v) = execute(&r.plan, true);
    if talk {
        for l in &h.text { println!("{}", clip(l, 400)); }
        println!("event log hash {:016x} (recorded {})", h.hash, r.event_log_hash);
        for x in &v { println!("violated: [{}] {}", x.class, clip(&x.msg, 1500)); }
    }
    if has_class(&v, &r.class) {
        println!("VIOLATION property={} replay={}", r.property, path);
        if format!("{:016x}", h.hash) != r.event_log_hash { println!("note: the event log differs from the recorded one (the code under test changed since)"); }
        1
    } else { println!("not reproduced: property {} holds on this run", r.property); 0 }
}

/// Exit 10 when the plan in `path` shows a violation of `class`.
pub fn eval(path: &str, class: &str) -> i32 {
    watch();
    tick();
    let c: Case = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    run_before(&c.prelude);
    tick();
    let (_, v) = execute(&c.plan, false);
    if has_class(&v, class) { 10 } else { 0 }
}

/// Minimises the plan in `from` in this process; `to` always holds the best so far.
pub fn shrink_cmd(from: &str, to: &str, class: &str, secs: u64) -> i32 {
    watch();
    let p: Plan = serde_json::from_slice(&std::fs::read(from).unwrap()).unwrap();
    let mut fails = |p: &Plan| { tick(); has_class(&execute(p, false).1, class) };
    let mut better = |p: &Plan| { std::fs::write(to, serde_json::to_vec(p).unwrap()).unwrap(); };
    let (_, tried) = shrink::shrink(p, secs, &mut fails, &mut better);
    println!("{}", tried);
    0
}

/// Runs one plan of the search, dumping every plan right before it is executed.
pub fn one(prop: &str, seed: u64, i: u64, dump: &str) -> i32 {
    watch();
    tick();
    exec::dump_plans(Path::new(dump), prop);
    let p = gen::generate(prop, seed, i);
    execute(&p, false);
    0
}

pub fn show(prop: &str, seed: u64, i: u64) -> i32 {
    let p = gen::generate(prop, seed, i);
    println!("{}", serde_json::to_string(&p).unwrap());
    let (h, v) = execute(&p, true);
    for l in &h.text { println!("{}", clip(l, 300)); }
    println!("hash {:016x} steps {} calls {} switches {}", h.hash, h.steps, h.calls, h.ctx_switches);
    for x in &v { println!("violated: [{}] {}", x.class, clip(&x.msg, 1500)); }
    if v.is_empty() { 0 } else { 1 }
}

pub fn scan(prop: &str, seed: u64, n: u64) -> i32 {
    let mut cl: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let (mut nt, t0) = (0, Instant::now());
    let mut slow = (0.0, 0);
    for i in 0..n {
        let t = Instant::now();
        let p = gen::generate(prop, seed, i);
        let (h, v) = execute(&p, false);
        let dt = t.elapsed().as_secs_f64();
        if dt > slow.0 { slow = (dt, i); }
        nt += props::nontrivial(&p, &h) as u64;
        for x in v { cl.entry(x.class).or_insert((0, i, x.msg)).0 += 1; }
    }
    for (c, v) in cl { println!("{} x{} first {}: {}", c, v.0, v.1, clip(&v.2, 400)); }
    println!("{} {} runs, {} non-trivial, {:.2} s, slowest {:.3} s at {}", prop, n, nt, t0.elapsed().as_secs_f64(), slow.0, slow.1);
    0
}

/// The same plans give the same event logs in different processes and orders.
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    for p in props::ALL {
        let mut a = vec![];
        for i in 0..n { a.push(exec::run(&gen::generate(p, 7, i), &RunOpts { text: false, snap: true }).hash); }
        for i in (0..n).rev() { if exec::run(&gen::generate(p, 7, i), &RunOpts { text: false, snap: false }).hash != a[i as usize] { bad += 1; println!("{} run {} differs", p, i); } }
        let mut h = crate::rng::Hash64::new();
        for x in &a { h.u64(*x); }
        println!("{} {:016x}", p, h.0);
    }
    if bad > 0 { 1 } else { 0 }
}

// ------------------------------------------------------------------ known findings

/// Lines `known: property=<id> class=<class> match=<text in the message> -- <what fails>`.
struct Known { class: String, text: String, what: String, hit: bool }
fn known(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("known: ")?;
        let (head, what) = l.split_once(" -- ")?;
        let rest = head.strip_prefix(&format!("property={} class=", prop))?;
        let (class, text) = rest.split_once(" match=")?;
        Some(Known { class: class.trim().into(), text: text.trim().into(), what: what.trim().into(), hit: false })
    }).collect()
}

// ------------------------------------------------------------------ check

/// (quick runs, thorough runs) per property.
fn budget(prop: &str) -> (u64, u64) {
    let q = match prop {
        "C04" => 300_000,
        "C03" | "C08" | "C09" => 90_000,
        "C02" | "C10" | "C11" | "C16" => 70_000,
        "C01" | "C05" => 50_000,
        "C06" | "C07" | "C13" | "C17" => 40_000,
        "C12" | "C15" => 35_000,
        "C14" => 17_000,
        _ => 40_000,
    };
    (q, q * 40)
}

struct Job { child: std::process::Child, k: u64, base: String, part: u64, first: u64 }

pub fn check(prop: &str) -> i32 {
    if !props::ALL.contains(&prop) { eprintln!("unknown property {}", prop); return 2; }
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (q, th) = budget(prop);
    let mut n = if thorough { th } else { q };
    if let Some(x) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) { n = x; }
    let cap: u64 = if thorough { 3600 } else { 150 };
    let workers: u64 = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).clamp(1, 8);
    let exe = std::env::current_exe().unwrap();
    let work = root().join(format!("harness/target/work-{}-{}", prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    if let Err(e) = std::fs::create_dir_all(&work) { eprintln!("cannot make {}: {}", work.display(), e); return 2; }
    let code = check_in(prop, seed, n, cap, workers, thorough, &exe, &work, t0);
    let _ = std::fs::remove_dir_all(&work);
    code
}

#[allow(clippy::too_many_arguments)]
fn check_in(prop: &str, seed: u64, n: u64, cap: u64, workers: u64, thorough: bool, exe: &Path, work: &Path, t0: Instant) -> i32 {
    let spawn = |k: u64, part: u64, first: u64| -> Job {
        let base = work.join(format!("w{}-{}", k, part)).to_string_lossy().to_string();
        let left = cap.saturating_sub(t0.elapsed().as_secs()).max(1);
        let log = std::fs::File::create(format!("{}.out", base)).unwrap();
        let child = Command::new(exe).args(["worker", prop, &seed.to_string(), &first.to_string(), &workers.to_string(), &n.to_string(), &left.to_string(), &base])
            .stdout(log).stderr(Stdio::null()).stdin(Stdio::null()).spawn().expect("cannot start a worker");
        Job { child, k, base, part, first }
    };
    let mut jobs: Vec<Job> = (0..workers).map(|k| spawn(k, 0, k)).collect();
    let mut sums = Sums::default();
    let mut found: Vec<Found> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut edges: Vec<u8> = vec![];
    let mut died = 0;
    while let Some(mut j) = jobs.pop() {
        let st = match j.child.try_wait() { Ok(Some(s)) => s, _ => { jobs.insert(0, j); std::thread::sleep(Duration::from_millis(20)); continue; } };
        let f = BufReader::new(std::fs::File::open(format!("{}.out", j.base)).unwrap());
        let mut complete = false;
        for l in f.lines().map_while(Result::ok) {
            if let Some(x) = l.strip_prefix("V ") { if let Ok(v) = serde_json::from_str(x) { found.push(v); } }
            if let Some(x) = l.strip_prefix("S ") { if let Ok(v) = serde_json::from_str(x) { sums.merge(v); complete = true; } }
        }
        if let Ok(b) = std::fs::read(format!("{}.hashes", j.base)) { hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()))); }
        if let Ok(b) = std::fs::read(format!("{}.cov", j.base)) {
            edges.resize(edges.len().max(b.len()), 0);
            for (e, x) in edges.iter_mut().zip(&b) { *e |= x; }
        }
        if complete && st.success() { continue; }
        // the process ended inside a run
        let (at, done) = read_progress(&format!("{}.progress", j.base));
        sums.runs += done;
        if at == 0 { eprintln!("a worker ended before its first run: {:?}", st); return 2; }
        let class = if st.code() == Some(HANG_EXIT) { "hang" } else { "abort" };
        found.push(Found { run: at - 1, class: class.into(), msg: format!("run {} ended the process: {}", at - 1, if class == "hang" { format!("no progress for {} s", HANG_S) } else { format!("{:?}", st) }), first: j.first });
        died += 1;
        if died < if class == "hang" { 8 } else { 24 } && at - 1 + workers < n { let p = spawn(j.k, j.part + 1, at - 1 + workers); jobs.insert(0, p); }
    }
    let search_s = t0.elapsed().as_secs_f64();

    // harness trouble is never reported as a violation
    let undecided = found.iter().filter(|f| f.class == "HARNESS").count() as u64;
    if let Some(f) = found.iter().find(|f| f.class == "HARNESS") {
        eprintln!("warning: {} runs could not be judged, first run {} (seed {}): {}", undecided, f.run, seed, f.msg);
        if undecided > 3 + sums.runs / 1000 && found.iter().all(|f| f.class == "HARNESS") { return 2; }
        found.retain(|f| f.class != "HARNESS");
        *sums.stats.entry("runs that could not be judged".into()).or_insert(0) += undecided;
    }
    if sums.mismatched > 0 { eprintln!("warning: {} of {} re-executed runs differed", sums.mismatched, sums.rechecked); }

    let mut kn = known(prop);
    found.retain(|f| {
        for k in kn.iter_mut() { if k.class == f.class && f.msg.contains(&k.text) { k.hit = true; return false; } }
        true
    });
    for k in &kn { println!("KNOWN-FINDING: property={} {}", prop, k.what); }
    found.sort_by_key(|f| f.run);
    let mut by: BTreeMap<String, (u64, Found)> = BTreeMap::new();
    for f in &found { by.entry(f.class.clone()).or_insert((0, f.clone())).0 += 1; }
    let mut order: Vec<&(u64, Found)> = by.values().collect();
    order.sort_by_key(|x| x.1.run);
    let mut reported = 0;
    let mut weak = vec![];
    for (count, f) in order.iter().take(4) {
        let tag: String = f.class.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(40).collect();
        let rep = Reporter { prop, seed, exe, work, secs: if thorough { 90 } else { 40 }, tag, class: f.class.clone(), stride: workers };
        let of: Vec<&Found> = found.iter().filter(|x| x.class == f.class).collect();
        match rep.report(&of) {
            Ok(path) => {
                println!("violation class [{}] in {} runs, first run {}: {}", f.class, count, f.run, clip(&f.msg, 600));
                println!("VIOLATION property={} replay={}", prop, path);
                reported += 1;
            }
            Err(e) if f.class == "hang" || f.class == "abort" => eprintln!("warning: [{}] run {}: {}", f.class, f.run, e),
            Err(e) => weak.push(format!("[{}] run {}: {}", f.class, f.run, e)),
        }
    }
    evidence(prop, seed, thorough, &sums, &hashes, &edges, &found, search_s, workers, t0);
    println!("{}: {} runs ({} non-trivial and distinct), {} violating runs, {:.1} s", prop, sums.runs, hashes.len(), found.iter().map(|f| f.run).collect::<BTreeSet<_>>().len(), t0.elapsed().as_secs_f64());
    if reported > 0 { return 1; }
    if !weak.is_empty() { for w in weak { eprintln!("violation that does not replay: {}", w); } return 2; }
    0
}

struct Reporter<'a> { prop: &'a str, seed: u64, exe: &'a Path, work: &'a Path, secs: u64, tag: String, class: String, stride: u64 }

impl Reporter<'_> {
    /// Does a fresh process show the violation?
    fn fresh(&self, c: &Case) -> bool {
        let f = self.work.join(format!("cand-{}.json", self.tag));
        if std::fs::write(&f, serde_json::to_vec(c).unwrap()).is_err() { return false; }
        let st = Command::new(self.exe).args(["eval", f.to_str().unwrap(), &self.class]).stdout(Stdio::null()).stderr(Stdio::null()).status();
        match st {
            Ok(s) if self.class == "hang" => s.code() == Some(HANG_EXIT),
            Ok(s) if self.class == "abort" => s.code().is_none(),
            Ok(s) => s.code() == Some(10),
            _ => false,
        }
    }
    fn dies(&self) -> bool { self.class == "abort" || self.class == "hang" }

    /// The plan of a run; of a run that ended its process, the plan being executed then.
    fn plan_of(&self, f: &Found) -> Option<Plan> {
        if !self.dies() { return Some(gen::generate(self.prop, self.seed, f.run)); }
        let at = self.work.join(format!("one-{}.json", self.tag));
        let _ = Command::new(self.exe).args(["one", self.prop, &self.seed.to_string(), &f.run.to_string(), at.to_str()?]).stdout(Stdio::null()).stderr(Stdio::null()).status();
        serde_json::from_slice(&std::fs::read(&at).ok()?).ok()
    }

    /// Minimises a plan that fails alone, in one process as far as that works.
    fn minimise(&self, plan: &Plan) -> (Plan, u64) {
        let (from, to) = (self.work.join(format!("from-{}.json", self.tag)), self.work.join(format!("to-{}.json", self.tag)));
        let mut tried = 0;
        if !self.dies() && std::fs::write(&from, serde_json::to_vec(plan).unwrap()).is_ok() && std::fs::write(&to, serde_json::to_vec(plan).unwrap()).is_ok() {
            let o = Command::new(self.exe).args(["shrink", from.to_str().unwrap(), to.to_str().unwrap(), &self.class, &self.secs.to_string()]).stderr(Stdio::null()).output();
            if let Ok(o) = o { tried = String::from_utf8_lossy(&o.stdout).trim().parse().unwrap_or(0); }
            if let Some(p) = std::fs::read(&to).ok().and_then(|b| serde_json::from_slice::<Plan>(&b).ok()) {
                if self.fresh(&Case { prelude: vec![], plan: p.clone() }) { return (p, tried); }
            }
        }
        let (p, n) = self.minimise_fresh(vec![], plan);
        (p, n + tried)
    }
    /// Minimises with a new process for every candidate.
    fn minimise_fresh(&self, prelude: Vec<Plan>, plan: &Plan) -> (Plan, u64) {
        let mut fails = |p: &Plan| self.fresh(&Case { prelude: prelude.clone(), plan: p.clone() });
        shrink::shrink(plan.clone(), self.secs * if self.class == "hang" { 2 } else { 1 }, &mut fails, &mut |_| {})
    }

    /// The runs before `f` in its worker that are needed, if any make it fail again.
    fn prelude(&self, f: &Found, plan: &Plan) -> Option<Vec<Plan>> {
        let to = self.work.join(format!("before-{}.json", self.tag));
        let until = Instant::now() + Duration::from_secs(self.secs);
        for k in [0u64, 1, 4, 16, 64, 256] {
            let st = Command::new(self.exe).args(["record", self.prop, &self.seed.to_string(), &f.run.to_string(), &f.first.to_string(), &self.stride.to_string(), &k.to_string(), to.to_str()?])
                .stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
            if !st.success() { return None; }
            let all: Vec<Plan> = serde_json::from_slice(&std::fs::read(&to).ok()?).ok()?;
            if !self.fresh(&Case { prelude: all.clone(), plan: plan.clone() }) {
                if Instant::now() > until || f.run.saturating_sub(k * self.stride) <= f.first { return None; }
                continue;
            }
            // drop what is not needed
            let mut cur = all;
            let mut size = cur.len().max(1);
            while size >= 1 {
                let mut at = 0;
                while at < cur.len() && Instant::now() < until {
                    let mut c = cur.clone();
                    c.drain(at..(at + size).min(cur.len()));
                    if self.fresh(&Case { prelude: c.clone(), plan: plan.clone() }) { cur = c; } else { at += size; }
                }
                size /= 2;
            }
            return Some(cur);
        }
        None
    }

    /// Writes the replay file and executes it again in a fresh process.
    fn write(&self, f: &Found, minimised: bool, tried: u64, prelude: Vec<Plan>, history: Option<(u64, u64)>, plan: &Plan) -> Result<(String, bool), String> {
        let dir = root().join("replays");
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let path = dir.join(format!("{}-{}-{}-{}.json", self.prop, self.seed, f.run, self.tag)).to_string_lossy().to_string();
        let mut r = Replay { property: self.prop.into(), class: self.class.clone(), message: f.msg.clone(), seed: self.seed, run: f.run, minimised, candidates_tried: tried, event_log_hash: String::new(), event_log: vec![], prelude, history, plan: plan.clone() };
        let put = |r: &Replay| std::fs::write(&path, serde_json::to_string_pretty(r).unwrap()).map_err(|e| e.to_string());
        put(&r)?;
        if !self.dies() {
            // the event log comes from a fresh process too
            let log = self.work.join(format!("log-{}.json", self.tag));
            let _ = Command::new(self.exe).args(["log", &path, log.to_str().unwrap()]).stdout(Stdio::null()).stderr(Stdio::null()).status();
            if let Some((hash, text, msg)) = std::fs::read(&log).ok().and_then(|b| serde_json::from_slice::<(String, Vec<String>, Option<String>)>(&b).ok()) {
                r.event_log_hash = hash;
                r.event_log = text;
                if let Some(m) = msg { r.message = m; }
            }
            put(&r)?;
        }
        let st = Command::new(self.exe).args(["replay", &path]).stdout(Stdio::null()).stderr(Stdio::null()).status().map_err(|e| e.to_string())?;
        let again = match self.class.as_str() { "hang" => st.code() == Some(HANG_EXIT), "abort" => st.code().is_none(), _ => st.code() == Some(1) };
        Ok((path, again))
    }

    /// Minimises one of the failing runs of the class and writes its replay file.
    fn report(&self, founds: &[&Found]) -> Result<String, String> {
        for f in founds.iter().take(4) {
            let plan = match self.plan_of(f) { Some(p) => p, None => continue };
            if !self.fresh(&Case { prelude: vec![], plan: plan.clone() }) { continue; }
            let (small, tried) = self.minimise(&plan);
            if let (p, true) = self.write(f, true, tried, vec![], None, &small)? { return Ok(p); }
            if let (p, true) = self.write(f, false, tried, vec![], None, &plan)? { return Ok(p); }
        }
        if self.dies() { return Err("the process did not end again".into()); }
        // it needs something earlier runs left behind in the process
        for f in founds.iter().take(3) {
            let plan = match self.plan_of(f) { Some(p) => p, None => continue };
            if let Some(before) = self.prelude(f, &plan) {
                let (small, tried) = self.minimise_fresh(before.clone(), &plan);
                if let (p, true) = self.write(f, true, tried, before.clone(), None, &small)? { return Ok(p); }
                if let (p, true) = self.write(f, false, tried, before, None, &plan)? { return Ok(p); }
            }
        }
        let f = founds[0];
        let plan = self.plan_of(f).ok_or("no plan")?;
        match self.write(f, false, 0, vec![], Some((f.first, self.stride)), &plan)? {
            (p, true) => Ok(p),
            (p, false) if founds.len() > 1 => { eprintln!("warning: {} does not fail every time", p); Ok(p) }
            _ => Err("no fresh process reproduced it".into()),
        }
    }
}

/// Executes a replay file and writes its event log.
pub fn log(path: &str, to: &str) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    watch();
    run_before(&r.prelude);
    if let Some(h) = r.history { run_history(&r.property, r.seed, h, r.run); }
    tick();
    let (h, v) = execute(&r.plan, true);
    let text: Vec<String> = h.text.iter().take(5000).map(|l| clip(l, 400)).collect();
    let msg = v.iter().find(|x| x.class == r.class).map(|x| clip(&x.msg, 3000));
    std::fs::write(to, serde_json::to_vec(&(format!("{:016x}", h.hash), text, msg)).unwrap()).unwrap();
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, seed: u64, thorough: bool, s: &Sums, hashes: &HashSet<u64>, edges: &[u8], found: &[Found], search_s: f64, workers: u64, t0: Instant) {
    let mut samples = vec![];
    for i in [0u64, 1, 2] {
        if found.iter().any(|f| f.run == i && (f.class == "abort" || f.class == "hang")) { continue; }
        let p = gen::generate(prop, seed, i);
        let (h, _) = execute(&p, true);
        let log: Vec<String> = h.text.iter().take(40).map(|l| clip(l, 160)).collect();
        samples.push(serde_json::json!({ "seed": seed, "run": i, "family": p.family, "faults": clip(&serde_json::to_string(&p.faults).unwrap(), 400), "switches": p.switches.len(), "event_log_hash": format!("{:016x}", h.hash), "event_log_head": log }));
    }
    let per_h = s.runs as f64 / search_s.max(0.001) * 3600.0;
    let v = serde_json::json!({
        "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": hashes.len(),
            "rule": format!("One evaluation is one simulated run: plan = generate({}, VERIF_SEED, run number), executed on the simulated kernel and judged. Non-trivial: {}. Distinct: the hash of the complete event log (every scheduling point, system call with arguments and result, fault, and call result) differs.", prop, props::nontrivial_rule(prop)),
            "samples": samples,
            "nontrivial_runs": s.nontrivial,
            "runs_per_hour": per_h as u64,
            "simulated_steps": s.steps,
            "simulated_system_calls": s.calls,
            "longest_run_steps": s.max_steps,
            "context_switches": s.switches,
            "library_calls_judged": s.ops,
            "runs_with_hard_faults": s.faulty,
            "events_and_faults_by_kind": s.stats,
            "runs_by_family": s.families,
            "call_outcomes": s.results,
            "library_edges_covered": edges.iter().filter(|x| **x != 0).count(),
            "library_edges_instrumented": crate::cov::total(),
            "determinism_reexecutions": s.rechecked,
            "determinism_mismatches": s.mismatched,
            "worker_processes": workers,
            "simulated_time": "netcdf3 reads no clock and sets no timer; logical time is the step counter (simulated_steps)",
            "real_components": "all of netcdf3 (rebuilt from /repo's working tree), nom, byteorder, Rust std",
            "stubbed_components": "the kernel's file API below libc (open, read, write, lseek, fstat, statx, ftruncate, close, rename, unlink, ...), the disk, the thread scheduler, process crash, getrandom",
        },
        "assumptions": [
            "the simulated kernel and the reference model (harness/src/world.rs, model.rs) follow POSIX and the NetCDF-3 specification",
            "a crash loses the process, not the kernel: completed system calls survive (power loss without fsync is outside the statement)",
            "context switches happen at system calls, at the instrumented edges (basic blocks) of library code, and at lock waits; one actor runs at a time, so effects of weak memory ordering are not simulated"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.iter().map(|f| f.run).collect::<BTreeSet<_>>().len(),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&v).unwrap()) { eprintln!("cannot write evidence: {}", e); }
}
