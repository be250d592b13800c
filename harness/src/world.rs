//! The simulated kernel: file system, descriptor table, faults, scheduler, event log.
//!
//! Everything here is deterministic: no clock, no randomness; every decision
//! comes from the plan (faults, switch points, I/O mode) and from counters.
use crate::plan::Inside;
use crate::rng::{mix, Hash64};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const PREFIX: &[u8] = b"/simdisk/";
pub const FD_BASE: i32 = 1_000_000;
pub const PAGE: usize = 512;

// ------------------------------------------------------------------ files

#[derive(Clone, Default, Debug)]
pub struct Sparse { pages: BTreeMap<u64, Arc<[u8; PAGE]>>, len: u64 }

impl Sparse {
    pub fn from_bytes(b: &[u8]) -> Sparse { let mut s = Sparse::default(); s.write_at(0, b); s }
    pub fn len(&self) -> u64 { self.len }
    pub fn num_pages(&self) -> u64 { self.pages.len() as u64 }
    pub fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.len { return 0; }
        let n = ((self.len - off).min(buf.len() as u64)) as usize;
        let mut done = 0;
        while done < n {
            let p = off + done as u64;
            let (pg, o) = (p / PAGE as u64, (p % PAGE as u64) as usize);
            let k = (PAGE - o).min(n - done);
            match self.pages.get(&pg) {
                Some(d) => buf[done..done + k].copy_from_slice(&d[o..o + k]),
                None => buf[done..done + k].fill(0),
            }
            done += k;
        }
        n
    }
    pub fn write_at(&mut self, off: u64, data: &[u8]) {
        let mut done = 0;
        while done < data.len() {
            let p = off + done as u64;
            let (pg, o) = (p / PAGE as u64, (p % PAGE as u64) as usize);
            let k = (PAGE - o).min(data.len() - done);
            let page = self.pages.entry(pg).or_insert_with(|| Arc::new([0; PAGE]));
            Arc::make_mut(page)[o..o + k].copy_from_slice(&data[done..done + k]);
            done += k;
        }
        if !data.is_empty() { self.len = self.len.max(off + data.len() as u64); }
    }
    /// The parts of [from, to) that were ever written, as runs of at most a page.
    pub fn present(&self, from: u64, to: u64) -> Vec<(u64, Vec<u8>)> {
        let to = to.min(self.len);
        if from >= to { return vec![]; }
        self.pages.range(from / PAGE as u64..=(to - 1) / PAGE as u64).map(|(p, d)| {
            let base = p * PAGE as u64;
            let (a, b) = (from.max(base), to.min(base + PAGE as u64));
            (a, d[(a - base) as usize..(b - base) as usize].to_vec())
        }).collect()
    }
    pub fn has_page(&self, pg: u64) -> bool { self.pages.contains_key(&pg) }
    pub fn truncate(&mut self, len: u64) {
        if len < self.len {
            let first_gone = (len + PAGE as u64 - 1) / PAGE as u64;
            self.pages.split_off(&first_gone);
            if len % PAGE as u64 != 0 {
                if let Some(p) = self.pages.get_mut(&(len / PAGE as u64)) {
                    Arc::make_mut(p)[(len % PAGE as u64) as usize..].fill(0);
                }
            }
        }
        self.len = len;
    }
    /// Whole content; only for files known to be small.
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0; self.len.min(64 << 20) as usize];
        self.read_at(0, &mut v);
        v
    }
    pub fn slice(&self, off: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        let k = self.read_at(off, &mut v);
        v.truncate(k);
        v
    }
    /// Byte offsets (up to `max`) at which the two files differ (bytes beyond the
    /// end count as absent, so a pure length change with zero bytes is reported too).
    pub fn diff(&self, other: &Sparse, max: usize) -> Vec<u64> {
        let mut out = vec![];
        let keys: BTreeSet<u64> = self.pages.keys().chain(other.pages.keys()).cloned().collect();
        let z = [0u8; PAGE];
        for k in keys {
            let a: &[u8; PAGE] = self.pages.get(&k).map(|p| &**p).unwrap_or(&z);
            let b: &[u8; PAGE] = other.pages.get(&k).map(|p| &**p).unwrap_or(&z);
            if a == b { continue; }
            for i in 0..PAGE {
                if a[i] != b[i] {
                    out.push(k * PAGE as u64 + i as u64);
                    if out.len() >= max { return out; }
                }
            }
        }
        out
    }
    pub fn same(&self, other: &Sparse) -> bool { self.len == other.len && self.diff(other, 1).is_empty() }
}

#[derive(Clone, Debug)]
pub struct Inode { pub data: Sparse, pub readonly: bool, pub version: u64 }

#[derive(Clone, Debug, Default)]
pub struct Fs {
    pub inodes: BTreeMap<u64, Inode>,
    pub names: BTreeMap<Vec<u8>, u64>,
    pub dirs: BTreeSet<Vec<u8>>,
    next_ino: u64,
    /// Sectors that may still be allocated (full-disk simulation).
    pub sectors_left: Option<u64>,
    /// Largest file offset that may be written (EFBIG simulation).
    pub max_file: Option<u64>,
}

impl Fs {
    fn new() -> Fs {
        let mut f = Fs::default();
        f.next_ino = 1;
        f.dirs.insert(b"/simdisk".to_vec());
        f
    }
    pub fn put(&mut self, path: &str, data: Sparse) -> u64 {
        let ino = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(ino, Inode { data, readonly: false, version: 0 });
        self.names.insert(path.as_bytes().to_vec(), ino);
        ino
    }
    pub fn get(&self, path: &str) -> Option<&Sparse> {
        self.names.get(path.as_bytes()).and_then(|i| self.inodes.get(i)).map(|i| &i.data)
    }
    pub fn ino(&self, path: &str) -> Option<u64> { self.names.get(path.as_bytes()).cloned() }
    fn parent_ok(&self, path: &[u8]) -> bool {
        let cut = path.iter().rposition(|c| *c == b'/').unwrap_or(0);
        self.dirs.contains(&path[..cut])
    }
}

#[derive(Clone, Debug)]
struct OpenFile { ino: u64, pos: u64, r: bool, w: bool, append: bool, owner: i32, refs: u32 }

// ------------------------------------------------------------------ plan parts

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Kind { Open, Read, Write, Seek, Stat, Close, Trunc, Sync, Name }
pub const NKINDS: usize = 9;

/// What happens at one chosen system call.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    /// Fails with this errno, no effect.
    Err(i32),
    /// Transfers at most n bytes (n >= 1).
    Short(u32),
    /// A write that returns 0.
    Zero,
    /// The process dies in this call; for a write, after `keep` bytes reached the file;
    /// for other calls, before (keep == 0) or after (keep > 0) the effect.
    Crash { keep: u32 },
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Fault { pub actor: u8, pub op: u32, pub kind: Kind, pub nth: u32, pub act: Act }

/// How well-behaved I/O is delivered to one actor.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct IoMode {
    /// Upper bound of bytes per read (0: unlimited).
    pub max_read: u32,
    /// Upper bound of bytes per write (0: unlimited).
    pub max_write: u32,
    /// Vary the bound per call, keyed by this word (0: constant bound).
    pub vary: u64,
    /// Per-mille of reads and writes that are interrupted first.
    pub eintr: u32,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fired { pub kind: Kind, pub act: Act, pub hard: bool }

#[derive(Default)]
struct Actor {
    name: String,
    op: u32,
    counts: [u32; NKINDS],
    faults: Vec<(Fault, bool)>,
    io: IoMode,
    calls: u64,
    eintr_run: u32,
    op_calls: u64,
    /// Calls of this operation that were cut short or interrupted.
    op_cuts: u64,
    op_limit: u64,
    over_limit: bool,
    crashed: bool,
    done: bool,
    fired: Vec<Fired>,
    bad_fd: u32,
    mutating: u64,
    trace: Vec<(u32, [u32; NKINDS])>,
    write_sizes: Vec<(u32, u32, u32)>,
    touched: BTreeSet<Vec<u8>>,
    opened_ino: Vec<u64>,
}

pub struct World {
    pub fs: Fs,
    files: Vec<OpenFile>,
    fds: BTreeMap<i32, usize>,
    next_fd: i32,
    actors: Vec<Actor>,
    current: i32,
    pub step: u64,
    switches: Vec<(u64, u8)>,
    next_switch: usize,
    pub hash: Hash64,
    pub text: Option<Vec<String>>,
    pub stats: BTreeMap<String, u64>,
    acts: BTreeMap<(Kind, i32), u64>,
    phase: (usize, usize),
    pub ctx_switches: u64,
    pub total_calls: u64,
    /// Thread of each actor; per thread, the actor that was switched out inside a call.
    group: Vec<usize>,
    busy: Vec<Option<i32>>,
    /// Per actor: preemption points inside library code still to come.
    inside: Vec<Vec<Inside>>,
    futex_yields: u64,
    pub clock: u64,
}
pub const HANG_EXIT: i32 = 97;

static WORLD: Mutex<Option<World>> = Mutex::new(None);
pub const MAX_ACTORS: usize = 32;
static CVS: [Condvar; MAX_ACTORS] = [const { Condvar::new() }; MAX_ACTORS];

thread_local! { static ME: Cell<i32> = const { Cell::new(-1) }; }

pub fn set_me(a: i32) { ME.with(|m| m.set(a)); }
fn me() -> i32 { ME.with(|m| m.get()) }
pub fn is_actor() -> bool { me() >= 0 }
/// Simulated time in nanoseconds: steps, plus what was slept.
pub fn now() -> u64 { with(|w| w.clock + w.step * 1000) }
pub fn sleep(ns: u64) { with(|w| w.clock += ns); give_way("sleep"); }

type G = MutexGuard<'static, Option<World>>;
fn lock() -> G { WORLD.lock().unwrap_or_else(|e| e.into_inner()) }

/// Direct access for the harness (never a yield point, never faulted).
pub fn with<T>(f: impl FnOnce(&mut World) -> T) -> T {
    let on = crate::alloc::pause();
    let mut g = lock();
    let r = f(g.as_mut().expect("no world"));
    drop(g);
    crate::alloc::resume(on);
    r
}

pub struct Setup<'a> {
    pub threads: &'a [u8],
    pub inside: &'a [Inside],
    pub actors: usize,
    pub io: &'a [IoMode],
    pub faults: &'a [Fault],
    pub switches: &'a [(u64, u8)],
    pub text: bool,
}

pub fn reset(s: &Setup) {
    let mut actors: Vec<Actor> = (0..s.actors).map(|i| Actor { name: format!("a{}", i), io: s.io.get(i).cloned().unwrap_or_default(), op_limit: u64::MAX, ..Default::default() }).collect();
    for f in s.faults {
        if let Some(a) = actors.get_mut(f.actor as usize) { a.faults.push((f.clone(), false)); }
    }
    *lock() = Some(World {
        fs: Fs::new(), files: vec![], fds: BTreeMap::new(), next_fd: FD_BASE, actors,
        current: 0, step: 0, switches: s.switches.to_vec(), next_switch: 0, hash: Hash64::new(),
        text: if s.text { Some(vec![]) } else { None }, stats: BTreeMap::new(), acts: BTreeMap::new(), phase: (0, s.actors), ctx_switches: 0, total_calls: 0,
        group: (0..s.actors).map(|a| if s.threads.len() == s.actors { s.threads[a] as usize % MAX_ACTORS } else { a }).collect(),
        busy: vec![None; MAX_ACTORS],
        inside: (0..s.actors).map(|a| s.inside.iter().filter(|x| x.actor as usize == a).cloned().collect()).collect(),
        futex_yields: 0, clock: 0,
    });
}

impl World {
    fn log(&mut self, a: i32, what: &str, x: i64, y: i64, r: Result<i64, i32>) {
        self.hash.u64(a as u64);
        self.hash.bytes(what.as_bytes());
        self.hash.u64(x as u64);
        self.hash.u64(y as u64);
        self.hash.u64(match r { Ok(v) => v as u64, Err(e) => (e as u64) | 1 << 40 });
        if let Some(t) = &mut self.text {
            let r = match r { Ok(v) => format!("{}", v), Err(e) => format!("-1 {}", errno_name(e)) };
            t.push(format!("[{}] a{} {}({}, {}) = {}", self.step, a, what, x, y, r));
        }
    }
    pub fn note(&mut self, s: String) {
        self.hash.bytes(s.as_bytes());
        if let Some(t) = &mut self.text { t.push(s); }
    }
    fn count(&mut self, kind: Kind, act: &Act) {
        let code = match act { Act::Err(e) => *e, Act::Short(_) => -1, Act::Zero => -2, Act::Crash { keep: 0 } => -3, Act::Crash { .. } => -4 };
        *self.acts.entry((kind, code)).or_insert(0) += 1;
    }
    /// All counters, with readable names.
    pub fn take_stats(&mut self) -> BTreeMap<String, u64> {
        for ((k, c), n) in std::mem::take(&mut self.acts) {
            let a = match c { -1 => Act::Short(1), -2 => Act::Zero, -3 => Act::Crash { keep: 0 }, -4 => Act::Crash { keep: 1 }, e => Act::Err(e) };
            *self.stats.entry(act_name(k, &a)).or_insert(0) += n;
        }
        std::mem::take(&mut self.stats)
    }
    pub fn stat(&mut self, k: &str) { *self.stats.entry(k.to_string()).or_insert(0) += 1; }
    pub fn crashed(&self, a: usize) -> bool { self.actors[a].crashed }
    /// Descriptors still open that this actor opened.
    pub fn open_fds(&self, a: i32) -> usize { self.fds.values().filter(|f| self.files[**f].owner == a).count() }
    pub fn bad_fd_uses(&self, a: usize) -> u32 { self.actors[a].bad_fd }
    pub fn touched(&self, a: usize) -> BTreeSet<Vec<u8>> { self.actors[a].touched.clone() }
    pub fn mutating_calls(&self, a: usize) -> u64 { self.actors[a].mutating }
    pub fn opened(&self, a: usize) -> Vec<u64> { self.actors[a].opened_ino.clone() }
    pub fn trace(&self, a: usize) -> Vec<(u32, [u32; NKINDS])> {
        let ac = &self.actors[a];
        let mut t = ac.trace.clone();
        t.push((ac.op, ac.counts));
        t
    }
    /// (op, nth write in the op, size) of every write of an actor (first 4096).
    pub fn write_sizes(&self, a: usize) -> Vec<(u32, u32, u32)> { self.actors[a].write_sizes.clone() }

    fn runnable(&self, a: i32) -> bool { let a = a as usize; a >= self.phase.0 && a < self.phase.0 + self.phase.1 && !self.actors[a].done }
}

// ------------------------------------------------------------------ scheduling

fn hand_over(mut g: G, from: i32, to: i32, boundary: bool) -> G {
    let (gf, gt, shared) = {
        let w = g.as_mut().unwrap();
        w.current = to;
        w.ctx_switches += 1;
        w.hash.u64(0x5157 ^ (to as u64) << 20);
        if let Some(t) = &mut w.text { t.push(format!("[{}] -- switch a{} -> a{}{}", w.step, from, to, if boundary { "" } else { " inside the call" })); }
        let (gf, gt) = (w.group[from as usize], w.group[to as usize]);
        if !boundary { w.busy[gf] = Some(from); }
        (gf, gt, w.shared(gf))
    };
    if gt != gf { CVS[gt].notify_one(); }
    if boundary && shared {
        drop(g);
        crate::coro::yield_main();
        return lock();
    }
    while g.as_ref().unwrap().current != from {
        g = CVS[gf].wait(g).unwrap_or_else(|e| e.into_inner());
    }
    if !boundary { g.as_mut().unwrap().busy[gf] = None; }
    g
}

impl World {
    /// More than one actor of this phase runs on thread g.
    fn shared(&self, g: usize) -> bool { (self.phase.0..self.phase.0 + self.phase.1).filter(|a| self.group[*a] == g).count() > 1 }
    /// The actor that runs when `t` is asked for while `a` gives way; -1: none.
    fn resolve(&self, a: i32, t: i32, boundary: bool) -> i32 {
        if !self.runnable(t) { return -1; }
        let gt = self.group[t as usize];
        let t = self.busy[gt].unwrap_or(t);
        if t == a || (!boundary && gt == self.group[a as usize]) { return -1; }
        t
    }
}

/// One scheduling point of actor `a`: counts a step and maybe lets another actor run.
/// `boundary`: between two library calls, where actors of the same thread may take turns.
fn point(mut g: G, a: i32, boundary: bool) -> G {
    let w = g.as_mut().unwrap();
    w.step += 1;
    let step = w.step;
    let mut target = -1;
    while w.next_switch < w.switches.len() && w.switches[w.next_switch].0 <= step {
        let (_, t) = w.switches[w.next_switch];
        w.next_switch += 1;
        let t = w.resolve(a, t as i32, boundary);
        if t >= 0 { target = t; }
    }
    if target < 0 { return g; }
    g = hand_over(g, a, target, boundary);
    g.as_mut().unwrap().step += 1; // every action has its own step number
    g
}

/// A planned preemption inside library code; returns the next one of this call.
pub fn inside_point(n: u64) -> Option<u64> {
    let a = me();
    if a < 0 { return None; }
    let mut g = lock();
    let w = g.as_mut()?;
    let op = w.actors[a as usize].op;
    let mut to = -1;
    if let Some(k) = w.inside[a as usize].iter().position(|x| x.op == op && x.at == n) {
        let x = w.inside[a as usize].remove(k);
        to = w.resolve(a, x.to as i32, false);
    }
    w.step += 1;
    w.hash.u64(0x1D5 ^ n << 16);
    if to >= 0 && !w.actors[a as usize].crashed {
        w.stat("preempted inside library code");
        g = hand_over(g, a, to, false);
        g.as_mut().unwrap().step += 1;
    }
    let w = g.as_ref().unwrap();
    w.inside[a as usize].iter().filter(|x| x.op == op && x.at > n).map(|x| x.at).min()
}

/// The calling library code waits for something another actor must do (a lock, a sleep).
/// false: nobody else can run.
pub fn give_way(why: &str) -> bool {
    let a = me();
    if a < 0 { return true; }
    let on = crate::alloc::pause();
    let mut g = lock();
    let w = g.as_mut().unwrap();
    w.step += 1;
    w.futex_yields += 1;
    if w.futex_yields > 20_000 { unsafe { libc::_exit(HANG_EXIT) } }
    let (base, n) = w.phase;
    let to = (1..n).map(|d| (base + (a as usize - base + d) % n) as i32).map(|t| w.resolve(a, t, false)).find(|t| *t >= 0);
    if let Some(t) = to {
        w.stat(why);
        g = hand_over(g, a, t, false);
        g.as_mut().unwrap().step += 1;
    }
    drop(g);
    crate::alloc::resume(on);
    to.is_some()
}

/// Starts a phase: actors base..base+n may run, base first.
pub fn phase(base: usize, n: usize) { with(|w| { w.phase = (base, n); w.current = base as i32; w.busy.iter_mut().for_each(|b| *b = None); }) }

/// The actor is done: the next one, round robin, runs.
fn finish(i: usize, base: usize, n: usize) {
    let mut g = lock();
    let w = g.as_mut().unwrap();
    w.actors[i].done = true;
    w.hash.u64(0xD0E ^ (i as u64) << 24);
    let next = (1..n).map(|d| base + (i - base + d) % n).find(|j| !w.actors[*j].done);
    if let Some(j) = next {
        let j = w.busy[w.group[j]].unwrap_or(j as i32);
        w.current = j;
        w.ctx_switches += 1;
        CVS[w.group[j as usize]].notify_one();
    }
}

/// Runs the bodies as actors base.., one at a time under the plan's schedule.
pub fn run_actors<'s>(base: usize, bodies: Vec<Box<dyn FnOnce() + Send + 's>>) {
    let n = bodies.len();
    let groups: Vec<usize> = with(|w| (base..base + n).map(|a| w.group[a]).collect());
    let mut by: BTreeMap<usize, Vec<(usize, Box<dyn FnOnce() + Send + 's>)>> = BTreeMap::new();
    for (i, b) in bodies.into_iter().enumerate() { by.entry(groups[i]).or_default().push((base + i, b)); }
    std::thread::scope(|s| {
        for (gr, mut list) in by {
            if list.len() == 1 {
                let (i, b) = list.pop().unwrap();
                s.spawn(move || {
                    set_me(i as i32);
                    {
                        let mut g = lock();
                        while g.as_ref().unwrap().current != i as i32 { g = CVS[gr].wait(g).unwrap_or_else(|e| e.into_inner()); }
                    }
                    b();
                    finish(i, base, n);
                    set_me(-1);
                });
                continue;
            }
            s.spawn(move || {
                let mut left = list.len();
                let mut home = crate::coro::Home::new();
                let mut cos: Vec<(usize, crate::coro::Co)> = list.into_iter()
                    .map(|(i, b)| (i, crate::coro::Co::new(Box::new(move || { b(); finish(i, base, n); })))).collect();
                while left > 0 {
                    let cur = {
                        let mut g = lock();
                        loop {
                            let c = g.as_ref().unwrap().current;
                            if cos.iter().any(|(i, _)| *i as i32 == c) { break c; }
                            g = CVS[gr].wait(g).unwrap_or_else(|e| e.into_inner());
                        }
                    };
                    set_me(cur);
                    cos.iter_mut().find(|(i, _)| *i as i32 == cur).unwrap().1.resume(&mut home);
                    set_me(-1);
                    if with(|w| w.actors[cur as usize].done) { left -= 1; }
                }
            });
        }
    });
}

// ------------------------------------------------------------------ operations (library calls)

pub struct OpIo { pub fired: Vec<Fired>, pub calls: u64, pub cuts: u64, pub over_limit: bool, pub crashed: bool, pub start: u64, pub end: u64, pub edges: u64 }

/// Marks the start of library call `op` of the calling actor (a scheduling point).
pub fn begin_op(op: u32, limit: u64) -> u64 {
    let a = me();
    let g = lock();
    let mut g = if a >= 0 { point(g, a, true) } else { g };
    let w = g.as_mut().unwrap();
    let start = w.step;
    if a >= 0 {
        let ac = &mut w.actors[a as usize];
        let old = (ac.op, ac.counts);
        if old.1.iter().any(|c| *c > 0) { ac.trace.push(old); }
        ac.op = op;
        ac.counts = [0; NKINDS];
        ac.op_calls = 0;
        ac.op_cuts = 0;
        ac.op_limit = limit;
        ac.over_limit = false;
        ac.fired.clear();
        w.hash.u64(0x0B0B ^ (op as u64) << 16);
        crate::cov::begin(w.inside[a as usize].iter().filter(|x| x.op == op).map(|x| x.at).min());
    } else { crate::cov::begin(None); }
    start
}

pub fn end_op(start: u64) -> OpIo {
    let a = me();
    let mut g = lock();
    let w = g.as_mut().unwrap();
    let end = w.step;
    let ac = &mut w.actors[a as usize];
    ac.op_limit = u64::MAX;
    OpIo { fired: std::mem::take(&mut ac.fired), calls: ac.op_calls, cuts: ac.op_cuts, over_limit: ac.over_limit, crashed: ac.crashed, start, end, edges: crate::cov::edges() }
}

/// An action of the environment (another process), done as actor `me`, one scheduling point.
pub fn env<T>(name: &str, f: impl FnOnce(&mut Fs) -> T) -> T {
    let a = me();
    let g = lock();
    let mut g = if a >= 0 { point(g, a, true) } else { g };
    let w = g.as_mut().unwrap();
    let r = f(&mut w.fs);
    w.log(a, name, 0, 0, Ok(0));
    w.stat(&format!("env:{}", name));
    r
}

// ------------------------------------------------------------------ system calls

enum Dec { Go { cap: usize }, Fail(i32), Zero, Crash { keep: u32 } }

fn act_name(kind: Kind, act: &Act) -> String {
    match act {
        Act::Err(e) => format!("{:?}:{}", kind, errno_name(*e)),
        Act::Short(_) => format!("{:?}:short", kind),
        Act::Zero => format!("{:?}:zero", kind),
        Act::Crash { keep } => format!("{:?}:crash{}", kind, if *keep > 0 { "-torn" } else { "" }),
    }
}

impl World {
    /// Applies the plan to one call; `want` is the transfer size for reads and writes.
    fn decide(&mut self, a: i32, kind: Kind, want: usize) -> Dec {
        let go = Dec::Go { cap: usize::MAX };
        if a < 0 { return go; }
        let ac = &mut self.actors[a as usize];
        let nth = ac.counts[kind as usize];
        ac.counts[kind as usize] += 1;
        ac.calls += 1;
        ac.op_calls += 1;
        self.total_calls += 1;
        if kind == Kind::Write && ac.write_sizes.len() < 4096 { ac.write_sizes.push((ac.op, nth, want as u32)); }
        if ac.op_calls > ac.op_limit { ac.over_limit = true; return Dec::Fail(libc::EIO); }
        let op = ac.op;
        let mut chosen: Option<Act> = None;
        for (f, used) in ac.faults.iter_mut() {
            if !*used && f.op == op && f.kind == kind && f.nth == nth { *used = true; chosen = Some(f.act); break; }
        }
        if let Some(act) = chosen {
            let (eff, hard, d) = match act {
                Act::Err(e) => (true, e != libc::EINTR, Dec::Fail(e)),
                Act::Short(n) => ((n as usize) < want && n > 0, false, Dec::Go { cap: n.max(1) as usize }),
                Act::Zero => (kind == Kind::Write && want > 0, true, if kind == Kind::Write { Dec::Zero } else { Dec::Go { cap: usize::MAX } }),
                Act::Crash { keep } => (true, true, Dec::Crash { keep }),
            };
            if eff {
                let ac = &mut self.actors[a as usize];
                ac.fired.push(Fired { kind, act, hard });
                if !hard { ac.op_cuts += 1; }
                self.count(kind, &act);
            }
            return d;
        }
        if kind == Kind::Read || kind == Kind::Write {
            let ac = &mut self.actors[a as usize];
            let io = ac.io;
            let key = if io.vary != 0 { mix(&[io.vary, ac.calls, kind as u64]) } else { 0 };
            if io.eintr > 0 && ac.eintr_run < 4 && mix(&[io.vary ^ 0xE1, ac.calls]) % 1000 < io.eintr as u64 {
                ac.eintr_run += 1;
                ac.op_calls -= 1; // interruptions are not counted as work
                ac.fired.push(Fired { kind, act: Act::Err(libc::EINTR), hard: false });
                self.count(kind, &Act::Err(libc::EINTR));
                return Dec::Fail(libc::EINTR);
            }
            ac.eintr_run = 0;
            let max = if kind == Kind::Read { io.max_read } else { io.max_write };
            if max > 0 {
                let cap = if io.vary != 0 { 1 + (key % max as u64) as usize } else { max as usize };
                if cap < want {
                    ac.op_cuts += 1;
                    // the record of a long call keeps every failure, not every short transfer
                    if ac.fired.len() < 4096 { ac.fired.push(Fired { kind, act: Act::Short(cap as u32), hard: false }); }
                    self.count(kind, &Act::Short(1));
                }
                return Dec::Go { cap };
            }
        }
        go
    }
    fn die(&mut self, a: i32) {
        if a < 0 { return; }
        self.actors[a as usize].crashed = true;
        // the kernel closes the dead process' descriptors
        let mine: Vec<i32> = self.fds.iter().filter(|(_, f)| self.files[**f].owner == a).map(|(k, _)| *k).collect();
        for fd in mine { self.fds.remove(&fd); }
    }
}

/// Starts a call; None: the caller is dead, the call has no effect.
fn enter(_kind: Kind) -> (Option<G>, i32) {
    let a = me();
    let mut g = lock();
    if a >= 0 {
        if g.as_ref().unwrap().actors[a as usize].crashed { return (None, a); }
        g = point(g, a, false);
    }
    (Some(g), a)
}

macro_rules! start {
    ($kind:expr, $g:ident, $w:ident, $a:ident) => {
        let on = crate::alloc::pause();
        let _resume = Resume(on);
        let ($g, $a) = enter($kind);
        let mut $g = match $g { Some(g) => g, None => return Err(libc::EIO) };
        let $w = $g.as_mut().unwrap();
    };
}
struct Resume(bool);
impl Drop for Resume { fn drop(&mut self) { crate::alloc::resume(self.0); } }

pub fn is_virtual_path(p: &[u8]) -> bool { p.starts_with(PREFIX) || p == b"/simdisk" }
/// The path with "//", "/." and "/.." resolved (there are no symbolic links).
pub fn norm(p: &[u8]) -> Vec<u8> {
    let mut v: Vec<&[u8]> = vec![];
    for c in p.split(|b| *b == b'/') { match c { b"" | b"." => {} b".." => { v.pop(); } c => v.push(c) } }
    let mut out = vec![];
    for c in v { out.push(b'/'); out.extend_from_slice(c); }
    out
}
/// The library under test uses a path outside the simulated disk: noted, and denied if it would change anything.
pub fn real_path(p: &[u8], changes: bool) -> bool {
    if !crate::alloc::on() || !is_actor() { return false; }
    if !changes && [&b"/proc/"[..], b"/sys/", b"/dev/", b"/etc/"].iter().any(|x| p.starts_with(x)) { return false; }
    let _resume = Resume(crate::alloc::pause());
    let a = me() as usize;
    with(|w| {
        let mut t = b"(real) ".to_vec();
        t.extend_from_slice(p);
        w.hash.bytes(&t);
        w.actors[a].touched.insert(t);
        if changes { w.actors[a].mutating += 1; }
    });
    changes
}
/// A call that changes metadata of an open file only.
pub fn fd_change() { let a = me(); if a >= 0 { let _resume = Resume(crate::alloc::pause()); with(|w| w.actors[a as usize].mutating += 1); } }
pub fn is_virtual_fd(fd: i32) -> bool { fd >= FD_BASE }

pub fn sys_open(path: &[u8], flags: i32) -> Result<i64, i32> {
    start!(Kind::Open, g, w, a);
    let path = &norm(path)[..];
    let r = (|| {
        match w.decide(a, Kind::Open, 0) {
            Dec::Fail(e) => return Err(e),
            Dec::Crash { keep } => {
                if keep > 0 { let _ = w.do_open(path, flags, a); }
                w.die(a);
                return Err(libc::EIO);
            }
            _ => {}
        }
        w.do_open(path, flags, a)
    })();
    if w.text.is_some() { let n = String::from_utf8_lossy(path).to_string(); w.note(format!("    open {}", n)); } else { w.hash.bytes(path); }
    w.log(a, "open", flags as i64, 0, r);
    r
}

impl World {
    fn do_open(&mut self, path: &[u8], flags: i32, a: i32) -> Result<i64, i32> {
        let acc = flags & libc::O_ACCMODE;
        let (r, wr) = (acc == libc::O_RDONLY || acc == libc::O_RDWR, acc == libc::O_WRONLY || acc == libc::O_RDWR);
        if a >= 0 {
            let ac = &mut self.actors[a as usize];
            ac.touched.insert(path.to_vec());
            if wr { ac.mutating += 1; }
        }
        if self.dirs_contains(path) { return Err(if wr { libc::EISDIR } else { libc::EISDIR }); }
        if !self.fs.parent_ok(path) { return Err(libc::ENOENT); }
        let ino = match self.fs.names.get(path).cloned() {
            Some(ino) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 { return Err(libc::EEXIST); }
                let n = self.fs.inodes.get_mut(&ino).unwrap();
                if wr && n.readonly { return Err(libc::EACCES); }
                if flags & libc::O_TRUNC != 0 && wr {
                    let freed = n.data.num_pages();
                    n.data.truncate(0);
                    n.version += 1;
                    if let Some(s) = &mut self.fs.sectors_left { *s += freed; }
                }
                ino
            }
            None => {
                if flags & libc::O_CREAT == 0 { return Err(libc::ENOENT); }
                let p = String::from_utf8_lossy(path).to_string();
                self.fs.put(&p, Sparse::default())
            }
        };
        if a >= 0 { self.actors[a as usize].opened_ino.push(ino); }
        let fd = self.next_fd;
        self.next_fd += 1;
        self.files.push(OpenFile { ino, pos: 0, r, w: wr, append: flags & libc::O_APPEND != 0, owner: a, refs: 1 });
        self.fds.insert(fd, self.files.len() - 1);
        Ok(fd as i64)
    }
    fn dirs_contains(&self, path: &[u8]) -> bool { self.fs.dirs.contains(path) }
    fn file(&mut self, fd: i32, a: i32) -> Result<usize, i32> {
        match self.fds.get(&fd) {
            Some(i) => Ok(*i),
            None => {
                if a >= 0 { self.actors[a as usize].bad_fd += 1; }
                Err(libc::EBADF)
            }
        }
    }
}

pub fn sys_read(fd: i32, buf: &mut [u8], at: Option<u64>) -> Result<i64, i32> {
    start!(Kind::Read, g, w, a);
    let r = (|| {
        let f = w.file(fd, a)?;
        if !w.files[f].r { return Err(libc::EBADF); }
        let mut cap = buf.len();
        match w.decide(a, Kind::Read, buf.len()) {
            Dec::Fail(e) => return Err(e),
            Dec::Crash { .. } => { w.die(a); return Err(libc::EIO); }
            Dec::Go { cap: c } => cap = cap.min(c),
            Dec::Zero => {}
        }
        let pos = at.unwrap_or(w.files[f].pos);
        let n = w.fs.inodes.get(&w.files[f].ino).unwrap().data.read_at(pos, &mut buf[..cap]);
        if at.is_none() { w.files[f].pos += n as u64; }
        Ok(n as i64)
    })();
    w.log(a, "read", (fd - FD_BASE) as i64, buf.len() as i64, r);
    r
}

pub fn sys_write(fd: i32, buf: &[u8], at: Option<u64>) -> Result<i64, i32> {
    start!(Kind::Write, g, w, a);
    let r = (|| {
        let f = w.file(fd, a)?;
        if !w.files[f].w { return Err(libc::EBADF); }
        let mut cap = buf.len();
        let mut crash = false;
        match w.decide(a, Kind::Write, buf.len()) {
            Dec::Fail(e) => return Err(e),
            Dec::Zero => return Ok(0),
            Dec::Crash { keep } => { cap = cap.min(keep as usize); crash = true; }
            Dec::Go { cap: c } => cap = cap.min(c),
        }
        if a >= 0 { w.actors[a as usize].mutating += 1; }
        let ino = w.files[f].ino;
        let pos = match at { Some(p) => p, None => if w.files[f].append { w.fs.inodes[&ino].data.len() } else { w.files[f].pos } };
        let mut why = 0;
        if let Some(m) = w.fs.max_file {
            let room = m.saturating_sub(pos) as usize;
            if cap > room { cap = room; why = libc::EFBIG; }
        }
        if let Some(left) = w.fs.sectors_left {
            let data = &w.fs.inodes[&ino].data;
            let mut left = left;
            let mut ok = 0usize;
            while ok < cap {
                let p = pos + ok as u64;
                let pg = p / PAGE as u64;
                if !data.has_page(pg) { if left == 0 { break; } left -= 1; }
                ok += (PAGE - (p % PAGE as u64) as usize).min(cap - ok);
            }
            if ok < cap { cap = ok; why = libc::ENOSPC; }
            w.fs.sectors_left = Some(left);
        }
        if why != 0 && a >= 0 {
            let hard = cap == 0;
            let act = if hard { Act::Err(why) } else { Act::Short(cap as u32) };
            w.actors[a as usize].fired.push(Fired { kind: Kind::Write, act, hard });
            let n = format!("limit:{}", act_name(Kind::Write, &Act::Err(why)));
            w.stat(&n);
        }
        if cap > 0 {
            let n = w.fs.inodes.get_mut(&ino).unwrap();
            n.data.write_at(pos, &buf[..cap]);
            n.version += 1;
        }
        if crash { w.die(a); return Err(libc::EIO); }
        if cap == 0 && !buf.is_empty() { return Err(if why != 0 { why } else { libc::EIO }); }
        if at.is_none() { w.files[f].pos = pos + cap as u64; }
        Ok(cap as i64)
    })();
    let mut h = Hash64::new();
    // what was accepted, and a little of what was offered (not all of it: a large
    // buffer may be offered again and again)
    h.bytes(&buf[..buf.len().min((*r.as_ref().unwrap_or(&0) as usize).max(64))]);
    w.hash.u64(h.0);
    w.log(a, "write", (fd - FD_BASE) as i64, buf.len() as i64, r);
    r
}

pub fn sys_lseek(fd: i32, off: i64, whence: i32) -> Result<i64, i32> {
    start!(Kind::Seek, g, w, a);
    let r = (|| {
        let f = w.file(fd, a)?;
        match w.decide(a, Kind::Seek, 0) {
            Dec::Fail(e) => return Err(e),
            Dec::Crash { .. } => { w.die(a); return Err(libc::EIO); }
            _ => {}
        }
        let len = w.fs.inodes[&w.files[f].ino].data.len() as i64;
        let base = match whence {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => w.files[f].pos as i64,
            libc::SEEK_END => len,
            _ => return Err(libc::EINVAL),
        };
        let p = base.checked_add(off).ok_or(libc::EOVERFLOW)?;
        if p < 0 { return Err(libc::EINVAL); }
        w.files[f].pos = p as u64;
        Ok(p)
    })();
    w.log(a, "lseek", off, whence as i64, r);
    r
}

#[derive(Clone, Copy)]
pub struct Meta { pub size: u64, pub ino: u64, pub dir: bool }

pub fn sys_fstat(fd: i32) -> Result<Meta, i32> {
    start!(Kind::Stat, g, w, a);
    let r = (|| {
        let f = w.file(fd, a)?;
        match w.decide(a, Kind::Stat, 0) {
            Dec::Fail(e) => return Err(e),
            Dec::Crash { .. } => { w.die(a); return Err(libc::EIO); }
            _ => {}
        }
        let ino = w.files[f].ino;
        Ok(Meta { size: w.fs.inodes[&ino].data.len(), ino, dir: false })
    })();
    w.log(a, "fstat", (fd - FD_BASE) as i64, 0, r.map(|m| m.size as i64));
    r
}

pub fn sys_stat(path: &[u8]) -> Result<Meta, i32> {
    start!(Kind::Stat, g, w, a);
    let path = &norm(path)[..];
    let r = (|| {
        match w.decide(a, Kind::Stat, 0) {
            Dec::Fail(e) => return Err(e),
            Dec::Crash { .. } => { w.die(a); return Err(libc::EIO); }
            _ => {}
        }
        if w.fs.dirs.contains(path) { return Ok(Meta { size: 4096, ino: 1 << 40, dir: true }); }
        if a >= 0 { w.actors[a as usize].touched.insert(path.to_vec()); }
        let ino = *w.fs.names.get(path).ok_or(libc::ENOENT)?;
        Ok(Meta { size: w.fs.inodes[&ino].data.len(), ino, dir: false })
    })();
    w.hash.bytes(path);
    w.log(a, "stat", 0, 0, r.map(|m| m.size as i64));
    r
}

pub fn sys_close(fd: i32) -> Result<i64, i32> {
    start!(Kind::Close, g, w, a);
    let r = (|| {
        let f = w.file(fd, a)?;
        w.fds.remove(&fd);
        w.files[f].refs -= 1;
        match w.decide(a, Kind::Close, 0) {
            Dec::Crash { .. } => { w.die(a); return Err(libc::EIO); }
            _ => {}
        }
        Ok(0)
    })();
    w.log(a, "close", (fd - FD_BASE) as i64, 0, r);
    r
}

pub fn sys_dup(fd: i32) -> Result<i64, i32> {
    start!(Kind::Open, g, w, a);
    let r = (|| {
        let f = w.file(fd, a)?;
        // dup is never interrupted (and std does not retry it)
        if let Dec::Fail(e) = w.decide(a, Kind::Open, 0) { if e != libc::EINTR { return Err(e); } }
        w.files[f].refs += 1;
        let n = w.next_fd;
        w.next_fd += 1;
        w.fds.insert(n, f);
        Ok(n as i64)
    })();
    w.log(a, "dup", (fd - FD_BASE) as i64, 0, r);
    r
}

pub fn sys_ftruncate(fd: i32, len: u64) -> Result<i64, i32> {
    start!(Kind::Trunc, g, w, a);
    let r = (|| {
        let f = w.file(fd, a)?;
        if !w.files[f].w { return Err(libc::EINVAL); }
        match w.decide(a, Kind::Trunc, 0) {
            Dec::Fail(e) => return Err(e),
            Dec::Crash { keep: 0 } => { w.die(a); return Err(libc::EIO); }
            Dec::Crash { .. } => {
                let ino = w.files[f].ino;
                w.fs.inodes.get_mut(&ino).unwrap().data.truncate(len);
                w.die(a);
                return Err(libc::EIO);
            }
            _ => {}
        }
        if a >= 0 { w.actors[a as usize].mutating += 1; }
        if let Some(m) = w.fs.max_file { if len > m { return Err(libc::EFBIG); } }
        let ino = w.files[f].ino;
        let n = w.fs.inodes.get_mut(&ino).unwrap();
        n.data.truncate(len);
        n.version += 1;
        Ok(0)
    })();
    w.log(a, "ftruncate", (fd - FD_BASE) as i64, len as i64, r);
    r
}

pub fn sys_fsync(fd: i32) -> Result<i64, i32> {
    start!(Kind::Sync, g, w, a);
    let r = (|| {
        w.file(fd, a)?;
        match w.decide(a, Kind::Sync, 0) {
            Dec::Fail(e) => Err(e),
            Dec::Crash { .. } => { w.die(a); Err(libc::EIO) }
            _ => Ok(0),
        }
    })();
    w.log(a, "fsync", (fd - FD_BASE) as i64, 0, r);
    r
}

fn name_call(what: &str, p1: &[u8], p2: &[u8], f: impl FnOnce(&mut World) -> Result<i64, i32>) -> Result<i64, i32> {
    start!(Kind::Name, g, w, a);
    let (p1, p2) = (&norm(p1)[..], &(if p2.is_empty() { vec![] } else { norm(p2) })[..]);
    let r = (|| {
        match w.decide(a, Kind::Name, 0) {
            Dec::Fail(e) => return Err(e),
            Dec::Crash { keep } => { if keep > 0 { let _ = f(w); } w.die(a); return Err(libc::EIO); }
            _ => {}
        }
        if a >= 0 {
            let ac = &mut w.actors[a as usize];
            ac.touched.insert(p1.to_vec());
            ac.mutating += 1;
            if !p2.is_empty() { ac.touched.insert(p2.to_vec()); }
        }
        f(w)
    })();
    w.hash.bytes(p1);
    w.hash.bytes(p2);
    w.log(a, what, 0, 0, r);
    r
}

pub fn fs_rename(fs: &mut Fs, from: &[u8], to: &[u8]) -> Result<i64, i32> {
    let ino = fs.names.remove(from).ok_or(libc::ENOENT)?;
    fs.names.insert(to.to_vec(), ino);
    Ok(0)
}
pub fn fs_unlink(fs: &mut Fs, p: &[u8]) -> Result<i64, i32> {
    fs.names.remove(p).ok_or(libc::ENOENT)?;
    Ok(0)
}
pub fn sys_rename(from: &[u8], to: &[u8]) -> Result<i64, i32> { let (from, to) = (&norm(from)[..], &norm(to)[..]); name_call("rename", from, to, |w| fs_rename(&mut w.fs, from, to)) }
pub fn sys_unlink(p: &[u8]) -> Result<i64, i32> { let p = &norm(p)[..]; name_call("unlink", p, b"", |w| fs_unlink(&mut w.fs, p)) }
pub fn sys_mkdir(p: &[u8]) -> Result<i64, i32> {
    let p = &norm(p)[..];
    name_call("mkdir", p, b"", |w| { if w.fs.dirs.insert(p.to_vec()) { Ok(0) } else { Err(libc::EEXIST) } })
}
pub fn sys_link(from: &[u8], to: &[u8]) -> Result<i64, i32> {
    let (from, to) = (&norm(from)[..], &norm(to)[..]);
    name_call("link", from, to, |w| {
        let ino = *w.fs.names.get(from).ok_or(libc::ENOENT)?;
        if w.fs.names.contains_key(to) { return Err(libc::EEXIST); }
        w.fs.names.insert(to.to_vec(), ino);
        Ok(0)
    })
}
/// access(2)-, chmod(2)-like calls.
pub fn sys_other(what: &str, p: &[u8], changes: bool) -> Result<i64, i32> {
    start!(Kind::Stat, g, w, a);
    let p = &norm(p)[..];
    if a >= 0 && !w.fs.dirs.contains(p) { w.actors[a as usize].touched.insert(p.to_vec()); }
    if a >= 0 && changes { w.actors[a as usize].mutating += 1; }
    let r = if w.fs.names.contains_key(p) || w.fs.dirs.contains(p) { Ok(0) } else { Err(libc::ENOENT) };
    w.log(a, what, 0, 0, r);
    r
}
/// truncate(2): changes the file a path names.
pub fn sys_truncate(p: &[u8], len: u64) -> Result<i64, i32> {
    let q = norm(p);
    name_call("truncate", p, b"", move |w| {
        let ino = *w.fs.names.get(&q).ok_or(libc::ENOENT)?;
        let n = w.fs.inodes.get_mut(&ino).unwrap();
        if n.readonly { return Err(libc::EACCES); }
        n.data.truncate(len);
        n.version += 1;
        Ok(0)
    })
}

pub fn errno_name(e: i32) -> String {
    match e {
        libc::EIO => "EIO".into(), libc::ENOSPC => "ENOSPC".into(), libc::EINTR => "EINTR".into(), libc::EBADF => "EBADF".into(),
        libc::EACCES => "EACCES".into(), libc::ENOENT => "ENOENT".into(), libc::EEXIST => "EEXIST".into(), libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(), libc::EFBIG => "EFBIG".into(), libc::EDQUOT => "EDQUOT".into(), libc::EISDIR => "EISDIR".into(),
        libc::EROFS => "EROFS".into(), libc::EINVAL => "EINVAL".into(), libc::ESTALE => "ESTALE".into(), libc::EAGAIN => "EAGAIN".into(),
        libc::EOVERFLOW => "EOVERFLOW".into(), libc::EPERM => "EPERM".into(), libc::ENOMEM => "ENOMEM".into(), libc::ETIMEDOUT => "ETIMEDOUT".into(),
        libc::ENODEV => "ENODEV".into(), libc::ENXIO => "ENXIO".into(), libc::EBUSY => "EBUSY".into(), libc::ESPIPE => "ESPIPE".into(),
        _ => format!("E{}", e),
    }
}
