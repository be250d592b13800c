//! One judge per property, and what counts as a non-trivial run.
use crate::exec::{self, Call, History, Rec, Res, RunOpts, Val};
use crate::judge::*;
use crate::model::*;
use crate::plan::*;
use crate::world::{Act, Sparse};
use std::collections::BTreeMap;

pub const ALL: [&str; 17] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"];

fn concurrent(p: &Plan) -> bool { p.phases.iter().any(|x| x.len() > 1) }

pub fn judge(plan: &Plan, h: &History) -> Vs {
    let so = |every, touch, mem| SeqOpts { every, touch, mem };
    match plan.prop.as_str() {
        "C04" => judge_seq(plan, h, &so(false, false, true)),
        "C05" if concurrent(plan) => c05_cut(plan, h),
        "C05" | "C08" => judge_seq(plan, h, &so(true, true, false)),
        "C06" | "C07" | "C16" => judge_seq(plan, h, &so(true, false, false)),
        "C10" => c10(plan, h),
        "C11" => c11(plan, h),
        "C12" => c12(plan, h),
        "C14" => c14(plan, h),
        "C15" => { let mut v = c15(plan, h); if !concurrent(plan) { v.extend(judge_seq(plan, h, &so(false, false, false))); } v }
        "C17" => c17(plan, h),
        _ => judge_seq(plan, h, &so(false, false, false)),
    }
}

pub fn needs_snap(_prop: &str) -> bool { true }

/// The same rule in words, for the evidence.
pub fn nontrivial_rule(p: &str) -> &'static str {
    match p {
        "C01" => "at least one write was acknowledged and one read returned data",
        "C02" => "at least one write was acknowledged",
        "C03" | "C09" => "at least one read returned data",
        "C04" => "every run (each opens and reads one damaged, hostile or borderline file)",
        "C05" => "at least one hard fault or limit struck, or the environment acted on the file",
        "C06" => "at least one hard fault or limit struck and at least one write was acknowledged",
        "C07" => "the writing process died",
        "C08" => "at least one write was acknowledged and at least one call was refused or struck by a hard fault",
        "C10" => "more than one context switch between the competing actors",
        "C11" => "more than one context switch and an action on the opened path",
        "C12" => "more than one context switch and a successful open beside the writer",
        "C13" => "at least one definition edit was made",
        "C14" => "more than two context switches between the sessions",
        "C15" => "more than ten system calls",
        "C16" => "a definition was handed to a writer",
        _ => "at least one system call",
    }
}

/// A run that exercises its property (not merely executes).
pub fn nontrivial(plan: &Plan, h: &History) -> bool {
    let wrote = h.recs.iter().any(|r| r.res.ok() && matches!(r.call, Call::W { k: WK::Var { .. } | WK::Rec { .. }, .. }));
    let read = h.recs.iter().any(|r| r.res.ok() && matches!(r.call, Call::Read { .. } | Call::R { k: RK::Var { .. } | RK::Rec { .. } | RK::All, .. }));
    let hard = h.recs.iter().any(|r| r.fired.iter().any(|f| f.hard)) || h.stats.keys().any(|k| k.starts_with("limit:"));
    let refused = h.recs.iter().any(|r| matches!(&r.res, Res::Err { io: None, .. }));
    match plan.prop.as_str() {
        "C01" => wrote && read,
        "C02" => wrote,
        "C03" | "C09" => read,
        "C04" => true,
        "C05" => hard || h.recs.iter().any(|r| matches!(r.call, Call::Env(_))),
        "C06" => hard && wrote,
        "C07" => h.actors.iter().any(|a| a.crashed),
        "C08" => wrote && (refused || hard),
        "C10" => h.ctx_switches > 1,
        "C11" => h.ctx_switches > 1 && h.recs.iter().any(|r| matches!(r.call, Call::Env(_))),
        "C12" => h.ctx_switches > 1 && h.recs.iter().any(|r| r.res.ok() && matches!(r.call, Call::ROpen { .. })),
        "C13" => h.recs.iter().any(|r| !r.edits.is_empty()),
        "C14" => h.ctx_switches > 2,
        "C15" => h.calls > 10,
        "C16" => h.recs.iter().any(|r| matches!(r.call, Call::W { k: WK::SetDef { .. }, .. })),
        _ => h.calls > 0,
    }
}

// ------------------------------------------------------------------ shared pieces

/// Definitions of a writer session, judged edit by edit.
fn defs_of(plan: &Plan, h: &History, actor: usize, sess: usize, carried: Option<&MDef>, vs: &mut Vs) -> Vec<MDef> {
    let s = match session(plan, actor, sess) { Session::Write(s) => s, _ => return vec![] };
    let rs: Vec<&Rec> = h.recs.iter().filter(|x| x.actor == actor && x.sess == sess && matches!(x.call, Call::Def { .. })).collect();
    judge_defs(&rs, s, carried, None, vs)
}

fn panics(h: &History, vs: &mut Vs) {
    for r in &h.recs {
        if let Res::Panic(m) = &r.res { bad(vs, &format!("panic {}", place_of(m)), format!("{}: panicked: {}", at(r), m)); }
        if r.over_limit { bad(vs, "runaway", format!("{}: more than {} system calls", at(r), exec::OP_LIMIT)); }
    }
}

// ------------------------------------------------------------------ C05

/// One reader (actor 0) of a sound file that is cut while it reads.
fn c05_cut(plan: &Plan, h: &History) -> Vs {
    let mut vs = vec![];
    panics(h, &mut vs);
    let f = exec::build_file(plan, &plan.files[0]);
    let d = match decode(&f.to_vec(), f.len()) { Ok(d) => d, Err(e) => { bad(&mut vs, "HARNESS", format!("generated file does not decode: {}", e)); return vs; } };
    let cuts: Vec<(u64, u64)> = h.recs.iter().filter_map(|r| if let Call::Env(EnvOp::Truncate { len, .. }) = &r.call { Some((r.end, *len)) } else { None }).collect();
    if cuts.windows(2).any(|w| w[1].1 > w[0].1) || cuts.first().map(|c| c.1 > f.len()).unwrap_or(false) { return vs; }
    for r in h.recs.iter().filter(|r| r.actor == 0) {
        let len = |t: u64| cuts.iter().filter(|c| c.0 <= t).map(|c| c.1).min().unwrap_or(f.len());
        let (before, after) = (len(r.start.saturating_sub(1)), len(r.end));
        let need = |end: u64, b: Vec<u8>| if end <= after { Exp::Exact(b) } else if end > before { Exp::Fail } else { Exp::Any { layers: vec![b], may_err: true } };
        match &r.call {
            Call::ROpen { .. } => {
                let hdr = d.header_len as u64;
                judge_open(r, if hdr <= before { Ok((&d.def, d.ver)) } else { Err("the header is cut".into()) }, hdr <= after && after == before, false, &mut vs);
                if !r.res.ok() { break; }
            }
            Call::R { .. } | Call::Read { .. } | Call::RDrop { .. } => {
                let data = |i: usize, k: u64| match d.place(i, k) { Some((o, n)) if o + n <= f.len() => need(o + n, f.slice(o, n as usize)), _ => Exp::Fail };
                judge_read(&RView { def: &d.def, ver: d.ver, data: &data, lenient: false }, r, &mut vs);
            }
            _ => {}
        }
    }
    vs
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Copy, PartialEq)]
enum Ev { New(bool), Over, Gone, Appear }

fn linear(ops: &[(u64, u64, Ev)], done: u32, exists: bool) -> bool {
    if done.count_ones() as usize == ops.len() { return true; }
    let first_end = (0..ops.len()).filter(|i| done & (1 << i) == 0).map(|i| ops[i].1).min().unwrap();
    for i in 0..ops.len() {
        if done & (1 << i) != 0 || ops[i].0 > first_end { continue; }
        let next = match ops[i].2 {
            Ev::New(true) => if exists { continue } else { true },
            Ev::New(false) => if exists { true } else { continue },
            Ev::Over | Ev::Appear => true,
            Ev::Gone => false,
        };
        if linear(ops, done | 1 << i, next) { return true; }
    }
    false
}

/// The path of the first session that has one.
fn first_path(plan: &Plan) -> String {
    for ph in &plan.phases { for s in ph { for x in &s.sessions { match x { Session::Write(w) => return w.path.clone(), Session::Read(r) => return r.path.clone(), _ => {} } } } }
    String::new()
}
fn c10(plan: &Plan, h: &History) -> Vs {
    let mut vs = vec![];
    panics(h, &mut vs);
    let path = &first_path(plan)[..];
    let existed = plan.files.iter().any(|f| f.path == path);
    let mut ops = vec![];
    for r in &h.recs {
        match &r.call {
            Call::WOpen { new, .. } => match (&r.res, new) {
                (Res::Ok(_), true) => ops.push((r.start, r.end, Ev::New(true))),
                (Res::Err { io: Some(k), .. }, true) if k == "AlreadyExists" => ops.push((r.start, r.end, Ev::New(false))),
                (Res::Ok(_), false) => {
                    ops.push((r.start, r.end, Ev::Over));
                    // nobody else had the file open: it must be empty right now
                    let others = h.recs.iter().any(|x| x.actor != r.actor && x.start <= r.end && matches!(x.call, Call::WOpen { .. }) && x.res.ok());
                    if let (false, Some(s)) = (others, &r.snap) { if s.len() != 0 { bad(&mut vs, "not empty", format!("{}: the file holds {} bytes after opening for overwriting", at(r), s.len())); } }
                }
                (o, _) => bad(&mut vs, "open result", format!("{}: {}", at(r), o.short())),
            },
            Call::Env(EnvOp::Unlink { .. }) | Call::Env(EnvOp::Rename { .. }) => ops.push((r.start, r.end, Ev::Gone)),
            _ => {}
        }
    }
    if vs.is_empty() && ops.len() <= 20 && !linear(&ops, 0, existed) {
        let t: Vec<String> = h.recs.iter().filter(|r| matches!(r.call, Call::WOpen { .. } | Call::Env(_))).map(|r| format!("{} -> {}", at(r), r.res.short())).collect();
        bad(&mut vs, "open race", format!("the open results fit no order of the calls (file existed before: {}): {}", existed, t.join("; ")));
    }
    // content: every inode belongs to at most one writer, or to none and stays as it was
    let mut owners: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
    for (a, e) in h.actors.iter().enumerate() { for i in &e.opened { owners.entry(*i).or_default().push(a); } }
    for (ino, node) in &h.fs.inodes {
        let own: Vec<usize> = owners.get(ino).cloned().unwrap_or_default().into_iter()
            .filter(|a| h.recs.iter().any(|r| r.actor == *a && matches!(r.call, Call::WOpen { .. }) && r.res.ok())).collect();
        match own.len() {
            0 => {
                let before = if existed { exec::build_file(plan, &plan.files[0]) } else { Sparse::default() };
                if !before.same(&node.data) { bad(&mut vs, "refused open altered the file", format!("inode {} was opened successfully by nobody, but its content changed ({} -> {} bytes)", ino, before.len(), node.data.len())); }
            }
            1 => {
                let a = own[0];
                let defs = defs_of(plan, h, a, 0, None, &mut vs);
                let mut ws = WState::new();
                let mut last = None;
                for r in h.recs.iter().filter(|r| r.actor == a) {
                    if matches!(r.call, Call::W { .. } | Call::WDrop { .. }) { judge_write(&mut ws, &defs, r, &mut vs); last = Some(r); }
                }
                if let Some(r) = last { ws.check_image(&node.data, "final bytes", &at(r), &mut vs); }
            }
            _ => {
                // a creator and a later overwriter shared the inode: decided only if one ended before the other began
                let span = |a: usize| { let rs: Vec<&Rec> = h.recs.iter().filter(|r| r.actor == a && !matches!(r.call, Call::Def { .. })).collect(); (rs.first().map(|r| r.start).unwrap_or(0), rs.last().map(|r| r.end).unwrap_or(0)) };
                let mut s: Vec<(u64, u64, usize)> = own.iter().map(|a| { let (b, e) = span(*a); (b, e, *a) }).collect();
                s.sort();
                if s.windows(2).any(|w| w[0].1 >= w[1].0) { continue; }
                let a = s.last().unwrap().2;
                let defs = defs_of(plan, h, a, 0, None, &mut vs);
                let mut ws = WState::new();
                let mut last = None;
                for r in h.recs.iter().filter(|r| r.actor == a) {
                    if matches!(r.call, Call::W { .. } | Call::WDrop { .. }) { judge_write(&mut ws, &defs, r, &mut vs); last = Some(r); }
                }
                if let Some(r) = last { ws.check_image(&node.data, "final bytes after overwriting", &at(r), &mut vs); }
            }
        }
    }
    vs
}

// ------------------------------------------------------------------ C11

fn c11(plan: &Plan, h: &History) -> Vs {
    let mut vs = vec![];
    panics(h, &mut vs);
    for (ino, n) in &h.fs.inodes { if n.version != 0 { bad(&mut vs, "reader changed a file", format!("inode {} was modified", ino)); } }
    for (a, end) in h.actors.iter().enumerate() {
        if end.mutating > 0 { bad(&mut vs, "reader changed a file", format!("actor {} made {} modifying calls", a, end.mutating)); }
        let recs: Vec<&Rec> = h.recs.iter().filter(|r| r.actor == a && matches!(r.call, Call::ROpen { .. } | Call::R { .. } | Call::Read { .. } | Call::RDrop { .. })).collect();
        if recs.is_empty() { continue; }
        let mut inos = end.opened.clone();
        inos.dedup();
        if inos.is_empty() {
            match &recs[0].res { Res::Err { io: Some(k), .. } if (k == "NotFound" && kinds(&recs[0].fired).is_empty()) || kinds(&recs[0].fired).contains(k) => {} o => bad(&mut vs, "open result", format!("{}: no file was opened, got {}", at(recs[0]), o.short())) }
            continue;
        }
        // all results must be explained by one single file
        let mut best: Option<Vs> = None;
        for ino in &inos {
            let mut t: Vs = vec![];
            let f = match h.fs.inodes.get(ino) { Some(n) => &n.data, None => continue };
            let bytes = f.to_vec();
            let d = match decode(&bytes, f.len()) { Ok(d) => d, Err(e) => { bad(&mut t, "harness", format!("generated file does not decode: {}", e)); best = Some(t); continue; } };
            let data = |i: usize, k: u64| match d.place(i, k) { Some((o, n)) if o + n <= f.len() => Exp::Exact(f.slice(o, n as usize)), _ => Exp::Fail };
            for r in &recs {
                if matches!(r.call, Call::ROpen { .. }) { judge_open(r, Ok((&d.def, d.ver)), true, false, &mut t); if !r.res.ok() { break; } }
                else { judge_read(&RView { def: &d.def, ver: d.ver, data: &data, lenient: false }, r, &mut t); }
            }
            if best.as_ref().map(|b| t.len() < b.len()).unwrap_or(true) { best = Some(t); }
        }
        if let Some(b) = best { vs.extend(b); }
        let _ = plan;
    }
    vs
}

// ------------------------------------------------------------------ C12

fn c12(plan: &Plan, h: &History) -> Vs {
    let mut vs = vec![];
    panics(h, &mut vs);
    let defs = defs_of(plan, h, 0, 0, None, &mut vs);
    let w: Vec<&Rec> = h.recs.iter().filter(|r| r.actor == 0 && matches!(r.call, Call::W { .. } | Call::WDrop { .. })).collect();
    let opened = h.recs.iter().find(|r| r.actor == 0 && matches!(r.call, Call::WOpen { .. }));
    // the writer itself
    let mut full = WState::new();
    for r in &w { judge_write(&mut full, &defs, r, &mut vs); }
    if let Some(f) = h.fs.get(&first_path(plan)) { full.check_image(f, "final bytes", "end of run", &mut vs); }
    // state of the file for a call made in [s, e]
    let state = |s: u64, e: u64| -> WState {
        let mut ws = WState::new();
        let mut dummy = vec![];
        for r in &w {
            if r.end <= s && r.start <= s { judge_write(&mut ws, &defs, r, &mut dummy); }
            else if r.start <= e {
                if let WExp::Valid(x) = expect_write(&ws, &defs, &r.call) {
                    effect(&mut ws, &defs, &x, false);
                    // later overlapping calls are expected against the definition being made
                    if let (WWhat::SetDef(..), Res::Ok(_)) = (&x, &r.res) { /* stays only tried */ }
                }
            }
        }
        ws
    };
    // a definition acknowledged at the end of [.., e]
    let def_at = |e: u64| -> Option<Acked> {
        let mut ws = WState::new();
        let mut dummy = vec![];
        for r in &w { if r.start <= e && !matches!(r.res, Res::Dead | Res::Panic(_)) { judge_write(&mut ws, &defs, r, &mut dummy); if ws.d.is_some() { break; } } }
        ws.d
    };
    for a in 1..h.actors.len() {
        let mut cur: Option<(MDef, Ver)> = None;
        if h.actors[a].mutating > 0 { bad(&mut vs, "reader changed a file", format!("actor {} made {} modifying calls", a, h.actors[a].mutating)); }
        for r in h.recs.iter().filter(|r| r.actor == a) {
            let ws = state(r.start, r.end);
            match &r.call {
                Call::ROpen { .. } => {
                    cur = None;
                    let content = match (opened, &r.res) {
                        (Some(o), Res::Err { io: Some(k), .. }) if k == "NotFound" && o.end > r.start => continue,
                        (None, Res::Err { .. }) => continue,
                        _ => &ws,
                    };
                    match &content.d {
                        Some(d) => judge_open(r, Ok((&d.def, d.ver)), true, false, &mut vs),
                        None => if let Res::Ok(Val::Def { def, ver, odd }) = &r.res {
                            if !content.tried.iter().any(|(d, v)| d == def && v == ver) || !odd.is_empty() { bad(&mut vs, "wrong definition", format!("{}: opened with a definition the writer did not give ({} dims, {} vars) {}", at(r), def.dims.len(), def.vars.len(), odd.join("; "))); }
                        },
                    }
                    if let Res::Ok(Val::Def { def, ver, .. }) = &r.res { cur = Some((def.clone(), *ver)); }
                }
                Call::R { .. } | Call::Read { .. } | Call::RDrop { .. } => {
                    let (d, ver) = match &cur { Some(c) => c.clone(), None => continue };
                    let mut ws = ws;
                    if ws.d.is_none() {
                        // the definition is still being made: only later calls can hold data
                        match def_at(r.end) { Some(x) => ws = { let mut y = state2(&w, &defs, &x, r.end); y.d = Some(x); y }, None => {} }
                    }
                    let data = |i: usize, k: u64| -> Exp {
                        if ws.d.is_none() { let n = d.chunk_bytes(&d.vars[i]) as usize; return Exp::Any { layers: vec![vec![0; n]], may_err: true }; }
                        let c = ws.get(i, k);
                        if c.acked && c.layers.len() == 1 { return Exp::Exact(c.layers[0].clone()); }
                        Exp::Any { may_err: !c.acked, layers: c.layers }
                    };
                    judge_read(&RView { def: &d, ver, data: &data, lenient: false }, r, &mut vs);
                }
                _ => {}
            }
        }
    }
    vs
}

/// All writer calls begun by `e`, as attempts.
fn state2(w: &[&Rec], defs: &[MDef], d: &Acked, e: u64) -> WState {
    let mut ws = WState::new();
    ws.d = Some(d.clone());
    for r in w { if r.start <= e { if let WExp::Valid(x) = expect_write(&ws, defs, &r.call) { effect(&mut ws, defs, &x, false); } } }
    ws
}

// ------------------------------------------------------------------ C14

fn c14(plan: &Plan, h: &History) -> Vs {
    let mut vs = vec![];
    panics(h, &mut vs);
    for a in 0..plan.num_actors() {
        let own: Vec<&Rec> = h.recs.iter().filter(|r| r.actor == a).collect();
        let mut absolute = judge_recs(plan, &own, &SeqOpts { every: false, touch: false, mem: false });
        for v in &mut absolute { v.class = format!("wrong beside others: {}", v.class); }
        vs.extend(absolute);
        let mut solo = plan.clone();
        solo.switches.clear();
        solo.inside.clear();
        solo.threads.clear();
        let mut k = 0;
        for ph in &mut solo.phases { for s in ph { if k != a { s.sessions.clear(); } k += 1; } }
        let s = exec::run(&solo, &RunOpts { text: false, snap: true });
        let (x, y): (Vec<&Rec>, Vec<&Rec>) = (h.recs.iter().filter(|r| r.actor == a).collect(), s.recs.iter().filter(|r| r.actor == a).collect());
        if x.len() != y.len() { bad(&mut vs, "depends on others", format!("actor {}: {} calls beside others, {} alone", a, x.len(), y.len())); continue; }
        for (p, q) in x.iter().zip(&y) {
            if p.call != q.call || p.res != q.res { bad(&mut vs, "depends on others", format!("{}: {} beside others, {} alone", at(p), p.res.short(), q.res.short())); break; }
            let same = match (&p.snap, &q.snap) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false };
            if !same { bad(&mut vs, "depends on others", format!("{}: the file's bytes differ from those when running alone", at(p))); break; }
        }
        for path in h.actors[a].touched.iter() {
            let (f, g) = (h.fs.get(path), s.fs.get(path));
            let same = match (f, g) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false };
            if !same { bad(&mut vs, "depends on others", format!("actor {}: final content of {} differs from running alone", a, path)); }
        }
    }
    vs
}

// ------------------------------------------------------------------ C15

/// The largest minimum header size any writer asks for.
fn max_hmin(plan: &Plan) -> u64 {
    plan.phases.iter().flatten().flat_map(|s| &s.sessions).filter_map(|s| if let Session::Write(w) = s { Some(&w.ops) } else { None }).flatten()
        .filter_map(|o| if let WK::SetDef { hmin, .. } = &o.k { Some(*hmin) } else { None }).max().unwrap_or(0)
}

/// Chunks and bytes that a call has to do with, where that is known exactly.
fn work(plan: &Plan, r: &Rec) -> Option<(u64, u64)> {
    if concurrent(plan) || plan.defs.len() != 1 { return None; }
    let d = MDef::build(&plan.defs[0]);
    if d.vars.iter().any(|v| d.chunk_len_checked(v).is_none()) { return None; }
    let chunk = |i: usize| d.chunk_bytes(&d.vars[i]) + d.chunk_pad(i);
    let var = |i: usize| (d.chunks(&d.vars[i]), d.chunks(&d.vars[i]) * chunk(i));
    let all = || (0..d.vars.len()).map(|i| var(i)).fold((d.vars.len() as u64, 0), |a, b| (a.0 + b.0, a.1 + b.1));
    let header = || {
        let hmin = max_hmin(plan);
        let whole = if plan.faults.iter().any(|f| !matches!(f.act, Act::Short(_) | Act::Err(libc::EINTR))) { all().1 } else { 0 };
        (0, d.header_required(Ver::Off64) + hmin + whole)
    };
    let some = |i: usize, rec: bool| if d.vars.is_empty() { (0, 0) } else { let i = i % d.vars.len(); if rec { (1, chunk(i)) } else { var(i) } };
    Some(match &r.call {
        Call::W { k, .. } => match k {
            WK::SetDef { .. } => header(),
            WK::Var { var, .. } => some(*var, false),
            WK::Rec { var, .. } => some(*var, true),
            WK::Close => all(),
            WK::Env(_) => return None,
            _ => (0, 0),
        },
        Call::R { k, .. } => match k {
            RK::Var { var, .. } => some(*var, false),
            RK::Rec { var, .. } => some(*var, true),
            RK::All => all(),
            RK::Sweep { .. } | RK::Env(_) => return None,
            _ => (0, 0),
        },
        Call::Read { var: name, rec, .. } => { let i = d.vars.iter().position(|v| v.name == *name)?; some(i, rec.is_some()) }
        Call::ROpen { .. } => header(),
        Call::WOpen { .. } | Call::WDrop { .. } | Call::RDrop { .. } => (0, 0),
        Call::Env(_) | Call::Def { .. } => return None,
    })
}

fn c15(plan: &Plan, h: &History) -> Vs {
    let mut vs = vec![];
    panics(h, &mut vs);
    let size = |d: &MDef| -> u64 { d.header_required(Ver::Off64) + d.vars.iter().enumerate().map(|(i, v)| d.chunks(v) * (d.chunk_bytes(v) + d.chunk_pad(i) + 1)).sum::<u64>() };
    let mut biggest = 0u64;
    for e in &plan.defs { biggest = biggest.max(size(&MDef::build(e))); }
    biggest += max_hmin(plan);
    for r in &h.recs {
        // data handled by any one call is at most everything in the file, plus its header
        let mut units = biggest + 4096;
        if let Res::Ok(Val::Data { bytes, .. }) = &r.res { units = units.max(bytes.len() as u64 + 4096); }
        // a call on one variable or record handles only that
        if let Call::W { k, .. } = &r.call {
            if let (WK::Var { .. } | WK::Rec { .. }, Some(e)) = (k, plan.defs.first()) {
                let d = MDef::build(e);
                if let Some(a) = exec::resolve_write(&d, k) { let c = if a.rec.is_some() { 1 } else { a.var.map(|i| d.chunks(&d.vars[i])).unwrap_or(1) }; units = a.bytes.len() as u64 + 12 * c; }
            }
            if matches!(k, WK::BadType { .. } | WK::BadLen { .. } | WK::BadName { .. } | WK::BadRec { .. } | WK::Info) { units = 8; }
        }
        let eintr = r.fired.iter().filter(|f| f.act == Act::Err(libc::EINTR)).count() as u64;
        // each byte may need a call, interrupted a few times, plus seeks and checks
        let limit = 64 + 8 * units + 2 * eintr;
        if r.calls > limit { bad(&mut vs, "unbounded work", format!("{}: {} system calls for {} bytes (limit {})", at(r), r.calls, units, limit)); }
        // not counting what the kernel cut short, no call needs more than a few calls per value it handles
        if let Some((chunks, bytes)) = work(plan, r) {
            let (n, limit) = (r.calls.saturating_sub(r.cuts), 64 + 8 * chunks + 4 * bytes);
            if n > limit { bad(&mut vs, "unbounded work", format!("{}: {} whole system calls for {} chunks of {} bytes together (limit {})", at(r), n, chunks, bytes, limit)); }
        }
        // after a failure that lasts, a call gives up at once
        let hards: Vec<usize> = r.fired.iter().enumerate().filter(|(_, f)| f.hard).map(|(i, _)| i).collect();
        if hards.len() > 8 { bad(&mut vs, "endless retrying", format!("{}: went on after {} hard failures", at(r), hards.len())); }
    }
    vs
}

// ------------------------------------------------------------------ C17

fn c17(plan: &Plan, h: &History) -> Vs {
    let mut vs = vec![];
    panics(h, &mut vs);
    for (a, e) in h.actors.iter().enumerate() {
        if e.open_fds > 0 { bad(&mut vs, "descriptor leak", format!("actor {}: {} descriptors still open at the end", a, e.open_fds)); }
        if e.bad_fd > 0 { bad(&mut vs, "descriptor misuse", format!("actor {}: {} uses of a closed or foreign descriptor", a, e.bad_fd)); }
        let mut k = 0;
        for ph in &plan.phases { for s in ph {
            if k == a {
                let own: Vec<&str> = s.sessions.iter().filter_map(|x| match x { Session::Write(w) => Some(w.path.as_str()), Session::Read(r) => Some(r.path.as_str()), _ => None })
                    .chain(s.sessions.iter().filter_map(|x| if let Session::Write(w) = x { w.twin.as_ref().map(|t| t.path.as_str()) } else { None })).collect();
                for t in &e.touched { if !own.contains(&t.as_str()) { bad(&mut vs, "foreign path", format!("actor {} touched {:?}, its sessions use {:?}", a, t, own)); } }
                if s.sessions.iter().all(|x| matches!(x, Session::Read(_))) && e.mutating > 0 { bad(&mut vs, "reader modifies", format!("actor {} only reads but made {} modifying calls", a, e.mutating)); }
            }
            k += 1;
        } }
    }
    // sessions end with no descriptor, live with at most one each
    let mut live: BTreeMap<usize, usize> = BTreeMap::new();
    for r in &h.recs {
        if matches!(r.res, Res::Dead | Res::Panic(_)) { continue; }
        let n = live.entry(r.actor).or_insert(0);
        match &r.call {
            Call::WOpen { .. } | Call::ROpen { .. } => *n += r.res.ok() as usize,
            Call::W { k: WK::Close, .. } | Call::R { k: RK::Close, .. } | Call::WDrop { .. } | Call::RDrop { .. } => *n -= (*n).min(1),
            Call::Env(_) | Call::Def { .. } => continue,
            _ => {}
        }
        if r.fds > *n { bad(&mut vs, "descriptor leak", format!("{}: {} descriptors open, {} sessions in progress", at(r), r.fds, n)); }
    }
    // only known names exist at the end
    for n in h.fs.names.keys() {
        let n = String::from_utf8_lossy(n).to_string();
        let known = plan.files.iter().any(|f| f.path == n) || plan.phases.iter().flatten().flat_map(|s| &s.sessions).any(|s| matches!(s, Session::Write(w) if w.path == n || w.twin.as_ref().map(|t| t.path == n).unwrap_or(false)));
        if !known { bad(&mut vs, "foreign path", format!("a file {:?} appeared", n)); }
    }
    for f in &plan.files {
        let written = plan.phases.iter().flatten().flat_map(|s| &s.sessions).any(|s| matches!(s, Session::Write(w) if w.path == f.path));
        let same = h.fs.get(&f.path).map(|x| x.same(&exec::build_file(plan, f))).unwrap_or(false);
        if !written && !same { bad(&mut vs, "reader modifies", format!("{:?} was only read but its content changed", f.path)); }
    }
    vs
}
