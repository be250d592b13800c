//! Judges: decide a recorded history against the reference model.
use crate::exec::{self, resolve_write, Call, History, Rec, Res, Val};
use crate::model::*;
use crate::plan::*;
use crate::world::{Act, Fired, Sparse};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Viol { pub class: String, pub msg: String }
pub type Vs = Vec<Viol>;

pub fn bad(vs: &mut Vs, class: &str, msg: String) { if vs.len() < 40 { vs.push(Viol { class: class.to_string(), msg }); } }
pub fn at(r: &Rec) -> String { format!("actor {} op {} [{}..{}] {}", r.actor, r.op, r.start, r.end, call_text(&r.call)) }
pub fn call_text(c: &Call) -> String {
    let s = match c {
        Call::W { path, k } => format!("write {} {:?}", path, k),
        Call::R { path, k } => format!("read {} {:?}", path, k),
        o => format!("{:?}", o),
    };
    if s.chars().count() > 200 { s.chars().take(200).collect::<String>() + "…" } else { s }
}

/// Error kinds a call may report given the failures delivered to it.
pub fn kinds(fired: &[Fired]) -> Vec<String> {
    fired.iter().filter(|f| f.hard).map(|f| match f.act {
        Act::Err(e) => format!("{:?}", std::io::Error::from_raw_os_error(e).kind()),
        Act::Zero => "WriteZero".to_string(),
        _ => "crash".to_string(),
    }).collect()
}
fn hard(fired: &[Fired]) -> bool { fired.iter().any(|f| f.hard) }

// ------------------------------------------------------------------ writer model

#[derive(Clone, Debug)]
pub struct Chunk { pub layers: Vec<Vec<u8>>, pub acked: bool }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Closed { No, Ok, Failed }

#[derive(Clone, Debug)]
pub struct Acked { pub def: MDef, pub ver: Ver, pub hmin: u64, pub lay: Layout }

/// What a file must hold, given the calls made on its writer so far.
#[derive(Clone, Debug)]
pub struct WState { pub d: Option<Acked>, pub tried: Vec<(MDef, Ver)>, pub chunks: BTreeMap<(usize, u64), Chunk>, pub closed: Closed }

impl WState {
    pub fn new() -> WState { WState { d: None, tried: vec![], chunks: BTreeMap::new(), closed: Closed::No } }

    /// Allowed contents of a chunk (per byte, any of the layers) and whether it was acknowledged.
    pub fn get(&self, i: usize, k: u64) -> Chunk {
        let a = self.d.as_ref().unwrap();
        let v = &a.def.vars[i];
        let n = a.def.chunk_bytes(v) as usize;
        let mut c = self.chunks.get(&(i, k)).cloned().unwrap_or(Chunk { layers: vec![vec![0; n]], acked: false });
        if !c.acked {
            match self.closed {
                Closed::No => {}
                Closed::Ok => { c.layers = vec![fill_bytes(v.ty, n)]; c.acked = true; }
                Closed::Failed => c.layers.push(fill_bytes(v.ty, n)),
            }
        }
        c
    }
    fn split(&self, i: usize, rec: Option<u64>, bytes: &[u8]) -> Vec<((usize, u64), Vec<u8>)> {
        let a = self.d.as_ref().unwrap();
        let v = &a.def.vars[i];
        let n = a.def.chunk_bytes(v) as usize;
        match rec {
            Some(k) => vec![((i, k), bytes.to_vec())],
            None => (0..a.def.chunks(v)).map(|k| ((i, k), bytes[k as usize * n..(k as usize + 1) * n].to_vec())).collect(),
        }
    }
    pub fn wrote(&mut self, i: usize, rec: Option<u64>, bytes: &[u8]) {
        for (key, b) in self.split(i, rec, bytes) { self.chunks.insert(key, Chunk { layers: vec![b], acked: true }); }
    }
    pub fn tried_write(&mut self, i: usize, rec: Option<u64>, bytes: &[u8]) {
        for (key, b) in self.split(i, rec, bytes) {
            let z = vec![0; b.len()];
            let c = self.chunks.entry(key).or_insert(Chunk { layers: vec![z], acked: false });
            c.layers.push(b);
        }
    }

    /// The image the file must have. Where several contents are allowed, those of `f` are
    /// taken if allowed. Also the length it must have (closed) or at least have.
    pub fn expected(&self, f: &Sparse) -> Option<(Sparse, u64)> {
        let a = self.d.as_ref()?;
        let mut e = Sparse::default();
        let vsizes = a.def.vsizes_like(a.ver, &a.lay.begins, &mut |o, n| f.slice(o, n));
        e.write_at(0, &encode_header(&a.def, a.ver, &a.lay.begins, None, &vsizes));
        let mut end = a.lay.header_len;
        let fills: Vec<Vec<u8>> = a.def.vars.iter().map(|v| v.ty.fill()).collect();
        let done = self.closed == Closed::Ok;
        let mut put = |e: &mut Sparse, i: usize, k: u64, end: &mut u64| {
            let v = &a.def.vars[i];
            let o = a.lay.offset(&a.def, i, k);
            let size = a.def.chunk_bytes(v) + a.def.chunk_pad(i);
            if size > 1 << 22 && !self.chunks.contains_key(&(i, k)) && !done {
                // too large to have been filled before the disk was full: what there is of it
                for (p, mut b) in f.present(o, o + size) {
                    for (j, x) in b.iter_mut().enumerate() { if *x != fills[i][((p - o) as usize + j) % fills[i].len()] { *x = 0; } }
                    e.write_at(p, &b);
                }
                return;
            }
            let c = self.get(i, k);
            let n = c.layers[0].len();
            let pad = a.def.chunk_pad(i) as usize;
            let mut b = c.layers.last().unwrap().clone();
            if c.layers.len() > 1 {
                let mut cur = f.slice(o, n);
                cur.resize(n, 0);
                for j in 0..n { if c.layers.iter().any(|l| l[j] == cur[j]) { b[j] = cur[j]; } }
            }
            let fill = fill_bytes(v.ty, n + pad)[n..].to_vec();
            let fill0 = fill_bytes(v.ty, pad);
            debug_assert!(fill.len() == fill0.len());
            if done { b.extend(&fill0); } else {
                let mut cur = f.slice(o + n as u64, pad);
                cur.resize(pad, 0);
                for j in 0..pad { b.push(if cur[j] == fill0[j] { fill0[j] } else { 0 }); }
            }
            e.write_at(o, &b);
            if done { *end = (*end).max(o + (n + pad) as u64); } else if c.acked { *end = (*end).max(o + n as u64); }
        };
        if done || self.closed == Closed::Failed {
            for (i, v) in a.def.vars.iter().enumerate() { for k in 0..a.def.chunks(v).min(1 << 20) { put(&mut e, i, k, &mut end); } }
        } else {
            for (i, k) in self.chunks.keys() { put(&mut e, *i, *k, &mut end); }
        }
        if e.len() < end { e.truncate(end); }
        Some((e, end))
    }

    pub fn check_image(&self, f: &Sparse, class: &str, what: &str, vs: &mut Vs) {
        let (e, end) = match self.expected(f) { Some(x) => x, None => {
            if self.tried.is_empty() && f.len() != 0 { bad(vs, class, format!("{}: {} bytes in the file although no definition was ever given", what, f.len())); }
            return;
        } };
        let d = e.diff(f, 8);
        if !d.is_empty() { bad(vs, class, format!("{}: file bytes differ at {:?}: {}", what, d, self.describe(d[0], &e, f))); return; }
        if self.closed == Closed::Ok && f.len() != end { bad(vs, class, format!("{}: file has {} bytes, must have {}", what, f.len(), end)); }
        else if f.len() < end { bad(vs, class, format!("{}: file has {} bytes but acknowledged content ends at {}", what, f.len(), end)); }
    }
    fn describe(&self, off: u64, e: &Sparse, f: &Sparse) -> String {
        let a = self.d.as_ref().unwrap();
        let mut place = "outside all data".to_string();
        if off < a.lay.header_len { place = "header".into(); } else {
            for (i, v) in a.def.vars.iter().enumerate() { for k in 0..a.def.chunks(v).min(4096) {
                let o = a.lay.offset(&a.def, i, k);
                let n = a.def.chunk_bytes(v);
                if off >= o && off < o + n + a.def.chunk_pad(i) {
                    place = format!("variable {} {:?} ({}) chunk {} {}", i, v.name.chars().take(20).collect::<String>(), v.ty.name(), k, if off < o + n { "data" } else { "padding" });
                }
            } }
        }
        format!("offset {} ({}): expected {} got {}", off, place, exec::hex(&e.slice(off, 8), 8), exec::hex(&f.slice(off, 8), 8))
    }
}

// ------------------------------------------------------------------ one writer call

pub enum WWhat { SetDef(usize, Ver, u64), Data { i: usize, rec: Option<u64>, bytes: Vec<u8> }, Info, Close, Drop }
/// A refusal may name any of the reasons that apply.
pub enum WExp { Refuse(Vec<String>), Valid(WWhat), Skip }

/// What must happen to a writer call in this state, I/O failures aside.
pub fn expect_write(ws: &WState, defs: &[MDef], c: &Call) -> WExp {
    let k = match c { Call::W { k, .. } => k, Call::WDrop { .. } => return WExp::Valid(WWhat::Drop), _ => return WExp::Skip };
    match k {
        WK::SetDef { def, ver, hmin } => {
            let d = match defs.get(*def) { Some(d) => d, None => return WExp::Skip };
            let mut why = vec![];
            if ws.d.is_some() { why.push("HeaderAlreadyDefined".to_string()); }
            if d.layout(*ver, *hmin).is_none() { why.push(if *ver == Ver::Classic { "ClassicVersionNotPossible" } else { "Unexpected" }.into()); }
            if !why.is_empty() { return WExp::Refuse(why); }
            WExp::Valid(WWhat::SetDef(*def, *ver, *hmin))
        }
        WK::Info => WExp::Valid(WWhat::Info),
        WK::Close => WExp::Valid(WWhat::Close),
        WK::Env(_) => WExp::Skip,
        k => {
            let d = match ws.d.as_ref().map(|a| &a.def).or(defs.first()) { Some(d) => d, None => return WExp::Skip };
            let a = match resolve_write(d, k) { Some(a) => a, None => return WExp::Skip };
            if ws.d.is_none() { return WExp::Refuse(vec!["HeaderNotDefined".into()]); }
            let i = match a.var { None => return WExp::Refuse(vec![format!("VariableNotDefined({:?})", a.name)]), Some(i) => i };
            let v = &d.vars[i];
            let mut why = vec![];
            if v.ty != a.ty { why.push(format!("VariableMismatchDataType {{ var_name: {:?}, req: {:?}, get: {:?} }}", v.name, v.ty, a.ty)); }
            let get = a.bytes.len() / a.ty.size();
            let one = d.chunk_len(v) as usize;
            match a.rec {
                None => {
                    let req = one * d.chunks(v) as usize;
                    if get != req { why.push(format!("VariableMismatchDataLength {{ var_name: {:?}, req: {}, get: {} }}", v.name, req, get)); }
                }
                Some(k) => {
                    if k >= d.chunks(v) { why.push(format!("RecordIndexExceeded {{ index: {}, num_records: {} }}", k, d.chunks(v))); }
                    if get != one { why.push(format!("RecordMismatchDataLength {{ var_name: {:?}, req: {}, get: {} }}", v.name, one, get)); }
                }
            }
            if !why.is_empty() { return WExp::Refuse(why); }
            WExp::Valid(WWhat::Data { i, rec: a.rec, bytes: a.bytes })
        }
    }
}

/// Applies the effect of a writer call; `done`: acknowledged, else only attempted.
pub fn effect(ws: &mut WState, defs: &[MDef], w: &WWhat, done: bool) {
    match w {
        WWhat::SetDef(d, ver, hmin) => {
            let def = defs[*d].clone();
            if done { let lay = def.layout(*ver, *hmin).unwrap(); ws.d = Some(Acked { def, ver: *ver, hmin: *hmin, lay }); }
            else { ws.tried.push((def, *ver)); }
        }
        WWhat::Data { i, rec, bytes } => if done { ws.wrote(*i, *rec, bytes) } else { ws.tried_write(*i, *rec, bytes) },
        WWhat::Close => if ws.d.is_some() { ws.closed = if done { Closed::Ok } else { Closed::Failed } },
        WWhat::Info | WWhat::Drop => {}
    }
}

/// Checks the result of one writer call and updates the state.
pub fn judge_write(ws: &mut WState, defs: &[MDef], r: &Rec, vs: &mut Vs) {
    if r.over_limit { bad(vs, "runaway", format!("{}: more than {} system calls", at(r), exec::OP_LIMIT)); }
    if let Res::Panic(m) = &r.res { bad(vs, &format!("panic {}", place_of(m)), format!("{}: panicked: {}", at(r), m)); }
    match expect_write(ws, defs, &r.call) {
        WExp::Skip => {}
        WExp::Refuse(want) => match &r.res {
            Res::Err { dbg, .. } if want.contains(dbg) => {}
            Res::Dead | Res::Panic(_) => {}
            o => bad(vs, "refusal", format!("{}: must be refused with {}, got {}", at(r), want.join(" or "), o.short())),
        },
        WExp::Valid(w) => {
            match &r.res {
                Res::Ok(v) => {
                    effect(ws, defs, &w, true);
                    if let (WWhat::Info, Val::Info(info)) = (&w, v) { check_info(ws, r, info, vs); }
                }
                Res::Err { dbg, io } => {
                    effect(ws, defs, &w, false);
                    let ks = kinds(&r.fired);
                    if ks.is_empty() { bad(vs, "needless failure", format!("{}: nothing failed, yet it returned {}", at(r), dbg)); }
                    else { match io {
                        Some(k) if ks.contains(k) => {}
                        _ => bad(vs, "wrong error", format!("{}: the system reported {:?}, the call returned {}", at(r), ks, dbg)),
                    } }
                }
                Res::Dead | Res::Panic(_) => effect(ws, defs, &w, false),
            }
        }
    }
}

pub fn place_of(m: &str) -> String { m.rsplit(" at ").next().unwrap_or("").to_string() }

fn check_info(ws: &WState, r: &Rec, info: &[(String, String)], vs: &mut Vs) {
    let path = match &r.call { Call::W { path, .. } => path.clone(), _ => return };
    let want: BTreeMap<&str, String> = [
        ("defined", format!("{}", ws.d.is_some())), ("data_set", format!("{}", ws.d.is_some())),
        ("version", match &ws.d { Some(a) => format!("Some({})", if a.ver == Ver::Classic { "Classic" } else { "Offset64Bit" }), None => "None".into() }),
        ("header_min_size", format!("{:?}", ws.d.as_ref().map(|a| a.hmin))), ("file_path", path),
    ].into_iter().collect();
    for (k, v) in info { if want.get(k.as_str()) != Some(v) { bad(vs, "writer state", format!("{}: {} is {:?}, must be {:?}", at(r), k, v, want.get(k.as_str()))); } }
}

// ------------------------------------------------------------------ one reader call

#[derive(Clone, Debug)]
pub enum Exp { Exact(Vec<u8>), Any { layers: Vec<Vec<u8>>, may_err: bool }, Fail }

pub struct RView<'a> { pub def: &'a MDef, pub ver: Ver, pub data: &'a dyn Fn(usize, u64) -> Exp, /** errors are always acceptable */ pub lenient: bool }

fn cmp_def(r: &Rec, got: &MDef, gver: Ver, odd: &[String], def: &MDef, ver: Ver, vs: &mut Vs) {
    if !odd.is_empty() { bad(vs, "definition contradicts itself", format!("{}: {}", at(r), odd.join("; "))); }
    if gver != ver { bad(vs, "wrong version", format!("{}: version {:?}, must be {:?}", at(r), gver, ver)); }
    if got != def { bad(vs, "wrong definition", format!("{}: {}", at(r), def_diff(got, def))); }
}
pub fn def_diff(g: &MDef, e: &MDef) -> String {
    let cut = |s: String| s.chars().take(300).collect::<String>();
    if g.dims.len() != e.dims.len() { return format!("{} dimensions, must be {}", g.dims.len(), e.dims.len()); }
    for (a, b) in g.dims.iter().zip(&e.dims) { if (&a.name, a.size, a.unlim) != (&b.name, b.size, b.unlim) { return cut(format!("dimension {:?}, must be {:?}", (&a.name, a.size, a.unlim), (&b.name, b.size, b.unlim))); } }
    if g.attrs.len() != e.attrs.len() { return format!("{} global attributes, must be {}", g.attrs.len(), e.attrs.len()); }
    for (a, b) in g.attrs.iter().zip(&e.attrs) { if a != b { return cut(format!("global attribute {:?}, must be {:?}", a, b)); } }
    if g.vars.len() != e.vars.len() { return format!("{} variables, must be {}", g.vars.len(), e.vars.len()); }
    for (a, b) in g.vars.iter().zip(&e.vars) {
        if (&a.name, a.ty) != (&b.name, b.ty) { return cut(format!("variable {:?}, must be {:?}", (&a.name, a.ty), (&b.name, b.ty))); }
        let pos = |d: &MDef, v: &MVar| v.dims.iter().map(|u| d.dim_pos(*u)).collect::<Vec<_>>();
        if pos(g, a) != pos(e, b) { return format!("variable {:?} has dimensions {:?}, must be {:?}", a.name, pos(g, a), pos(e, b)); }
        if a.attrs.len() != b.attrs.len() { return cut(format!("variable {:?}: {} attributes, must be {}", a.name, a.attrs.len(), b.attrs.len())); }
        for (x, y) in a.attrs.iter().zip(&b.attrs) { if x != y { return cut(format!("attribute of {:?}: {:?}, must be {:?}", a.name, x, y)); } }
    }
    "equal".into()
}

/// (variable, chunks) a read call is about, or the refusal it must get.
fn read_target(d: &MDef, c: &Call) -> Option<Result<(usize, Option<u64>), String>> {
    let pick = |i: usize| if d.vars.is_empty() { None } else { Some(i % d.vars.len()) };
    Some(match c {
        Call::Read { var, rec, .. } => Ok((d.var(var)?.0, *rec)),
        Call::R { k, .. } => match k {
            RK::Var { var, .. } => Ok((pick(*var)?, None)),
            RK::Rec { var, rec, .. } => { let i = pick(*var)?; let n = d.chunks(&d.vars[i]); if n == 0 { return None; } Ok((i, Some(rec % n))) }
            RK::BadName { .. } => Err("VariableNotDefined(\"no such variable\")".into()),
            RK::BadType { var, ty, .. } => { let v = &d.vars[pick(*var)?]; Err(format!("VariableMismatchDataType {{ var_name: {:?}, req: {:?}, get: {:?} }}", v.name, v.ty, ty)) }
            RK::BadRec { var, over, .. } => { let v = &d.vars[pick(*var)?]; let n = d.chunks(v); Err(format!("RecordIndexExceeded {{ index: {}, num_records: {} }}", n.saturating_add(*over), n)) }
            _ => return None,
        },
        _ => return None,
    })
}

/// Compares returned values with what is allowed; None: fine.
fn cmp_data(d: &MDef, i: usize, rec: Option<u64>, ty: Ty, bytes: &[u8], exp: &[Exp]) -> Option<(&'static str, String)> {
    let v = &d.vars[i];
    if ty != v.ty { return Some(("wrong type", format!("values of type {}, variable is {}", ty.name(), v.ty.name()))); }
    let n = d.chunk_bytes(v) as usize;
    if bytes.len() != n * exp.len() { return Some(("wrong length", format!("{} bytes of values, must be {}", bytes.len(), n * exp.len()))); }
    for (j, e) in exp.iter().enumerate() {
        let got = &bytes[j * n..(j + 1) * n];
        let k = rec.unwrap_or(j as u64);
        match e {
            Exp::Fail => return Some(("invented data", format!("chunk {} of variable {:?} is not in the file, yet values were returned: {}", k, v.name, exec::hex(got, 16)))),
            Exp::Exact(b) => if b != got {
                let p = (0..n).find(|p| b[*p] != got[*p]).unwrap();
                return Some(("wrong value", format!("variable {:?} ({}) chunk {} byte {}: {} must be {}", v.name, v.ty.name(), k, p, exec::hex(&got[p..], 8), exec::hex(&b[p..], 8))));
            },
            Exp::Any { layers, .. } => if let Some(p) = (0..n).find(|p| !layers.iter().any(|l| l[*p] == got[*p])) {
                return Some(("wrong value", format!("variable {:?} ({}) chunk {} byte {}: {} is none of {:?}", v.name, v.ty.name(), k, p, exec::hex(&got[p..], 8), layers.iter().map(|l| exec::hex(&l[p..], 8)).collect::<Vec<_>>())));
            },
        }
    }
    None
}

const MAX_WHOLE: u64 = 1 << 20;

/// Judges any reader call after a successful open.
pub fn judge_read(v: &RView, r: &Rec, vs: &mut Vs) {
    if r.over_limit { bad(vs, "runaway", format!("{}: more than {} system calls", at(r), exec::OP_LIMIT)); }
    if let Res::Panic(m) = &r.res { bad(vs, &format!("panic {}", place_of(m)), format!("{}: panicked: {}", at(r), m)); return; }
    if r.res == Res::Dead { return; }
    match &r.call {
        Call::R { k: RK::Info, .. } | Call::R { k: RK::Close, .. } => match &r.res {
            Res::Ok(Val::Def { def, ver, odd }) => cmp_def(r, def, *ver, odd, v.def, v.ver, vs),
            o => bad(vs, "needless failure", format!("{}: {}", at(r), o.short())),
        },
        Call::RDrop { .. } => {}
        Call::R { k: RK::All, .. } => {
            let mut exps: Vec<Vec<Exp>> = vec![];
            for (i, x) in v.def.vars.iter().enumerate() {
                if v.def.chunks(x) > MAX_WHOLE { return; }
                exps.push((0..v.def.chunks(x)).map(|k| (v.data)(i, k)).collect());
            }
            let all: Vec<&Exp> = exps.iter().flatten().collect();
            match &r.res {
                Res::Ok(Val::All(m)) => {
                    if m.len() != v.def.vars.len() { bad(vs, "wrong variables", format!("{}: {} variables, must be {}", at(r), m.len(), v.def.vars.len())); }
                    for (i, x) in v.def.vars.iter().enumerate() {
                        match m.get(&x.name) {
                            None => bad(vs, "wrong variables", format!("{}: variable {:?} missing", at(r), x.name)),
                            Some((ty, b)) => if let Some((c, t)) = cmp_data(v.def, i, None, *ty, b, &exps[i]) { bad(vs, c, format!("{}: {}", at(r), t)); },
                        }
                    }
                }
                o => judge_failed_read(v, r, o, &all, vs),
            }
        }
        c => match read_target(v.def, c) {
            None => {}
            Some(Err(want)) => match &r.res {
                Res::Err { dbg, .. } if *dbg == want => {}
                o => bad(vs, "refusal", format!("{}: must be refused with {}, got {}", at(r), want, o.short())),
            },
            Some(Ok((i, rec))) => {
                let n = v.def.chunks(&v.def.vars[i]);
                if rec.is_none() && n > MAX_WHOLE { return; }
                let exp: Vec<Exp> = match rec { Some(k) => vec![(v.data)(i, k)], None => (0..n).map(|k| (v.data)(i, k)).collect() };
                match &r.res {
                    Res::Ok(Val::Data { ty, bytes }) => if let Some((c, t)) = cmp_data(v.def, i, rec, *ty, bytes, &exp) { bad(vs, c, format!("{}: {}", at(r), t)); },
                    o => judge_failed_read(v, r, o, &exp.iter().collect::<Vec<_>>(), vs),
                }
            }
        },
    }
}

fn judge_failed_read(v: &RView, r: &Rec, res: &Res, exp: &[&Exp], vs: &mut Vs) {
    let (dbg, io) = match res { Res::Err { dbg, io } => (dbg, io), o => { bad(vs, "wrong result", format!("{}: {}", at(r), o.short())); return; } };
    if v.lenient { return; }
    let ks = kinds(&r.fired);
    let absent = exp.iter().any(|e| matches!(e, Exp::Fail | Exp::Any { may_err: true, .. }));
    if let Some(k) = io {
        if ks.contains(k) { return; }
        if absent && k == "UnexpectedEof" { return; }
    }
    if !ks.is_empty() { bad(vs, "wrong error", format!("{}: the system reported {:?}, the call returned {}", at(r), ks, dbg)); }
    else if absent { bad(vs, "wrong error", format!("{}: the data is not in the file, the call returned {}", at(r), dbg)); }
    else { bad(vs, "needless failure", format!("{}: all data is in the file and nothing failed, yet it returned {}", at(r), dbg)); }
}

/// Judges an open of a file whose content decodes to `want` (None: it does not decode).
pub fn judge_open(r: &Rec, want: Result<(&MDef, Ver), String>, must: bool, lenient: bool, vs: &mut Vs) {
    if r.over_limit { bad(vs, "runaway", format!("{}: more than {} system calls", at(r), exec::OP_LIMIT)); }
    match &r.res {
        Res::Panic(m) => bad(vs, &format!("panic {}", place_of(m)), format!("{}: panicked: {}", at(r), m)),
        Res::Dead => {}
        Res::Ok(Val::Def { def, ver, odd }) => match want {
            Ok((d, v)) => cmp_def(r, def, *ver, odd, d, v, vs),
            Err(why) => bad(vs, "opened an invalid file", format!("{}: the content is not a valid file ({}), yet it was opened with {} dims, {} vars", at(r), why, def.dims.len(), def.vars.len())),
        },
        Res::Ok(_) => {}
        Res::Err { dbg, io } => {
            let ks = kinds(&r.fired);
            if !ks.is_empty() {
                if !io.as_ref().map(|k| ks.contains(k)).unwrap_or(false) && want.is_ok() && !lenient { bad(vs, "wrong error", format!("{}: the system reported {:?}, open returned {}", at(r), ks, dbg)); }
            } else if must && !lenient { bad(vs, "needless failure", format!("{}: the file is valid and nothing failed, yet it returned {}", at(r), dbg)); }
        }
    }
}

// ------------------------------------------------------------------ definitions built in memory

/// Model definitions of a writer session and checks of every edit.
pub fn judge_defs(recs: &[&Rec], s: &WriteSession, carried: Option<&MDef>, kept: Option<&MDef>, vs: &mut Vs) -> Vec<MDef> {
    let mut out = vec![];
    for r in recs {
        let src = match &r.call { Call::Def { src } => *src, _ => continue };
        let mut m = match s.defs[src] { DefSrc::Built(_) => MDef::default(), DefSrc::Carried(_) => carried.cloned().unwrap_or_default(), DefSrc::Kept(_) => kept.cloned().unwrap_or_default() };
        for (e, got) in &r.edits {
            let reasons = m.reasons(e);
            let want = m.apply(e);
            let fits = *got == want || matches!((got, &want), (Err(g), Err(_)) if reasons.contains(g));
            if !fits { bad(vs, "edit outcome", format!("{}: {:?} gave {:?}, must give {:?}", at(r), short_edit(e), got, want)); }
        }
        match &r.res {
            Res::Panic(p) => bad(vs, &format!("panic {}", place_of(p)), format!("{}: panicked: {}", at(r), p)),
            Res::Ok(Val::Def { def, odd, .. }) => {
                if !odd.is_empty() { bad(vs, "definition contradicts itself", format!("{}: {}", at(r), odd.join("; "))); }
                if *def != m { bad(vs, "wrong definition", format!("{}: in memory: {}", at(r), def_diff(def, &m))); }
            }
            _ => {}
        }
        out.push(m);
    }
    out
}
fn short_edit(e: &Edit) -> String { format!("{:?}", e).chars().take(160).collect() }

// ------------------------------------------------------------------ histories without concurrency on one file

#[derive(Clone)]
struct PathState { content: Option<Sparse>, ws: Option<WState>, strict: bool, readonly: bool }

pub struct SeqOpts {
    /// Check the image after every call, not only after close.
    pub every: bool,
    /// Each accepted write may only change its own bytes.
    pub touch: bool,
    /// Memory bound of reader calls.
    pub mem: bool,
}

pub fn session<'a>(plan: &'a Plan, actor: usize, si: usize) -> &'a Session {
    let mut a = actor;
    for ph in &plan.phases { if a < ph.len() { return &ph[a].sessions[si]; } a -= ph.len(); }
    unreachable!()
}

fn strict_file(f: &InitFile) -> bool {
    match &f.src {
        FileSrc::Raw(_) => false,
        _ => f.damage.is_empty() || f.damage.iter().all(|d| matches!(d, Damage::Trunc(_))),
    }
}

pub fn judge_seq(plan: &Plan, h: &History, o: &SeqOpts) -> Vs { judge_recs(plan, &h.recs.iter().collect::<Vec<_>>(), o) }

pub fn judge_recs(plan: &Plan, recs: &[&Rec], o: &SeqOpts) -> Vs {
    let mut vs: Vs = vec![];
    let mut paths: BTreeMap<String, PathState> = BTreeMap::new();
    for f in &plan.files { paths.insert(f.path.clone(), PathState { content: Some(exec::build_file(plan, f)), ws: None, strict: strict_file(f), readonly: false }); }
    let none = PathState { content: None, ws: None, strict: true, readonly: false };
    let mut carried: BTreeMap<usize, MDef> = BTreeMap::new();
    let mut kept: BTreeMap<usize, MDef> = BTreeMap::new();
    let mut i = 0;
    let mut defs: Vec<MDef> = vec![];
    let mut rdef: Option<(MDef, Ver, Vec<i64>)> = None; // open reader's definition
    // the open reader's file: its name now (None: it has none any more) and state
    let mut rfile: (Option<String>, PathState) = (None, none.clone());
    while i < recs.len() {
        let r = recs[i];
        i += 1;
        match &r.call {
            Call::Def { src } => {
                if *src == 0 {
                    let s = match session(plan, r.actor, r.sess) { Session::Write(s) => s, _ => continue };
                    let rs: Vec<&Rec> = recs[i - 1..].iter().cloned().take_while(|x| x.actor == r.actor && x.sess == r.sess && matches!(x.call, Call::Def { .. })).collect();
                    defs = judge_defs(&rs, s, carried.get(&r.actor), kept.get(&r.actor), &mut vs);
                    if let Some(d) = defs.last() { kept.insert(r.actor, d.clone()); }
                    if s.defs.iter().any(|d| matches!(d, DefSrc::Carried(_))) { carried.remove(&r.actor); }
                }
            }
            Call::Env(e) => {
                match e {
                    EnvOp::Unlink { path } | EnvOp::Replace { path, .. } => if rfile.0.as_ref() == Some(path) { rfile.0 = None; },
                    EnvOp::Rename { from, to } => if paths.get(from).map(|p| p.content.is_some()).unwrap_or(false) {
                        if rfile.0.as_ref() == Some(to) && from != to { rfile.0 = None; }
                        if rfile.0.as_ref() == Some(from) { rfile.0 = Some(to.clone()); }
                    },
                    _ => {}
                }
                match e {
                    EnvOp::Truncate { path, .. } | EnvOp::Poke { path, .. } | EnvOp::Append { path, .. } | EnvOp::Replace { path, .. } | EnvOp::Unlink { path } => {
                        // content is no longer only the writer's work
                        let ro = paths.get(path).map(|p| p.readonly).unwrap_or(false);
                        let strict = matches!(e, EnvOp::Truncate { .. } | EnvOp::Append { .. }) && paths.get(path).map(|p| p.strict).unwrap_or(true);
                        paths.insert(path.clone(), PathState { content: r.snap.clone(), ws: None, strict, readonly: ro });
                    }
                    EnvOp::Rename { from, to } => if paths.get(from).map(|p| p.content.is_some()).unwrap_or(false) { let p = paths.remove(from).unwrap_or(none.clone()); paths.insert(to.clone(), p); }
                    EnvOp::Readonly { path, on } => { if let Some(p) = paths.get_mut(path) { p.readonly = *on; } }
                    _ => {}
                }
                if let Some(p) = rfile.0.as_ref().and_then(|n| paths.get(n)) { rfile.1 = p.clone(); }
            }
            Call::WOpen { path, new } => {
                let p = paths.entry(path.clone()).or_insert(none.clone());
                let want = if *new && p.content.is_some() { Some("AlreadyExists") } else if !*new && p.readonly { Some("PermissionDenied") } else { None };
                if let Res::Panic(m) = &r.res { bad(&mut vs, &format!("panic {}", place_of(m)), format!("{}: panicked: {}", at(r), m)); }
                match &r.res {
                    Res::Ok(_) => {
                        if let Some(k) = want { bad(&mut vs, "refusal", format!("{}: must fail with {}, succeeded", at(r), k)); }
                        if r.snap.as_ref().map(|s| s.len()) != Some(0) { bad(&mut vs, "not empty", format!("{}: the file is not empty after opening for writing: {:?} bytes", at(r), r.snap.as_ref().map(|s| s.len()))); }
                        *p = PathState { content: r.snap.clone(), ws: Some(WState::new()), strict: true, readonly: p.readonly };
                    }
                    Res::Err { dbg, io } => {
                        let ks = kinds(&r.fired);
                        let ok = io.as_ref().map(|k| Some(k.as_str()) == want || ks.contains(k)).unwrap_or(false);
                        if !ok { bad(&mut vs, if want.is_none() && ks.is_empty() { "needless failure" } else { "wrong error" }, format!("{}: returned {}, must be {:?} or one of {:?}", at(r), dbg, want, ks)); }
                        let same = match (&p.content, &r.snap) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false };
                        // an overwriting or creating open that fails for an I/O error may have emptied or made the file
                        let begun = want.is_none() && !ks.is_empty() && r.snap.as_ref().map(|s| s.len() == 0).unwrap_or(false);
                        if begun { p.content = r.snap.clone(); p.ws = Some(WState::new()); p.strict = true; }
                        if !same && !begun { bad(&mut vs, "failed open changed the file", format!("{}: content changed", at(r))); }
                    }
                    _ => { *p = PathState { content: r.snap.clone(), ws: if r.snap.as_ref().map(|s| s.len() == 0).unwrap_or(false) { Some(WState::new()) } else { p.ws.clone() }, strict: p.strict, readonly: p.readonly }; }
                }
            }
            Call::W { path, .. } | Call::WDrop { path } => {
                let p = match paths.get_mut(path) { Some(p) => p, None => continue };
                let before = p.content.clone().unwrap_or_default();
                let after = r.snap.clone().unwrap_or_default();
                p.content = r.snap.clone();
                let ws = match &mut p.ws { Some(w) => w, None => continue };
                let pre = ws.clone();
                judge_write(ws, &defs, r, &mut vs);
                let ws = ws.clone();
                if o.touch { judge_touch(&pre, &defs, r, &before, &after, &mut vs); }
                let closes = matches!(r.call, Call::W { k: WK::Close, .. });
                if (closes && ws.closed == Closed::Ok) || (o.every && !matches!(r.res, Res::Panic(_))) || (closes && ws.d.is_none() && r.res.ok()) {
                    ws.check_image(&after, if closes { "final bytes" } else { "bytes" }, &at(r), &mut vs);
                }
            }
            Call::ROpen { path } => {
                let p = paths.get(path).unwrap_or(&none);
                rdef = None;
                if o.mem { judge_mem(r, p.content.as_ref().map(|c| c.len()).unwrap_or(0), &mut vs); }
                judge_ropen(p, r, &mut rdef, &mut vs);
                rfile = (Some(path.clone()), p.clone());
            }
            Call::R { .. } | Call::RDrop { .. } | Call::Read { .. } => {
                let p = &rfile.1;
                if o.mem { judge_mem(r, p.content.as_ref().map(|c| c.len()).unwrap_or(0), &mut vs); }
                let (d, ver, begins) = match &rdef { Some(x) => x, None => continue };
                let content = p.content.clone().unwrap_or_default();
                let dec = Decoded { def: d.clone(), ver: *ver, begins: begins.clone(), header_len: 0, numrecs_field: 0 };
                let bytes_len = content.len();
                let data = |i: usize, k: u64| -> Exp {
                    if let Some(ws) = &p.ws {
                        if ws.d.is_none() { let n = d.chunk_bytes(&d.vars[i]) as usize; return Exp::Any { layers: vec![vec![0; n]], may_err: true }; }
                        let c = ws.get(i, k);
                        if c.acked && c.layers.len() == 1 { return Exp::Exact(c.layers[0].clone()); }
                        let a = ws.d.as_ref().unwrap();
                        let end = a.lay.offset(&a.def, i, k) + c.layers[0].len() as u64;
                        return Exp::Any { may_err: !c.acked && bytes_len < end, layers: c.layers };
                    }
                    match dec.place(i, k) {
                        None => Exp::Fail,
                        Some((o, n)) => if o.checked_add(n).map(|e| e > bytes_len).unwrap_or(true) { Exp::Fail } else { Exp::Exact(content.slice(o, n as usize)) },
                    }
                };
                judge_read(&RView { def: d, ver: *ver, data: &data, lenient: !p.strict }, r, &mut vs);
                if let (Call::R { k: RK::Close, .. }, Res::Ok(Val::Def { def, .. })) = (&r.call, &r.res) { carried.insert(r.actor, def.clone()); }
            }
        }
    }
    vs
}

fn judge_ropen(p: &PathState, r: &Rec, rdef: &mut Option<(MDef, Ver, Vec<i64>)>, vs: &mut Vs) {
    let content = match &p.content {
        None => {
            match &r.res {
                Res::Err { io: Some(k), .. } if k == "NotFound" || kinds(&r.fired).contains(k) => {}
                Res::Dead => {}
                o => bad(vs, "wrong error", format!("{}: there is no such file, got {}", at(r), o.short())),
            }
            return;
        }
        Some(c) => c,
    };
    if let Some(ws) = &p.ws {
        match &ws.d {
            Some(a) => {
                judge_open(r, Ok((&a.def, a.ver)), true, false, vs);
                if r.res.ok() { *rdef = Some((a.def.clone(), a.ver, a.lay.begins.iter().map(|b| *b as i64).collect())); }
            }
            None => match &r.res {
                // definition never acknowledged: an error, or exactly one of those attempted
                Res::Ok(Val::Def { def, ver, odd }) => {
                    match ws.tried.iter().rev().find(|(d, v)| d == def && v == ver) {
                        Some((d, v)) => { cmp_def(r, def, *ver, odd, d, *v, vs); *rdef = Some((d.clone(), *v, vec![0; d.vars.len()])); }
                        None => bad(vs, "wrong definition", format!("{}: opened with a definition that was never written ({} dims, {} vars)", at(r), def.dims.len(), def.vars.len())),
                    }
                }
                _ => judge_open(r, Err("never defined".into()), false, true, vs),
            },
        }
        return;
    }
    let bytes = content.slice(0, content.len().min(1 << 20) as usize);
    match decode(&bytes, content.len()) {
        Ok(d) => {
            judge_open(r, Ok((&d.def, d.ver)), true, !p.strict, vs);
            if r.res.ok() { *rdef = Some((d.def, d.ver, d.begins)); }
        }
        Err(e) => judge_open(r, Err(e), false, !p.strict, vs),
    }
}

fn judge_mem(r: &Rec, len: u64, vs: &mut Vs) {
    let limit = (1 << 20) + 256 * len;
    if r.mem_peak > limit || r.mem_big > limit { bad(vs, "memory", format!("{}: needed {} bytes (biggest request {}) for a file of {} bytes", at(r), r.mem_peak, r.mem_big, len)); }
    let vars = match &r.res { Res::Ok(Val::All(l)) => l.len() as u64, _ => 1 };
    let (n, limit) = (r.calls.saturating_sub(r.cuts), (128 + 16 * len) * vars.max(1));
    if n > limit { bad(vs, "unbounded work", format!("{}: {} whole system calls for a file of {} bytes", at(r), n, len)); }
}

/// A call may change only the bytes of its target.
fn judge_touch(pre: &WState, defs: &[MDef], r: &Rec, before: &Sparse, after: &Sparse, vs: &mut Vs) {
    if matches!(r.res, Res::Panic(_)) { return; }
    let diff = before.diff(after, 100_000);
    let what = expect_write(pre, defs, &r.call);
    let mut allowed: Vec<(u64, u64)> = vec![];
    match &what {
        WExp::Refuse(_) | WExp::Skip => {}
        WExp::Valid(WWhat::SetDef(..)) => return,
        WExp::Valid(WWhat::Data { i, rec, .. }) => {
            let a = pre.d.as_ref().unwrap();
            let v = &a.def.vars[*i];
            let ks: Vec<u64> = match rec { Some(k) => vec![*k], None => (0..a.def.chunks(v)).collect() };
            for k in ks { let o = a.lay.offset(&a.def, *i, k); allowed.push((o, o + a.def.chunk_bytes(v) + a.def.chunk_pad(*i))); }
        }
        WExp::Valid(WWhat::Close) => if let Some(a) = &pre.d {
            for (i, v) in a.def.vars.iter().enumerate() { for k in 0..a.def.chunks(v).min(1 << 20) {
                let o = a.lay.offset(&a.def, i, k);
                let n = a.def.chunk_bytes(v);
                if !pre.chunks.get(&(i, k)).map(|c| c.acked).unwrap_or(false) { allowed.push((o, o + n + a.def.chunk_pad(i))); }
                else { allowed.push((o + n, o + n + a.def.chunk_pad(i))); }
            } }
        },
        WExp::Valid(_) => {}
    }
    allowed.sort();
    for o in diff {
        let k = allowed.partition_point(|x| x.0 <= o);
        if k == 0 || allowed[k - 1].1 <= o {
            bad(vs, "foreign bytes changed", format!("{}: byte {} changed from {} to {} although it does not belong to this call's target", at(r), o, exec::hex(&before.slice(o, 1), 1), exec::hex(&after.slice(o, 1), 1)));
            return;
        }
    }
    if after.len() < before.len() { bad(vs, "file shrank", format!("{}: file shrank from {} to {}", at(r), before.len(), after.len())); }
    if matches!(what, WExp::Refuse(_)) && after.len() != before.len() { bad(vs, "foreign bytes changed", format!("{}: a refused call changed the file length from {} to {}", at(r), before.len(), after.len())); }
}

pub fn distinct(vs: &Vs) -> BTreeSet<String> { vs.iter().map(|v| v.class.clone()).collect() }
