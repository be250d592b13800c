//! Executes a plan against the real library inside the simulated kernel and
//! records the history. Contains no oracle.
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::world::{self, Fired, Sparse};
use netcdf3::{Attribute, DataSet, DataType, DataVector, DimensionType, FileReader, FileWriter, ReadError, Variable, Version, WriteError};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Data { ty: Ty, bytes: Vec<u8> },
    All(BTreeMap<String, (Ty, Vec<u8>)>),
    /// Definition, version, contradictions between accessors.
    Def { def: MDef, ver: Ver, odd: Vec<String> },
    Info(Vec<(String, String)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Val),
    /// Debug text of the library's error and, for I/O errors, the error kind.
    Err { dbg: String, io: Option<String> },
    Panic(String),
    /// The process died during the call.
    Dead,
}

impl Res {
    pub fn ok(&self) -> bool { matches!(self, Res::Ok(_)) }
    pub fn short(&self) -> String {
        match self {
            Res::Ok(Val::Unit) => "Ok".into(),
            Res::Ok(Val::Data { ty, bytes }) => format!("Ok({} x{} {})", ty.name(), bytes.len() / ty.size(), hex(bytes, 24)),
            Res::Ok(Val::All(m)) => format!("Ok(all: {} variables)", m.len()),
            Res::Ok(Val::Def { def, ver, .. }) => format!("Ok({:?}, {} dims, {} vars, {} attrs)", ver, def.dims.len(), def.vars.len(), def.attrs.len()),
            Res::Ok(Val::Info(_)) => "Ok(info)".into(),
            Res::Err { dbg, .. } => { let mut d: String = dbg.chars().take(160).collect(); if d.len() < dbg.len() { d.push('…'); } format!("Err({})", d) }
            Res::Panic(m) => format!("PANIC {}", m.chars().take(160).collect::<String>()),
            Res::Dead => "process died".into(),
        }
    }
}

pub fn hex(b: &[u8], max: usize) -> String {
    let mut s: String = b.iter().take(max).map(|x| format!("{:02x}", x)).collect();
    if b.len() > max { s.push('…'); }
    s
}

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    WOpen { path: String, new: bool },
    W { path: String, k: WK },
    WDrop { path: String },
    ROpen { path: String },
    R { path: String, k: RK },
    RDrop { path: String },
    Env(EnvOp),
    /// A definition was built or edited (in memory).
    Def { src: usize },
    /// A single read made by a sweep: variable name, record (None: whole), typed.
    Read { path: String, var: String, rec: Option<u64>, typed: bool },
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub actor: usize,
    pub sess: usize,
    pub op: u32,
    pub call: Call,
    pub res: Res,
    pub fired: Vec<Fired>,
    pub calls: u64,
    /// Those of them that the kernel cut short or interrupted.
    pub cuts: u64,
    pub over_limit: bool,
    pub start: u64,
    pub end: u64,
    pub mem_peak: u64,
    pub mem_big: u64,
    /// Edges of library code executed by the call.
    pub edges: u64,
    /// Content of the session's file after the call (when the plan asks for snapshots).
    pub snap: Option<Sparse>,
    /// Descriptors this actor has open after the call.
    pub fds: usize,
    /// Step-stamped edits outcome (only for definition building records).
    pub edits: Vec<(Edit, Result<(), String>)>,
}

#[derive(Default)]
pub struct History {
    pub recs: Vec<Rec>,
    pub fs: world::Fs,
    pub hash: u64,
    pub steps: u64,
    pub ctx_switches: u64,
    pub calls: u64,
    pub stats: BTreeMap<String, u64>,
    pub text: Vec<String>,
    /// Per actor: open descriptors left, uses of closed descriptors, touched paths, mutating calls, inodes opened.
    pub actors: Vec<ActorEnd>,
    pub traces: Vec<Vec<(u32, [u32; world::NKINDS])>>,
    pub write_sizes: Vec<Vec<(u32, u32, u32)>>,
}
#[derive(Default, Clone)]
pub struct ActorEnd { pub open_fds: usize, pub bad_fd: u32, pub touched: Vec<String>, pub mutating: u64, pub opened: Vec<u64>, pub crashed: bool }

// ------------------------------------------------------------------ values

pub fn gen_values(ty: Ty, n: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(mix(&[seed, n as u64]));
    let sz = ty.size();
    let mut out = Vec::with_capacity(n * sz);
    let style = r.below(8);
    for i in 0..n {
        let w = r.next();
        let special = style == 0 || r.below(12) == 0;
        let v: u64 = if style == 1 { mix(&[seed]).wrapping_add(i as u64) } else { w };
        let mut b = match sz { 1 => vec![v as u8], 2 => (v as u16).to_be_bytes().to_vec(), 4 => (v as u32).to_be_bytes().to_vec(), _ => v.to_be_bytes().to_vec() };
        if special {
            b = match (ty, w % 8) {
                (_, 0) => ty.fill(),
                (_, 1) => vec![0; sz],
                (_, 2) => vec![0xFF; sz],
                (Ty::F32, 3) => 0x7FC0_1234u32.to_be_bytes().to_vec(),
                (Ty::F32, 4) => 0xFFA0_0001u32.to_be_bytes().to_vec(),
                (Ty::F32, 5) => 0x8000_0000u32.to_be_bytes().to_vec(),
                (Ty::F32, 6) => 0x7F80_0000u32.to_be_bytes().to_vec(),
                (Ty::F64, 3) => 0x7FF8_0000_0000_BEEFu64.to_be_bytes().to_vec(),
                (Ty::F64, 4) => 0xFFF4_0000_0000_0001u64.to_be_bytes().to_vec(),
                (Ty::F64, 5) => 0x8000_0000_0000_0000u64.to_be_bytes().to_vec(),
                (Ty::F64, 6) => 1u64.to_be_bytes().to_vec(),
                (_, 3) => { let mut x = vec![0; sz]; x[0] = 0x80; x }
                (_, 4) => { let mut x = vec![0xFF; sz]; x[0] = 0x7F; x }
                _ => b,
            };
        }
        out.extend(b);
    }
    out
}

pub fn be_i8(b: &[u8]) -> Vec<i8> { b.iter().map(|x| *x as i8).collect() }
pub fn be_i16(b: &[u8]) -> Vec<i16> { b.chunks(2).map(|c| i16::from_be_bytes([c[0], c[1]])).collect() }
pub fn be_i32(b: &[u8]) -> Vec<i32> { b.chunks(4).map(|c| i32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect() }
pub fn be_f32(b: &[u8]) -> Vec<f32> { b.chunks(4).map(|c| f32::from_bits(u32::from_be_bytes([c[0], c[1], c[2], c[3]]))).collect() }
pub fn be_f64(b: &[u8]) -> Vec<f64> { b.chunks(8).map(|c| f64::from_bits(u64::from_be_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))).collect() }

pub fn vec_bytes(v: &DataVector) -> (Ty, Vec<u8>) {
    match v {
        DataVector::I8(d) => (Ty::I8, d.iter().map(|x| *x as u8).collect()),
        DataVector::U8(d) => (Ty::U8, d.clone()),
        DataVector::I16(d) => (Ty::I16, d.iter().flat_map(|x| x.to_be_bytes()).collect()),
        DataVector::I32(d) => (Ty::I32, d.iter().flat_map(|x| x.to_be_bytes()).collect()),
        DataVector::F32(d) => (Ty::F32, d.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()),
        DataVector::F64(d) => (Ty::F64, d.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()),
    }
}
pub fn lib_ty(t: Ty) -> DataType { match t { Ty::I8 => DataType::I8, Ty::U8 => DataType::U8, Ty::I16 => DataType::I16, Ty::I32 => DataType::I32, Ty::F32 => DataType::F32, Ty::F64 => DataType::F64 } }
pub fn mod_ty(t: DataType) -> Ty { match t { DataType::I8 => Ty::I8, DataType::U8 => Ty::U8, DataType::I16 => Ty::I16, DataType::I32 => Ty::I32, DataType::F32 => Ty::F32, DataType::F64 => Ty::F64 } }
pub fn lib_ver(v: Ver) -> Version { match v { Ver::Classic => Version::Classic, Ver::Off64 => Version::Offset64Bit } }

// ------------------------------------------------------------------ definitions

pub fn lib_edit(ds: &mut DataSet, e: &Edit) -> Result<(), String> {
    macro_rules! d { ($r:expr) => { $r.map(|_| ()).map_err(|e| format!("{:?}", e)) } }
    match e {
        Edit::AddDim { name, size } => d!(ds.add_fixed_dim(name, *size as usize)),
        Edit::SetUnlim { name, size } => d!(ds.set_unlimited_dim(name, *size as usize)),
        Edit::RenameDim { old, new } => d!(ds.rename_dim(old, new)),
        Edit::RemoveDim { name } => d!(ds.remove_dim(name)),
        Edit::AddVar { name, dims, ty } => d!(match (ty, dims.len() % 2) {
            (t, 0) => ds.add_var(name, dims, lib_ty(*t)),
            (Ty::I8, _) => ds.add_var_i8(name, dims),
            (Ty::U8, _) => ds.add_var_u8(name, dims),
            (Ty::I16, _) => ds.add_var_i16(name, dims),
            (Ty::I32, _) => ds.add_var_i32(name, dims),
            (Ty::F32, _) => ds.add_var_f32(name, dims),
            (Ty::F64, _) => ds.add_var_f64(name, dims),
        }),
        Edit::RenameVar { old, new } => d!(ds.rename_var(old, new)),
        Edit::RemoveVar { name } => d!(ds.remove_var(name)),
        Edit::AddGAttr { name, ty, bytes, text } => {
            if *text && *ty == Ty::U8 { if let Ok(s) = std::str::from_utf8(bytes) { return d!(ds.add_global_attr_string(name, s)); } }
            d!(match ty {
                Ty::I8 => ds.add_global_attr_i8(name, be_i8(bytes)),
                Ty::U8 => ds.add_global_attr_u8(name, bytes.clone()),
                Ty::I16 => ds.add_global_attr_i16(name, be_i16(bytes)),
                Ty::I32 => ds.add_global_attr_i32(name, be_i32(bytes)),
                Ty::F32 => ds.add_global_attr_f32(name, be_f32(bytes)),
                Ty::F64 => ds.add_global_attr_f64(name, be_f64(bytes)),
            })
        }
        Edit::RenameGAttr { old, new } => d!(ds.rename_global_attr(old, new)),
        Edit::RemoveGAttr { name } => d!(ds.remove_global_attr(name)),
        Edit::AddVAttr { var, name, ty, bytes, text, direct } => {
            let s = if *text && *ty == Ty::U8 { std::str::from_utf8(bytes).ok() } else { None };
            if *direct {
                if let Some(v) = ds.get_var_mut(var) {
                    if let Some(s) = s { return d!(v.add_attr_string(name, s)); }
                    return d!(match ty {
                        Ty::I8 => v.add_attr_i8(name, be_i8(bytes)),
                        Ty::U8 => v.add_attr_u8(name, bytes.clone()),
                        Ty::I16 => v.add_attr_i16(name, be_i16(bytes)),
                        Ty::I32 => v.add_attr_i32(name, be_i32(bytes)),
                        Ty::F32 => v.add_attr_f32(name, be_f32(bytes)),
                        Ty::F64 => v.add_attr_f64(name, be_f64(bytes)),
                    });
                }
            }
            if let Some(s) = s { return d!(ds.add_var_attr_string(var, name, s)); }
            d!(match ty {
                Ty::I8 => ds.add_var_attr_i8(var, name, be_i8(bytes)),
                Ty::U8 => ds.add_var_attr_u8(var, name, bytes.clone()),
                Ty::I16 => ds.add_var_attr_i16(var, name, be_i16(bytes)),
                Ty::I32 => ds.add_var_attr_i32(var, name, be_i32(bytes)),
                Ty::F32 => ds.add_var_attr_f32(var, name, be_f32(bytes)),
                Ty::F64 => ds.add_var_attr_f64(var, name, be_f64(bytes)),
            })
        }
        Edit::RenameVAttr { var, old, new } => d!(ds.rename_var_attr(var, old, new)),
        Edit::RemoveVAttr { var, name, direct } => {
            if *direct { if let Some(v) = ds.get_var_mut(var) { return d!(v.remove_attr(name)); } }
            d!(ds.remove_var_attr(var, name))
        }
    }
}

fn attr_bytes(a: &Attribute) -> (Ty, Vec<u8>) {
    let v = match a.data_type() {
        DataType::I8 => a.get_i8().map(|d| d.iter().map(|x| *x as u8).collect()),
        DataType::U8 => a.get_u8().map(|d| d.to_vec()),
        DataType::I16 => a.get_i16().map(|d| d.iter().flat_map(|x| x.to_be_bytes()).collect()),
        DataType::I32 => a.get_i32().map(|d| d.iter().flat_map(|x| x.to_be_bytes()).collect()),
        DataType::F32 => a.get_f32().map(|d| d.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()),
        DataType::F64 => a.get_f64().map(|d| d.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()),
    };
    (mod_ty(a.data_type()), v.unwrap_or_else(|| b"<typed accessor gives nothing>".to_vec()))
}

/// The bytes of an attribute as each of the six typed accessors gives them, and its text.
struct Faces { b: [Option<Vec<u8>>; 6], text: Option<String> }
macro_rules! faces { ($i8:expr, $u8:expr, $i16:expr, $i32:expr, $f32:expr, $f64:expr, $text:expr) => { Faces { b: [
    $i8.map(|d| d.iter().map(|x| *x as u8).collect()), $u8.map(|d| d.to_vec()),
    $i16.map(|d| d.iter().flat_map(|x| x.to_be_bytes()).collect()), $i32.map(|d| d.iter().flat_map(|x| x.to_be_bytes()).collect()),
    $f32.map(|d| d.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()), $f64.map(|d| d.iter().flat_map(|x| x.to_bits().to_be_bytes()).collect()) ], text: $text } } }
fn faces_ok(f: &Faces, a: Option<&MAttr>) -> bool {
    let k = a.map(|a| match a.ty { Ty::I8 => 0, Ty::U8 => 1, Ty::I16 => 2, Ty::I32 => 3, Ty::F32 => 4, Ty::F64 => 5 });
    (0..6).all(|i| f.b[i].as_ref() == if Some(i) == k { a.map(|a| &a.bytes) } else { None })
        && f.text == a.filter(|a| a.ty == Ty::U8).and_then(|a| String::from_utf8(a.bytes.clone()).ok())
}
fn attr_faces(a: &Attribute) -> Faces { faces!(a.get_i8(), a.get_u8(), a.get_i16(), a.get_i32(), a.get_f32(), a.get_f64(), a.get_as_string()) }

fn differ<T: PartialEq + std::fmt::Debug>(a: T, b: T) -> Option<String> { if a == b { None } else { Some(format!("{:?} but expected {:?}", a, b)) } }

/// Facts stated by the remaining accessors, for names that exist and for one that does not.
fn more_facts(ds: &DataSet, d: &MDef, odd: &mut Vec<String>) {
    const NONE: &str = "no such name in it";
    macro_rules! same { ($a:expr, $b:expr, $($what:tt)*) => { if let Some(m) = differ($a, $b) { odd.push(format!("{}: {}", format!($($what)*), m)); } } }
    for x in &d.dims {
        same!(ds.has_dim(&x.name), true, "has_dim({:?})", x.name);
        if let Some(l) = ds.get_dim(&x.name) {
            same!((l.name(), l.size(), l.is_unlimited(), l.is_fixed()), (x.name.clone(), x.size as usize, x.unlim, !x.unlim), "get_dim({:?})", x.name);
        } else { odd.push(format!("get_dim({:?}) gives nothing", x.name)); }
    }
    let ids: Vec<usize> = (0..d.dims.len()).rev().collect();
    same!(ds.get_dims_from_dim_ids(&ids).ok().map(|v| v.iter().map(|x| x.name()).collect::<Vec<_>>()), Some(ids.iter().map(|i| d.dims[*i].name.clone()).collect::<Vec<_>>()), "get_dims_from_dim_ids");
    same!(ds.get_dims_from_dim_ids(&[d.dims.len()]).is_err(), true, "get_dims_from_dim_ids of an identifier that is not used");
    same!(ds.get_unlimited_dim().map(|x| x.name()), d.unlim().map(|u| u.name.clone()), "get_unlimited_dim");
    same!((ds.has_dim(NONE), ds.get_dim(NONE).is_none(), ds.dim_size(NONE), ds.dim_type(NONE).is_none()), (false, true, None, true), "a dimension that does not exist");
    same!((ds.has_var(NONE), ds.get_var(NONE).is_none(), ds.var_len(NONE), ds.var_data_type(NONE), ds.is_record_var(NONE), ds.num_var_attrs(NONE), ds.has_var_attr(NONE, NONE)), (false, true, None, None, None, None, None), "a variable that does not exist");
    same!((ds.has_global_attr(NONE), ds.get_global_attr(NONE).is_none(), ds.get_global_attr_len(NONE), ds.get_global_attr_data_type(NONE)), (false, true, None, None), "a global attribute that does not exist");
    let gf = |n: &str| faces!(ds.get_global_attr_i8(n), ds.get_global_attr_u8(n), ds.get_global_attr_i16(n), ds.get_global_attr_i32(n), ds.get_global_attr_f32(n), ds.get_global_attr_f64(n), ds.get_global_attr_as_string(n));
    for a in &d.attrs {
        same!((ds.has_global_attr(&a.name), ds.get_global_attr_len(&a.name)), (true, Some(a.len())), "has_global_attr, get_global_attr_len of {:?}", a.name);
        if !faces_ok(&gf(&a.name), Some(a)) { odd.push(format!("the typed accessors of the global attribute {:?} do not give its value", a.name)); }
        match ds.get_global_attr(&a.name) {
            Some(x) if x.name() == a.name && faces_ok(&attr_faces(x), Some(a)) => {}
            _ => odd.push(format!("get_global_attr({:?}) does not give its value", a.name)),
        }
    }
    if !faces_ok(&gf(NONE), None) { odd.push("a global attribute that does not exist has a value".into()); }
    let mut total = Some(0u64);
    for x in &d.vars {
        let bytes = d.chunk_len_checked(x).and_then(|n| n.checked_mul(x.ty.size() as u64)).filter(|n| *n < 1 << 60);
        if d.is_rec(x) { total = total.and_then(|t| bytes.and_then(|n| t.checked_add(crate::model::round4(n)))).filter(|n| *n < 1 << 60); }
        same!(ds.has_var(&x.name), true, "has_var({:?})", x.name);
        let v = match ds.get_var(&x.name) { Some(v) => v, None => { odd.push(format!("get_var({:?}) gives nothing", x.name)); continue; } };
        same!((v.name(), v.data_type(), v.num_dims(), v.is_record_var(), v.num_attrs()), (&x.name[..], lib_ty(x.ty), x.dims.len(), d.is_rec(x), x.attrs.len()), "get_var({:?})", x.name);
        same!(v.num_chunks() as u64, d.chunks(x), "num_chunks of {:?}", x.name);
        if let Some(n) = bytes {
            same!((v.chunk_len() as u64, v.chunk_size() as u64), (n / x.ty.size() as u64, crate::model::round4(n)), "chunk_len, chunk_size of {:?}", x.name);
            if let Some(l) = (n / x.ty.size() as u64).checked_mul(d.chunks(x)).filter(|n| *n < 1 << 60) { same!(v.len() as u64, l, "len of {:?}", x.name); }
        }
        for y in &d.dims { same!(v.use_dim(&y.name), x.dims.iter().any(|u| d.dim_by(*u).name == y.name), "use_dim({:?}) of {:?}", y.name, x.name); }
        same!((v.use_dim(NONE), v.has_attr(NONE), v.get_attr(NONE).is_none()), (false, false, true), "a name that does not exist, of {:?}", x.name);
        same!(ds.get_var_attrs(&x.name).map(|l| l.iter().map(|a| a.name().to_string()).collect::<Vec<_>>()), Some(x.attrs.iter().map(|a| a.name.clone()).collect::<Vec<_>>()), "get_var_attrs({:?})", x.name);
        let n = &x.name[..];
        let df = |a: &str| faces!(ds.get_var_attr_i8(n, a), ds.get_var_attr_u8(n, a), ds.get_var_attr_i16(n, a), ds.get_var_attr_i32(n, a), ds.get_var_attr_f32(n, a), ds.get_var_attr_f64(n, a), ds.get_var_attr_as_string(n, a));
        let vf = |a: &str| faces!(v.get_attr_i8(a), v.get_attr_u8(a), v.get_attr_i16(a), v.get_attr_i32(a), v.get_attr_f32(a), v.get_attr_f64(a), v.get_attr_as_string(a));
        for a in &x.attrs {
            same!((v.has_attr(&a.name), ds.get_var_attr_len(n, &a.name), ds.get_var_attr_data_type(n, &a.name)), (true, Some(a.len()), Some(lib_ty(a.ty))), "has_attr, get_var_attr_len, get_var_attr_data_type of {:?}, {:?}", n, a.name);
            if !faces_ok(&df(&a.name), Some(a)) || !faces_ok(&vf(&a.name), Some(a)) { odd.push(format!("the typed accessors of the attribute {:?} of {:?} do not give its value", a.name, n)); }
            for y in [v.get_attr(&a.name), ds.get_var_attr(n, &a.name)] {
                match y {
                    Some(y) if y.name() == a.name && faces_ok(&attr_faces(y), Some(a)) => {}
                    _ => odd.push(format!("get_attr({:?}) of {:?} does not give its value", a.name, n)),
                }
            }
        }
        if !faces_ok(&df(NONE), None) || !faces_ok(&vf(NONE), None) { odd.push(format!("an attribute of {:?} that does not exist has a value", n)); }
        same!((ds.has_var_attr(n, NONE), ds.get_var_attr(n, NONE).is_none(), ds.get_var_attr_len(n, NONE)), (Some(false), true, None), "an attribute that does not exist of {:?}", n);
    }
    match d.unlim() {
        None => same!(ds.record_size(), None, "record_size"),
        Some(_) => if let Some(t) = total { same!(ds.record_size(), Some(t as usize), "record_size") },
    }
}

/// The definition as a user of the library sees it, plus contradictions between accessors.
pub fn view(ds: &DataSet) -> (MDef, Vec<String>) {
    let mut odd = vec![];
    let mut d = MDef::default();
    let dims = ds.get_dims();
    for x in &dims {
        let e = match x.dim_type() {
            DimensionType::UnlimitedSize => Edit::SetUnlim { name: x.name(), size: x.size() as u64 },
            DimensionType::FixedSize => Edit::AddDim { name: x.name(), size: x.size() as u64 },
        };
        if let Err(m) = d.apply(&e) { odd.push(format!("definition holds a dimension it must refuse: {}", m)); }
    }
    for a in ds.get_global_attrs() {
        let (ty, bytes) = attr_bytes(a);
        if a.len() * ty.size() != bytes.len() { odd.push(format!("global attribute {:?}: len() {} but {} bytes", a.name(), a.len(), bytes.len())); }
        if let Err(m) = d.apply(&Edit::AddGAttr { name: a.name().to_string(), ty, bytes, text: false }) { odd.push(format!("definition holds a global attribute it must refuse: {}", m)); }
    }
    for v in ds.get_vars() {
        let mut names = vec![];
        for x in v.get_dims() {
            match dims.iter().position(|y| Rc::ptr_eq(&x, y)) {
                Some(_) => names.push(x.name()),
                None => odd.push(format!("variable {:?} uses a dimension {:?} the data set does not have", v.name(), x.name())),
            }
        }
        let ty = mod_ty(v.data_type());
        if let Err(m) = d.apply(&Edit::AddVar { name: v.name().to_string(), dims: names, ty }) { odd.push(format!("definition holds a variable it must refuse: {}", m)); continue; }
        for a in v.get_attrs() {
            let (ty, bytes) = attr_bytes(a);
            if a.len() * ty.size() != bytes.len() { odd.push(format!("attribute {:?} of {:?}: len() {} but {} bytes", a.name(), v.name(), a.len(), bytes.len())); }
            if let Err(m) = d.apply(&Edit::AddVAttr { var: v.name().to_string(), name: a.name().to_string(), ty, bytes, text: false, direct: false }) { odd.push(format!("definition holds an attribute it must refuse: {}", m)); }
        }
    }
    // facts stated by the other accessors
    macro_rules! same { ($what:expr, $a:expr, $b:expr) => { if $a != $b { odd.push(format!("{}: {:?} but expected {:?}", $what, $a, $b)); } } }
    if odd.is_empty() {
        same!("num_dims", ds.num_dims(), d.dims.len());
        same!("dim_names", ds.dim_names(), d.dims.iter().map(|x| x.name.clone()).collect::<Vec<_>>());
        same!("has_unlimited_dim", ds.has_unlimited_dim(), d.unlim().is_some());
        same!("num_records", ds.num_records(), d.unlim().map(|u| u.size as usize));
        same!("num_vars", ds.num_vars(), d.vars.len());
        same!("get_var_names", ds.get_var_names(), d.vars.iter().map(|x| x.name.clone()).collect::<Vec<_>>());
        same!("num_global_attrs", ds.num_global_attrs(), d.attrs.len());
        same!("get_global_attr_names", ds.get_global_attr_names(), d.attrs.iter().map(|x| x.name.clone()).collect::<Vec<_>>());
        for x in &d.dims {
            same!(format!("dim_size({:?})", x.name), ds.dim_size(&x.name), Some(x.size as usize));
            same!(format!("dim_type({:?})", x.name), ds.dim_type(&x.name).map(|t| t == DimensionType::UnlimitedSize), Some(x.unlim));
        }
        if let (Some(u), Some(l)) = (d.unlim(), ds.get_unlimited_dim()) { same!("get_unlimited_dim", l.name(), u.name.clone()); }
        for x in &d.vars {
            same!(format!("is_record_var({:?})", x.name), ds.is_record_var(&x.name), Some(d.is_rec(x)));
            same!(format!("var_data_type({:?})", x.name), ds.var_data_type(&x.name), Some(lib_ty(x.ty)));
            if let Some(n) = d.chunk_len_checked(x).and_then(|n| n.checked_mul(d.chunks(x))) {
                if n < 1 << 60 { same!(format!("var_len({:?})", x.name), ds.var_len(&x.name), Some(n as usize)); }
            }
            same!(format!("num_var_attrs({:?})", x.name), ds.num_var_attrs(&x.name), Some(x.attrs.len()));
            if let Some(v) = ds.get_var(&x.name) {
                let v: &Variable = v;
                same!(format!("get_attr_names of {:?}", x.name), v.get_attr_names(), x.attrs.iter().map(|a| a.name.clone()).collect::<Vec<_>>());
                same!(format!("dim_names of {:?}", x.name), v.dim_names(), x.dims.iter().map(|u| d.dim_by(*u).name.clone()).collect::<Vec<_>>());
            }
            for a in &x.attrs {
                same!(format!("has_var_attr({:?},{:?})", x.name, a.name), ds.has_var_attr(&x.name, &a.name), Some(true));
                let b = match a.ty {
                    Ty::I8 => ds.get_var_attr_i8(&x.name, &a.name).map(|s| s.len()),
                    Ty::U8 => ds.get_var_attr_u8(&x.name, &a.name).map(|s| s.len()),
                    Ty::I16 => ds.get_var_attr_i16(&x.name, &a.name).map(|s| s.len()),
                    Ty::I32 => ds.get_var_attr_i32(&x.name, &a.name).map(|s| s.len()),
                    Ty::F32 => ds.get_var_attr_f32(&x.name, &a.name).map(|s| s.len()),
                    Ty::F64 => ds.get_var_attr_f64(&x.name, &a.name).map(|s| s.len()),
                };
                same!(format!("typed get_var_attr({:?},{:?})", x.name, a.name), b, Some(a.len()));
            }
        }
        for a in &d.attrs { same!(format!("get_global_attr_data_type({:?})", a.name), ds.get_global_attr_data_type(&a.name), Some(lib_ty(a.ty))); }
        more_facts(ds, &d, &mut odd);
    }
    (d, odd)
}

/// The definition a data set holds; none when reading it panics (which building it has reported).
fn def_of(ds: &DataSet) -> Option<MDef> { catch_unwind(AssertUnwindSafe(|| view(ds).0)).ok() }

// ------------------------------------------------------------------ running library calls

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let l = i.location().map(|l| { let f = l.file(); let f = f.rsplit("/src/").next().unwrap_or(f); format!("{}:{}", f, l.line()) }).unwrap_or_default();
        if std::env::var_os("SIM_PANIC").is_some() { eprintln!("panic: {} at {}", m, l); }
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
}

pub enum LibErr { R(ReadError), W(WriteError) }
impl From<ReadError> for LibErr { fn from(e: ReadError) -> Self { LibErr::R(e) } }
impl From<WriteError> for LibErr { fn from(e: WriteError) -> Self { LibErr::W(e) } }

pub const OP_LIMIT: u64 = 1_000_000;

struct Ctx<'p> { plan: &'p Plan, actor: usize, snap: bool, out: Vec<Rec>, carry: Option<DataSet>, kept: Option<DataSet> }

/// One writer of a session.
struct Lane<'d> { w: Option<FileWriter<'d>>, cur: Option<MDef>, path: String, new: bool, base: u32, next: usize, over: bool }
impl<'d> Lane<'d> { fn fresh(&self) -> Lane<'d> { Lane { w: None, cur: None, path: self.path.clone(), new: self.new, base: 0, next: 0, over: false } } }

impl<'p> Ctx<'p> {
    /// Runs one library call; false: stop this actor (dead) or session (panic).
    fn op<T>(&mut self, sess: usize, op: u32, call: Call, path: &str, f: impl FnOnce() -> Result<(T, Val), LibErr>) -> (Option<T>, bool) {
        let start = world::begin_op(op, OP_LIMIT);
        crate::alloc::start();
        let r = catch_unwind(AssertUnwindSafe(f));
        let (mem_peak, mem_big) = crate::alloc::stop();
        let io = world::end_op(start);
        let (v, res) = match r {
            _ if io.crashed => (None, Res::Dead),
            Ok(Ok((t, v))) => (Some(t), Res::Ok(v)),
            Ok(Err(e)) => {
                let (dbg, io) = match &e {
                    LibErr::R(e) => (format!("{:?}", e), if let ReadError::IOErrorKind(k) = e { Some(format!("{:?}", k)) } else { None }),
                    LibErr::W(e) => (format!("{:?}", e), if let WriteError::IOErrorKind(k) = e { Some(format!("{:?}", k)) } else { None }),
                };
                (None, Res::Err { dbg, io })
            }
            Err(_) => (None, Res::Panic(PANIC.with(|p| p.borrow().clone()))),
        };
        let go = !matches!(res, Res::Dead | Res::Panic(_));
        let (snap, fds) = world::with(|w| (if self.snap { w.fs.get(path).cloned() } else { None }, w.open_fds(self.actor as i32)));
        world::with(|w| if w.text.is_some() { let s = format!("  => a{} op{} {:?}: {}", self.actor, op, short_call(&call), res.short()); w.note(s); });
        self.out.push(Rec { actor: self.actor, sess, op, call, res, fired: io.fired, calls: io.calls, cuts: io.cuts, over_limit: io.over_limit, start, end: io.end, mem_peak, mem_big, edges: io.edges, snap, fds, edits: vec![] });
        (v, go)
    }

    fn run(&mut self, s: &Script) {
        for (i, se) in s.sessions.iter().enumerate() {
            let go = match se {
                Session::Write(w) => self.write(i, w),
                Session::Read(r) => self.read(i, r),
                Session::Env(e) => { for x in e { self.env(i, x); } true }
            };
            if !go || world::with(|w| w.crashed(self.actor)) { return; }
        }
    }

    /// The actor ended in a panic outside any one call.
    fn ended(&mut self) {
        let t = world::with(|w| w.step);
        let res = Res::Panic(PANIC.with(|p| p.borrow().clone()));
        self.out.push(Rec { actor: self.actor, sess: 0, op: 0, call: Call::Env(EnvOp::Nop), res, fired: vec![], calls: 0, cuts: 0, over_limit: false, start: t, end: t, mem_peak: 0, mem_big: 0, edges: 0, snap: None, fds: 0, edits: vec![] });
    }

    fn env(&mut self, sess: usize, e: &EnvOp) {
        let plan = self.plan;
        match e {
            EnvOp::Rename { from, to } => { world::env("rename", |fs| { let _ = world::fs_rename(fs, from.as_bytes(), to.as_bytes()); }); }
            EnvOp::Unlink { path } => { world::env("unlink", |fs| { let _ = world::fs_unlink(fs, path.as_bytes()); }); }
            EnvOp::Replace { path, src } => {
                let b = plan.files.get(*src).map(|f| build_file(plan, f)).unwrap_or_default();
                world::env("replace", |fs| { fs.put(path, b); });
            }
            EnvOp::Truncate { path, len } => { world::env("truncate", |fs| if let Some(i) = fs.ino(path) { fs.inodes.get_mut(&i).unwrap().data.truncate(*len); }); }
            EnvOp::Poke { path, off, bytes } => { world::env("poke", |fs| if let Some(i) = fs.ino(path) { fs.inodes.get_mut(&i).unwrap().data.write_at(*off, bytes); }); }
            EnvOp::Append { path, n } => { world::env("append", |fs| if let Some(i) = fs.ino(path) { let f = &mut fs.inodes.get_mut(&i).unwrap().data; let l = f.len(); f.write_at(l, &gen_values(Ty::U8, *n as usize, l)); }); }
            EnvOp::Heal => { world::env("heal", |fs| { fs.sectors_left = None; fs.max_file = None; }); }
            EnvOp::Limit { sectors, max_file } => { world::env("limit", |fs| { fs.sectors_left = *sectors; fs.max_file = *max_file; }); }
            EnvOp::Readonly { path, on } => { world::env("readonly", |fs| if let Some(i) = fs.ino(path) { fs.inodes.get_mut(&i).unwrap().readonly = *on; }); }
            EnvOp::Nop => { world::env("nop", |_| ()); }
        }
        let t = world::with(|w| w.step);
        let snap = match e {
            EnvOp::Truncate { path, .. } | EnvOp::Poke { path, .. } | EnvOp::Append { path, .. } | EnvOp::Replace { path, .. } | EnvOp::Unlink { path } => world::with(|w| w.fs.get(path).cloned()),
            EnvOp::Rename { to, .. } => world::with(|w| w.fs.get(to).cloned()),
            _ => None,
        };
        self.out.push(Rec { actor: self.actor, sess, op: 0, call: Call::Env(e.clone()), res: Res::Ok(Val::Unit), fired: vec![], calls: 0, cuts: 0, over_limit: false, start: t, end: t, mem_peak: 0, mem_big: 0, edges: 0, snap, fds: 0, edits: vec![] });
    }

    fn build(&mut self, sess: usize, op: u32, at: usize, src: &DefSrc) -> DataSet {
        let (mut ds, edits) = match src {
            DefSrc::Built(i) => (DataSet::new(), self.plan.defs.get(*i).cloned().unwrap_or_default()),
            DefSrc::Carried(i) => (self.carry.take().unwrap_or_else(DataSet::new), self.plan.defs.get(*i).cloned().unwrap_or_default()),
            DefSrc::Kept(i) => (self.kept.take().unwrap_or_else(DataSet::new), self.plan.defs.get(*i).cloned().unwrap_or_default()),
        };
        let mut log = vec![];
        let mut panic = None;
        for e in edits {
            match catch_unwind(AssertUnwindSafe(|| lib_edit(&mut ds, &e))) {
                Ok(r) => log.push((e, r)),
                Err(_) => { panic = Some(PANIC.with(|p| p.borrow().clone())); break; }
            }
        }
        let (def, odd) = match catch_unwind(AssertUnwindSafe(|| view(&ds))) { Ok(v) => v, Err(_) => { panic = Some(PANIC.with(|p| p.borrow().clone())); Default::default() } };
        let res = match panic { Some(m) => Res::Panic(m), None => Res::Ok(Val::Def { def, ver: Ver::Classic, odd }) };
        self.out.push(Rec { actor: self.actor, sess, op, call: Call::Def { src: at }, res, fired: vec![], calls: 0, cuts: 0, over_limit: false, start: 0, end: 0, mem_peak: 0, mem_big: 0, edges: 0, snap: None, fds: 0, edits: log });
        ds
    }

    fn write(&mut self, si: usize, s: &WriteSession) -> bool {
        let mut sets: Vec<DataSet> = s.defs.iter().enumerate().map(|(i, d)| self.build(si, s.id, i, d)).collect();
        let mut lanes: Vec<Lane> = vec![Lane { w: None, cur: None, path: s.path.clone(), new: s.new, base: 0, next: 0, over: false }];
        let mut mask = 0;
        if let Some(t) = &s.twin { lanes.push(Lane { path: t.path.clone(), new: t.new, base: TWIN, ..lanes[0].fresh() }); mask = t.mask; }
        let (mut i, mut k) = (0, 0);
        while let Some(l) = lanes.get_mut(i).filter(|l| !l.over) {
            let go = self.write_step(si, s, &sets, l);
            if !go {
                // dead: nothing it does has effect
                if world::with(|k| k.crashed(self.actor)) { return false; }
            }
            let turn = mask >> (k % 64) & 1 == 1 || lanes[i].over;
            k += 1;
            if turn { let j = (i + 1) % lanes.len(); if !lanes[j].over { i = j; } }
        }
        drop(lanes);
        self.kept = sets.pop();
        true
    }

    /// One call of a writer; false: the process died or the session ended.
    fn write_step<'d>(&mut self, si: usize, s: &WriteSession, sets: &'d [DataSet], l: &mut Lane<'d>) -> bool {
        let p = l.path.clone();
        let at = l.next;
        l.next += 1;
        if at == 0 {
            let new = l.new;
            let (w, _) = self.op(si, s.id + l.base, Call::WOpen { path: p.clone(), new }, &p, || {
                let w = if new { FileWriter::create_new(&p)? } else { FileWriter::open(&p)? };
                Ok((w, Val::Unit))
            });
            l.over = w.is_none();
            l.w = w;
            return !world::with(|k| k.crashed(self.actor));
        }
        if at > s.ops.len() || l.w.is_none() {
            l.over = true;
            let last = s.ops.last().map(|o| o.id).unwrap_or(s.id) + 1;
            if let Some(x) = l.w.take() {
                self.op(si, last + l.base, Call::WDrop { path: p.clone() }, &p, move || { drop(x); Ok(((), Val::Unit)) });
            }
            return true;
        }
        let o = &s.ops[at - 1];
        let call = Call::W { path: p.clone(), k: o.k.clone() };
        let id = o.id + l.base;
        if let WK::Env(e) = &o.k { if l.base == 0 { self.env(si, e); } return true; }
        let go = match &o.k {
            WK::Close => {
                let x = l.w.take().unwrap();
                self.op(si, id, call, &p, move || { x.close()?; Ok(((), Val::Unit)) }).1
            }
            WK::SetDef { def, ver, hmin } => {
                let ds = match sets.get(*def) { Some(d) => d, None => return true };
                let x = l.w.as_mut().unwrap();
                let (ok, go) = self.op(si, id, call, &p, || { x.set_def(ds, lib_ver(*ver), *hmin as usize)?; Ok(((), Val::Unit)) });
                if ok.is_some() && l.cur.is_none() { l.cur = def_of(ds); }
                go
            }
            WK::Info => {
                let x = l.w.as_ref().unwrap();
                self.op(si, id, call, &p, || {
                    let v = vec![
                        ("defined".to_string(), format!("{}", x.header_is_defined())),
                        ("data_set".to_string(), format!("{}", x.data_set().is_some())),
                        ("version".to_string(), format!("{:?}", x.version())),
                        ("header_min_size".to_string(), format!("{:?}", x.header_min_size())),
                        ("file_path".to_string(), x.file_path().to_string_lossy().to_string()),
                    ];
                    Ok(((), Val::Info(v)))
                }).1
            }
            k => {
                // data calls: resolved against the definition in force, or the first one
                let d = match l.cur.clone().or_else(|| sets.first().and_then(def_of)) { Some(d) => d, None => return true };
                let call_args = match resolve_write(&d, k) { Some(c) => c, None => return true };
                let x = l.w.as_mut().unwrap();
                self.op(si, id, call, &p, || { lib_write(x, &call_args)?; Ok(((), Val::Unit)) }).1
            }
        };
        if !go {
            // dead, or panicked: this writer's session ends without another call
            drop(l.w.take());
            l.over = true;
        }
        go
    }

    fn read(&mut self, si: usize, s: &ReadSession) -> bool {
        let p = s.path.clone();
        let (r, go) = self.op(si, s.id, Call::ROpen { path: p.clone() }, &p, || {
            let r = FileReader::open(&p)?;
            let on = crate::alloc::pause();
            let (def, odd) = view(r.data_set());
            let ver = if r.version() == Version::Classic { Ver::Classic } else { Ver::Off64 };
            crate::alloc::resume(on);
            Ok(((r, def.clone()), Val::Def { def, ver, odd }))
        });
        let (r, def) = match r { Some(r) => r, None => return go || !world::with(|k| k.crashed(self.actor)) };
        let mut r = Some(r);
        let last = s.ops.last().map(|o| o.id).unwrap_or(s.id) + 1;
        for o in &s.ops {
            if r.is_none() { break; }
            if let RK::Env(e) = &o.k { self.env(si, e); continue; }
            let mut go = true;
            match &o.k {
                RK::Close => {
                    let x = r.take().unwrap();
                    let (ds, g) = self.op(si, o.id, Call::R { path: p.clone(), k: RK::Close }, &p, move || {
                        let (ds, v) = x.close();
                        let (def, odd) = view(&ds);
                        let ver = if v == Version::Classic { Ver::Classic } else { Ver::Off64 };
                        Ok((ds, Val::Def { def, ver, odd }))
                    });
                    self.carry = ds;
                    go = g;
                }
                RK::Sweep { cap } => {
                    'sweep: for v in &def.vars {
                        for (rec, typed) in std::iter::once((None, false)).chain(sample(def.chunks(v), *cap).map(|k| (Some(k), false))).chain([(None, true)]) {
                            let x = r.as_mut().unwrap();
                            let (name, ty) = (v.name.clone(), v.ty);
                            let call = Call::Read { path: p.clone(), var: name.clone(), rec, typed };
                            let (_, g) = self.op(si, o.id, call, &p, || { let d = lib_read(x, &name, ty, rec, typed)?; Ok(((), d)) });
                            go = g;
                            if !go { break 'sweep; }
                        }
                    }
                }
                k => {
                    let x = r.as_mut().unwrap();
                    let call = Call::R { path: p.clone(), k: k.clone() };
                    let pick = |i: usize| if def.vars.is_empty() { None } else { Some(&def.vars[i % def.vars.len()]) };
                    let nope = "no such variable".to_string();
                    let f: Box<dyn FnOnce() -> Result<Val, LibErr> + '_> = match k {
                        RK::Var { var, typed } => { let v = match pick(*var) { Some(v) => v, None => continue }; let t = *typed; Box::new(move || lib_read(x, &v.name, v.ty, None, t)) }
                        RK::Rec { var, rec, typed } => {
                            let v = match pick(*var) { Some(v) => v, None => continue };
                            let n = def.chunks(v);
                            if n == 0 { continue; }
                            let (t, k) = (*typed, rec % n);
                            Box::new(move || lib_read(x, &v.name, v.ty, Some(k), t))
                        }
                        RK::All => Box::new(move || {
                            let m = x.read_all_vars()?;
                            Ok(Val::All(m.into_iter().map(|(k, v)| (k, vec_bytes(&v))).collect()))
                        }),
                        RK::BadName { rec, typed } => { let (rec, t) = (*rec, *typed); Box::new(move || lib_read(x, &nope, Ty::I32, if rec { Some(0) } else { None }, t)) }
                        RK::BadType { var, ty, rec } => {
                            let v = match pick(*var) { Some(v) => v, None => continue };
                            if v.ty == *ty || (*rec && def.chunks(v) == 0) { continue; }
                            let (ty, rec) = (*ty, *rec);
                            Box::new(move || lib_read(x, &v.name, ty, if rec { Some(0) } else { None }, true))
                        }
                        RK::BadRec { var, over, typed } => {
                            let v = match pick(*var) { Some(v) => v, None => continue };
                            let k = def.chunks(v).saturating_add(*over);
                            let t = *typed;
                            Box::new(move || lib_read(x, &v.name, v.ty, Some(k), t))
                        }
                        RK::Info => Box::new(move || {
                            let on = crate::alloc::pause();
                            let (def, odd) = view(x.data_set());
                            let ver = if x.version() == Version::Classic { Ver::Classic } else { Ver::Off64 };
                            crate::alloc::resume(on);
                            Ok(Val::Def { def, ver, odd })
                        }),
                        RK::Close | RK::Sweep { .. } | RK::Env(_) => unreachable!(),
                    };
                    go = self.op(si, o.id, call, &p, || f().map(|v| ((), v))).1;
                }
            }
            if !go {
                drop(r.take());
                return !world::with(|k| k.crashed(self.actor));
            }
        }
        if let Some(x) = r.take() {
            self.op(si, last, Call::RDrop { path: p.clone() }, &p, move || { drop(x); Ok(((), Val::Unit)) });
        }
        true
    }
}

/// At most `cap` of n records: all of them, or the first ones and others up to the last one.
fn sample(n: u64, cap: u64) -> impl Iterator<Item = u64> {
    let (m, a) = (n.min(cap), if n <= cap { n } else { cap / 2 });
    (0..m).map(move |k| if k < a { k } else { ((k - a + 1) as u128 * (n - 1) as u128 / (m - a) as u128) as u64 })
}

fn short_call(c: &Call) -> String {
    match c { Call::W { k, .. } => format!("{:?}", k), Call::R { k, .. } => format!("{:?}", k), o => format!("{:?}", o) }
}

/// A fully resolved writer call.
pub struct WArgs { pub name: String, pub ty: Ty, pub rec: Option<u64>, pub bytes: Vec<u8>, pub var: Option<usize> }

pub fn resolve_write(d: &MDef, k: &WK) -> Option<WArgs> {
    let pick = |i: usize| if d.vars.is_empty() { None } else { Some((i % d.vars.len(), &d.vars[i % d.vars.len()])) };
    const MAXN: u64 = 1 << 22;
    match k {
        WK::Var { var, seed } => {
            let (i, v) = pick(*var)?;
            let n = d.chunk_len_checked(v)?.checked_mul(d.chunks(v))?;
            if n > MAXN { return None; }
            Some(WArgs { name: v.name.clone(), ty: v.ty, rec: None, bytes: gen_values(v.ty, n as usize, *seed), var: Some(i) })
        }
        WK::Rec { var, rec, seed } => {
            let (i, v) = pick(*var)?;
            let c = d.chunks(v);
            let n = d.chunk_len_checked(v)?;
            if c == 0 || n > MAXN { return None; }
            Some(WArgs { name: v.name.clone(), ty: v.ty, rec: Some(rec % c), bytes: gen_values(v.ty, n as usize, *seed), var: Some(i) })
        }
        WK::BadType { var, ty, rec } => {
            let (i, v) = pick(*var)?;
            let c = d.chunks(v);
            if v.ty == *ty || (rec.is_some() && c == 0) { return None; }
            let n = d.chunk_len_checked(v)?.checked_mul(if rec.is_some() { 1 } else { c })?;
            if n > MAXN { return None; }
            Some(WArgs { name: v.name.clone(), ty: *ty, rec: rec.map(|r| r % c.max(1)), bytes: gen_values(*ty, n as usize, 7), var: Some(i) })
        }
        WK::BadLen { var, delta, rec } => {
            let (i, v) = pick(*var)?;
            let c = d.chunks(v);
            if rec.is_some() && c == 0 { return None; }
            let n = d.chunk_len_checked(v)?.checked_mul(if rec.is_some() { 1 } else { c })?;
            let m = (n as i64).checked_add(*delta)?;
            if m < 0 || m as u64 == n || m as u64 > MAXN { return None; }
            Some(WArgs { name: v.name.clone(), ty: v.ty, rec: rec.map(|r| r % c.max(1)), bytes: gen_values(v.ty, m as usize, 9), var: Some(i) })
        }
        WK::BadName { rec } => Some(WArgs { name: "no such variable".into(), ty: Ty::I32, rec: if *rec { Some(0) } else { None }, bytes: gen_values(Ty::I32, 1, 3), var: None }),
        WK::BadRec { var, over } => {
            let (i, v) = pick(*var)?;
            let n = d.chunk_len_checked(v)?;
            if n > MAXN { return None; }
            Some(WArgs { name: v.name.clone(), ty: v.ty, rec: Some(d.chunks(v).saturating_add(*over)), bytes: gen_values(v.ty, n as usize, 5), var: Some(i) })
        }
        _ => None,
    }
}

fn lib_write(w: &mut FileWriter, a: &WArgs) -> Result<(), WriteError> {
    let n = &a.name;
    match a.rec {
        None => match a.ty {
            Ty::I8 => w.write_var_i8(n, &be_i8(&a.bytes)),
            Ty::U8 => w.write_var_u8(n, &a.bytes),
            Ty::I16 => w.write_var_i16(n, &be_i16(&a.bytes)),
            Ty::I32 => w.write_var_i32(n, &be_i32(&a.bytes)),
            Ty::F32 => w.write_var_f32(n, &be_f32(&a.bytes)),
            Ty::F64 => w.write_var_f64(n, &be_f64(&a.bytes)),
        },
        Some(k) => {
            let k = k as usize;
            match a.ty {
                Ty::I8 => w.write_record_i8(n, k, &be_i8(&a.bytes)),
                Ty::U8 => w.write_record_u8(n, k, &a.bytes),
                Ty::I16 => w.write_record_i16(n, k, &be_i16(&a.bytes)),
                Ty::I32 => w.write_record_i32(n, k, &be_i32(&a.bytes)),
                Ty::F32 => w.write_record_f32(n, k, &be_f32(&a.bytes)),
                Ty::F64 => w.write_record_f64(n, k, &be_f64(&a.bytes)),
            }
        }
    }
}

fn lib_read(r: &mut FileReader, name: &str, ty: Ty, rec: Option<u64>, typed: bool) -> Result<Val, LibErr> {
    let v = match (rec, typed) {
        (None, false) => r.read_var(name)?,
        (Some(k), false) => r.read_record(name, k as usize)?,
        (None, true) => match ty {
            Ty::I8 => DataVector::I8(r.read_var_i8(name)?),
            Ty::U8 => DataVector::U8(r.read_var_u8(name)?),
            Ty::I16 => DataVector::I16(r.read_var_i16(name)?),
            Ty::I32 => DataVector::I32(r.read_var_i32(name)?),
            Ty::F32 => DataVector::F32(r.read_var_f32(name)?),
            Ty::F64 => DataVector::F64(r.read_var_f64(name)?),
        },
        (Some(k), true) => { let k = k as usize; match ty {
            Ty::I8 => DataVector::I8(r.read_record_i8(name, k)?),
            Ty::U8 => DataVector::U8(r.read_record_u8(name, k)?),
            Ty::I16 => DataVector::I16(r.read_record_i16(name, k)?),
            Ty::I32 => DataVector::I32(r.read_record_i32(name, k)?),
            Ty::F32 => DataVector::F32(r.read_record_f32(name, k)?),
            Ty::F64 => DataVector::F64(r.read_record_f64(name, k)?),
        } },
    };
    let on = crate::alloc::pause();
    let (ty, bytes) = vec_bytes(&v);
    crate::alloc::resume(on);
    Ok(Val::Data { ty, bytes })
}

// ------------------------------------------------------------------ initial files

/// Layout a foreign writer would choose.
pub fn styled_layout(d: &MDef, ver: Ver, st: &Style) -> Layout {
    let req = encode_header_styled(d, ver, &vec![0; d.vars.len()], st).len() as u64;
    let mut pos = round4(req + st.slack);
    let header_len = pos;
    let mut fixed: Vec<usize> = (0..d.vars.len()).filter(|i| !d.is_rec(&d.vars[*i])).collect();
    let mut recs = d.rec_vars();
    if st.order != 0 { let mut r = Rng::new(st.order); r.shuffle(&mut fixed); r.shuffle(&mut recs); }
    let mut begins = vec![0; d.vars.len()];
    let gap = |k: usize| if st.gaps.is_empty() { 0 } else { st.gaps[k % st.gaps.len()] / 4 * 4 };
    for (k, i) in fixed.into_iter().enumerate() {
        pos += gap(k);
        begins[i] = pos;
        pos += round4(d.chunk_bytes(&d.vars[i]));
    }
    pos += gap(17);
    for i in recs { begins[i] = pos; pos += round4(d.chunk_bytes(&d.vars[i])); }
    Layout { header_len, begins, stride: d.stride() }
}

fn encode_header_styled(d: &MDef, ver: Ver, begins: &[u64], st: &Style) -> Vec<u8> {
    let vs: Vec<u32> = d.vars.iter().enumerate().map(|(i, v)| match st.vsize { 0 => d.vsize_exact(v), 1 => u32::MAX, 2 => 0, _ => mix(&[i as u64, st.order, 77]) as u32 }).collect();
    let n = if st.indeterminate { Some(u32::MAX) } else { None };
    let mut h = encode_header(d, ver, begins, n, &vs);
    if st.tagged_empty {
        // rewrite ABSENT lists at the top level as tagged empty lists
        if d.dims.is_empty() { h[11] = 10; }
        if d.vars.is_empty() { let k = h.len(); h[k - 5] = 11; }
    }
    h
}

pub fn chunk_seed(seed: u64, var: usize, k: u64) -> u64 { mix(&[seed, var as u64, k]) }

pub fn build_file(plan: &Plan, f: &InitFile) -> Sparse {
    let mut b = match &f.src {
        FileSrc::Raw(b) => Sparse::from_bytes(b),
        FileSrc::Encoded { def, ver, style, seed } => Sparse::from_bytes(&encoded(plan, *def, *ver, style, *seed).0),
        FileSrc::Large { def, ver, hmin, len, marks } => {
            let d = MDef::build(&plan.defs[*def]);
            let mut s = Sparse::default();
            if let Some(l) = d.layout(*ver, *hmin) {
                let vsizes: Vec<u32> = d.vars.iter().map(|v| d.vsize_exact(v)).collect();
                s.write_at(0, &encode_header(&d, *ver, &l.begins, None, &vsizes));
                for (v, k, seed) in marks {
                    if d.vars.is_empty() { continue; }
                    let i = v % d.vars.len();
                    let n = d.chunk_len(&d.vars[i]);
                    if n > 1 << 16 || *k >= d.chunks(&d.vars[i]) { continue; }
                    s.write_at(l.offset(&d, i, *k), &gen_values(d.vars[i].ty, n as usize, *seed));
                }
                s.truncate((*len).max(l.header_len));
            }
            s
        }
    };
    if !f.damage.is_empty() {
        let mut v = b.to_vec();
        for d in &f.damage { damage(&mut v, d); }
        b = Sparse::from_bytes(&v);
    }
    b
}

pub fn encoded(plan: &Plan, def: usize, ver: Ver, style: &Style, seed: u64) -> (Vec<u8>, MDef, Layout) {
    let d = MDef::build(&plan.defs[def]);
    let lay = styled_layout(&d, ver, style);
    let mut b = encode_header_styled(&d, ver, &lay.begins, style);
    let used = b.len();
    b.resize(lay.header_len as usize, 0);
    if style.slack_garbage { let g = gen_values(Ty::U8, lay.header_len as usize - used, seed ^ 5); b[used..].copy_from_slice(&g); }
    let mut end = b.len() as u64;
    let mut last_pad = 0;
    for (i, v) in d.vars.iter().enumerate() {
        for k in 0..d.chunks(v) {
            let mut c = gen_values(v.ty, d.chunk_len(v) as usize, chunk_seed(seed, i, k));
            let pad = d.chunk_pad(i);
            c.extend(fill_bytes(v.ty, pad as usize));
            let o = lay.offset(&d, i, k) as usize;
            if b.len() < o + c.len() { b.resize(o + c.len(), 0); }
            b[o..o + c.len()].copy_from_slice(&c);
            if (o + c.len()) as u64 >= end { end = (o + c.len()) as u64; last_pad = pad; }
        }
    }
    if style.trim && !style.indeterminate { b.truncate((end - last_pad) as usize); }
    if !style.indeterminate { let t = gen_values(Ty::U8, style.trailing as usize, seed ^ 9); b.extend(t); }
    (b, d, lay)
}

pub fn damage(v: &mut Vec<u8>, d: &Damage) {
    let n = v.len() as u64;
    match d {
        Damage::Trunc(k) => v.truncate((*k).min(n) as usize),
        Damage::Flip { off, bit } => if *off < n { v[*off as usize] ^= 1 << (bit % 8); },
        Damage::Set { off, bytes } => for (i, b) in bytes.iter().enumerate() { let p = *off as usize + i; if p < v.len() { v[p] = *b; } },
        Damage::Zero { off, len } => for p in *off..(off + len).min(n) { v[p as usize] = 0; },
        Damage::Copy { from, to, len } => for i in 0..*len { let (a, b) = (from + i, to + i); if a < n && b < n { v[b as usize] = v[a as usize]; } },
        Damage::Delete { off, len } => if *off < n { v.drain(*off as usize..(off + len).min(n) as usize); },
        Damage::Insert { off, bytes } => { let p = (*off).min(n) as usize; let t = v.split_off(p); v.extend(bytes); v.extend(t); }
        Damage::Extend { n, seed } => v.extend(gen_values(Ty::U8, *n as usize, *seed)),
    }
}

// ------------------------------------------------------------------ whole runs

pub struct RunOpts { pub text: bool, pub snap: bool }

static DUMP: std::sync::Mutex<Option<(std::path::PathBuf, String)>> = std::sync::Mutex::new(None);
/// From now on every plan is written to this file right before it is executed.
pub fn dump_plans(path: &std::path::Path, prop: &str) { *DUMP.lock().unwrap() = Some((path.to_path_buf(), prop.to_string())); }
static RECORD: std::sync::Mutex<Option<Vec<Plan>>> = std::sync::Mutex::new(None);
/// Starts recording every plan executed in this process; returns those recorded so far.
pub fn record_plans() -> Vec<Plan> { RECORD.lock().unwrap().replace(vec![]).unwrap_or_default() }
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }

pub fn run(plan: &Plan, o: &RunOpts) -> History {
    if let Some((f, prop)) = &*DUMP.lock().unwrap() {
        let mut p = plan.clone();
        p.prop = prop.clone();
        std::fs::write(f, serde_json::to_vec(&p).unwrap()).unwrap();
    }
    if let Some(v) = &mut *RECORD.lock().unwrap() { v.push(plan.clone()); }
    let n = plan.num_actors();
    world::reset(&world::Setup { actors: n, io: &plan.io, faults: &plan.faults, switches: &plan.switches, text: o.text, threads: &plan.threads, inside: &plan.inside });
    world::with(|w| {
        for f in &plan.files { let s = build_file(plan, f); w.fs.put(&f.path, s); }
        w.fs.sectors_left = plan.sectors;
        w.fs.max_file = plan.max_file;
    });
    let mut recs: Vec<Rec> = vec![];
    let mut base = 0;
    for ph in &plan.phases {
        let cells: Vec<std::sync::Mutex<Vec<Rec>>> = ph.iter().map(|_| Default::default()).collect();
        world::phase(base, ph.len());
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for (i, s) in ph.iter().enumerate() {
            let cell = &cells[i];
            bodies.push(Box::new(move || {
                let mut c = Ctx { plan, actor: base + i, snap: o.snap, out: vec![], carry: None, kept: None };
                if catch_unwind(AssertUnwindSafe(|| c.run(s))).is_err() { c.ended(); }
                *cell.lock().unwrap() = c.out;
            }));
        }
        world::run_actors(base, bodies);
        for c in cells { recs.extend(c.into_inner().unwrap()); }
        base += ph.len();
    }
    world::with(|w| {
        let actors = (0..n).map(|a| ActorEnd {
            open_fds: w.open_fds(a as i32), bad_fd: w.bad_fd_uses(a), mutating: w.mutating_calls(a), opened: w.opened(a), crashed: w.crashed(a),
            touched: w.touched(a).iter().map(|p| String::from_utf8_lossy(p).to_string()).collect(),
        }).collect();
        // results are part of the repeatable event log
        for r in &recs { w.hash.bytes(r.res.short().as_bytes()); if let Res::Ok(Val::Data { bytes, .. }) = &r.res { w.hash.bytes(bytes); } }
        History {
            recs, fs: w.fs.clone(), hash: w.hash.0, steps: w.step, ctx_switches: w.ctx_switches, calls: w.total_calls, stats: w.take_stats(),
            text: w.text.take().unwrap_or_default(), actors, traces: (0..n).map(|a| w.trace(a)).collect(), write_sizes: (0..n).map(|a| w.write_sizes(a)).collect(),
        }
    })
}
