//! Independent reference model of NetCDF-3: definitions, layout, encoder, decoder.
//! Shares no code with the library under test.
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Ty { I8, U8, I16, I32, F32, F64 }
pub const TYPES: [Ty; 6] = [Ty::I8, Ty::U8, Ty::I16, Ty::I32, Ty::F32, Ty::F64];

impl Ty {
    pub fn size(self) -> usize { match self { Ty::I8 | Ty::U8 => 1, Ty::I16 => 2, Ty::I32 | Ty::F32 => 4, Ty::F64 => 8 } }
    pub fn code(self) -> u32 { match self { Ty::I8 => 1, Ty::U8 => 2, Ty::I16 => 3, Ty::I32 => 4, Ty::F32 => 5, Ty::F64 => 6 } }
    pub fn from_code(c: u32) -> Option<Ty> { TYPES.iter().cloned().find(|t| t.code() == c) }
    /// Fill value as stored (big endian): the defaults of the NetCDF-3 format.
    pub fn fill(self) -> Vec<u8> {
        match self {
            Ty::I8 => vec![0x81],
            Ty::U8 => vec![0],
            Ty::I16 => vec![0x80, 0x01],
            Ty::I32 => vec![0x80, 0, 0, 0x01],
            Ty::F32 => vec![0x7C, 0xF0, 0, 0],
            Ty::F64 => vec![0x47, 0x9E, 0, 0, 0, 0, 0, 0],
        }
    }
    pub fn name(self) -> &'static str { match self { Ty::I8 => "i8", Ty::U8 => "u8", Ty::I16 => "i16", Ty::I32 => "i32", Ty::F32 => "f32", Ty::F64 => "f64" } }
}

pub fn pad4(n: u64) -> u64 { (4 - n % 4) % 4 }
pub fn round4(n: u64) -> u64 { n + pad4(n) }
/// `n` bytes of repeated fill value.
pub fn fill_bytes(ty: Ty, n: usize) -> Vec<u8> { ty.fill().into_iter().cycle().take(n).collect() }

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct MAttr { pub name: String, pub ty: Ty, pub bytes: Vec<u8> }
impl MAttr { pub fn len(&self) -> usize { self.bytes.len() / self.ty.size() } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MDim { pub uid: u32, pub name: String, pub size: u64, pub unlim: bool }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MVar { pub name: String, pub ty: Ty, pub dims: Vec<u32>, pub attrs: Vec<MAttr> }

#[derive(Clone, Debug, Default)]
pub struct MDef { pub dims: Vec<MDim>, pub attrs: Vec<MAttr>, pub vars: Vec<MVar>, next_uid: u32 }

/// Equality of what a user sees (dimension identities are compared by position).
impl PartialEq for MDef {
    fn eq(&self, o: &MDef) -> bool {
        let pos = |d: &MDef, v: &MVar| v.dims.iter().map(|u| d.dim_pos(*u)).collect::<Vec<_>>();
        self.dims.len() == o.dims.len()
            && self.dims.iter().zip(&o.dims).all(|(a, b)| a.name == b.name && a.size == b.size && a.unlim == b.unlim)
            && self.attrs == o.attrs
            && self.vars.len() == o.vars.len()
            && self.vars.iter().zip(&o.vars).all(|(a, b)| a.name == b.name && a.ty == b.ty && a.attrs == b.attrs && pos(self, a) == pos(o, b))
    }
}

pub const MAX_DIM: u64 = i32::MAX as u64 - 3;

/// Name grammar of the NetCDF-3 format (as the library documents it).
pub fn valid_name(n: &str) -> bool {
    let first_ok = |c: char| if c.is_ascii() { c.is_ascii_alphanumeric() || c == '_' } else { true };
    let rest_ok = |c: char| !c.is_ascii() || c.is_ascii_alphanumeric() || "_.@+- !\"#$%&'()*,:;<=>?[\\]^`{|}~".contains(c);
    match n.chars().next() {
        None => false,
        Some(c) => first_ok(c) && n.len() <= 256 && n.chars().skip(1).all(rest_ok),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Edit {
    AddDim { name: String, size: u64 },
    SetUnlim { name: String, size: u64 },
    RenameDim { old: String, new: String },
    RemoveDim { name: String },
    AddVar { name: String, dims: Vec<String>, ty: Ty },
    RenameVar { old: String, new: String },
    RemoveVar { name: String },
    AddGAttr { name: String, ty: Ty, bytes: Vec<u8>, text: bool },
    RenameGAttr { old: String, new: String },
    RemoveGAttr { name: String },
    AddVAttr { var: String, name: String, ty: Ty, bytes: Vec<u8>, text: bool, direct: bool },
    RenameVAttr { var: String, old: String, new: String },
    RemoveVAttr { var: String, name: String, direct: bool },
}

impl MDef {
    pub fn dim(&self, name: &str) -> Option<&MDim> { self.dims.iter().find(|d| d.name == name) }
    pub fn dim_by(&self, uid: u32) -> &MDim { self.dims.iter().find(|d| d.uid == uid).unwrap() }
    pub fn dim_pos(&self, uid: u32) -> usize { self.dims.iter().position(|d| d.uid == uid).unwrap() }
    pub fn var(&self, name: &str) -> Option<(usize, &MVar)> { self.vars.iter().enumerate().find(|(_, v)| v.name == name) }
    pub fn unlim(&self) -> Option<&MDim> { self.dims.iter().find(|d| d.unlim) }

    /// Applies one edit; Err is the expected refusal as `Debug` of the library's error.
    pub fn apply(&mut self, e: &Edit) -> Result<(), String> {
        match e {
            Edit::AddDim { name, size } => {
                if self.dim(name).is_some() { return Err(format!("DimensionAlreadyExists({:?})", name)); }
                if !valid_name(name) { return Err(format!("DimensionNameNotValid({:?})", name)); }
                if *size == 0 { return Err(format!("FixedDimensionWithZeroSize({:?})", name)); }
                if *size > MAX_DIM { return Err(format!("MaximumFixedDimensionSizeExceeded {{ dim_name: {:?}, get: {} }}", name, size)); }
                let uid = self.next_uid;
                self.next_uid += 1;
                self.dims.push(MDim { uid, name: name.clone(), size: *size, unlim: false });
            }
            Edit::SetUnlim { name, size } => {
                if let Some(u) = self.unlim() { return Err(format!("UnlimitedDimensionAlreadyExists({:?})", u.name)); }
                if self.dim(name).is_some() { return Err(format!("DimensionAlreadyExists({:?})", name)); }
                if !valid_name(name) { return Err(format!("DimensionNameNotValid({:?})", name)); }
                let uid = self.next_uid;
                self.next_uid += 1;
                self.dims.push(MDim { uid, name: name.clone(), size: *size, unlim: true });
            }
            Edit::RenameDim { old, new } => {
                if old == new { return Ok(()); }
                if self.dim(old).is_none() { return Err(format!("DimensionNotDefined({:?})", old)); }
                if self.dim(new).is_some() { return Err(format!("DimensionAlreadyExists({:?})", new)); }
                if !valid_name(new) { return Err(format!("DimensionNameNotValid({:?})", new)); }
                self.dims.iter_mut().find(|d| d.name == *old).unwrap().name = new.clone();
            }
            Edit::RemoveDim { name } => {
                let d = match self.dim(name) { None => return Err(format!("DimensionNotDefined({:?})", name)), Some(d) => d };
                let uid = d.uid;
                let users: Vec<String> = self.vars.iter().filter(|v| v.dims.contains(&uid)).map(|v| v.name.clone()).collect();
                if !users.is_empty() { return Err(format!("DimensionYetUsed {{ var_names: {:?}, dim_name: {:?} }}", users, name)); }
                self.dims.retain(|d| d.uid != uid);
            }
            Edit::AddVar { name, dims, ty } => {
                let undef: Vec<String> = dims.iter().filter(|d| self.dim(d).is_none()).cloned().collect();
                if !undef.is_empty() { return Err(format!("DimensionsNotDefined {{ var_name: {:?}, undef_dim_names: {:?} }}", name, undef)); }
                if self.var(name).is_some() { return Err(format!("VariableAlreadyExists({:?})", name)); }
                if !valid_name(name) { return Err(format!("VariableNameNotValid({:?})", name)); }
                if let Some(u) = dims.iter().skip(1).find(|d| self.dim(d).unwrap().unlim) {
                    return Err(format!("UnlimitedDimensionMustBeDefinedFirst {{ var_name: {:?}, unlim_dim_name: {:?}, get_dim_names: {:?} }}", name, u, dims));
                }
                let set: BTreeSet<&String> = dims.iter().collect();
                if set.len() != dims.len() { return Err(format!("DimensionsUsedMultipleTimes {{ var_name: {:?}, get_dim_names: {:?} }}", name, dims)); }
                if dims.len() > 1024 { return Err(format!("MaximumDimensionsPerVariableExceeded {{ var_name: {:?}, num_dims: {} }}", name, dims.len())); }
                let d = dims.iter().map(|d| self.dim(d).unwrap().uid).collect();
                self.vars.push(MVar { name: name.clone(), ty: *ty, dims: d, attrs: vec![] });
            }
            Edit::RenameVar { old, new } => {
                if old == new { return Ok(()); }
                if self.var(old).is_none() { return Err(format!("VariableNotDefined({:?})", old)); }
                if self.var(new).is_some() { return Err(format!("VariableAlreadyExists({:?})", new)); }
                if !valid_name(new) { return Err(format!("VariableNameNotValid({:?})", new)); }
                let i = self.var(old).unwrap().0;
                self.vars[i].name = new.clone();
            }
            Edit::RemoveVar { name } => match self.var(name) {
                None => return Err(format!("VariableNotDefined({:?})", name)),
                Some((i, _)) => { self.vars.remove(i); }
            },
            Edit::AddGAttr { name, ty, bytes, .. } => {
                if self.attrs.iter().any(|a| a.name == *name) { return Err(format!("GlobalAttributeAlreadyExists({:?})", name)); }
                if !valid_name(name) { return Err(format!("GlobalAttributeNameNotValid({:?})", name)); }
                self.attrs.push(MAttr { name: name.clone(), ty: *ty, bytes: bytes.clone() });
            }
            Edit::RenameGAttr { old, new } => {
                let i = match self.attrs.iter().position(|a| a.name == *old) { None => return Err(format!("GlobalAttributeNotDefined({:?})", old)), Some(i) => i };
                if self.attrs.iter().any(|a| a.name == *new) { return Err(format!("GlobalAttributeAlreadyExists({:?})", new)); }
                if !valid_name(new) { return Err(format!("GlobalAttributeNameNotValid({:?})", new)); }
                self.attrs[i].name = new.clone();
            }
            Edit::RemoveGAttr { name } => match self.attrs.iter().position(|a| a.name == *name) {
                None => return Err(format!("GlobalAttributeNotDefined({:?})", name)),
                Some(i) => { self.attrs.remove(i); }
            },
            Edit::AddVAttr { var, name, ty, bytes, .. } => {
                let i = match self.var(var) { None => return Err(format!("VariableNotDefined({:?})", var)), Some((i, _)) => i };
                if !valid_name(name) { return Err(format!("VariableAttributeNameNotValid {{ var_name: {:?}, attr_name: {:?} }}", var, name)); }
                if self.vars[i].attrs.iter().any(|a| a.name == *name) { return Err(format!("VariableAttributeAlreadyExists {{ var_name: {:?}, attr_name: {:?} }}", var, name)); }
                self.vars[i].attrs.push(MAttr { name: name.clone(), ty: *ty, bytes: bytes.clone() });
            }
            Edit::RenameVAttr { var, old, new } => {
                let i = match self.var(var) { None => return Err(format!("VariableNotDefined({:?})", var)), Some((i, _)) => i };
                if old == new { return Ok(()); }
                let v = &mut self.vars[i];
                let j = match v.attrs.iter().position(|a| a.name == *old) { None => return Err(format!("VariableAttributeNotDefined {{ var_name: {:?}, attr_name: {:?} }}", var, old)), Some(j) => j };
                if v.attrs.iter().any(|a| a.name == *new) { return Err(format!("VariableAttributeAlreadyExists {{ var_name: {:?}, attr_name: {:?} }}", var, new)); }
                if !valid_name(new) { return Err(format!("VariableAttributeNameNotValid {{ var_name: {:?}, attr_name: {:?} }}", var, new)); }
                v.attrs[j].name = new.clone();
            }
            Edit::RemoveVAttr { var, name, .. } => {
                let i = match self.var(var) { None => return Err(format!("VariableNotDefined({:?})", var)), Some((i, _)) => i };
                let v = &mut self.vars[i];
                match v.attrs.iter().position(|a| a.name == *name) {
                    None => return Err(format!("VariableAttributeNotDefined {{ var_name: {:?}, attr_name: {:?} }}", var, name)),
                    Some(j) => { v.attrs.remove(j); }
                }
            }
        }
        Ok(())
    }

    /// Every reason for which an edit must be refused (it may be named any one of them).
    pub fn reasons(&self, e: &Edit) -> Vec<String> {
        let mut out = vec![];
        let mut no = |c: bool, m: String| if c { out.push(m) };
        match e {
            Edit::AddDim { name, size } => {
                no(self.dim(name).is_some(), format!("DimensionAlreadyExists({:?})", name));
                no(!valid_name(name), format!("DimensionNameNotValid({:?})", name));
                no(*size == 0, format!("FixedDimensionWithZeroSize({:?})", name));
                no(*size > MAX_DIM, format!("MaximumFixedDimensionSizeExceeded {{ dim_name: {:?}, get: {} }}", name, size));
            }
            Edit::SetUnlim { name, .. } => {
                if let Some(u) = self.unlim() { no(true, format!("UnlimitedDimensionAlreadyExists({:?})", u.name)); }
                no(self.dim(name).is_some(), format!("DimensionAlreadyExists({:?})", name));
                no(!valid_name(name), format!("DimensionNameNotValid({:?})", name));
            }
            Edit::RenameDim { old, new } => {
                no(self.dim(old).is_none(), format!("DimensionNotDefined({:?})", old));
                no(self.dim(new).is_some(), format!("DimensionAlreadyExists({:?})", new));
                no(!valid_name(new), format!("DimensionNameNotValid({:?})", new));
            }
            Edit::AddVar { name, dims, .. } => {
                let undef: Vec<String> = dims.iter().filter(|d| self.dim(d).is_none()).cloned().collect();
                no(!undef.is_empty(), format!("DimensionsNotDefined {{ var_name: {:?}, undef_dim_names: {:?} }}", name, undef));
                no(self.var(name).is_some(), format!("VariableAlreadyExists({:?})", name));
                no(!valid_name(name), format!("VariableNameNotValid({:?})", name));
                for u in dims.iter().skip(1).filter(|d| self.dim(d).map(|d| d.unlim).unwrap_or(false)) {
                    no(true, format!("UnlimitedDimensionMustBeDefinedFirst {{ var_name: {:?}, unlim_dim_name: {:?}, get_dim_names: {:?} }}", name, u, dims));
                }
                no(dims.iter().collect::<BTreeSet<_>>().len() != dims.len(), format!("DimensionsUsedMultipleTimes {{ var_name: {:?}, get_dim_names: {:?} }}", name, dims));
                no(dims.len() > 1024, format!("MaximumDimensionsPerVariableExceeded {{ var_name: {:?}, num_dims: {} }}", name, dims.len()));
            }
            Edit::RenameVar { old, new } => {
                no(self.var(old).is_none(), format!("VariableNotDefined({:?})", old));
                no(self.var(new).is_some(), format!("VariableAlreadyExists({:?})", new));
                no(!valid_name(new), format!("VariableNameNotValid({:?})", new));
            }
            Edit::AddGAttr { name, .. } => {
                no(self.attrs.iter().any(|a| a.name == *name), format!("GlobalAttributeAlreadyExists({:?})", name));
                no(!valid_name(name), format!("GlobalAttributeNameNotValid({:?})", name));
            }
            Edit::RenameGAttr { old, new } => {
                no(self.attrs.iter().all(|a| a.name != *old), format!("GlobalAttributeNotDefined({:?})", old));
                no(self.attrs.iter().any(|a| a.name == *new), format!("GlobalAttributeAlreadyExists({:?})", new));
                no(!valid_name(new), format!("GlobalAttributeNameNotValid({:?})", new));
            }
            Edit::AddVAttr { var, name, .. } => {
                no(self.var(var).is_none(), format!("VariableNotDefined({:?})", var));
                no(!valid_name(name), format!("VariableAttributeNameNotValid {{ var_name: {:?}, attr_name: {:?} }}", var, name));
                if let Some((i, _)) = self.var(var) { no(self.vars[i].attrs.iter().any(|a| a.name == *name), format!("VariableAttributeAlreadyExists {{ var_name: {:?}, attr_name: {:?} }}", var, name)); }
            }
            Edit::RenameVAttr { var, old, new } => {
                no(self.var(var).is_none(), format!("VariableNotDefined({:?})", var));
                if let Some((i, _)) = self.var(var) {
                    let a = &self.vars[i].attrs;
                    no(a.iter().all(|x| x.name != *old), format!("VariableAttributeNotDefined {{ var_name: {:?}, attr_name: {:?} }}", var, old));
                    no(a.iter().any(|x| x.name == *new), format!("VariableAttributeAlreadyExists {{ var_name: {:?}, attr_name: {:?} }}", var, new));
                    no(!valid_name(new), format!("VariableAttributeNameNotValid {{ var_name: {:?}, attr_name: {:?} }}", var, new));
                }
            }
            Edit::RemoveDim { .. } | Edit::RemoveVar { .. } | Edit::RemoveGAttr { .. } | Edit::RemoveVAttr { .. } => {}
        }
        out
    }

    /// No edit is refused.
    pub fn valid(edits: &[Edit]) -> bool { let mut d = MDef::default(); edits.iter().all(|e| d.apply(e).is_ok()) }
    pub fn build(edits: &[Edit]) -> MDef { let mut d = MDef::default(); for e in edits { let _ = d.apply(e); } d }

    // ---------------------------------------------------------------- geometry
    pub fn is_rec(&self, v: &MVar) -> bool { v.dims.first().map(|u| self.dim_by(*u).unlim).unwrap_or(false) }
    pub fn num_recs(&self) -> u64 { self.unlim().map(|d| d.size).unwrap_or(0) }
    /// Values per chunk (per record for a record variable); None on overflow.
    pub fn chunk_len_checked(&self, v: &MVar) -> Option<u64> {
        let skip = if self.is_rec(v) { 1 } else { 0 };
        v.dims.iter().skip(skip).try_fold(1u64, |p, u| p.checked_mul(self.dim_by(*u).size))
    }
    pub fn chunk_len(&self, v: &MVar) -> u64 { self.chunk_len_checked(v).expect("model overflow") }
    pub fn chunk_bytes(&self, v: &MVar) -> u64 { self.chunk_len(v) * v.ty.size() as u64 }
    pub fn chunks(&self, v: &MVar) -> u64 { if self.is_rec(v) { self.num_recs() } else { 1 } }
    pub fn rec_vars(&self) -> Vec<usize> { (0..self.vars.len()).filter(|i| self.is_rec(&self.vars[*i])).collect() }
    /// Distance between consecutive records.
    pub fn stride(&self) -> u64 {
        let r = self.rec_vars();
        if r.len() == 1 { return self.chunk_bytes(&self.vars[r[0]]); }
        r.iter().map(|i| round4(self.chunk_bytes(&self.vars[*i]))).sum()
    }
    /// Padding bytes stored after each chunk of variable i.
    pub fn chunk_pad(&self, i: usize) -> u64 {
        let v = &self.vars[i];
        if self.is_rec(v) && self.rec_vars().len() == 1 { 0 } else { pad4(self.chunk_bytes(v)) }
    }
    pub fn vsize_field(&self, v: &MVar) -> u32 {
        let n = match self.chunk_len_checked(v).and_then(|n| n.checked_mul(v.ty.size() as u64)).and_then(|n| n.checked_add(3)) { Some(n) => n / 4 * 4, None => return u32::MAX };
        if n > i32::MAX as u64 { u32::MAX } else { n as u32 }
    }
    /// The size as other writers record it: exact up to 2^32 - 4.
    pub fn vsize_exact(&self, v: &MVar) -> u32 { round4(self.chunk_bytes(v)).min(u32::MAX as u64) as u32 }
    /// Which size fields of a file's header hold the exact size where the library may also
    /// record it as unknown: the format's text allows both for 2 GiB to 4 GiB.
    pub fn vsizes_like(&self, ver: Ver, begins: &[u64], file: &mut dyn FnMut(u64, usize) -> Vec<u8>) -> Vec<u32> {
        let mut vs: Vec<u32> = self.vars.iter().map(|v| self.vsize_field(v)).collect();
        for i in 0..vs.len() {
            let x = self.vsize_exact(&self.vars[i]);
            if vs[i] == x { continue; }
            let mut with = vs.clone();
            with[i] = x;
            let (a, b) = (encode_header(self, ver, begins, None, &vs), encode_header(self, ver, begins, None, &with));
            let at = (0..a.len()).find(|k| a[*k] != b[*k]).unwrap() & !3;
            if file(at as u64, 4) == x.to_be_bytes() { vs[i] = x; }
        }
        vs
    }
}

// -------------------------------------------------------------------- layout

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ver { Classic, Off64 }

#[derive(Clone, Debug)]
pub struct Layout { pub header_len: u64, pub begins: Vec<u64>, pub stride: u64 }

impl MDef {
    /// About where the data end; offsets end at 2^63, about 9.22e18.
    pub fn extent(&self, header_min: u64) -> f64 {
        let size = |v: &MVar| v.dims.iter().skip(if self.is_rec(v) { 1 } else { 0 }).fold(v.ty.size() as f64, |p, u| p * self.dim_by(*u).size as f64);
        self.vars.iter().map(|v| size(v) * if self.is_rec(v) { self.num_recs() as f64 } else { 1.0 }).sum::<f64>()
            .max(self.vars.iter().map(size).sum::<f64>()) + header_min as f64
    }
    pub fn header_required(&self, ver: Ver) -> u64 {
        // by construction: length of an encoding with dummy offsets
        encode_header(self, ver, &vec![0; self.vars.len()], None, &[]).len() as u64
    }
    /// Layout of a file written by the library; None if the version cannot hold it.
    pub fn layout(&self, ver: Ver, header_min: u64) -> Option<Layout> {
        if self.extent(header_min) > 9.25e18 { return None; }
        let header_len = round4(self.header_required(ver).max(header_min));
        let mut begins = vec![0; self.vars.len()];
        let mut pos = header_len;
        let order: Vec<usize> = (0..self.vars.len()).filter(|i| !self.is_rec(&self.vars[*i])).chain(self.rec_vars()).collect();
        for i in order {
            if ver == Ver::Classic && pos > i32::MAX as u64 { return None; }
            begins[i] = pos;
            pos += round4(self.chunk_bytes(&self.vars[i]));
        }
        Some(Layout { header_len, begins, stride: self.stride() })
    }
}

impl Layout {
    pub fn offset(&self, def: &MDef, var: usize, chunk: u64) -> u64 {
        self.begins[var] + if def.is_rec(&def.vars[var]) { chunk * self.stride } else { 0 }
    }
}

fn put_name(b: &mut Vec<u8>, n: &str) {
    b.extend((n.len() as u32).to_be_bytes());
    b.extend(n.as_bytes());
    b.extend(vec![0; pad4(n.len() as u64) as usize]);
}
fn put_attrs(b: &mut Vec<u8>, attrs: &[MAttr]) {
    if attrs.is_empty() { b.extend([0; 8]); return; }
    b.extend(12u32.to_be_bytes());
    b.extend((attrs.len() as u32).to_be_bytes());
    for a in attrs {
        put_name(b, &a.name);
        b.extend(a.ty.code().to_be_bytes());
        b.extend((a.len() as u32).to_be_bytes());
        b.extend(&a.bytes);
        b.extend(vec![0; pad4(a.bytes.len() as u64) as usize]);
    }
}

/// Header bytes without trailing space. `numrecs`: None takes the definition's.
pub fn encode_header(d: &MDef, ver: Ver, begins: &[u64], numrecs: Option<u32>, vsizes: &[u32]) -> Vec<u8> {
    let mut b = b"CDF".to_vec();
    b.push(match ver { Ver::Classic => 1, Ver::Off64 => 2 });
    let n = numrecs.unwrap_or_else(|| if d.num_recs() > i32::MAX as u64 { u32::MAX } else { d.num_recs() as u32 });
    b.extend(n.to_be_bytes());
    if d.dims.is_empty() { b.extend([0; 8]); } else {
        b.extend(10u32.to_be_bytes());
        b.extend((d.dims.len() as u32).to_be_bytes());
        for x in &d.dims {
            put_name(&mut b, &x.name);
            b.extend((if x.unlim { 0 } else { x.size as u32 }).to_be_bytes());
        }
    }
    put_attrs(&mut b, &d.attrs);
    if d.vars.is_empty() { b.extend([0; 8]); } else {
        b.extend(11u32.to_be_bytes());
        b.extend((d.vars.len() as u32).to_be_bytes());
        for (i, v) in d.vars.iter().enumerate() {
            put_name(&mut b, &v.name);
            b.extend((v.dims.len() as u32).to_be_bytes());
            for u in &v.dims { b.extend((d.dim_pos(*u) as u32).to_be_bytes()); }
            put_attrs(&mut b, &v.attrs);
            b.extend(v.ty.code().to_be_bytes());
            b.extend(vsizes.get(i).cloned().unwrap_or_else(|| d.vsize_field(v)).to_be_bytes());
            match ver { Ver::Classic => b.extend((begins[i] as u32).to_be_bytes()), Ver::Off64 => b.extend(begins[i].to_be_bytes()) }
        }
    }
    b
}

/// Whole-file image; `chunk(var, k)` gives the stored values (big endian) of one chunk.
pub fn encode_file(d: &MDef, ver: Ver, lay: &Layout, mut chunk: impl FnMut(usize, u64) -> Vec<u8>) -> Vec<u8> {
    let mut out = encode_header(d, ver, &lay.begins, None, &[]);
    out.resize(lay.header_len as usize, 0);
    for (i, v) in d.vars.iter().enumerate() {
        for k in 0..d.chunks(v) {
            let mut c = chunk(i, k);
            debug_assert_eq!(c.len() as u64, d.chunk_bytes(v));
            c.extend(fill_bytes(v.ty, d.chunk_pad(i) as usize));
            let o = lay.offset(d, i, k) as usize;
            if out.len() < o + c.len() { out.resize(o + c.len(), 0); }
            out[o..o + c.len()].copy_from_slice(&c);
        }
    }
    out
}

// -------------------------------------------------------------------- decoder

/// What the bytes of a file encode, decoded leniently (independent of the library).
#[derive(Clone, Debug)]
pub struct Decoded { pub def: MDef, pub ver: Ver, pub begins: Vec<i64>, pub header_len: usize, pub numrecs_field: u32 }

struct Cur<'a> { b: &'a [u8], p: usize }
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.b.len() - self.p { return Err("truncated header".into()); }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    fn u32(&mut self) -> Result<u32, String> { let b = self.take(4)?; Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]])) }
    fn non_neg(&mut self) -> Result<usize, String> { let v = self.u32()?; if v > i32::MAX as u32 { Err("negative count".into()) } else { Ok(v as usize) } }
    fn zeros(&mut self, n: usize) -> Result<(), String> { if self.take(n)?.iter().all(|b| *b == 0) { Ok(()) } else { Err("non-zero padding".into()) } }
    fn name(&mut self) -> Result<String, String> {
        let n = self.non_neg()?;
        let s = String::from_utf8(self.take(n)?.to_vec()).map_err(|_| "name not utf-8".to_string())?;
        self.zeros(pad4(n as u64) as usize)?;
        Ok(s)
    }
    fn list(&mut self, tag: u32) -> Result<usize, String> {
        let t = self.u32()?;
        let n = self.non_neg()?;
        if t == 0 && n == 0 { return Ok(0); }
        if t != tag { return Err(format!("bad tag {}", t)); }
        Ok(n)
    }
    fn attrs(&mut self) -> Result<Vec<MAttr>, String> {
        let n = self.list(12)?;
        let mut out = vec![];
        for _ in 0..n {
            let name = self.name()?;
            let ty = Ty::from_code(self.u32()?).ok_or("bad type")?;
            let k = self.non_neg()?;
            let nb = k * ty.size();
            let bytes = self.take(nb)?.to_vec();
            self.zeros(pad4(nb as u64) as usize)?;
            out.push(MAttr { name, ty, bytes });
        }
        Ok(out)
    }
}

pub fn decode(file: &[u8], file_len: u64) -> Result<Decoded, String> {
    let mut c = Cur { b: file, p: 0 };
    if c.take(3)? != b"CDF" { return Err("bad magic".into()); }
    let ver = match c.take(1)?[0] { 1 => Ver::Classic, 2 => Ver::Off64, v => return Err(format!("bad version {}", v)) };
    let numrecs_field = c.u32()?;
    if numrecs_field > i32::MAX as u32 && numrecs_field != u32::MAX { return Err("bad numrecs".into()); }
    let mut def = MDef::default();
    let nd = c.list(10)?;
    for _ in 0..nd {
        let name = c.name()?;
        let size = c.non_neg()? as u64;
        let e = if size == 0 { Edit::SetUnlim { name, size: if numrecs_field == u32::MAX { 0 } else { numrecs_field as u64 } } } else { Edit::AddDim { name, size } };
        def.apply(&e)?;
    }
    for a in c.attrs()? { def.apply(&Edit::AddGAttr { name: a.name, ty: a.ty, bytes: a.bytes, text: false })?; }
    let nv = c.list(11)?;
    let mut begins = vec![];
    for _ in 0..nv {
        let name = c.name()?;
        let k = c.non_neg()?;
        let mut dims = vec![];
        for _ in 0..k {
            let id = c.non_neg()?;
            dims.push(def.dims.get(id).ok_or("bad dimension id")?.name.clone());
        }
        let attrs = c.attrs()?;
        let ty = Ty::from_code(c.u32()?).ok_or("bad type")?;
        c.u32()?; // the size field: redundant
        let begin = match ver {
            Ver::Classic => c.u32()? as i32 as i64,
            Ver::Off64 => { let b = c.take(8)?; i64::from_be_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]) }
        };
        def.apply(&Edit::AddVar { name: name.clone(), dims, ty })?;
        for a in attrs { def.apply(&Edit::AddVAttr { var: name.clone(), name: a.name, ty: a.ty, bytes: a.bytes, text: false, direct: false })?; }
        begins.push(begin);
    }
    if numrecs_field == u32::MAX && def.unlim().is_some() {
        let rv = def.rec_vars();
        let n = if rv.is_empty() { 0 } else {
            for v in &def.vars { if def.chunk_len_checked(v).and_then(|n| n.checked_mul(8)).map(|n| n > i64::MAX as u64).unwrap_or(true) { return Err("size overflow".into()); } }
            let first = rv.iter().map(|i| begins[*i]).min().unwrap();
            if first < 0 || first as u64 > file_len { return Err("records begin outside the file".into()); }
            let stride = rv.iter().try_fold(0u64, |a, i| a.checked_add(round4(def.chunk_bytes(&def.vars[*i])))).ok_or("size overflow")?;
            let stride = if rv.len() == 1 { def.stride() } else { stride };
            if stride == 0 { return Err("empty records".into()); }
            let all = file_len - first as u64;
            if all % stride != 0 { return Err("partial last record".into()); }
            all / stride
        };
        def.dims.iter_mut().find(|d| d.unlim).unwrap().size = n;
    }
    Ok(Decoded { def, ver, begins, header_len: c.p, numrecs_field })
}

impl Decoded {
    /// Where chunk k of variable i lies in the file: (offset, length); None when not representable.
    pub fn place(&self, i: usize, k: u64) -> Option<(u64, u64)> {
        let v = &self.def.vars[i];
        let n = self.def.chunk_len_checked(v)?.checked_mul(v.ty.size() as u64)?;
        if self.begins[i] < 0 { return None; }
        let mut o = self.begins[i] as u64;
        if self.def.is_rec(v) {
            let rv = self.def.rec_vars();
            let mut stride = 0u64;
            for j in &rv {
                let w = &self.def.vars[*j];
                let b = self.def.chunk_len_checked(w)?.checked_mul(w.ty.size() as u64)?;
                stride = stride.checked_add(if rv.len() == 1 { b } else { b.checked_add(pad4(b))? })?;
            }
            o = o.checked_add(k.checked_mul(stride)?)?;
        }
        if o.checked_add(n)? > i64::MAX as u64 { return None; }
        Some((o, n))
    }
    /// Value bytes of a chunk if all of them are in the file.
    pub fn chunk(&self, file: &[u8], i: usize, k: u64) -> Option<Vec<u8>> {
        let (o, n) = self.place(i, k)?;
        if o + n > file.len() as u64 { return None; }
        Some(file[o as usize..(o + n) as usize].to_vec())
    }
    /// All values of variable i, or None if some are not in the file.
    pub fn values(&self, file: &[u8], i: usize) -> Option<Vec<u8>> {
        let v = &self.def.vars[i];
        let n = self.def.chunks(v);
        // a variable claiming more than the file holds cannot be complete
        if n > 0 {
            let (_, cb) = self.place(i, 0)?;
            if cb > 0 && n.checked_mul(cb)? > file.len() as u64 { return None; }
        }
        let mut out = vec![];
        for k in 0..n { out.extend(self.chunk(file, i, k)?); }
        Some(out)
    }
}
