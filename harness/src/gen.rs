//! Seeded generators: one (property, seed, run number) gives one plan.
use crate::exec::{self, History, RunOpts};
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::world::{Act, Fault, IoMode, Kind};
use std::collections::BTreeSet;

pub fn prop_no(p: &str) -> u64 { p.trim_start_matches('C').parse().unwrap_or(0) }

pub fn generate(prop: &str, seed: u64, i: u64) -> Plan {
    let mut r = Rng::new(mix(&[seed, prop_no(prop), i]));
    SHARE.with(|s| s.set(match r.below(20) { 0..=10 => 0, 11..=15 => 40, _ => 95 }));
    let mut p = match prop {
        // some large files for the properties that speak of every file
        "C01" | "C02" | "C05" | "C08" if r.pct(3) => c16(&mut r),
        "C03" | "C09" if r.pct(2) => loop { let p = c16(&mut r); if p.family.starts_with("foreign") { break p; } },
        "C01" => c01(&mut r), "C02" => c02(&mut r), "C03" => c03(&mut r), "C04" => c04(&mut r), "C05" => c05(&mut r),
        "C06" => c06(&mut r), "C07" => c07(&mut r), "C08" => c08(&mut r), "C09" => c09(&mut r), "C10" => c10(&mut r),
        "C11" => c11(&mut r), "C12" => c12(&mut r), "C13" => c13(&mut r), "C14" => c14(&mut r), "C15" => c15(&mut r),
        "C16" => c16(&mut r), "C17" => c17(&mut r),
        _ => panic!("no generator for {}", prop),
    };
    p.prop = prop.to_string();
    p.origin = (seed, i);
    p.normalise();
    if r.pct(6) { p = odd_paths(&mut r, &p); }
    p
}
/// The same plan with unusual file names.
fn odd_paths(r: &mut Rng, p: &Plan) -> Plan {
    let t = serde_json::to_string(p).unwrap();
    let long = format!("/simdisk/{}", "long-".repeat(40));
    let t = match r.below(7) {
        0 => t.replace(".nc\"", "\""),
        1 => t.replace(".nc\"", ".NC4.tmp\""),
        2 => t.replace("/simdisk/", "/simdisk/-données 温 "),
        3 => t.replace("/simdisk/", "/simdisk/.hidden~"),
        4 => t.replace(".nc\"", ".nc.\""),
        5 => t.replace("/simdisk/", &long),
        _ => t.replace("/simdisk/", "/simdisk/c:*?%20$(x);&"),
    };
    serde_json::from_str(&t).unwrap_or_else(|_| p.clone())
}

fn dry(p: &mut Plan) -> History { p.normalise(); exec::run(p, &RunOpts { text: false, snap: false }) }

// ------------------------------------------------------------------ names and values

const WIDE: &[char] = &['é', 'ß', 'λ', 'ж', '温', '度', '한', '€', '𝛼', '🌍', 'ñ', 'Ω', 'ا'];
/// Names that several definitions of a plan may have in common; some differ only in case,
/// in Unicode normal form or by being a prefix of another.
const COMMON: &[&str] = &["a", "b", "c", "x", "t", "time", "Time", "tim", "aa", "ab", "A", "_FillValue", "é", "e\u{301}", "temp", "temp2", "0", "v-1"];
thread_local! { static SHARE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
pub fn name(r: &mut Rng, taken: &mut BTreeSet<String>) -> String {
    let share = SHARE.with(|s| s.get());
    if share > 0 && r.pct(share) {
        for _ in 0..4 { let s = r.pick(COMMON).to_string(); if valid_name(&s) && taken.insert(s.clone()) { return s; } }
    }
    for _ in 0..50 {
        let style = r.below(20);
        let len = match style { 0 => r.usize_in(200, 256), 1 => r.usize_in(250, 256), 2..=5 => r.usize_in(5, 24), _ => r.usize_in(1, 8) };
        let mut s = String::new();
        while s.len() < len {
            let c = match (style, s.is_empty()) {
                (6..=8, _) | (1, false) => *r.pick(WIDE),
                (9..=11, false) => *r.pick(b" !\"#$%&'()*,:;<=>?[\\]^`{|}~_.@+-".as_slice()) as char,
                (12, true) => '_',
                (_, true) => *r.pick(b"abcxyzABCXYZ0189_".as_slice()) as char,
                _ => *r.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0189_.-".as_slice()) as char,
            };
            if s.len() + c.len_utf8() > len { if s.is_empty() { s.push('v'); } else { s.push('x'); } } else { s.push(c); }
        }
        if valid_name(&s) && s != "no such variable" && taken.insert(s.clone()) { return s; }
    }
    let mut k = taken.len();
    loop { let s = format!("n{}", k); if taken.insert(s.clone()) { return s; } k += 1; }
}

fn attr(r: &mut Rng, big: bool) -> (Ty, Vec<u8>, bool) {
    let ty = *r.pick(&TYPES);
    let n = match r.below(12) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, _ => r.usize_in(1, 9) };
    let n = if big { r.usize_in(300, 1500) } else { n };
    let seed = r.next();
    if ty == Ty::U8 && r.pct(60) {
        let mut s = String::new();
        for _ in 0..n { s.push(if r.pct(15) { *r.pick(WIDE) } else { *r.pick(b"abc XYZ09.:/".as_slice()) as char }); }
        return (ty, s.into_bytes(), true);
    }
    (ty, exec::gen_values(ty, n, seed), false)
}

#[derive(Clone)]
pub struct DefOpts { pub bulk: bool, pub wide: bool, pub max_data: u64, pub max_recs: u64, pub unlim: u64, pub max_vars: usize, pub big_attr: u64, pub attrs: bool }
impl Default for DefOpts { fn default() -> Self { DefOpts { bulk: false, wide: false, max_data: 1500, max_recs: 6, unlim: 70, max_vars: 6, big_attr: 6, attrs: true } } }

/// More of something than any internal buffer is likely to hold: values, records, variables or attributes.
fn bulk_def(r: &mut Rng) -> Vec<Edit> {
    let mut e = vec![];
    let big = |r: &mut Rng| match r.below(12) { 0 => 65_535 + r.below(3), 1 => 8191 + r.below(3), 2 => 16_383 + r.below(3), 3 => 4095 + r.below(3), _ => r.range(1000, 20_000) };
    match r.below(8) {
        0 | 1 => {
            let n = big(r);
            let recs = r.range(1, 3);
            e.push(Edit::AddDim { name: "x".into(), size: n });
            if r.pct(60) { e.push(Edit::SetUnlim { name: "t".into(), size: recs }); }
            e.push(Edit::AddDim { name: "s".into(), size: r.range(1, 5) });
            let un = e.len() == 3;
            for i in 0..r.usize_in(1, 3) {
                let mut dims: Vec<String> = vec![];
                if un && r.pct(50) { dims.push("t".into()); }
                if i == 0 || r.pct(40) { dims.push("x".into()); } else { dims.push("s".into()); }
                e.push(Edit::AddVar { name: format!("v{}", i), dims, ty: if n > 30_000 { *r.pick(&[Ty::I8, Ty::U8, Ty::I16]) } else { *r.pick(&TYPES) } });
            }
        }
        2 | 3 => {
            let n = match r.below(4) { 0 => 254 + r.below(5), 1 => r.range(60, 70), 2 => 1022 + r.below(5), _ => r.range(60, 1200) };
            e.push(Edit::SetUnlim { name: "t".into(), size: n });
            e.push(Edit::AddDim { name: "s".into(), size: r.range(2, 5) });
            for i in 0..r.usize_in(1, 3) { e.push(Edit::AddVar { name: format!("v{}", i), dims: if r.pct(60) { vec!["t".into()] } else { vec!["t".into(), "s".into()] }, ty: *r.pick(&TYPES) }); }
            if r.pct(40) { e.push(Edit::AddVar { name: "f".into(), dims: vec!["s".into()], ty: *r.pick(&TYPES) }); }
        }
        4 => { // long attributes, a header of tens of kilobytes
            e.push(Edit::SetUnlim { name: "t".into(), size: r.range(0, 3) });
            e.push(Edit::AddDim { name: "s".into(), size: r.range(1, 4) });
            e.push(Edit::AddVar { name: "v".into(), dims: vec!["t".into(), "s".into()], ty: *r.pick(&TYPES) });
            e.push(Edit::AddVar { name: "f".into(), dims: vec!["s".into()], ty: *r.pick(&TYPES) });
            for i in 0..r.usize_in(1, 3) {
                let n = match r.below(3) { 0 => 254 + r.below(4), _ => big(r) } as usize;
                let ty = if n > 30_000 { *r.pick(&[Ty::I8, Ty::U8, Ty::I16]) } else { *r.pick(&TYPES) };
                let text = ty == Ty::U8 && r.pct(60);
                let bytes = if text { (0..n).map(|_| *r.pick(b"abc XYZ09.:/\n".as_slice())).collect() } else { exec::gen_values(ty, n, r.next()) };
                if r.pct(50) { e.push(Edit::AddGAttr { name: format!("a{}", i), ty, bytes, text }); }
                else { e.push(Edit::AddVAttr { var: if r.pct(50) { "v".into() } else { "f".into() }, name: format!("a{}", i), ty, bytes, text, direct: r.pct(40) }); }
            }
        }
        5 => { // variables of many dimensions
            let nd = r.usize_in(5, 36);
            let mut size = vec![1u64; nd];
            for _ in 0..r.usize_in(0, 8) { let k = r.idx(nd); if size[k] == 1 { size[k] = r.range(2, 3); } }
            let un = if r.pct(50) { Some(r.idx(nd)) } else { None };
            for i in 0..nd { e.push(if un == Some(i) { Edit::SetUnlim { name: format!("d{}", i), size: r.range(0, 4) } } else { Edit::AddDim { name: format!("d{}", i), size: size[i] } }); }
            for i in 0..r.usize_in(1, 3) {
                let mut order: Vec<usize> = (0..nd).filter(|k| Some(*k) != un).collect();
                r.shuffle(&mut order);
                order.truncate(r.usize_in(4, nd));
                if let Some(u) = un { if r.pct(60) { order.insert(0, u); } }
                e.push(Edit::AddVar { name: format!("v{}", i), dims: order.iter().map(|k| format!("d{}", k)).collect(), ty: *r.pick(&TYPES) });
            }
        }
        6 if r.pct(6) => { // more records than 16 bits count
            e.push(Edit::SetUnlim { name: "t".into(), size: 65_534 + r.below(6) });
            e.push(Edit::AddVar { name: "v".into(), dims: vec!["t".into()], ty: *r.pick(&[Ty::I8, Ty::U8, Ty::I16]) });
            if r.pct(50) { e.push(Edit::AddVar { name: "w".into(), dims: vec!["t".into()], ty: *r.pick(&[Ty::I8, Ty::U8]) }); }
        }
        _ => {
            let (nd, nv, na) = if r.pct(25) { (r.usize_in(2, 300), r.usize_in(10, 300), r.usize_in(0, 300)) } else { (r.usize_in(2, 40), r.usize_in(10, 150), r.usize_in(0, 80)) };
            for i in 0..nd { e.push(if i == nd / 2 && r.pct(60) { Edit::SetUnlim { name: format!("d{}", i), size: r.range(0, 3) } } else { Edit::AddDim { name: format!("d{}", i), size: r.range(1, 3) } }); }
            let un = e.iter().find_map(|x| if let Edit::SetUnlim { name, .. } = x { Some(name.clone()) } else { None });
            for i in 0..nv {
                let mut dims: Vec<String> = vec![];
                if let Some(u) = &un { if r.pct(40) { dims.push(u.clone()); } }
                let k = format!("d{}", r.idx(nd));
                if Some(&k) != un.as_ref() && r.pct(60) { dims.push(k); }
                e.push(Edit::AddVar { name: format!("v{}", i), dims, ty: *r.pick(&TYPES) });
            }
            for i in 0..na {
                let (ty, bytes, text) = attr(r, false);
                if r.pct(50) { e.push(Edit::AddGAttr { name: format!("a{}", i), ty, bytes, text }); }
                else { e.push(Edit::AddVAttr { var: format!("v{}", r.idx(nv)), name: format!("a{}", i), ty, bytes, text, direct: r.pct(40) }); }
            }
        }
    }
    e
}

/// A definition none of whose edits is refused.
pub fn def(r: &mut Rng, o: &DefOpts) -> Vec<Edit> {
    if o.bulk { return bulk_def(r); }
    let mut e = vec![];
    let mut taken = BTreeSet::new();
    let nd = match r.below(8) { 0 => 0, 1 => 1, _ => r.usize_in(1, 4) };
    let mut fixed: Vec<(String, u64)> = vec![];
    for _ in 0..nd { let s = match r.below(6) { 0 => 1, 1 => r.range(5, 13), _ => r.range(1, 5) }; fixed.push((name(r, &mut taken), s)); }
    if o.wide { fixed.push((name(r, &mut taken), r.range(60, 700))); }
    let mut unlim = None;
    if r.pct(o.unlim) {
        let n = match r.below(10) { 0 => 0, 1 => 1, 2 => r.range(1, o.max_recs * 4), _ => r.range(1, o.max_recs) };
        unlim = Some((name(r, &mut taken), n));
    }
    let upos = r.idx(fixed.len() + 1);
    let mut dims: Vec<Edit> = fixed.iter().map(|(n, s)| Edit::AddDim { name: n.clone(), size: *s }).collect();
    if let Some((n, s)) = &unlim { dims.insert(upos, Edit::SetUnlim { name: n.clone(), size: *s }); }
    let late_dim = if !dims.is_empty() && r.pct(10) { None } else { Some(()) };
    e.extend(dims);
    let _ = late_dim;
    let family = r.below(10);
    let nv = match r.below(12) { 0 => 0, 1 => 1, _ => r.usize_in(1, o.max_vars.max(1)) };
    let mut vtaken = BTreeSet::new();
    let mut total = 0u64;
    let mut recvars = 0;
    for _ in 0..nv {
        // family 0: one narrow record variable at most; family 1: no record variable; else mixed
        for _try in 0..8 {
            let mut ds: Vec<String> = vec![];
            let is_rec = unlim.is_some() && match family { 0 => recvars == 0, 1 => false, 2 => true, _ => r.pct(55) };
            let ty = if is_rec && family == 0 { *r.pick(&[Ty::I8, Ty::U8, Ty::I16]) } else { *r.pick(&TYPES) };
            let mut n = 1u64;
            if is_rec { ds.push(unlim.as_ref().unwrap().0.clone()); n = unlim.as_ref().unwrap().1.max(1); }
            let mut order: Vec<usize> = (0..fixed.len()).collect();
            r.shuffle(&mut order);
            let k = if fixed.is_empty() { 0 } else { match r.below(5) { 0 => 0, 1 | 2 => 1, 3 => 2.min(fixed.len()), _ => r.usize_in(0, fixed.len()) } };
            for i in order.into_iter().take(k) { ds.push(fixed[i].0.clone()); n *= fixed[i].1; }
            let b = n * ty.size() as u64 + n;
            if total + b > o.max_data && _try < 7 { continue; }
            if total + b > o.max_data * 2 { break; }
            total += b;
            if is_rec { recvars += 1; }
            e.push(Edit::AddVar { name: name(r, &mut vtaken), dims: ds, ty });
            break;
        }
    }
    if o.attrs {
        let vars: Vec<String> = e.iter().filter_map(|x| if let Edit::AddVar { name, .. } = x { Some(name.clone()) } else { None }).collect();
        let mut gt = BTreeSet::new();
        let ng = match r.below(4) { 0 => 0, 1 => 1, _ => r.usize_in(0, 4) };
        for _ in 0..ng {
            let big = r.pct(o.big_attr);
            let (ty, bytes, text) = attr(r, big);
            let p = r.idx(e.len() + 1);
            e.insert(p, Edit::AddGAttr { name: name(r, &mut gt), ty, bytes, text });
        }
        for v in vars {
            let mut at = BTreeSet::new();
            let n = match r.below(4) { 0 | 1 => 0, 2 => 1, _ => r.usize_in(0, 3) };
            for _ in 0..n {
                let big = r.pct(o.big_attr / 2);
                let (ty, bytes, text) = attr(r, big);
                e.push(Edit::AddVAttr { var: v.clone(), name: name(r, &mut at), ty, bytes, text, direct: r.pct(40) });
            }
        }
        if e.iter().any(|x| matches!(x, Edit::AddGAttr { .. })) && r.pct(50) {
            // keep the relative order of attributes of one variable but mix the kinds
            let (mut a, mut b): (Vec<Edit>, Vec<Edit>) = e.into_iter().partition(|x| matches!(x, Edit::AddGAttr { .. }));
            let mut out = vec![];
            while !a.is_empty() || !b.is_empty() {
                let take_a = !a.is_empty() && (b.is_empty() || r.pct(40));
                out.push(if take_a { a.remove(0) } else { b.remove(0) });
            }
            e = out;
        }
    }
    e
}

/// A definition with (mostly) the same names as `e`, but other sizes, types, values and order.
pub fn sibling(r: &mut Rng, e: &[Edit]) -> Vec<Edit> {
    let mut out = e.to_vec();
    let how = r.below(8);
    for x in &mut out {
        let pick = |r: &mut Rng| how == 0 || r.pct(35);
        match x {
            Edit::AddDim { size, .. } if *size < 50 && pick(r) => *size = r.range(1, 6),
            Edit::SetUnlim { size, .. } if *size < 50 && pick(r) => *size = r.range(0, 6),
            Edit::AddVar { ty, dims, .. } => {
                if pick(r) { *ty = *r.pick(&TYPES); }
                if r.pct(15) && dims.len() > 1 { let k = r.usize_in(1, dims.len() - 1); dims.remove(k); }
            }
            Edit::AddGAttr { ty, bytes, text, .. } | Edit::AddVAttr { ty, bytes, text, .. } if !*text && pick(r) => {
                // same length or another one
                let n = if r.pct(60) { bytes.len() / ty.size() } else { r.usize_in(0, 5) };
                *bytes = exec::gen_values(*ty, n, r.next());
            }
            _ => {}
        }
    }
    let is_var = |x: &Edit| matches!(x, Edit::AddVar { .. });
    if r.pct(40) {
        // other order of the variables
        let at: Vec<usize> = (0..out.len()).filter(|k| is_var(&out[*k])).collect();
        if at.len() > 1 {
            let attrs: Vec<Edit> = out.iter().filter(|x| matches!(x, Edit::AddVAttr { .. })).cloned().collect();
            let (i, j) = (at[r.idx(at.len())], at[r.idx(at.len())]);
            out.swap(i, j);
            out.retain(|x| !matches!(x, Edit::AddVAttr { .. }));
            out.extend(attrs);
        }
    }
    if r.pct(20) {
        // one variable less
        let at: Vec<String> = out.iter().filter_map(|x| if let Edit::AddVar { name, .. } = x { Some(name.clone()) } else { None }).collect();
        if at.len() > 1 {
            let gone = r.pick(&at).clone();
            out.retain(|x| match x { Edit::AddVar { name, .. } => *name != gone, Edit::AddVAttr { var, .. } => *var != gone, _ => true });
        }
    }
    // only if no edit of it is refused and the data stay small
    let mut m = MDef::default();
    if out.iter().any(|x| m.apply(x).is_err()) { return e.to_vec(); }
    let size: u64 = m.vars.iter().map(|v| m.chunk_bytes(v).saturating_mul(m.chunks(v).max(1))).sum();
    if size > 400_000 { return e.to_vec(); }
    out
}
fn wd_like(r: &mut Rng, p: &mut Plan, of: usize) -> (usize, MDef) {
    let e = sibling(r, &p.defs[of].clone());
    let d = MDef::build(&e);
    p.defs.push(e);
    (p.defs.len() - 1, d)
}

/// Random edits, valid and invalid, on top of `d`.
pub fn noise(r: &mut Rng, d: &mut MDef, n: usize, recs: bool) -> Vec<Edit> {
    let mut out = vec![];
    let mut taken = BTreeSet::new();
    for _ in 0..n {
        let bad = ["", "a/b", " lead", "no\u{7}", "-x", "no such"];
        let mut any = |r: &mut Rng, pool: Vec<String>| -> String {
            match r.below(10) { 0 => r.pick(&bad).to_string(), 1 => "never defined".to_string(), _ => if pool.is_empty() { "nothing".into() } else { r.pick(&pool).clone() } }
        };
        let dims: Vec<String> = d.dims.iter().map(|x| x.name.clone()).collect();
        let vars: Vec<String> = d.vars.iter().map(|x| x.name.clone()).collect();
        let gas: Vec<String> = d.attrs.iter().map(|x| x.name.clone()).collect();
        let k = r.below(26);
        let mut fresh = |r: &mut Rng| match r.below(16) { 0 => "x".repeat(257), 1 => r.pick(&bad).to_string(), 2 => { let mut all = dims.clone(); all.extend(vars.clone()); all.extend(gas.clone()); if all.is_empty() { "q".into() } else { r.pick(&all).clone() } } _ => name(r, &mut taken) };
        let e = match k {
            0 | 1 => Edit::AddDim { name: fresh(r), size: match r.below(12) { 0 => 0, 1 => MAX_DIM + 1 + r.below(5), _ => r.range(1, 4) } },
            2 | 3 => Edit::SetUnlim { name: fresh(r), size: if recs { r.below(5) } else { 0 } },
            4..=6 => Edit::RenameDim { old: any(r, dims.clone()), new: fresh(r) },
            7 | 8 => Edit::RemoveDim { name: any(r, dims.clone()) },
            9..=12 => {
                let mut ds = dims.clone();
                r.shuffle(&mut ds);
                ds.truncate(r.usize_in(0, 3));
                if r.pct(60) { if let Some(u) = d.unlim() { if let Some(p) = ds.iter().position(|x| *x == u.name) { ds.swap(0, p); } } }
                if r.pct(8) { ds.push("never defined".into()); }
                if r.pct(6) { if let Some(x) = ds.first().cloned() { ds.push(x); } }
                Edit::AddVar { name: fresh(r), dims: ds, ty: *r.pick(&TYPES) }
            }
            13 | 14 => Edit::RenameVar { old: any(r, vars.clone()), new: fresh(r) },
            15 => Edit::RemoveVar { name: any(r, vars.clone()) },
            16 | 17 => { let (ty, bytes, text) = attr(r, false); Edit::AddGAttr { name: fresh(r), ty, bytes, text } }
            18 => { let old = any(r, gas.clone()); let mut new = fresh(r); if new == old { new = "other_name".into(); } Edit::RenameGAttr { old, new } }
            19 => Edit::RemoveGAttr { name: any(r, gas.clone()) },
            20..=22 => { let (ty, bytes, text) = attr(r, false); Edit::AddVAttr { var: any(r, vars.clone()), name: fresh(r), ty, bytes, text, direct: r.pct(40) } }
            23 => { let var = any(r, vars.clone()); let pool = d.var(&var).map(|(_, v)| v.attrs.iter().map(|a| a.name.clone()).collect()).unwrap_or_default(); Edit::RenameVAttr { old: any(r, pool), new: fresh(r), var } }
            _ => { let var = any(r, vars.clone()); let pool = d.var(&var).map(|(_, v)| v.attrs.iter().map(|a| a.name.clone()).collect()).unwrap_or_default(); Edit::RemoveVAttr { name: any(r, pool), direct: r.pct(40), var } }
        };
        // keep the data small
        let mut t = d.clone();
        let ok = t.apply(&e).is_ok();
        let size: u64 = t.vars.iter().map(|v| t.chunk_bytes(v).saturating_mul(t.chunks(v).max(1))).sum();
        if size > 20_000 { continue; }
        if ok { *d = t; }
        out.push(e);
    }
    out
}

// ------------------------------------------------------------------ calls

pub struct WOpts { pub bad: u64, pub close: u64, pub skip: u64, pub whole: u64, pub info: u64, pub ops: usize }
impl Default for WOpts { fn default() -> Self { WOpts { bad: 0, close: 100, skip: 25, whole: 50, info: 5, ops: 14 } } }

fn bad_write(r: &mut Rng, d: &MDef) -> WK {
    let var = r.idx(d.vars.len().max(1));
    match r.below(8) {
        0 | 1 => WK::BadType { var, ty: *r.pick(&TYPES), rec: if r.pct(50) { Some(r.below(4)) } else { None } },
        2 | 3 | 4 => WK::BadLen { var, delta: *r.pick(&[-1, 1, 1, 2, -2, 4, 7, -3]), rec: if r.pct(50) { Some(r.below(4)) } else { None } },
        5 => WK::BadName { rec: r.pct(50) },
        _ => WK::BadRec { var, over: *r.pick(&[0, 0, 0, 1, 2, 1 << 20, u32::MAX as u64, i64::MAX as u64 / 4, u64::MAX / 2]) },
    }
}

pub fn ver(r: &mut Rng) -> Ver { if r.pct(50) { Ver::Classic } else { Ver::Off64 } }
pub fn hmin(r: &mut Rng, d: &MDef, v: Ver) -> u64 {
    let q = d.header_required(v);
    match r.below(10) { 0 => q, 1 => q + 1, 2 => q + r.below(9), 3 => q.saturating_sub(1), 4 => r.below(1200), 5 => 4096 + r.below(3), 6 if r.pct(4) => 65_530 + r.below(10_000), _ => 0 }
}

/// Data writes for definition d in random order.
/// Which of n records are written, in order: a run of them, all but one, every other one.
fn record_pattern(r: &mut Rng, n: u64) -> Vec<u64> {
    let m = n.min(if r.pct(10) { 70 } else { 14 });
    let at = match r.below(3) { 0 => 0, 1 => n - m, _ => r.below(n - m + 1) };
    let mut v: Vec<u64> = (at..at + m).collect();
    match r.below(6) {
        0 | 1 => { let k = match r.below(3) { 0 => 0, 1 => v.len() - 1, _ => r.idx(v.len()) }; v.remove(k); }
        2 => { let k = r.idx(v.len()) + 1; v.truncate(k); }
        3 => { let k = r.idx(v.len()); v.drain(..k); }
        4 => { let odd = r.below(2); v.retain(|k| k % 2 == odd); }
        _ => {}
    }
    if r.pct(30) { v.reverse(); }
    v
}

pub fn data_ops(r: &mut Rng, d: &MDef, o: &WOpts) -> Vec<WK> {
    let mut ops = vec![];
    for (i, v) in d.vars.iter().enumerate() {
        if r.pct(o.skip) { continue; }
        let n = d.chunks(v);
        for _ in 0..(if r.pct(20) { 2 } else { 1 }) {
            if r.pct(o.whole) { ops.push(WK::Var { var: i, seed: r.next() }); }
            else if n > 0 {
                if r.pct(55) {
                    let all = r.pct(40);
                    for k in 0..n.min(12) {
                        if all || r.pct(50) { let rec = if n > 12 { r.below(n) } else { k }; ops.push(WK::Rec { var: i, rec, seed: r.next() }); }
                    }
                } else {
                    for rec in record_pattern(r, n) { ops.push(WK::Rec { var: i, rec, seed: r.next() }); }
                }
            }
        }
    }
    match r.below(5) {
        0 => {} // variable by variable, in the patterns' order
        1 => ops.sort_by_key(|k| if let WK::Rec { rec, .. } = k { *rec } else { 0 }), // record by record
        _ => { r.shuffle(&mut ops); }
    }
    ops.truncate(if r.pct(15) { 4 * o.ops } else { o.ops });
    let mut out = vec![];
    for k in ops {
        if r.pct(o.bad) { out.push(bad_write(r, d)); }
        if r.pct(o.info) { out.push(WK::Info); }
        out.push(k);
    }
    if r.pct(o.bad) { out.push(bad_write(r, d)); }
    out
}

pub fn writer(r: &mut Rng, path: &str, new: bool, src: DefSrc, d: &MDef, v: Ver, hmin: u64, o: &WOpts) -> WriteSession {
    let mut ops = vec![];
    if r.pct(o.bad / 2) { ops.push(bad_write(r, d)); }
    if r.pct(o.info) { ops.push(WK::Info); }
    ops.push(WK::SetDef { def: 0, ver: v, hmin });
    if r.pct(o.bad / 3) { ops.push(WK::SetDef { def: 0, ver: ver(r), hmin }); }
    ops.extend(data_ops(r, d, o));
    if r.pct(o.close) { ops.push(WK::Close); }
    WriteSession { id: 0, path: path.into(), new, defs: vec![src], ops: ops.into_iter().map(|k| WOp { id: 0, k }).collect(), twin: None }
}

pub fn reader(r: &mut Rng, path: &str, nvars: usize, n: usize, bad: u64) -> ReadSession {
    let mut ops = vec![];
    let nv = nvars.max(1);
    for _ in 0..n {
        let var = r.idx(nv);
        if r.pct(bad) {
            ops.push(match r.below(3) {
                0 => RK::BadName { rec: r.pct(50), typed: r.pct(50) },
                1 => RK::BadType { var, ty: *r.pick(&TYPES), rec: r.pct(50) },
                _ => RK::BadRec { var, over: *r.pick(&[0, 0, 0, 1, 5, 1 << 31, u32::MAX as u64, u64::MAX / 2]), typed: r.pct(50) },
            });
            continue;
        }
        if r.pct(12) {
            // a run of records, as loops over them read
            let (at, m, typed, down, turn) = (if r.pct(60) { 0 } else { r.below(64) }, r.range(2, 7), r.pct(50), r.pct(25), r.pct(30));
            for k in 0..m { let k = if down { m - 1 - k } else { k }; ops.push(RK::Rec { var: if turn { var + k as usize } else { var }, rec: at + k, typed }); }
            continue;
        }
        ops.push(match r.below(12) {
            0 => RK::All,
            1 => RK::Info,
            2 => RK::Sweep { cap: 6 },
            3..=6 => RK::Var { var, typed: r.pct(50) },
            _ => RK::Rec { var, rec: if r.pct(60) { r.below(64) } else { r.next() >> 20 }, typed: r.pct(50) },
        });
    }
    if r.pct(70) { ops.push(RK::Close); }
    ReadSession { id: 0, path: path.into(), ops: ops.into_iter().map(|k| ROp { id: 0, k }).collect() }
}
pub fn full_reader(r: &mut Rng, path: &str) -> ReadSession {
    let mut ops = vec![RK::Sweep { cap: 30 }, RK::All, RK::Info];
    r.shuffle(&mut ops);
    if r.pct(80) { ops.push(RK::Close); }
    ReadSession { id: 0, path: path.into(), ops: ops.into_iter().map(|k| ROp { id: 0, k }).collect() }
}

pub fn io(r: &mut Rng) -> IoMode {
    if r.pct(35) { return IoMode::default(); }
    let lim = |r: &mut Rng| match r.below(8) { 0 | 1 => 0, 2 => 1, 3 => 2, 4 => 3, 5 => r.range(4, 9) as u32, 6 => r.range(10, 64) as u32, _ => r.range(65, 2000) as u32 };
    IoMode { max_read: lim(r), max_write: lim(r), vary: if r.pct(60) { r.next() | 1 } else { 0 }, eintr: if r.pct(40) { *r.pick(&[5, 50, 300, 700]) } else { 0 } }
}

pub fn style(r: &mut Rng) -> Style {
    let mut s = Style::default();
    if r.pct(40) { s.slack = match r.below(4) { 0 => r.below(8), 1 => r.below(64), 2 => r.below(2000), _ => 4096 }; s.slack_garbage = r.pct(50); }
    if r.pct(35) { s.gaps = (0..r.usize_in(1, 4)).map(|_| r.below(6) * 4).collect(); }
    if r.pct(40) { s.order = r.next() | 1; }
    s.indeterminate = r.pct(25);
    s.vsize = if r.pct(50) { 0 } else { r.below(4) as u8 };
    if r.pct(25) { s.trailing = r.below(40); }
    s.trim = r.pct(20);
    s.tagged_empty = r.pct(20);
    s
}

// ------------------------------------------------------------------ faults

fn errno(r: &mut Rng, k: Kind) -> i32 {
    match k {
        Kind::Open => *r.pick(&[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::EROFS, libc::ENOSPC, libc::EPERM, libc::ENOMEM, libc::EBUSY, libc::EAGAIN, libc::ETIMEDOUT, libc::ENXIO]),
        Kind::Read => *r.pick(&[libc::EIO, libc::ESTALE, libc::ENOMEM, libc::ETIMEDOUT, libc::EPERM, libc::EAGAIN, libc::EINVAL, libc::EISDIR, libc::EACCES]),
        Kind::Write => *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::ESTALE, libc::EPERM, libc::EROFS, libc::EAGAIN, libc::EINVAL, libc::EPIPE, libc::ETIMEDOUT, libc::ENOMEM]),
        Kind::Seek => *r.pick(&[libc::EIO, libc::ESPIPE, libc::EOVERFLOW, libc::ESTALE]),
        Kind::Stat => *r.pick(&[libc::EIO, libc::ENOMEM, libc::ESTALE, libc::EACCES]),
        Kind::Trunc => *r.pick(&[libc::EIO, libc::EPERM, libc::ENOSPC]),
        _ => *r.pick(&[libc::EIO, libc::ENOSPC]),
    }
}
const KINDS: [Kind; 9] = [Kind::Open, Kind::Read, Kind::Write, Kind::Seek, Kind::Stat, Kind::Close, Kind::Trunc, Kind::Sync, Kind::Name];

/// Every (actor, op, kind, count) in which the dry run made system calls.
pub fn sites(h: &History) -> Vec<(u8, u32, Kind, u32)> {
    let mut v = vec![];
    for (a, t) in h.traces.iter().enumerate() { for (op, c) in t { for k in KINDS { if c[k as usize] > 0 { v.push((a as u8, *op, k, c[k as usize])); } } } }
    v
}
fn nth(r: &mut Rng, n: u32) -> u32 { match r.below(4) { 0 => 0, 1 => n - 1, _ => r.below(n as u64) as u32 } }
fn wsize(h: &History, a: u8, op: u32, n: u32) -> u32 { h.write_sizes[a as usize].iter().find(|(o, k, _)| *o == op && *k == n).map(|x| x.2).unwrap_or(8) }

pub fn hard_fault(r: &mut Rng, s: &(u8, u32, Kind, u32)) -> Fault {
    let act = if s.2 == Kind::Write && r.pct(20) { Act::Zero } else { Act::Err(errno(r, s.2)) };
    Fault { actor: s.0, op: s.1, kind: s.2, nth: nth(r, s.3), act }
}
pub fn soft_fault(r: &mut Rng, h: &History, s: &(u8, u32, Kind, u32)) -> Option<Fault> {
    if !matches!(s.2, Kind::Read | Kind::Write | Kind::Open) { return None; }
    let n = nth(r, s.3);
    let act = if s.2 == Kind::Open || r.pct(40) { Act::Err(libc::EINTR) } else { let w = wsize(h, s.0, s.1, n).max(2); Act::Short(r.range(1, w as u64) as u32) };
    Some(Fault { actor: s.0, op: s.1, kind: s.2, nth: n, act })
}
pub fn crash_fault(r: &mut Rng, h: &History, s: &(u8, u32, Kind, u32)) -> Fault {
    let n = nth(r, s.3);
    let keep = if s.2 == Kind::Write { let w = wsize(h, s.0, s.1, n); match r.below(5) { 0 => 0, 1 => 1, 2 => w, 3 => w.saturating_sub(1), _ => r.below(w as u64 + 1) as u32 } } else { r.below(2) as u32 };
    Fault { actor: s.0, op: s.1, kind: s.2, nth: n, act: Act::Crash { keep } }
}
/// n hard faults, each in its own place, weighted towards kinds of calls rather than their number.
pub fn hard_faults(r: &mut Rng, h: &History, n: usize, pick: impl Fn(&(u8, u32, Kind, u32)) -> bool) -> Vec<Fault> {
    let s: Vec<_> = sites(h).into_iter().filter(|x| x.2 != Kind::Close && pick(x)).collect();
    if s.is_empty() { return vec![]; }
    (0..n).map(|_| { let x = *r.pick(&s); hard_fault(r, &x) }).collect()
}
pub fn soft_faults(r: &mut Rng, h: &History, n: usize) -> Vec<Fault> {
    let s = sites(h);
    let mut out = vec![];
    if s.is_empty() { return out; }
    for _ in 0..n {
        let x = *r.pick(&s);
        if let Some(f) = soft_fault(r, h, &x) {
            if f.act == Act::Err(libc::EINTR) { for k in 0..r.range(1, 4) as u32 { let mut g = f.clone(); g.nth += k; out.push(g); } } else { out.push(f); }
        }
    }
    out
}
pub fn switches(r: &mut Rng, steps: u64, base: usize, n: usize) -> Vec<(u64, u8)> {
    let k = match r.below(5) { 0 => 1, 1 => 2, 2 => 3, 3 => r.range(4, 12), _ => r.range(1, 60) };
    let burst = r.pct(25);
    let at = r.range(1, steps.max(2));
    let mut v: Vec<(u64, u8)> = (0..k).map(|i| (if burst { at + i } else { r.range(1, steps.max(2)) }, (base + r.idx(n)) as u8)).collect();
    v.sort();
    v
}

/// Preemptions in the middle of library code.
pub fn inside(r: &mut Rng, h: &History, n: usize) -> Vec<Inside> {
    let s: Vec<(usize, u32, u64)> = h.recs.iter().filter(|x| x.edges > 1).map(|x| (x.actor, x.op, x.edges)).collect();
    let mut out: Vec<Inside> = vec![];
    if s.is_empty() { return out; }
    for _ in 0..match r.below(3) { 0 => 1, 1 => r.usize_in(1, 4), _ => r.usize_in(2, 12) } {
        let (a, op, e) = *r.pick(&s);
        let at = r.range(1, e);
        let to = (a + r.usize_in(1, n.max(2) - 1)) % n;
        out.push(Inside { actor: a as u8, op, at, to: to as u8 });
        // and back soon after the other one has run a little
        if r.pct(50) { let (b, op2, e2) = *r.pick(&s); if b == to { out.push(Inside { actor: b as u8, op: op2, at: r.range(1, e2), to: a as u8 }); } }
    }
    out
}

fn one(phases: Vec<Vec<Session>>) -> Vec<Vec<Script>> { phases.into_iter().map(|s| vec![Script { sessions: s }]).collect() }
fn plan(family: &str) -> Plan { Plan { family: family.into(), ..Default::default() } }
const P: &str = "/simdisk/f.nc";

fn opts(r: &mut Rng) -> DefOpts {
    let mut o = DefOpts::default();
    match r.below(12) {
        0 => { o.max_data = 40_000; o.max_recs = 60; }
        1 => { o.max_recs = 40; }
        2 => { o.max_vars = 12; }
        3 => { o.big_attr = 60; }
        4 => { o.max_vars = 1; }
        5 => { o.bulk = r.pct(25); }
        6 => { o.wide = true; o.max_data = 12_000; o.max_vars = 3; o.max_recs = 4; }
        _ => {}
    }
    o
}
fn wd(r: &mut Rng, p: &mut Plan, o: &DefOpts) -> (usize, MDef) {
    let e = def(r, o);
    let d = MDef::build(&e);
    p.defs.push(e);
    (p.defs.len() - 1, d)
}

// ------------------------------------------------------------------ properties

fn c01(r: &mut Rng) -> Plan {
    let mut p = plan("roundtrip");
    let o = opts(r);
    let (i, d) = wd(r, &mut p, &o);
    let v = ver(r);
    let hm = hmin(r, &d, v);
    let wo = WOpts { bad: if r.pct(30) { 15 } else { 0 }, ops: 30, ..Default::default() };
    let mut ph: Vec<Session> = vec![];
    if r.pct(15) { // an older, longer file at the same place
        let (j, e) = if r.pct(50) { wd(r, &mut p, &DefOpts::default()) } else { wd_like(r, &mut p, i) };
        let vv = if r.pct(50) { v } else { ver(r) };
        ph.push(Session::Write(writer(r, P, true, DefSrc::Built(j), &e, vv, 0, &WOpts::default())));
        if r.pct(50) { ph.push(Session::Read(full_reader(r, P))); }
        ph.push(Session::Write(writer(r, P, false, DefSrc::Built(i), &d, v, hm, &wo)));
    } else { let new = r.pct(70); ph.push(Session::Write(writer(r, P, new, DefSrc::Built(i), &d, v, hm, &wo))); }
    let rd = full_reader(r, P);
    let k = r.usize_in(0, 8);
    let rd2 = reader(r, P, d.vars.len(), k, 5);
    p.phases = one(vec![ph, vec![Session::Read(rd), Session::Read(rd2)]]);
    p.io = vec![io(r), io(r)];
    p.number_ops();
    if r.pct(30) { let h = dry(&mut p); let n = r.usize_in(1, 4); p.faults = soft_faults(r, &h, n); }
    p
}

fn c02(r: &mut Rng) -> Plan {
    let mut p = plan("encode");
    let o = opts(r);
    let (i, d) = wd(r, &mut p, &o);
    let v = ver(r);
    let hm = hmin(r, &d, v);
    let wo = WOpts { bad: if r.pct(20) { 15 } else { 0 }, ops: 30, skip: *r.pick(&[0, 30, 80]), ..Default::default() };
    let new = r.pct(70);
    let w = writer(r, P, new, DefSrc::Built(i), &d, v, hm, &wo);
    p.phases = one(vec![vec![Session::Write(w)]]);
    p.io = vec![io(r)];
    p.number_ops();
    match r.below(3) {
        0 => {}
        1 => { let h = dry(&mut p); let n = r.usize_in(1, 4); p.faults = soft_faults(r, &h, n); }
        _ => { p.family = "encode after failures".into(); retry_faults(r, &mut p); }
    }
    p
}

/// Puts failing copies in front of random writer calls of actor 0.
fn retry_faults(r: &mut Rng, p: &mut Plan) {
    let h = dry(p);
    let s: Vec<_> = sites(&h).into_iter().filter(|x| x.0 == 0 && !matches!(x.2, Kind::Close | Kind::Open)).collect();
    if s.is_empty() { return; }
    let mut next = 100_000;
    for _ in 0..r.usize_in(1, 3) {
        let x = *r.pick(&s);
        for se in &mut p.phases[0][0].sessions {
            let w = match se { Session::Write(w) => w, _ => continue };
            let at = match w.ops.iter().position(|o| o.id == x.1 && matches!(o.k, WK::SetDef { .. } | WK::Var { .. } | WK::Rec { .. })) { Some(a) => a, None => continue };
            let n = r.usize_in(1, 2);
            for j in 0..n {
                let mut k = w.ops[at + j].k.clone();
                if let WK::SetDef { def, .. } = &mut k { if w.defs.len() > 1 && r.pct(50) { *def = (*def + 1) % w.defs.len(); } }
                w.ops.insert(at + j, WOp { id: next, k });
                let mut f = hard_fault(r, &(0, next, x.2, x.3));
                if f.nth > 0 && r.pct(30) { f.nth = 0; }
                p.faults.push(f);
                next += 1;
            }
        }
    }
}

/// A definition that fails while its header is written, then a smaller one, whose
/// clean-up of what the first one left may fail as well.
fn second_definition(r: &mut Rng) -> Plan {
    let mut p = plan("second definition");
    let (i, d) = wd(r, &mut p, &DefOpts { big_attr: 30, max_data: 300, ..DefOpts::default() });
    let (j, e) = wd(r, &mut p, &DefOpts { max_data: 60, max_vars: 2, max_recs: 2, attrs: false, ..DefOpts::default() });
    let v = ver(r);
    let hm = if r.pct(50) { 0 } else { hmin(r, &d, v) };
    let new = r.pct(60);
    let mut w = writer(r, P, new, DefSrc::Built(j), &e, v, 0, &WOpts { ops: 8, ..Default::default() });
    w.defs.push(DefSrc::Built(i));
    let at = w.ops.iter().position(|o| matches!(o.k, WK::SetDef { .. })).unwrap_or(0);
    let n = r.usize_in(1, 2);
    for k in 0..n { w.ops.insert(at, WOp { id: 70_000 + k as u32, k: WK::SetDef { def: 1, ver: v, hmin: hm } }); }
    p.phases = one(vec![vec![Session::Write(w)], vec![Session::Read(full_reader(r, P))]]);
    p.io = vec![io(r), IoMode::default()];
    p.number_ops();
    for _ in 0..2 {
        let h = dry(&mut p);
        let firsts: Vec<u32> = h.recs.iter().filter(|x| x.actor == 0 && matches!(x.call, exec::Call::W { k: WK::SetDef { def: 1, .. }, .. })).map(|x| x.op).collect();
        let s: Vec<_> = sites(&h).into_iter().filter(|x| x.0 == 0 && x.2 == Kind::Write && firsts.contains(&x.1) && !p.faults.iter().any(|f| f.op == x.1)).collect();
        if s.is_empty() { break; }
        let x = *r.pick(&s);
        p.faults.push(hard_fault(r, &x));
    }
    let h = dry(&mut p);
    let s: Vec<_> = sites(&h).into_iter().filter(|x| x.0 == 0 && matches!(x.2, Kind::Trunc | Kind::Seek)).collect();
    if !s.is_empty() && r.pct(70) { for _ in 0..r.usize_in(1, 2) { let x = *r.pick(&s); p.faults.push(hard_fault(r, &x)); } }
    p
}

fn c03(r: &mut Rng) -> Plan {
    let mut p = plan("foreign");
    let mut o = opts(r);
    if r.pct(30) { o.max_recs = 30; }
    let (i, d) = wd(r, &mut p, &o);
    let mut st = style(r);
    // an indeterminate count needs records that can be counted
    if st.indeterminate && (d.rec_vars().is_empty() || d.stride() == 0 || d.num_recs() == 0) { st.indeterminate = false; }
    if st.indeterminate { st.trailing = 0; st.trim = false; }
    // an indeterminate count is recovered from where the first record variable begins
    let v = ver(r);
    p.files.push(InitFile { path: P.into(), src: FileSrc::Encoded { def: i, ver: v, style: st, seed: r.next() }, damage: vec![] });
    let rd = full_reader(r, P);
    let k = r.usize_in(0, 10);
    let rd2 = reader(r, P, d.vars.len(), k, 8);
    p.phases = one(vec![vec![Session::Read(rd), Session::Read(rd2)]]);
    p.io = vec![io(r)];
    p.number_ops();
    if r.pct(40) { let h = dry(&mut p); let n = r.usize_in(1, 4); p.faults = soft_faults(r, &h, n); }
    p
}

const HOSTILE: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 0xFF, 0x100, 0x1000, 0x10000, 0x0100_0000, 0x1000_0000, 0x3FFF_FFFF, 0x4000_0000, 0x7FFF_FFF0, 0x7FFF_FFFC, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFF0, 0xFFFF_FFFC, 0xFFFF_FFFE, 0xFFFF_FFFF];

fn random_damage(r: &mut Rng, b: &[u8], hdr: u64) -> Damage {
    let n = b.len() as u64;
    let hpos = |r: &mut Rng| if hdr == 0 { 0 } else { r.below(hdr) };
    let any = |r: &mut Rng| if r.pct(80) { hpos(r) } else { r.below(n.max(1)) };
    match r.below(14) {
        0 | 1 => Damage::Trunc(match r.below(4) { 0 => r.below(n + 1), 1 => hpos(r), 2 => n.saturating_sub(r.range(1, 12)), _ => r.below(n + 1) / 4 * 4 }),
        2 | 3 => Damage::Flip { off: any(r), bit: r.below(8) as u8 },
        4..=8 => { // a whole header word becomes hostile
            let off = hpos(r) / 4 * 4;
            let mut bytes = r.pick(HOSTILE).to_be_bytes().to_vec();
            if r.pct(15) { bytes.extend(r.pick(HOSTILE).to_be_bytes()); }
            Damage::Set { off, bytes }
        }
        9 => Damage::Zero { off: any(r), len: r.range(1, 600) },
        10 => Damage::Copy { from: any(r), to: any(r), len: r.range(1, 40) },
        11 => Damage::Delete { off: any(r), len: if r.pct(60) { r.range(1, 5) * 4 } else { r.range(1, 30) } },
        12 => Damage::Insert { off: any(r), bytes: exec::gen_values(Ty::U8, if r.pct(60) { 4 * r.usize_in(1, 4) } else { r.usize_in(1, 20) }, r.next()) },
        _ => Damage::Extend { n: r.range(1, 300), seed: r.next() },
    }
}

fn be(v: &mut Vec<u8>, x: u32) { v.extend(x.to_be_bytes()); }
fn crafted_name(r: &mut Rng, v: &mut Vec<u8>, pool: &mut Vec<Vec<u8>>) {
    let n: Vec<u8> = match r.below(12) {
        0 if !pool.is_empty() => r.pick(pool).clone(),
        1 => vec![],
        2 => vec![b'a'; r.usize_in(250, 300)],
        3 => vec![0xC3, 0x28],
        4 => b"a/b".to_vec(),
        5 => "温".as_bytes()[..2].to_vec(),
        _ => format!("n{}", pool.len()).into_bytes(),
    };
    let len = if r.pct(4) { *r.pick(HOSTILE) } else { n.len() as u32 };
    be(v, len);
    v.extend(&n);
    let pad = (4 - n.len() % 4) % 4;
    for _ in 0..pad { v.push(if r.pct(2) { 1 } else { 0 }); }
    pool.push(n);
}
fn crafted_attrs(r: &mut Rng, v: &mut Vec<u8>) {
    let n = r.usize_in(0, 2);
    if n == 0 && r.pct(80) { be(v, 0); be(v, 0); return; }
    be(v, if r.pct(5) { *r.pick(HOSTILE) } else { 12 });
    be(v, if r.pct(8) { *r.pick(HOSTILE) } else { n as u32 });
    let mut pool = vec![];
    for _ in 0..n {
        crafted_name(r, v, &mut pool);
        let ty = *r.pick(&TYPES);
        let k = r.usize_in(0, 5);
        be(v, if r.pct(5) { *r.pick(HOSTILE) } else { ty.code() });
        be(v, if r.pct(10) { *r.pick(HOSTILE) } else { k as u32 });
        let b = k * ty.size();
        v.extend(exec::gen_values(ty, k, r.next()));
        for _ in 0..(4 - b % 4) % 4 { v.push(if r.pct(4) { 0x81 } else { 0 }); }
    }
}
/// A header assembled from hostile parts.
fn crafted(r: &mut Rng) -> Vec<u8> {
    let mut v = b"CDF".to_vec();
    let ver = *r.pick(&[1u8, 2, 1, 2, 1, 2, 1, 2, 0, 3, 5]);
    v.push(ver);
    be(&mut v, match r.below(4) { 0 => u32::MAX, 1 => *r.pick(HOSTILE), _ => r.below(5) as u32 });
    let nd = r.usize_in(0, 4);
    be(&mut v, if r.pct(3) { *r.pick(HOSTILE) } else if nd == 0 { 0 } else { 10 });
    be(&mut v, if r.pct(5) { *r.pick(HOSTILE) } else { nd as u32 });
    let mut pool = vec![];
    for _ in 0..nd { crafted_name(r, &mut v, &mut pool); be(&mut v, if r.pct(35) { *r.pick(HOSTILE) } else { r.range(0, 4) as u32 }); }
    crafted_attrs(r, &mut v);
    let nv = r.usize_in(0, 3);
    be(&mut v, if r.pct(3) { *r.pick(HOSTILE) } else if nv == 0 { 0 } else { 11 });
    be(&mut v, if r.pct(5) { *r.pick(HOSTILE) } else { nv as u32 });
    let mut pool = vec![];
    for _ in 0..nv {
        crafted_name(r, &mut v, &mut pool);
        let k = r.usize_in(0, nd.min(4));
        be(&mut v, if r.pct(4) { *r.pick(HOSTILE) } else { k as u32 });
        let mut ids: Vec<u32> = (0..nd as u32).collect();
        if r.pct(70) { r.shuffle(&mut ids); }
        for j in 0..k { let id = if r.pct(5) { *r.pick(HOSTILE) } else { ids[j] }; be(&mut v, id); }
        crafted_attrs(r, &mut v);
        be(&mut v, if r.pct(4) { *r.pick(HOSTILE) } else { r.pick(&TYPES).code() });
        be(&mut v, *r.pick(HOSTILE));
        if ver == 2 { be(&mut v, if r.pct(85) { 0 } else { *r.pick(HOSTILE) }); }
        be(&mut v, if r.pct(60) { r.below(400) as u32 / 4 * 4 } else { *r.pick(HOSTILE) });
    }
    if r.pct(70) { let n = r.usize_in(0, 400); v.extend(exec::gen_values(Ty::U8, n, r.next())); }
    v
}

/// A sound header of enormous sizes: products and sums that reach the ends of every number type.
fn crafted_huge(r: &mut Rng) -> Vec<u8> {
    let size = |r: &mut Rng| match r.below(4) { 0 => r.range(1, 9) as u32, 1 => 1u32 << r.range(1, 30), 2 => (1u32 << r.range(2, 30)) - r.range(1, 3) as u32, _ => 0x7FFF_FFF0 + r.below(13) as u32 };
    let name = |v: &mut Vec<u8>, c: u8| { be(v, 1); v.extend([c, 0, 0, 0]); };
    let mut v = b"CDF".to_vec();
    let ver = r.range(1, 2) as u8;
    v.push(ver);
    be(&mut v, match r.below(4) { 0 => u32::MAX, 1 => r.below(5) as u32, 2 => 0x7FFF_FFFF - r.below(3) as u32, _ => 1 << r.range(1, 30) });
    let nd = r.usize_in(1, 6);
    let unl = if r.pct(60) { Some(r.idx(nd)) } else { None };
    be(&mut v, 10);
    be(&mut v, nd as u32);
    for k in 0..nd { name(&mut v, b'a' + k as u8); let s = if unl == Some(k) { 0 } else { size(r) }; be(&mut v, s); }
    be(&mut v, 0);
    be(&mut v, 0);
    let nv = r.usize_in(1, 4);
    be(&mut v, 11);
    be(&mut v, nv as u32);
    for k in 0..nv {
        name(&mut v, b'p' + k as u8);
        let mut ids: Vec<u32> = (0..nd as u32).filter(|i| Some(*i as usize) != unl).collect();
        r.shuffle(&mut ids);
        if r.pct(40) { let n = r.idx(ids.len() + 1); ids.truncate(n); }
        if let Some(u) = unl { if r.pct(60) { ids.insert(0, u as u32); } }
        be(&mut v, ids.len() as u32);
        for i in ids { be(&mut v, i); }
        be(&mut v, 0);
        be(&mut v, 0);
        be(&mut v, r.pick(&TYPES).code());
        be(&mut v, *r.pick(&[u32::MAX, u32::MAX, u32::MAX, 0x7FFF_FFFC, 8]));
        if ver == 2 { be(&mut v, match r.below(6) { 0 => 0x7FFF_FFFF, 1 => r.below(1 << 31) as u32, _ => 0 }); }
        be(&mut v, match r.below(5) { 0 if ver == 2 => u32::MAX - r.below(16) as u32, 0 => 0x7FFF_FFFF - r.below(16) as u32, _ => r.below(120) as u32 * 4 });
    }
    if r.pct(80) { let n = r.usize_in(0, 600); v.extend(exec::gen_values(Ty::U8, n, r.next())); }
    v
}
/// A small sound file with at most one flaw, anywhere its header can have one.
fn crafted_near(r: &mut Rng) -> Vec<u8> {
    let flaw = r.below(18);
    let (nd, ng, nv, na) = (r.usize_in(1, 4), r.usize_in(0, 3), r.usize_in(1, 3), r.usize_in(0, 3));
    let spot = r.idx(nd.max(ng).max(nv).max(na).max(1)); // which of the elements has it
    let second = |k: usize, n: usize| if n > 1 { k == 1 + spot % (n - 1) } else { false };
    let odd: Vec<u8> = r.pick(&[&b""[..], b"a/b", b" a", b"a ", b"\xC3\x28", b"\xE6\xB8", b"a\0b", b"a\nb", b"\x7F", b"-a", b".a", b"/", b"_ok", b"0ok", "温".as_bytes(), &[b'n'; 256], &[b'n'; 257], &[b'n'; 300]]).to_vec();
    let pad = |r: &mut Rng, v: &mut Vec<u8>, n: usize, bad: bool| for _ in 0..(4 - n % 4) % 4 { v.push(if bad { *r.pick(&[1, 0x81, 0xFF]) } else { 0 }); };
    let nm = |r: &mut Rng, v: &mut Vec<u8>, n: &[u8], bad: bool| { be(v, n.len() as u32); v.extend(n); pad(r, v, n.len(), bad); };
    // name of element k of a list: the first one's again, an odd one, or its own
    let pick = |c: &str, k: usize, n: usize, dup: u64, bad: u64| -> Vec<u8> {
        if flaw == dup && second(k, n) { return format!("{}0", c).into_bytes(); }
        if flaw == bad && k == spot % n { return odd.clone(); }
        format!("{}{}", c, k).into_bytes()
    };
    let attrs = |r: &mut Rng, v: &mut Vec<u8>, n: usize, c: &str, dup: u64, bad: u64, here: bool| {
        if n == 0 { let t = if here && flaw == 9 { *r.pick(&[10, 11, 12]) } else { 0 }; be(v, t); be(v, 0); return; }
        be(v, if here && flaw == 9 { *r.pick(&[0, 10, 11, 13]) } else { 12 });
        be(v, n as u32);
        for k in 0..n {
            nm(r, v, &pick(c, k, n, if here { dup } else { 99 }, if here { bad } else { 99 }), here && flaw == 10 && k == spot % n);
            let ty = *r.pick(&TYPES);
            let m = r.usize_in(0, 5);
            be(v, if here && flaw == 11 && k == spot % n { *r.pick(&[0, 7, 8, 0x102, 0xFFFF_FFFF]) } else { ty.code() });
            be(v, m as u32);
            v.extend(exec::gen_values(ty, m, r.next()));
            pad(r, v, m * ty.size(), here && flaw == 12 && k == spot % n);
        }
    };
    let mut v = b"CDF".to_vec();
    let ver = r.range(1, 2) as u8;
    v.push(if flaw == 13 { *r.pick(&[0, 3, 5, b'1', 0x82]) } else { ver });
    be(&mut v, if flaw == 14 { *r.pick(&[0x8000_0000, 0xFFFF_FFFE, 0x7FFF_FFFF, 100]) } else { r.below(4) as u32 });
    be(&mut v, 10);
    be(&mut v, nd as u32);
    let unl = if r.pct(60) { Some(r.idx(nd)) } else { None };
    for k in 0..nd {
        nm(r, &mut v, &pick("d", k, nd, 0, 1), flaw == 10 && second(k, nd));
        be(&mut v, if unl == Some(k) || flaw == 15 && k == spot % nd { 0 } else { r.range(1, 4) as u32 });
    }
    attrs(r, &mut v, ng, "g", 2, 3, true);
    be(&mut v, 11);
    be(&mut v, nv as u32);
    let at = v.len() as u64 + 200;
    for k in 0..nv {
        nm(r, &mut v, &pick("v", k, nv, 4, 5), false);
        let mut ids: Vec<u32> = (0..nd as u32).filter(|i| Some(*i as usize) != unl).collect();
        r.shuffle(&mut ids);
        let n = r.idx(ids.len() + 1);
        ids.truncate(n);
        if let Some(u) = unl { if flaw == 16 && k == spot % nv { ids.push(u as u32); if r.pct(30) { ids.insert(0, u as u32); } } else if r.pct(60) { ids.insert(0, u as u32); } }
        if flaw == 17 && k == spot % nv { let i = r.idx(ids.len() + 1); ids.insert(i, *r.pick(&[nd as u32, nd as u32 + 1, u32::MAX, 0x8000_0000, 0x1_0000])); }
        be(&mut v, ids.len() as u32);
        for i in ids { be(&mut v, i); }
        attrs(r, &mut v, na, "x", 6, 7, k == spot % nv && flaw != 2 && flaw != 3);
        be(&mut v, if flaw == 8 && k == spot % nv { *r.pick(&[0, 7, 8, 0x102, 0xFFFF_FFFF]) } else { r.pick(&TYPES).code() });
        be(&mut v, u32::MAX);
        let b = (at / 4 + r.below(40)) * 4;
        if ver == 2 { be(&mut v, 0); }
        be(&mut v, b as u32);
    }
    let n = r.usize_in(100, 900);
    v.extend(exec::gen_values(Ty::U8, n, r.next()));
    v
}
fn c04(r: &mut Rng) -> Plan {
    let mut p = plan("damaged");
    let fam = r.below(10);
    if fam < 6 {
        let mut o = opts(r);
        o.max_vars = o.max_vars.min(5);
        let (i, d) = wd(r, &mut p, &o);
        let mut st = style(r);
        if d.rec_vars().is_empty() { st.indeterminate = r.pct(5); }
        let v = ver(r);
        let src = FileSrc::Encoded { def: i, ver: v, style: st.clone(), seed: r.next() };
        let mut f = InitFile { path: P.into(), src, damage: vec![] };
        let mut cur = exec::build_file(&p, &f).to_vec();
        let hdr = d.header_required(v);
        for _ in 0..match r.below(4) { 0 | 1 => 1, 2 => 2, _ => r.usize_in(1, 5) } {
            let g = random_damage(r, &cur, hdr);
            exec::damage(&mut cur, &g);
            f.damage.push(g);
        }
        p.files.push(f);
    } else if fam < 9 {
        p.family = "crafted".into();
        let b = if r.pct(15) { p.family = "crafted huge".into(); crafted_huge(r) } else if r.pct(35) { p.family = "crafted with one flaw".into(); crafted_near(r) } else { crafted(r) };
        let mut f = InitFile { path: P.into(), src: FileSrc::Raw(b.clone()), damage: vec![] };
        if r.pct(20) { f.damage.push(random_damage(r, &b, b.len() as u64)); }
        p.files.push(f);
    } else {
        p.family = "noise".into();
        let n = r.usize_in(0, 300);
        let mut b = exec::gen_values(Ty::U8, n, r.next());
        if r.pct(70) { let h = b"CDF\x01"; for (i, c) in h.iter().enumerate() { if i < b.len() { b[i] = *c; } } }
        p.files.push(InitFile { path: P.into(), src: FileSrc::Raw(b), damage: vec![] });
    }
    let mut ops = vec![RK::Sweep { cap: 5 }, RK::All, RK::Info];
    r.shuffle(&mut ops);
    let mut tail = reader(r, P, 4, 3, 10).ops;
    // the file is cut or grows while it is open
    if r.pct(20) { let len = p.files[0].damage.len() as u64 * 7 + r.below(600); ops.insert(r.idx(3), RK::Env(EnvOp::Truncate { path: P.into(), len })); }
    let mut all: Vec<ROp> = ops.into_iter().map(|k| ROp { id: 0, k }).collect();
    all.append(&mut tail);
    p.phases = one(vec![vec![Session::Read(ReadSession { id: 0, path: P.into(), ops: all })]]);
    p.io = vec![if r.pct(60) { IoMode::default() } else { io(r) }];
    p.number_ops();
    p
}

fn c05(r: &mut Rng) -> Plan {
    let mut p = plan("failures");
    let o = opts(r);
    let (i, d) = wd(r, &mut p, &o);
    let v = ver(r);
    let hm = hmin(r, &d, v);
    let wo = WOpts { bad: if r.pct(20) { 10 } else { 0 }, close: 85, ..Default::default() };
    let new = r.pct(60);
    let w = writer(r, P, new, DefSrc::Built(i), &d, v, hm, &wo);
    let rd = full_reader(r, P);
    let k = r.usize_in(0, 6);
    let at = match r.below(30) { 0 => "/simdisk/missing.nc", 1 => "/simdisk/nodir/f.nc", _ => P };
    let rd2 = reader(r, at, d.vars.len(), k, 5);
    let mut ws = vec![Session::Write(w)];
    if !new && r.pct(30) {
        p.files.push(InitFile { path: P.into(), src: FileSrc::Encoded { def: i, ver: v, style: style(r), seed: r.next() }, damage: vec![] });
        if r.pct(50) { ws.insert(0, Session::Env(vec![EnvOp::Readonly { path: P.into(), on: true }])); }
    }
    p.phases = one(vec![ws, vec![Session::Read(rd), Session::Read(rd2)]]);
    p.io = vec![io(r), io(r)];
    p.number_ops();
    if r.pct(18) { return c05_cut_beside(r); }
    if r.pct(4) { return second_definition(r); }
    match r.below(10) {
        0 => { p.family = "disk full".into(); p.sectors = Some(r.below(6)); }
        1 => { p.family = "file size limit".into(); p.max_file = Some(r.below(1500)); }
        2 => { let h = dry(&mut p); let n = r.usize_in(1, 8); p.family = "transient".into(); p.faults = soft_faults(r, &h, n); }
        3 => {
            // the same file is cut short before it is read
            p.family = "cut".into();
            let h = dry(&mut p);
            let len = h.fs.get(P).map(|f| f.len()).unwrap_or(0);
            let e = if r.pct(80) { EnvOp::Truncate { path: P.into(), len: r.below(len + 1) } } else { EnvOp::Unlink { path: P.into() } };
            if r.pct(50) { p.phases[1][0].sessions.insert(0, Session::Env(vec![e])); }
            else if let Session::Read(s) = &mut p.phases[1][0].sessions[0] { s.ops.insert(0, ROp { id: 90_000, k: RK::Env(e) }); }
        }
        _ => {
            let h = dry(&mut p);
            let n = match r.below(3) { 0 => r.usize_in(2, 5), _ => 1 };
            let only = if r.pct(50) { Some(r.below(2) as u8) } else { None };
            p.faults = hard_faults(r, &h, n, |x| only.map(|a| a == x.0).unwrap_or(true));
            if r.pct(20) { p.faults.extend(soft_faults(r, &h, 2)); }
        }
    }
    p
}

/// The file loses its tail while it is being read.
fn c05_cut_beside(r: &mut Rng) -> Plan {
    let mut p = plan("cut while being read");
    let o = opts(r);
    let (i, d) = wd(r, &mut p, &o);
    let v = ver(r);
    let mut st = style(r);
    st.indeterminate = false;
    p.files.push(InitFile { path: P.into(), src: FileSrc::Encoded { def: i, ver: v, style: st, seed: r.next() }, damage: vec![] });
    let len = exec::build_file(&p, &p.files[0]).len();
    let hdr = d.header_required(v).min(len);
    let mut lens: Vec<u64> = (0..r.usize_in(1, 3)).map(|_| match r.below(6) { 0 => r.below(len + 1), 1 => len - (r.range(1, 9)).min(len - hdr), _ => hdr + r.below(len - hdr + 1) }).collect();
    lens.sort();
    lens.reverse();
    let rd = if r.pct(50) { full_reader(r, P) } else { let k = r.usize_in(2, 12); reader(r, P, d.vars.len(), k, 3) };
    let e = lens.into_iter().map(|len| EnvOp::Truncate { path: P.into(), len }).collect();
    p.phases = vec![vec![Script { sessions: vec![Session::Read(rd)] }, Script { sessions: vec![Session::Env(e)] }]];
    p.io = vec![if r.pct(40) { IoMode::default() } else { io(r) }, IoMode::default()];
    p.number_ops();
    let h = dry(&mut p);
    p.switches = switches(r, h.steps, 0, 2);
    if r.pct(50) { p.switches.extend(switches(r, h.steps, 0, 2)); p.switches.sort(); }
    p
}

fn c06(r: &mut Rng) -> Plan {
    if r.pct(5) { return second_definition(r); }
    let mut p = plan("retry");
    let o = opts(r);
    let (i, d) = wd(r, &mut p, &o);
    let v = ver(r);
    let hm = hmin(r, &d, v);
    let wo = WOpts { bad: if r.pct(15) { 10 } else { 0 }, ..Default::default() };
    let new = r.pct(70);
    let mut w = writer(r, P, new, DefSrc::Built(i), &d, v, hm, &wo);
    if r.pct(50) {
        let o2 = DefOpts { big_attr: 30, ..DefOpts::default() };
        let (j, _) = wd(r, &mut p, &o2);
        w.defs.push(DefSrc::Built(j));
    }
    let rd = full_reader(r, P);
    let limited = r.pct(20);
    p.phases = one(vec![vec![Session::Write(w)], vec![Session::Read(rd)]]);
    p.io = vec![io(r), IoMode::default()];
    p.number_ops();
    if limited {
        // disk full or size limit for a while: every call is made under the limit, then again without it
        p.family = "limit then heal".into();
        let lim = if r.pct(50) { EnvOp::Limit { sectors: Some(r.below(5)), max_file: None } } else { EnvOp::Limit { sectors: None, max_file: Some(r.below(1500)) } };
        if let Session::Write(w) = &mut p.phases[0][0].sessions[0] {
            let mut out = vec![WOp { id: 90_000, k: WK::Env(lim.clone()) }];
            let mut id = 100_000;
            for op in std::mem::take(&mut w.ops) {
                if matches!(op.k, WK::SetDef { .. } | WK::Var { .. } | WK::Rec { .. }) && r.pct(70) {
                    out.push(WOp { id, k: op.k.clone() });
                    id += 1;
                }
                out.push(WOp { id, k: WK::Env(EnvOp::Heal) });
                let again = !matches!(op.k, WK::Close) && r.pct(50);
                out.push(op);
                if again { out.push(WOp { id: id + 1, k: WK::Env(lim.clone()) }); }
                id += 2;
            }
            w.ops = out;
        }
        return p;
    }
    if r.pct(35) {
        // failed data calls are not repeated: what they would have written stays unwritten
        p.family = "fail and go on".into();
        let h = dry(&mut p);
        let data: Vec<u32> = h.recs.iter().filter(|x| matches!(x.call, exec::Call::W { k: WK::Var { .. } | WK::Rec { .. }, .. })).map(|x| x.op).collect();
        let n = r.usize_in(1, 4);
        p.faults = hard_faults(r, &h, n, |x| x.0 == 0 && data.contains(&x.1));
        if r.pct(40) { retry_faults(r, &mut p); }
        return p;
    }
    retry_faults(r, &mut p);
    p
}

fn c07(r: &mut Rng) -> Plan {
    let mut p = plan("crash");
    let o = opts(r);
    let (i, d) = wd(r, &mut p, &o);
    let v = ver(r);
    let hm = hmin(r, &d, v);
    let wo = WOpts { skip: 15, ops: 10, ..Default::default() };
    let over = r.pct(25);
    let w = writer(r, P, !over, DefSrc::Built(i), &d, v, hm, &wo);
    if over {
        let (j, _) = wd(r, &mut p, &DefOpts::default());
        let vv = ver(r);
        p.files.push(InitFile { path: P.into(), src: FileSrc::Encoded { def: j, ver: vv, style: Style::default(), seed: r.next() }, damage: vec![] });
    }
    let mut rd = full_reader(r, P);
    rd.ops.push(ROp { id: 0, k: RK::Sweep { cap: 8 } });
    p.phases = one(vec![vec![Session::Write(w)], vec![Session::Read(rd)]]);
    p.io = vec![io(r), if r.pct(70) { IoMode::default() } else { io(r) }];
    p.number_ops();
    if r.pct(15) { retry_faults(r, &mut p); }
    let h = dry(&mut p);
    let s: Vec<_> = sites(&h).into_iter().filter(|x| x.0 == 0).collect();
    // weight towards writes
    let ws: Vec<_> = s.iter().filter(|x| x.2 == Kind::Write).cloned().collect();
    let x = if !ws.is_empty() && r.pct(75) { *r.pick(&ws) } else if s.is_empty() { return p } else { *r.pick(&s) };
    let f = crash_fault(r, &h, &x);
    p.faults.push(f);
    if r.pct(10) { p.faults.extend(soft_faults(r, &h, 2)); }
    p
}

fn c08(r: &mut Rng) -> Plan {
    let mut p = plan("isolation");
    let mut o = opts(r);
    o.max_vars = o.max_vars.max(4);
    let (i, d) = wd(r, &mut p, &o);
    let v = ver(r);
    let hm = hmin(r, &d, v);
    let wo = WOpts { bad: 35, whole: 35, close: 80, ops: 16, ..Default::default() };
    let new = r.pct(80);
    let w = writer(r, P, new, DefSrc::Built(i), &d, v, hm, &wo);
    p.phases = one(vec![vec![Session::Write(w)]]);
    p.io = vec![if r.pct(60) { IoMode::default() } else { io(r) }];
    p.number_ops();
    if r.pct(40) { let h = dry(&mut p); let n = r.usize_in(1, 3); p.faults = hard_faults(r, &h, n, |_| true); p.family = "isolation under failures".into(); }
    p
}

fn c09(r: &mut Rng) -> Plan {
    let mut p = plan("repeat");
    let o = opts(r);
    let (i, d) = wd(r, &mut p, &o);
    let mut st = style(r);
    if st.indeterminate && (d.rec_vars().is_empty() || d.stride() == 0 || d.num_recs() == 0) { st.indeterminate = false; }
    if st.indeterminate { st.trailing = 0; st.trim = false; }
    let v = ver(r);
    p.files.push(InitFile { path: P.into(), src: FileSrc::Encoded { def: i, ver: v, style: st, seed: r.next() }, damage: vec![] });
    if r.pct(15) { let len = r.below(900); p.files[0].damage.push(Damage::Trunc(len.max(d.header_required(v)))); }
    let n = r.usize_in(4, 24);
    let mut rd = reader(r, P, d.vars.len(), n, 20);
    if r.pct(50) { let k = rd.ops[r.idx(rd.ops.len())].clone(); if !matches!(k.k, RK::Close) { for _ in 0..3 { let at = r.idx(rd.ops.len()); rd.ops.insert(at, k.clone()); } } }
    let (a, b) = (full_reader(r, P), r.pct(30));
    let mut ss = vec![Session::Read(rd)];
    if b { ss.push(Session::Read(a)); }
    p.phases = one(vec![ss]);
    p.io = vec![if r.pct(50) { IoMode::default() } else { io(r) }];
    p.number_ops();
    if r.pct(70) {
        let h = dry(&mut p);
        let n = r.usize_in(1, 5);
        let first = h.traces[0].first().map(|t| t.0).unwrap_or(0);
        p.faults = hard_faults(r, &h, n, |x| x.1 != first);
        // failure after part of the data was delivered
        for f in p.faults.clone() { if f.kind == Kind::Read && r.pct(60) { p.faults.push(Fault { act: Act::Short(r.range(1, 9) as u32), ..f.clone() }); p.faults.last_mut().unwrap().nth = f.nth; let k = p.faults.len(); p.faults.swap(0, k - 1); for g in p.faults.iter_mut() { if g.act == f.act && g.op == f.op && g.nth == f.nth { g.nth += 1; } } } }
        p.family = "repeat under failures".into();
    }
    p
}

fn c10(r: &mut Rng) -> Plan {
    let mut p = plan("race");
    let n = r.usize_in(2, 5);
    let existing = r.pct(35);
    let path = "/simdisk/shared.nc";
    if existing {
        let (j, _) = wd(r, &mut p, &DefOpts { max_data: 4000, ..DefOpts::default() });
        let v = ver(r);
        p.files.push(InitFile { path: path.into(), src: FileSrc::Encoded { def: j, ver: v, style: Style { slack: r.below(3000), ..Default::default() }, seed: r.next() }, damage: vec![] });
    }
    let mut scripts = vec![];
    let over = if r.pct(40) { Some(r.idx(n)) } else { None };
    for a in 0..n {
        let (i, d) = wd(r, &mut p, &DefOpts { max_data: 400, max_vars: 3, ..DefOpts::default() });
        let v = ver(r);
        let hm = hmin(r, &d, v);
        let wo = WOpts { ops: 5, close: 85, ..Default::default() };
        let mut w = writer(r, path, over != Some(a), DefSrc::Built(i), &d, v, hm, &wo);
        if r.pct(12) { w.ops.retain(|o| matches!(o.k, WK::Close | WK::Info)); }
        scripts.push(Script { sessions: vec![Session::Write(w)] });
    }
    if r.pct(35) {
        p.family = "race with removal".into();
        let mut e = vec![];
        for _ in 0..r.usize_in(1, 3) {
            e.push(match r.below(4) { 0 => EnvOp::Nop, 1 => EnvOp::Rename { from: path.into(), to: format!("/simdisk/moved{}.nc", e.len()) }, _ => EnvOp::Unlink { path: path.into() } });
        }
        scripts.push(Script { sessions: vec![Session::Env(e)] });
    }
    let m = scripts.len();
    p.phases = vec![scripts];
    p.io = (0..m).map(|_| if r.pct(70) { IoMode::default() } else { io(r) }).collect();
    p.number_ops();
    let h = dry(&mut p);
    p.switches = switches(r, h.steps, 0, m);
    if r.pct(50) { for a in 0..m as u64 { p.switches.push((r.range(1, 6 + 2 * a), r.idx(m) as u8)); } p.switches.sort(); }
    p
}

fn c11(r: &mut Rng) -> Plan {
    let mut p = plan("replace");
    let nf = r.usize_in(2, 3);
    for f in 0..nf {
        let o = if r.pct(50) { DefOpts { max_recs: 20, ..opts(r) } } else { DefOpts::default() };
        let (i, d) = if f > 0 && r.pct(40) { // same shape, other record count
            let mut e = p.defs[0].clone();
            for x in &mut e { if let Edit::SetUnlim { size, .. } = x { *size = r.below(30); } }
            let d = MDef::build(&e);
            p.defs.push(e);
            (p.defs.len() - 1, d)
        } else { wd(r, &mut p, &o) };
        let mut st = style(r);
        st.trailing = 0; st.trim = false;
        st.indeterminate = r.pct(60) && !(d.rec_vars().is_empty() || d.stride() == 0 || d.num_recs() == 0);
        let v = ver(r);
        p.files.push(InitFile { path: format!("/simdisk/v{}.nc", f), src: FileSrc::Encoded { def: i, ver: v, style: st, seed: r.next() }, damage: vec![] });
    }
    p.files[0].path = P.into();
    let nr = r.usize_in(1, 2);
    let mut scripts = vec![];
    for _ in 0..nr {
        let rd = if r.pct(50) { full_reader(r, P) } else { let k = r.usize_in(1, 6); reader(r, P, 4, k, 5) };
        scripts.push(Script { sessions: vec![Session::Read(rd)] });
    }
    let mut e = vec![];
    for k in 0..r.usize_in(1, 4) {
        e.push(match r.below(6) {
            0 => EnvOp::Unlink { path: P.into() },
            1 => EnvOp::Rename { from: P.into(), to: format!("/simdisk/old{}.nc", k) },
            2 => EnvOp::Rename { from: "/simdisk/v1.nc".into(), to: P.into() },
            _ => EnvOp::Replace { path: P.into(), src: r.idx(nf) },
        });
    }
    scripts.push(Script { sessions: vec![Session::Env(e)] });
    let m = scripts.len();
    p.phases = vec![scripts];
    p.io = (0..m).map(|_| if r.pct(50) { IoMode::default() } else { io(r) }).collect();
    p.number_ops();
    let h = dry(&mut p);
    let early = if r.pct(60) { 12 } else { h.steps };
    p.switches = switches(r, h.steps.min(early), 0, m);
    if r.pct(40) {
        p.family = "replace, failing reads".into();
        let n = r.usize_in(1, 3);
        let h = dry(&mut p);
        p.faults = hard_faults(r, &h, n, |x| (x.0 as usize) < nr);
        if r.pct(30) { p.faults.extend(soft_faults(r, &h, 2)); }
    }
    p
}

fn c12(r: &mut Rng) -> Plan {
    let mut p = plan("beside");
    let o = DefOpts { max_data: 600, ..opts(r) };
    let (i, d) = wd(r, &mut p, &o);
    let v = ver(r);
    let hm = hmin(r, &d, v);
    let wo = WOpts { ops: 8, skip: 15, close: 85, bad: if r.pct(15) { 10 } else { 0 }, ..Default::default() };
    let w = writer(r, P, true, DefSrc::Built(i), &d, v, hm, &wo);
    let mut scripts = vec![Script { sessions: vec![Session::Write(w)] }];
    let nr = r.usize_in(1, 2);
    for _ in 0..nr {
        let mut ss = vec![];
        for _ in 0..r.usize_in(1, 4) {
            let rd = if r.pct(30) { full_reader(r, P) } else { let k = r.usize_in(1, 6); reader(r, P, d.vars.len(), k, 5) };
            ss.push(Session::Read(rd));
        }
        scripts.push(Script { sessions: ss });
    }
    let m = scripts.len();
    p.phases = vec![scripts];
    p.io = (0..m).map(|_| if r.pct(50) { IoMode::default() } else { let mut x = io(r); x.eintr = x.eintr.min(50); x }).collect();
    p.number_ops();
    let h = dry(&mut p);
    p.switches = switches(r, h.steps, 0, m);
    if r.pct(60) { p.switches.extend(switches(r, h.steps, 0, m)); p.switches.sort(); }
    if r.pct(15) {
        // data writes fail on the way
        let h = dry(&mut p);
        let set = h.recs.iter().find(|x| matches!(x.call, exec::Call::W { k: WK::SetDef { .. }, .. })).map(|x| x.op).unwrap_or(0);
        p.faults = hard_faults(r, &h, 2, |x| x.0 == 0 && x.1 > set);
        p.family = "beside a failing writer".into();
    }
    if r.pct(10) {
        let h = dry(&mut p);
        let s: Vec<_> = sites(&h).into_iter().filter(|x| x.0 == 0 && x.2 == Kind::Write).collect();
        if !s.is_empty() { let x = *r.pick(&s); let f = crash_fault(r, &h, &x); p.faults.push(f); p.family = "beside a dying writer".into(); }
    }
    p
}

fn c13(r: &mut Rng) -> Plan {
    let mut p = plan("edits");
    let mut e = if r.pct(60) { def(r, &DefOpts { max_data: 500, max_vars: 3, ..DefOpts::default() }) } else { vec![] };
    let mut d = MDef::build(&e);
    let k = r.usize_in(3, 25);
    e.extend(noise(r, &mut d, k, true));
    p.defs.push(e);
    let gens = r.usize_in(1, 4);
    let mut ss: Vec<Session> = vec![];
    let wo = WOpts { ops: 6, close: 100, skip: 40, ..Default::default() };
    let v = ver(r);
    let hm = hmin(r, &d, v);
    ss.push(Session::Write(writer(r, "/simdisk/g0.nc", true, DefSrc::Built(0), &d, v, hm, &wo)));
    for g in 1..=gens {
        let prev = format!("/simdisk/g{}.nc", g - 1);
        let mut rd = full_reader(r, &prev);
        rd.ops.retain(|o| !matches!(o.k, RK::Close));
        if r.pct(60) { rd.ops.truncate(r.usize_in(0, 2)); }
        rd.ops.push(ROp { id: 0, k: RK::Close });
        ss.push(Session::Read(rd));
        if g == gens && r.pct(30) { break; }
        let k = r.usize_in(0, 12);
        let mut d2 = d.clone();
        let ed = noise(r, &mut d2, k, true);
        p.defs.push(ed);
        d = d2;
        let at = p.defs.len() - 1;
        let v = ver(r);
        let hm = hmin(r, &d, v);
        let new = r.pct(70);
        ss.push(Session::Write(writer(r, &format!("/simdisk/g{}.nc", g), new, DefSrc::Carried(at), &d, v, hm, &wo)));
        if r.pct(25) {
            // the same data set in memory is edited further and written elsewhere
            let k = r.usize_in(0, 6);
            let mut d2 = d.clone();
            p.defs.push(noise(r, &mut d2, k, true));
            let at = p.defs.len() - 1;
            let v = ver(r);
            let hm = hmin(r, &d2, v);
            let kp = format!("/simdisk/k{}.nc", g);
            ss.push(Session::Write(writer(r, &kp, true, DefSrc::Kept(at), &d2, v, hm, &wo)));
            if r.pct(60) { ss.push(Session::Read(full_reader(r, &kp))); }
        }
        if r.pct(12) { if let Some(Session::Write(w)) = ss.last_mut() { w.twin = Some(Twin { path: format!("/simdisk/t{}.nc", g), new: true, mask: r.next() }); } }
        if g == gens { let fr = full_reader(r, &format!("/simdisk/g{}.nc", g)); ss.push(Session::Read(fr)); }
    }
    p.phases = one(vec![ss]);
    p.io = vec![if r.pct(60) { IoMode::default() } else { io(r) }];
    p.number_ops();
    match r.below(6) {
        0 | 1 => { p.family = "edits, failing writers".into(); retry_faults(r, &mut p); }
        2 => {
            // the writer of some generation dies; a new process starts again from the previous one
            let h = dry(&mut p);
            let s: Vec<_> = sites(&h).into_iter().filter(|x| matches!(x.2, Kind::Write | Kind::Seek | Kind::Trunc)).collect();
            if !s.is_empty() {
                p.family = "edits, dying writer".into();
                let x = *r.pick(&s);
                let f = crash_fault(r, &h, &x);
                p.faults.push(f);
                let mut again = vec![];
                let ss = p.phases[0][0].sessions.clone();
                for se in ss.iter() {
                    match se {
                        Session::Write(w) if w.defs.iter().any(|d| matches!(d, DefSrc::Carried(_))) => { let mut w = w.clone(); w.new = false; again.push(Session::Write(w)); }
                        Session::Read(x) => again.push(Session::Read(x.clone())),
                        _ => {}
                    }
                }
                p.phases.push(vec![Script { sessions: again }]);
                p.io.push(IoMode::default());
                // new numbers for the second process (its actor number differs, so faults do not match)
            }
        }
        _ => {}
    }
    p
}

fn mixed_script(r: &mut Rng, p: &mut Plan, path: &str, gen: bool, wide: bool) -> Script {
    let bulk = r.pct(2);
    let (i, d) = if !p.defs.is_empty() && r.pct(35) { let of = r.idx(p.defs.len()); if MDef::valid(&p.defs[of]) { wd_like(r, p, of) } else { wd(r, p, &DefOpts { max_data: 400, max_vars: 4, ..DefOpts::default() }) } }
        else { wd(r, p, &DefOpts { bulk, wide, max_data: if wide { 9000 } else { 400 }, max_vars: if wide { 2 } else { 4 }, max_recs: if wide { 3 } else { 6 }, ..DefOpts::default() }) };
    let v = ver(r);
    let hm = hmin(r, &d, v);
    let wo = WOpts { ops: 6, bad: 8, close: 80, ..Default::default() };
    let new = r.pct(80);
    let mut w = writer(r, path, new, DefSrc::Built(i), &d, v, hm, &wo);
    let twin = if r.pct(20) { Some(format!("{}.twin", path)) } else { None };
    if let Some(t) = &twin { w.twin = Some(Twin { path: t.clone(), new, mask: r.next() }); }
    let mut ss = vec![Session::Write(w)];
    if let Some(t) = &twin { if r.pct(50) { ss.push(Session::Read(full_reader(r, t))); } }
    if r.pct(12) {
        let mut d2 = d.clone();
        p.defs.push(noise(r, &mut d2, 3, true));
        let at = p.defs.len() - 1;
        let kp = format!("{}.kept", path);
        ss.push(Session::Write(writer(r, &kp, true, DefSrc::Kept(at), &d2, v, 0, &wo)));
        if r.pct(50) { ss.push(Session::Read(full_reader(r, &kp))); }
    }
    if r.pct(75) { ss.push(Session::Read(if r.pct(50) { full_reader(r, path) } else { let k = r.usize_in(1, 6); reader(r, path, d.vars.len(), k, 10) })); }
    if gen && r.pct(30) {
        if let Some(Session::Read(x)) = ss.last_mut() { x.ops.retain(|o| !matches!(o.k, RK::Close)); x.ops.push(ROp { id: 0, k: RK::Close }); }
        let mut d2 = d.clone();
        let ed = noise(r, &mut d2, 3, true);
        p.defs.push(ed);
        let at = p.defs.len() - 1;
        let p2 = format!("{}.2", path);
        ss.push(Session::Write(writer(r, &p2, true, DefSrc::Carried(at), &d2, v, 0, &wo)));
        ss.push(Session::Read(full_reader(r, &p2)));
    }
    Script { sessions: ss }
}

fn c14(r: &mut Rng) -> Plan {
    let mut p = plan("independent");
    let wide = r.pct(12); // slices larger than an internal buffer
    let n = if wide { r.usize_in(2, 3) } else { r.usize_in(2, 5) };
    let scripts: Vec<Script> = (0..n).map(|a| mixed_script(r, &mut p, &format!("/simdisk/own{}.nc", a), true, wide)).collect();
    p.phases = vec![scripts];
    p.io = (0..n).map(|_| if r.pct(50) { IoMode::default() } else { io(r) }).collect();
    if r.pct(40) { let g = r.range(1, 2); p.threads = (0..n).map(|_| r.below(g) as u8).collect(); }
    p.number_ops();
    let h = dry(&mut p);
    if r.pct(50) { p.inside = inside(r, &h, n); }
    p.switches = switches(r, h.steps, 0, n);
    for _ in 0..r.usize_in(0, 2) { p.switches.extend(switches(r, h.steps, 0, n)); }
    p.switches.sort();
    if r.pct(50) { let k = r.usize_in(1, 4); p.faults = hard_faults(r, &h, k, |_| true); p.family = "independent, some failing".into(); }
    if r.pct(25) { let s = sites(&h); if !s.is_empty() { let x = *r.pick(&s); let f = crash_fault(r, &h, &x); p.faults.push(f); p.family = "independent, some dying".into(); } }
    p
}

/// A file of very many small records, of which few are touched: the work must not depend on
/// how many there are.
fn c15_many(r: &mut Rng, mut p: Plan) -> Plan {
    p.family = "bounded among many records".into();
    let n = r.range(200, 4000);
    let mut e = vec![Edit::SetUnlim { name: "t".into(), size: n }, Edit::AddDim { name: "x".into(), size: r.range(1, 4) }];
    for i in 0..r.usize_in(1, 3) { e.push(Edit::AddVar { name: format!("v{}", i), dims: if r.pct(60) { vec!["t".into()] } else { vec!["t".into(), "x".into()] }, ty: *r.pick(&TYPES) }); }
    if r.pct(40) { e.push(Edit::AddVar { name: "f".into(), dims: vec!["x".into()], ty: *r.pick(&TYPES) }); }
    p.defs.push(e);
    let d = MDef::build(&p.defs[0]);
    let v = ver(r);
    let rec = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => n - 1, _ => r.below(n) };
    let mut scripts = vec![];
    if r.pct(50) {
        p.files.push(InitFile { path: P.into(), src: FileSrc::Encoded { def: 0, ver: v, style: style(r), seed: r.next() }, damage: vec![] });
    } else {
        let mut ops = vec![WK::SetDef { def: 0, ver: v, hmin: 0 }];
        for _ in 0..r.usize_in(1, 8) { let i = r.idx(d.vars.len()); ops.push(WK::Rec { var: i, rec: if d.is_rec(&d.vars[i]) { rec(r) } else { 0 }, seed: r.next() }); }
        if r.pct(30) { ops.push(WK::Close); }
        scripts.push(Session::Write(WriteSession { id: 0, path: P.into(), new: true, defs: vec![DefSrc::Built(0)], ops: ops.into_iter().map(|k| WOp { id: 0, k }).collect(), twin: None }));
    }
    let mut reads = vec![];
    for _ in 0..r.usize_in(2, 10) { let i = r.idx(d.vars.len()); reads.push(RK::Rec { var: i, rec: if d.is_rec(&d.vars[i]) { rec(r) } else { 0 }, typed: r.pct(50) }); }
    if r.pct(20) { reads.push(RK::Var { var: 0, typed: r.pct(50) }); }
    let rd = Session::Read(ReadSession { id: 0, path: P.into(), ops: reads.into_iter().map(|k| ROp { id: 0, k }).collect() });
    p.phases = one(if scripts.is_empty() { vec![vec![rd]] } else { vec![scripts, vec![rd]] });
    p.io = (0..p.phases.iter().map(|x| x.len()).sum()).map(|_| if r.pct(60) { IoMode::default() } else { io(r) }).collect();
    p.number_ops();
    p
}

fn c15(r: &mut Rng) -> Plan {
    let mut p = plan("bounded");
    if r.pct(6) { return c15_many(r, p); }
    let bulk = r.pct(8); // many records, variables, attributes: work must not grow faster than they do
    let o = DefOpts { max_data: 800, bulk, ..opts(r) };
    let (i, d) = wd(r, &mut p, &o);
    let v = ver(r);
    let hm = hmin(r, &d, v);
    let wo = WOpts { bad: 5, ..Default::default() };
    let w = writer(r, P, true, DefSrc::Built(i), &d, v, hm, &wo);
    let rd = full_reader(r, P);
    let k = r.usize_in(1, 6);
    let rd2 = reader(r, P, d.vars.len(), k, 5);
    let io = |r: &mut Rng| if bulk && r.pct(80) { IoMode::default() } else { io(r) };
    let tiny = |r: &mut Rng| if bulk && r.pct(80) { IoMode { max_read: r.range(100, 900) as u32, max_write: 0, vary: r.next() | 1, eintr: 0 } } else { IoMode { max_read: r.range(1, 3) as u32, max_write: r.range(1, 3) as u32, vary: r.next() | 1, eintr: *r.pick(&[0, 100, 500, 900]) } };
    match r.below(3) {
        0 => {
            // concurrent truncation and growth
            p.family = "bounded beside truncation".into();
            p.files.push(InitFile { path: "/simdisk/g.nc".into(), src: FileSrc::Encoded { def: i, ver: v, style: style(r), seed: r.next() }, damage: vec![] });
            let len = exec::build_file(&p, &p.files[0]).len();
            let mut e = vec![];
            for _ in 0..r.usize_in(1, 8) {
                e.push(match r.below(4) {
                    0 => EnvOp::Append { path: "/simdisk/g.nc".into(), n: r.range(1, 300) },
                    1 => EnvOp::Poke { path: "/simdisk/g.nc".into(), off: r.below(len + 1), bytes: vec![0xFF; r.usize_in(1, 8)] },
                    _ => EnvOp::Truncate { path: "/simdisk/g.nc".into(), len: r.below(len + 1) },
                });
            }
            let a = full_reader(r, "/simdisk/g.nc");
            let b = reader(r, "/simdisk/g.nc", d.vars.len(), k, 5);
            p.phases = vec![vec![Script { sessions: vec![Session::Read(a), Session::Read(b)] }, Script { sessions: vec![Session::Env(e)] }]];
            p.io = vec![if r.pct(50) { tiny(r) } else { io(r) }, IoMode::default()];
            p.number_ops();
            let h = dry(&mut p);
            p.switches = switches(r, h.steps, 0, 2);
            p.switches.extend(switches(r, h.steps, 0, 2));
            p.switches.sort();
        }
        1 => {
            p.phases = one(vec![vec![Session::Write(w)], vec![Session::Read(rd), Session::Read(rd2)]]);
            p.io = vec![tiny(r), tiny(r)];
            p.number_ops();
            if r.pct(40) { let h = dry(&mut p); p.faults = hard_faults(r, &h, 2, |_| true); }
        }
        _ => {
            // bursts of interruptions, of empty writes, of failures
            p.family = "bounded under bursts".into();
            p.phases = one(vec![vec![Session::Write(w)], vec![Session::Read(rd), Session::Read(rd2)]]);
            p.io = vec![io(r), io(r)];
            p.number_ops();
            let h = dry(&mut p);
            let all: Vec<_> = sites(&h).into_iter().filter(|x| x.2 != Kind::Close).collect();
            let s: Vec<_> = all.iter().filter(|x| matches!(x.2, Kind::Read | Kind::Write)).cloned().collect();
            for _ in 0..r.usize_in(1, 3) {
                if s.is_empty() { break; }
                let lasting = r.pct(30); // a failure that lasts may strike any kind of call
                let x = *r.pick(if lasting { &all } else { &s });
                let at = nth(r, x.3);
                let act = match r.below(4) { _ if lasting => Act::Err(errno(r, x.2)), 0 if x.2 == Kind::Write => Act::Zero, 1 => Act::Err(errno(r, x.2)), _ => Act::Err(libc::EINTR) };
                for j in 0..r.range(1, 60) as u32 { p.faults.push(Fault { actor: x.0, op: x.1, kind: x.2, nth: at + j, act }); }
            }
        }
    }
    p
}

/// Definitions whose sizes or offsets reach or pass the 63 bits of an offset; then a small one.
fn enormous(r: &mut Rng) -> Plan {
    let mut p = plan("enormous definitions");
    let mut e = vec![];
    let nd = r.usize_in(1, 5);
    let mut dn: Vec<String> = (0..nd).map(|k| format!("d{}", k)).collect();
    for x in &dn { e.push(Edit::AddDim { name: x.clone(), size: match r.below(3) { 0 => MAX_DIM, 1 => 1 << r.range(1, 30), _ => r.range(1, 9) } }); }
    let unlim = r.pct(60);
    if unlim { e.push(Edit::SetUnlim { name: "t".into(), size: match r.below(4) { 0 => r.below(4), 1 => u64::MAX - r.below(3), 2 => 1 << r.range(20, 63), _ => r.range(1 << 20, 1 << 40) } }); }
    for k in 0..r.usize_in(0, 5) {
        r.shuffle(&mut dn);
        let n = r.idx(nd + 1);
        let mut dims: Vec<String> = dn[..n].to_vec();
        if unlim && r.pct(60) { dims.insert(0, "t".into()); }
        e.push(Edit::AddVar { name: format!("v{}", k), dims, ty: *r.pick(&TYPES) });
    }
    p.defs.push(e);
    let d = MDef::build(&p.defs[0]);
    let hm = match r.below(4) { 0 => u64::MAX - r.below(9), 1 => i64::MAX as u64 + r.below(9), _ => r.below(200) };
    // not where the last bit decides, and no header that would really be written
    let (x, far) = (d.extent(hm), hm > 1 << 40);
    if (2.3e18..9.3e18).contains(&x) || (far && x < 9.3e18) { return c16(r); }
    let o = DefOpts { max_data: 200, ..opts(r) };
    let (_, e) = wd(r, &mut p, &o);
    let mut ops = vec![];
    for _ in 0..r.usize_in(1, 3) { ops.push(WK::SetDef { def: 0, ver: ver(r), hmin: hm }); if r.pct(40) { ops.push(WK::Info); } }
    let ok = d.layout(Ver::Off64, hm).is_some();
    if !ok {
        let v = ver(r);
        ops.push(WK::SetDef { def: 1, ver: v, hmin: hmin(r, &e, v) });
        ops.extend(data_ops(r, &e, &WOpts::default()));
        ops.push(WK::Close);
    }
    let w = WriteSession { id: 0, path: P.into(), new: r.pct(50), defs: vec![DefSrc::Built(0), DefSrc::Built(1)], ops: ops.into_iter().map(|k| WOp { id: 0, k }).collect(), twin: None };
    let mut ss = vec![vec![Session::Write(w)]];
    if !ok { ss.push(vec![Session::Read(full_reader(r, P))]); }
    p.phases = one(ss);
    p.io = vec![if r.pct(60) { IoMode::default() } else { io(r) }, IoMode::default()];
    p.number_ops();
    p
}

fn c16(r: &mut Rng) -> Plan {
    if r.pct(8) { return enormous(r); }
    let mut p = plan("large");
    let mut e = vec![];
    let mut taken: BTreeSet<String> = ["small".to_string(), "t".to_string()].into();
    let big = |r: &mut Rng| match r.below(5) { 0 => MAX_DIM, 1 => (1u64 << 30) + r.below(1 << 30), 2 => (1u64 << 31) - 4 - r.below(9), 3 => r.range(1 << 20, 1 << 24), _ => (1u64 << 30) - r.below(100) };
    let fam = r.below(10);
    if fam < 4 {
        // boundary of the 31-bit offsets of the classic version
        p.family = "31-bit boundary".into();
        let two = r.pct(50);
        e.push(Edit::AddDim { name: "a".into(), size: 1000 });
        e.push(Edit::AddDim { name: "b".into(), size: r.range(1, 5) });
        let unlim = r.pct(50);
        if unlim { e.push(Edit::SetUnlim { name: "t".into(), size: r.range(1, 4) }); }
        e.push(Edit::AddVar { name: "big".into(), dims: vec!["a".into()], ty: Ty::U8 });
        if two { e.push(Edit::AddVar { name: "mid".into(), dims: vec!["b".into()], ty: *r.pick(&TYPES) }); }
        let dims: Vec<String> = if unlim { vec!["t".into(), "b".into()] } else { vec!["b".into()] };
        e.push(Edit::AddVar { name: "last".into(), dims: dims.clone(), ty: *r.pick(&TYPES) });
        if r.pct(40) { e.push(Edit::AddVar { name: "more".into(), dims, ty: *r.pick(&TYPES) }); }
        let d = MDef::build(&e);
        let vv = if r.pct(80) { Ver::Classic } else { Ver::Off64 };
        let hm = hmin(r, &d, vv);
        let lay = d.layout(Ver::Classic, hm).unwrap();
        // choose a so that the last variable begins near 2^31
        let at = lay.begins[*r.pick(&(1..d.vars.len()).collect::<Vec<_>>())];
        let want = (1i64 << 31) + *r.pick(&[-12, -8, -4, 0, 4, 8, 16]);
        let size = (1000 + want - at as i64).clamp(1, MAX_DIM as i64) as u64;
        if let Edit::AddDim { size: s, .. } = &mut e[0] { *s = size; }
        p.defs.push(e);
        let d = MDef::build(&p.defs[0]);
        let mut ops = vec![WK::SetDef { def: 0, ver: Ver::Classic, hmin: hm }];
        let fits = d.layout(Ver::Classic, hm).is_some();
        if !fits { ops.push(WK::Info); ops.push(WK::Rec { var: 1, rec: 0, seed: 5 }); ops.push(WK::SetDef { def: 0, ver: Ver::Off64, hmin: hm }); }
        else if r.pct(20) { ops[0] = WK::SetDef { def: 0, ver: Ver::Off64, hmin: hm }; }
        for (i, v) in d.vars.iter().enumerate().skip(1) { for k in 0..d.chunks(v) { if r.pct(75) { ops.push(WK::Rec { var: i, rec: k, seed: r.next() }); } } }
        ops.push(WK::Info);
        large_sessions(r, &mut p, ops, &d);
        return p;
    }
    let n = r.usize_in(1, 3);
    let mut dn = vec![];
    for _ in 0..n { let x = name(r, &mut taken); e.push(Edit::AddDim { name: x.clone(), size: big(r) }); dn.push(x); }
    e.push(Edit::AddDim { name: "small".into(), size: r.range(1, 5) });
    let many = fam >= 7;
    if many {
        p.family = "many records".into();
        let n = match r.below(6) { 0 => i32::MAX as u64 - r.below(2), 1 => i32::MAX as u64 + 1 + r.below(3), 2 => u32::MAX as u64 - r.below(3), 3 => u32::MAX as u64 + r.below(4), 4 => r.range(3 << 30, 1 << 34), _ => r.range(1 << 20, 1 << 31) };
        e.push(Edit::SetUnlim { name: "t".into(), size: n });
        let k = r.usize_in(1, 3);
        for i in 0..k { let dims = if r.pct(60) { vec!["t".into()] } else { vec!["t".into(), "small".into()] }; e.push(Edit::AddVar { name: format!("r{}", i), dims, ty: *r.pick(&TYPES) }); }
        if r.pct(50) { e.push(Edit::AddVar { name: "fixed".into(), dims: vec!["small".into()], ty: *r.pick(&TYPES) }); }
    } else {
        p.family = "beyond 4 GiB".into();
        let unlim = r.pct(60);
        if unlim { e.push(Edit::SetUnlim { name: "t".into(), size: r.range(1, 6) }); }
        let k = r.usize_in(2, 6);
        for i in 0..k {
            let mut dims: Vec<String> = vec![];
            if unlim && r.pct(50) { dims.push("t".into()); }
            if r.pct(55) { dims.push(r.pick(&dn).clone()); if r.pct(15) { dims.push("small".into()); } } else if r.pct(70) { dims.push("small".into()); }
            e.push(Edit::AddVar { name: format!("v{}", i), dims, ty: *r.pick(&TYPES) });
        }
    }
    if r.pct(30) { let (ty, bytes, text) = attr(r, false); e.push(Edit::AddGAttr { name: "g".into(), ty, bytes, text }); }
    p.defs.push(e);
    let d = MDef::build(&p.defs[0]);
    let hm = hmin(r, &d, Ver::Off64);
    if !many && r.pct(20) { return large_foreign(r, p, d, hm); }
    let mut ops = vec![];
    if r.pct(30) { ops.push(WK::SetDef { def: 0, ver: Ver::Classic, hmin: hm }); }
    ops.push(WK::SetDef { def: 0, ver: Ver::Off64, hmin: hm });
    // the last record of the last record variable fixes the file size
    if let Some(i) = d.rec_vars().last() { if d.num_recs() > 0 && d.chunk_len(&d.vars[*i]) < 1 << 16 { ops.push(WK::Rec { var: *i, rec: d.num_recs() - 1, seed: r.next() }); } else if many { return p; } }
    else if many { return p; }
    for _ in 0..r.usize_in(2, 10) {
        let i = r.idx(d.vars.len());
        let v = &d.vars[i];
        let n = d.chunks(v);
        if n == 0 || d.chunk_len(v) > 1 << 16 { continue; }
        let rec = match r.below(5) { 0 => 0, 1 => n - 1, 2 => n / 2, 3 => (1u64 << 31).min(n - 1), _ => r.below(n) };
        ops.push(WK::Rec { var: i, rec, seed: r.next() });
    }
    // whole small variables whose records lie far apart
    for (i, v) in d.vars.iter().enumerate() { if d.chunks(v) <= 64 && d.chunk_len(v) <= 64 && r.pct(30) { let at = r.idx(ops.len()) + 1; ops.insert(at.max(ops.len().min(2)), WK::Var { var: i, seed: r.next() }); } }
    if r.pct(30) { let var = r.idx(d.vars.len()); ops.push(WK::BadRec { var, over: r.below(2) }); }
    ops.push(WK::Info);
    if r.pct(25) && d.vars.iter().all(|v| d.chunks(v) <= 64) {
        // closing fills what was not written until the disk is full
        ops.push(WK::Env(EnvOp::Limit { sectors: Some(r.below(14)), max_file: None }));
        ops.push(WK::Close);
    }
    large_sessions(r, &mut p, ops, &d);
    p
}

/// A large file of another writer: read only.
fn large_foreign(r: &mut Rng, mut p: Plan, d: MDef, hmin: u64) -> Plan {
    p.family = "foreign beyond 4 GiB".into();
    let Some(l) = d.layout(Ver::Off64, hmin) else { return p };
    let end = d.vars.iter().enumerate().filter(|(_, v)| d.chunks(v) > 0)
        .map(|(i, v)| l.offset(&d, i, d.chunks(v) - 1) + d.chunk_bytes(v) + d.chunk_pad(i)).max().unwrap_or(l.header_len).max(l.header_len);
    if end > 1 << 62 { return p; }
    let len = match r.below(4) { 0 => end + 4, 1 => end.saturating_sub(r.range(1, 9)).max(l.header_len), _ => end };
    let mut marks = vec![];
    let mut reads = vec![RK::Info];
    for (i, v) in d.vars.iter().enumerate() {
        let n = d.chunks(v);
        if n == 0 || d.chunk_len(v) > 1 << 16 { if r.pct(20) { reads.push(RK::BadRec { var: i, over: r.below(2), typed: r.pct(50) }); } continue; }
        for _ in 0..r.usize_in(1, 3) {
            let k = match r.below(3) { 0 => 0, 1 => n - 1, _ => r.below(n) };
            if r.pct(85) { marks.push((i, k, r.next())); }
            reads.push(RK::Rec { var: i, rec: k, typed: r.pct(50) });
        }
        if n <= 64 && d.chunk_len(v) <= 64 && r.pct(50) { reads.push(RK::Var { var: i, typed: r.pct(50) }); }
    }
    r.shuffle(&mut reads);
    p.files.push(InitFile { path: P.into(), src: FileSrc::Large { def: 0, ver: Ver::Off64, hmin, len, marks }, damage: vec![] });
    p.phases = one(vec![vec![Session::Read(ReadSession { id: 0, path: P.into(), ops: reads.into_iter().map(|k| ROp { id: 0, k }).collect() })]]);
    p.io = vec![if r.pct(60) { IoMode::default() } else { io(r) }];
    p.number_ops();
    p
}

fn large_sessions(r: &mut Rng, p: &mut Plan, ops: Vec<WK>, d: &MDef) {
    let mut reads = vec![RK::Info];
    for k in &ops { if let WK::Rec { var, rec, .. } = k { reads.push(RK::Rec { var: *var, rec: *rec, typed: r.pct(50) }); } }
    for (i, v) in d.vars.iter().enumerate() { if d.chunks(v) <= 64 && d.chunk_len(v) <= 1 << 12 && r.pct(40) { reads.push(RK::Var { var: i, typed: r.pct(50) }); } }
    for _ in 0..3 {
        let i = r.idx(d.vars.len());
        let n = d.chunks(&d.vars[i]);
        if n > 0 && d.chunk_len(&d.vars[i]) <= 1 << 16 { reads.push(RK::Rec { var: i, rec: if n < 3 { 0 } else { r.below(n) }, typed: r.pct(50) }); }
        if r.pct(30) { reads.push(RK::BadRec { var: i, over: r.below(2), typed: r.pct(50) }); }
    }
    r.shuffle(&mut reads);
    let w = WriteSession { id: 0, path: P.into(), new: true, defs: vec![DefSrc::Built(0)], ops: ops.into_iter().map(|k| WOp { id: 0, k }).collect(), twin: None };
    let rd = ReadSession { id: 0, path: P.into(), ops: reads.into_iter().map(|k| ROp { id: 0, k }).collect() };
    p.phases = one(vec![vec![Session::Write(w)], vec![Session::Read(rd)]]);
    p.io = vec![if r.pct(60) { IoMode::default() } else { io(r) }, if r.pct(60) { IoMode::default() } else { io(r) }];
    p.number_ops();
}

fn c17(r: &mut Rng) -> Plan {
    let mut p = plan("release");
    let n = r.usize_in(1, 3);
    let mut scripts: Vec<Script> = (0..n).map(|a| mixed_script(r, &mut p, &format!("/simdisk/own{}.nc", a), true, false)).collect();
    // damaged and missing files are opened too
    for k in 0..r.usize_in(0, 2) {
        let b = if r.pct(50) { crafted(r) } else { exec::gen_values(Ty::U8, r.usize_in(0, 60), r.next()) };
        let path = format!("/simdisk/bad{}.nc", k);
        p.files.push(InitFile { path: path.clone(), src: FileSrc::Raw(b), damage: vec![] });
        let m = r.usize_in(0, 2);
        let at = if r.pct(85) { path.as_str() } else { "/simdisk/missing.nc" };
        let rd = reader(r, at, 2, m, 10);
        let a = r.idx(scripts.len());
        scripts[a].sessions.push(Session::Read(rd));
    }
    let only_read = r.pct(40);
    if only_read {
        let (i, _) = wd(r, &mut p, &DefOpts::default());
        p.files.push(InitFile { path: "/simdisk/ro.nc".into(), src: FileSrc::Encoded { def: i, ver: ver(r), style: style(r), seed: r.next() }, damage: vec![] });
        let (a, b) = (full_reader(r, "/simdisk/ro.nc"), reader(r, "/simdisk/ro.nc", 3, 4, 20));
        scripts.push(Script { sessions: vec![Session::Read(a), Session::Read(b)] });
    }
    let m = scripts.len();
    p.phases = vec![scripts];
    p.io = (0..m).map(|_| if r.pct(60) { IoMode::default() } else { io(r) }).collect();
    if r.pct(30) { p.threads = vec![0; m]; }
    p.number_ops();
    let h = dry(&mut p);
    if m > 1 && r.pct(20) { p.inside = inside(r, &h, m); }
    if m > 1 { p.switches = switches(r, h.steps, 0, m); }
    if r.pct(70) { let k = r.usize_in(1, 5); p.faults = hard_faults(r, &h, k, |_| true); }
    p
}
