//! Greedy minimiser: drops schedule switches, faults, sessions, calls, edits
//! and file damage from a failing plan while the same class of violation stays.
use crate::model::Edit;
use crate::plan::*;
use crate::world::IoMode;
use std::time::{Duration, Instant};

pub struct Shrinker<'a> {
    pub fails: &'a mut dyn FnMut(&Plan) -> bool,
    /// Called with every smaller plan that still fails.
    pub better: &'a mut dyn FnMut(&Plan),
    pub until: Instant,
    pub tried: u64,
}

impl<'a> Shrinker<'a> {
    fn take(&mut self, cur: &mut Plan, mut cand: Plan) -> bool {
        if cand == *cur || Instant::now() > self.until { return false; }
        cand.normalise();
        self.tried += 1;
        if (self.fails)(&cand) { *cur = cand; (self.better)(cur); true } else { false }
    }

    /// Removes as many elements of a list as possible (halves first).
    fn list<T: Clone>(&mut self, cur: &mut Plan, get: &dyn Fn(&mut Plan) -> Option<&mut Vec<T>>, keep: usize) {
        let n0 = match get(cur) { Some(v) => v.len(), None => return };
        if n0 <= keep { return; }
        let mut size = n0 - keep;
        while size >= 1 {
            let mut at = 0;
            loop {
                let n = match get(cur) { Some(v) => v.len(), None => return };
                if at + size > n || n < keep + size { break; }
                let mut c = cur.clone();
                if let Some(v) = get(&mut c) { v.drain(at..at + size); }
                if !self.take(cur, c) { at += size; }
                if Instant::now() > self.until { return; }
            }
            size /= 2;
        }
    }

    pub fn run(&mut self, start: Plan) -> Plan {
        let mut cur = start;
        for _round in 0..6 {
            let before = serde_json::to_string(&cur).unwrap().len();
            let b = cur.clone();
            self.round(&mut cur);
            if cur == b || Instant::now() > self.until { break; }
            if serde_json::to_string(&cur).unwrap().len() == before { break; }
        }
        cur
    }

    fn round(&mut self, cur: &mut Plan) {
        self.list(cur, &|p| Some(&mut p.switches), 0);
        self.list(cur, &|p| Some(&mut p.inside), 0);
        for i in 0..cur.inside.len() {
            for how in 0..3 {
                let mut c = cur.clone();
                let at = &mut c.inside[i].at;
                *at = match how { 0 => 0, 1 => *at / 2, _ => at.saturating_sub(1) };
                self.take(cur, c);
            }
        }
        { let mut c = cur.clone(); c.threads.clear(); self.take(cur, c); }
        self.list(cur, &|p| Some(&mut p.faults), 0);
        for a in 0..cur.io.len() {
            let mut c = cur.clone(); c.io[a] = IoMode::default(); self.take(cur, c);
            let mut c = cur.clone(); c.io[a].eintr = 0; self.take(cur, c);
            let mut c = cur.clone(); c.io[a].vary = 0; self.take(cur, c);
            let mut c = cur.clone(); c.io[a].max_read = 0; self.take(cur, c);
            let mut c = cur.clone(); c.io[a].max_write = 0; self.take(cur, c);
        }
        { let mut c = cur.clone(); c.sectors = None; self.take(cur, c); }
        { let mut c = cur.clone(); c.max_file = None; self.take(cur, c); }
        for ph in 0..cur.phases.len() { for ac in 0..cur.phases[ph].len() {
            self.list(cur, &move |p| Some(&mut p.phases[ph][ac].sessions), 0);
            let n = cur.phases[ph][ac].sessions.len();
            for s in 0..n {
                self.list(cur, &move |p| match p.phases[ph][ac].sessions.get_mut(s) { Some(Session::Write(w)) => Some(&mut w.ops), _ => None }, 0);
                self.list(cur, &move |p| match p.phases[ph][ac].sessions.get_mut(s) { Some(Session::Read(r)) => Some(&mut r.ops), _ => None }, 0);
                self.list(cur, &move |p| match p.phases[ph][ac].sessions.get_mut(s) { Some(Session::Env(e)) => Some(e), _ => None }, 0);
                let mut c = cur.clone();
                if let Some(Session::Write(w)) = c.phases[ph][ac].sessions.get_mut(s) {
                    for o in &mut w.ops { if let WK::SetDef { hmin, .. } = &mut o.k { *hmin = 0; } }
                }
                self.take(cur, c);
                let mut c = cur.clone();
                if let Some(Session::Write(w)) = c.phases[ph][ac].sessions.get_mut(s) { w.twin = None; }
                self.take(cur, c);
            }
        } }
        for d in 0..cur.defs.len() {
            self.list(cur, &move |p| p.defs.get_mut(d), 0);
            let n = cur.defs[d].len();
            for e in 0..n {
                for how in 0..4 {
                    let mut c = cur.clone();
                    match &mut c.defs[d][e] {
                        Edit::AddGAttr { bytes, ty, .. } | Edit::AddVAttr { bytes, ty, .. } => {
                            let k = ty.size();
                            let n = bytes.len() / k;
                            let m = match how { 0 => 0, 1 => 1, 2 => n / 2, _ => n.saturating_sub(1) };
                            if m < n { bytes.truncate(m * k); }
                        }
                        Edit::AddDim { size, .. } => { let m = match how { 0 => 1, 1 => 2, 2 => *size / 2, _ => size.saturating_sub(1) }; if m >= 1 && m < *size { *size = m; } }
                        Edit::SetUnlim { size, .. } => { let m = match how { 0 => 0, 1 => 1, 2 => *size / 2, _ => size.saturating_sub(1) }; if m < *size { *size = m; } }
                        Edit::AddVar { dims, .. } => { if how < dims.len() { dims.remove(how); } }
                        _ => {}
                    }
                    self.take(cur, c);
                }
            }
        }
        for f in 0..cur.files.len() {
            self.list(cur, &move |p| p.files.get_mut(f).map(|f| &mut f.damage), 0);
            for how in 0..9 {
                let mut c = cur.clone();
                if let FileSrc::Encoded { style, .. } = &mut c.files[f].src {
                    match how {
                        0 => *style = Style::default(), 1 => style.slack = 0, 2 => style.gaps.clear(), 3 => style.order = 0, 4 => style.indeterminate = false,
                        5 => style.vsize = 0, 6 => style.trailing = 0, 7 => style.trim = false, _ => style.tagged_empty = false,
                    }
                }
                self.take(cur, c);
            }
            self.list(cur, &move |p| match p.files.get_mut(f).map(|f| &mut f.src) { Some(FileSrc::Large { marks, .. }) => Some(marks), _ => None }, 0);
            self.list(cur, &move |p| match p.files.get_mut(f).map(|f| &mut f.src) { Some(FileSrc::Raw(b)) => Some(b), _ => None }, 0);
        }
        self.names(cur);
    }

    /// Shortens names, consistently over the whole plan.
    fn names(&mut self, cur: &mut Plan) {
        let mut all: Vec<String> = vec![];
        for d in &cur.defs { for e in d { match e {
            Edit::AddDim { name, .. } | Edit::SetUnlim { name, .. } | Edit::AddVar { name, .. } | Edit::AddGAttr { name, .. } | Edit::AddVAttr { name, .. } => all.push(name.clone()),
            _ => {}
        } } }
        all.sort();
        all.dedup();
        for (i, n) in all.iter().enumerate() {
            let short = format!("n{}", i);
            if n.len() <= short.len() || all.contains(&short) { continue; }
            let mut c = cur.clone();
            let sub = |s: &mut String| if s == n { *s = short.clone() };
            for d in &mut c.defs { for e in d { match e {
                Edit::AddDim { name, .. } | Edit::SetUnlim { name, .. } | Edit::RemoveDim { name } | Edit::RemoveVar { name } | Edit::AddGAttr { name, .. } | Edit::RemoveGAttr { name } => sub(name),
                Edit::AddVar { name, dims, .. } => { sub(name); dims.iter_mut().for_each(sub); }
                Edit::RenameDim { old, new } | Edit::RenameVar { old, new } | Edit::RenameGAttr { old, new } => { sub(old); sub(new); }
                Edit::AddVAttr { var, name, .. } | Edit::RemoveVAttr { var, name, .. } => { sub(var); sub(name); }
                Edit::RenameVAttr { var, old, new } => { sub(var); sub(old); sub(new); }
            } } }
            self.take(cur, c);
        }
    }
}

pub fn shrink(p: Plan, secs: u64, fails: &mut dyn FnMut(&Plan) -> bool, better: &mut dyn FnMut(&Plan)) -> (Plan, u64) {
    let mut s = Shrinker { fails, better, until: Instant::now() + Duration::from_secs(secs), tried: 0 };
    let q = s.run(p);
    (q, s.tried)
}
