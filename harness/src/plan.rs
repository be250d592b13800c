//! One plan is one exactly repeatable execution: workload, faults, schedule.
use crate::model::{Edit, Ty, Ver};
use crate::world::{Fault, IoMode};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    /// Master seed and run number this plan was generated from (information only).
    pub origin: (u64, u64),
    /// Generator family inside the property.
    pub family: String,
    pub defs: Vec<Vec<Edit>>,
    pub files: Vec<InitFile>,
    /// Phases run one after another; the actors of one phase run concurrently.
    pub phases: Vec<Vec<Script>>,
    /// Per actor (numbered through all phases).
    pub io: Vec<IoMode>,
    pub faults: Vec<Fault>,
    /// At the first scheduling point with step >= .0, run actor .1.
    pub switches: Vec<(u64, u8)>,
    /// Switches inside library code: at the given edge (basic block) of a call.
    #[serde(default)]
    pub inside: Vec<Inside>,
    /// Thread each actor runs on (empty: every actor has its own).
    #[serde(default)]
    pub threads: Vec<u8>,
    /// Full-disk simulation: sectors of 512 bytes that can still be allocated.
    pub sectors: Option<u64>,
    pub max_file: Option<u64>,
}

/// In call `op` of `actor`, when `at` edges of library code have been executed, run `to`.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Inside { pub actor: u8, pub op: u32, pub at: u64, pub to: u8 }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct InitFile { pub path: String, pub src: FileSrc, pub damage: Vec<Damage> }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FileSrc {
    Encoded { def: usize, ver: Ver, style: Style, seed: u64 },
    Raw(Vec<u8>),
    /// Header of def with these explicit begin offsets, data only where it fits (sparse, large).
    Large { def: usize, ver: Ver, hmin: u64, len: u64, marks: Vec<(usize, u64, u64)> },
}

/// How a foreign writer laid the file out.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Style {
    /// Extra header space in bytes, and whether it holds garbage.
    pub slack: u64,
    pub slack_garbage: bool,
    /// Gap (multiple of 4) before each fixed variable / before the records.
    pub gaps: Vec<u64>,
    /// Order seed of fixed variables and of record variables in the data section (0: file order).
    pub order: u64,
    /// Record count left indeterminate (streaming).
    pub indeterminate: bool,
    /// vsize fields: 0 exact, 1 indeterminate, 2 zero, 3 arbitrary.
    pub vsize: u8,
    /// Unrelated bytes after the data (only with determinate record count).
    pub trailing: u64,
    /// The last padding bytes are missing.
    pub trim: bool,
    /// Empty lists written with their tag and count 0 instead of ABSENT.
    pub tagged_empty: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    Trunc(u64),
    Flip { off: u64, bit: u8 },
    Set { off: u64, bytes: Vec<u8> },
    Zero { off: u64, len: u64 },
    Copy { from: u64, to: u64, len: u64 },
    Delete { off: u64, len: u64 },
    Insert { off: u64, bytes: Vec<u8> },
    Extend { n: u64, seed: u64 },
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Script { pub sessions: Vec<Session> }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Session {
    Write(WriteSession),
    Read(ReadSession),
    Env(Vec<EnvOp>),
}

/// Where a writer session's data set comes from.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DefSrc {
    Built(usize),
    /// The data set released by the last closed reader of this actor, then edited with defs[.0].
    Carried(usize),
    /// The data set the last writer session of this actor used, then edited with defs[.0].
    Kept(usize),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct WriteSession {
    pub id: u32, pub path: String, pub new: bool, pub defs: Vec<DefSrc>, pub ops: Vec<WOp>,
    /// A second writer fed from the same data sets, in the same thread, call by call in between.
    #[serde(default)]
    pub twin: Option<Twin>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Twin { pub path: String, pub new: bool, /** bit k: after call k of either, the other one continues */ pub mask: u64 }
/// Call numbers of a twin: those of the session plus this.
pub const TWIN: u32 = 1 << 20;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct WOp { pub id: u32, pub k: WK }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum WK {
    /// def: index into the session's defs.
    SetDef { def: usize, ver: Ver, hmin: u64 },
    Var { var: usize, seed: u64 },
    Rec { var: usize, rec: u64, seed: u64 },
    BadType { var: usize, ty: Ty, rec: Option<u64> },
    BadLen { var: usize, delta: i64, rec: Option<u64> },
    BadName { rec: bool },
    BadRec { var: usize, over: u64 },
    Info,
    /// Another process acts between two calls.
    Env(EnvOp),
    Close,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ReadSession { pub id: u32, pub path: String, pub ops: Vec<ROp> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ROp { pub id: u32, pub k: RK }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum RK {
    Var { var: usize, typed: bool },
    Rec { var: usize, rec: u64, typed: bool },
    All,
    /// Reads every variable and every record of at most `cap` chunks each.
    Sweep { cap: u64 },
    BadName { rec: bool, typed: bool },
    BadType { var: usize, ty: Ty, rec: bool },
    BadRec { var: usize, over: u64, typed: bool },
    Info,
    Env(EnvOp),
    Close,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EnvOp {
    Rename { from: String, to: String },
    Unlink { path: String },
    /// Atomically puts initial file number `src` at `path` (a new inode).
    Replace { path: String, src: usize },
    Truncate { path: String, len: u64 },
    /// Overwrites bytes in place.
    Poke { path: String, off: u64, bytes: Vec<u8> },
    Append { path: String, n: u64 },
    /// Ends the disk-full and file-size limits.
    Heal,
    Limit { sectors: Option<u64>, max_file: Option<u64> },
    Readonly { path: String, on: bool },
    Nop,
}

impl Plan {
    pub fn num_actors(&self) -> usize { self.phases.iter().map(|p| p.len()).sum() }
    /// Stable identifiers for all operations; call after generating.
    pub fn number_ops(&mut self) {
        let mut n = 1;
        for ph in &mut self.phases { for s in ph { for se in &mut s.sessions {
            match se {
                Session::Write(w) => { w.id = n; n += 1; for o in &mut w.ops { o.id = n; n += 1; } n += 1; }
                Session::Read(r) => { r.id = n; n += 1; for o in &mut r.ops { o.id = n; n += 1; } n += 1; }
                Session::Env(_) => {}
            }
        } } }
    }
    pub fn normalise(&mut self) {
        let n = self.num_actors();
        self.io.resize(n, IoMode::default());
        self.switches.sort();
        if !self.threads.is_empty() { self.threads.resize(n, 31); }
    }
}
