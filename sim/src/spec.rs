//! A simulated run, fully described: world, workload, schedule, memory, faults.
use crate::rt::{MemSpec, SchedSpec};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E {
    Serde,
    Iter,
    Loc,
    Sing,
    Hand,
    Pest,
    PestR,
}
pub const ENGINES: [E; 4] = [E::Serde, E::Iter, E::Loc, E::Sing];
pub const PARSERS: [E; 7] = [E::Serde, E::Iter, E::Loc, E::Sing, E::Hand, E::Pest, E::PestR];

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum FnKind {
    /// value -> value: its argument
    Ident,
    /// value -> value: "<tag>:<argument>"
    Tag,
    /// value -> logical: its argument is neither absent, null, false, 0 nor ""
    Pass,
    /// nodes -> logical
    NonEmpty,
    /// nodes -> value: number of nodes
    Cnt,
    /// value, value -> value
    Cat,
    /// value -> value: how often this function was called in this evaluation so far
    Seq,
    /// value, value -> logical: equality of the printed arguments, tagged
    Same,
    /// nodes -> nodes: its argument
    Nodes,
    /// logical, value, nodes -> logical: an odd number of them hold
    Odd,
    /// -> value: the tag
    Konst,
    /// logical -> value: 1 or 0
    Flag,
    /// value, value, value, value, value -> value
    Five,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub struct FnSpec {
    pub kind: FnKind,
    pub tag: u32,
}
impl FnKind {
    /// parameter kinds and result kind: 0 logical, 1 nodes, 2 value
    pub fn sig(self) -> (&'static [u8], u8) {
        match self {
            FnKind::Ident | FnKind::Tag | FnKind::Seq => (&[2], 2),
            FnKind::Pass => (&[2], 0),
            FnKind::NonEmpty => (&[1], 0),
            FnKind::Cnt => (&[1], 2),
            FnKind::Cat => (&[2, 2], 2),
            FnKind::Same => (&[2, 2], 0),
            FnKind::Nodes => (&[1], 1),
            FnKind::Odd => (&[0, 2, 1], 0),
            FnKind::Konst => (&[], 2),
            FnKind::Flag => (&[0], 2),
            FnKind::Five => (&[2, 2, 2, 2, 2], 2),
        }
    }
}

fn zero(x: &u8) -> bool {
    *x == 0
}
/// what a custom function does at a given call, besides answering
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    Panic,
    /// suspended for this many scheduler events (u64::MAX: until nobody else can proceed)
    Stall(u64),
    /// run another operation from inside the call
    Nest(Box<OpSpec>),
    Yield,
    Nothing,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum How {
    /// the crate's top-level find
    Top(u16),
    /// Environment::find
    Env(u16),
    /// a compiled query shared by all tasks
    Query(u16),
    /// compile with a parser instance, then evaluate
    Parser(u16, u16),
    /// Query::standard, then evaluate
    Std(u16),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum WPlan {
    /// fail (or act) at the n-th write
    Fail(u32),
    Panic(u32),
    Stall(u32),
    Nest(u32, Box<OpSpec>),
    /// accept at most n bytes in total, then refuse
    Short(u32),
    Fine,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum LOp {
    New(u8),
    /// dst = append(src, element)
    Append(u8, u8, u32),
    /// dst = src extended k times
    Grow(u8, u8, u32),
    From(u8, u32),
    Tail(u8, u8),
    Tailn(u8, u8, u32),
    Lastn(u8, u8, u32),
    Clone(u8, u8),
    Drop(u8),
    /// clone and drop on a second list while the first is being iterated
    IterWhileDrop(u8, u8, u32),
    Check(u8),
    Eq(u8, u8),
    Cmp(u8, u8),
    Debug(u8),
    Hash(u8),
    /// node built over list src with child element, path compared
    Node(u8, u32),
    /// a panic while the lists are alive on the stack
    PanicHold(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Find { e: E, how: How, env: u16, doc: u16, loopy: bool },
    /// like Find, but the nodes are kept in a slot of this task
    Hold { e: E, how: How, env: u16, doc: u16, loopy: bool, slot: u8 },
    CheckHeld { slot: u8 },
    /// extend node i of a held result by k children and check both
    ExtendHeld { slot: u8, i: u16, k: u16 },
    DropHeld { slot: u8, mode: u8 },
    Open { how: How, env: u16, doc: u16, slot: u8 },
    /// mode 0: next() n times, 1: take(n), 2: nth(n - 1), 3: try_for_each, 4: last(), 5: count()
    Pull {
        slot: u8,
        n: u32,
        #[serde(default, skip_serializing_if = "zero")]
        mode: u8,
    },
    Close { slot: u8 },
    Parse { e: E, parser: Option<u16>, expr: u16 },
    Tokens { expr: u16 },
    Render { e: E, how: How, part: u16, w: WPlan },
    /// register / replace / remove in an environment owned by this task alone
    RegEnv { e: E, env: u16, name: u16, f: Option<FnSpec> },
    RegParser { e: E, parser: u16, name: u16, f: Option<FnSpec> },
    Range { e: E, parser: u16, lo: i64, hi: i64 },
    /// compile into a query slot owned by this task, or release it
    Compile { e: E, q: u16, parser: Option<u16>, expr: u16 },
    Release { q: u16 },
    /// drop an environment or a parser instance
    DropEnv { env: u16 },
    DropParser { parser: u16 },
    List { e: E, ops: Vec<LOp> },
    /// read the heap counters
    Measure,
    Pause,
    Stall(u64),
    /// drop the shared document (only when nobody uses it any more) and build it again
    Rebuild { doc: u16 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct OpSpec {
    pub op: Op,
    /// (index of the custom function call within this operation, action)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub plan: Vec<(u32, Act)>,
    /// allocation failures: (index of the allocation within this operation, how many in a row)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub oom: Vec<(u64, u64)>,
    /// use a private copy of the document / the query text, dropped right after
    #[serde(default)]
    pub fresh: bool,
    /// only count and hash results
    #[serde(default)]
    pub brief: bool,
    /// performed on a short-lived thread of its own
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub worker: bool,
}
impl OpSpec {
    pub fn new(op: Op) -> OpSpec {
        OpSpec { op, plan: vec![], oom: vec![], fresh: false, brief: false, worker: false }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Doc {
    Text(String),
    /// array of n elements cycling through a few shapes
    WideArray(u32, u8),
    WideObject(u32, u8),
    Deep(u32, u8),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct EnvSpec {
    pub e: E,
    pub funcs: Vec<(u16, FnSpec)>,
    /// names to remove from the standard register
    #[serde(default)]
    pub removed: Vec<u16>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ParserSpec {
    pub e: E,
    pub funcs: Vec<(u16, FnKind)>,
    #[serde(default)]
    pub removed: Vec<u16>,
    pub range: Option<(i64, i64)>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct QuerySpec {
    pub e: E,
    pub parser: Option<u16>,
    pub expr: u16,
    /// compiled before the tasks start (otherwise by an operation)
    pub setup: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TaskSpec {
    pub ops: Vec<OpSpec>,
    /// bit mask of tasks (by index) that must have ended before this one starts
    pub after: u32,
    pub stack: usize,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Spec {
    pub prop: String,
    pub names: Vec<String>,
    pub docs: Vec<Doc>,
    pub exprs: Vec<String>,
    pub envs: Vec<EnvSpec>,
    pub parsers: Vec<ParserSpec>,
    pub queries: Vec<QuerySpec>,
    pub tasks: Vec<TaskSpec>,
    pub sched: SchedSpec,
    pub mem: MemSpec,
    #[serde(default)]
    pub measure_stack: bool,
    /// free-form note of the generator (which scenario)
    #[serde(default)]
    pub tag: String,
    /// parameters of the scenario the oracle needs
    #[serde(default)]
    pub par: Vec<i64>,
}
pub const STD_NAMES: [&str; 5] = ["count", "length", "match", "search", "value"];

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct OpRes {
    pub t: u8,
    pub i: u16,
    /// nesting path: call indexes of the enclosing calls
    #[serde(default)]
    pub nest: Vec<u32>,
    /// "ok", "err", "panic", "done" (nothing observable)
    pub k: String,
    pub text: String,
    pub hash: u64,
    #[serde(default)]
    pub calls: Vec<String>,
    pub callh: u64,
    pub ncalls: u32,
    pub events: u64,
    /// simulated nanoseconds slept or waited, and the part of it while another thread was suspended
    #[serde(default)]
    pub slept: u64,
    #[serde(default)]
    pub waited: u64,
    pub allocs: u64,
    pub oomf: u32,
    #[serde(default)]
    pub n: i64,
    #[serde(default)]
    pub x: Vec<i64>,
    /// violations noticed while the operation ran
    #[serde(default)]
    pub bad: Vec<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunOut {
    pub ops: Vec<OpRes>,
    pub stack: Vec<i64>,
    pub bad: Vec<String>,
    pub live_end: (i64, i64),
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RunRes {
    pub status: String,
    pub out: RunOut,
    pub diag: String,
    pub cur_task: u32,
    pub cur_op: Vec<u32>,
    pub fault_addr: u64,
    pub fault_pc: u64,
    pub total: u64,
    pub logh: u64,
    pub sched: Vec<(u8, u64, u8)>,
    /// (forced, suspended at site, resumed at site)
    #[serde(skip)]
    pub switches: Vec<(bool, u32, u32)>,
    pub stats: Stats,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Stats {
    pub spurious: u64,
    pub blocks: u64,
    pub oom: u64,
    pub stalls: u64,
    pub jumps: u64,
    pub workers: u64,
    pub sleeps: u64,
    pub forced: u64,
    pub conflicts: u64,
    pub randoms: u64,
    pub clocks: u64,
    pub blocked_by_stall: bool,
    pub sim_ns: u64,
    pub log_lost: bool,
}

/// JSON without serde_json's limit on nesting (towers of operations are deep)
pub fn from_json<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, serde_json::Error> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}
