//! Serializable description of one simulated run: everything the run depends on.
use serde::{Deserialize, Serialize};
use simcore::world::Fault;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
#[serde(rename_all = "snake_case")]
pub enum Backend {
    Fs,
    Sled,
    Kv,
    Mem,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Config {
    pub db: Backend,
    pub cache: Backend,
    /// On-disk search database (SQLite file on the simulated disk) or in memory.
    pub search_disk: bool,
}

/// A bundle, named by the operation that builds it or by a literal SAID.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Ref {
    Op(usize),
    Lit(String),
    Name(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Ty {
    Text,
    Numeric,
    Boolean,
    Binary,
    DateTime,
    Ref(Ref),
    Array(Box<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Codes {
    Sai(String),
    List(Vec<String>),
    Groups(Vec<(String, Vec<String>)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Entr {
    Sai(String),
    Map(Vec<(String, String)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Plain {
    CharacterEncoding,
    Conformance,
    Format,
    Unit,
    Cardinality,
}

pub type Pairs = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Cmd {
    AddAttrs(Vec<(String, Ty)>),
    RemoveAttrs(Vec<String>),
    AddClass(String),
    RemoveClass,
    Meta { lang: String, pairs: Pairs },
    Label { lang: String, attrs: Pairs },
    Info { lang: String, attrs: Pairs },
    Plain { kind: Plain, attrs: Pairs },
    Condition { attrs: Pairs },
    EntryCode { attrs: Vec<(String, Codes)> },
    Entry { lang: String, attrs: Vec<(String, Entr)> },
    Link { target: Ref, attrs: Pairs },
    Framing {
        id: String,
        meta: Pairs,
        /// attribute, [(url, predicate, justification)]
        attrs: Vec<(String, Vec<(String, String, String)>)>,
    },
    /// Verbatim line (rejected documents).
    Raw(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Doc {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub name: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub base: Option<Ref>,
    /// FROM a bundle nobody stored (C14's recorded finding: built as if it had no base).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub alien_base: Option<String>,
    pub cmds: Vec<Cmd>,
    /// Upper or lower case keywords, comments, blank lines: rendering variations.
    #[serde(default)]
    pub style: u32,
}

/// Style of an OCAFile without a name that is validated first, against the names as a
/// table of the caller's, and what came out then built.
pub const SPLIT: u32 = 64;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Query {
    Bundle { of: Ref, deps: bool },
    Steps { of: Ref },
    Ast { of: Ref },
    Ocafile { of: Ref },
    Objects { of: Ref },
    Explore { of: Ref, which: usize },
    ListBundles { limit: usize, page: usize },
    ListBases { limit: usize, page: usize },
    Search { lang: Option<String>, phrase: String, limit: usize, page: usize },
    Refs,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    /// A valid OCAFile.
    Build(Doc),
    /// An OCAFile that must be rejected.
    Reject { doc: Doc, why: String },
    /// Validation against external references: nothing may change.
    Validate { doc: Doc, external: Vec<(String, Ref)> },
    Query(Query),
    /// The process dies while idle, and restarts.
    Crash { power: bool },
    /// Orderly shutdown and restart.
    Reopen,
    /// Placeholder left by minimization.
    Noop,
}

/// Operations of the storage-backend scenario.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum StoreOp {
    Put { ns: usize, key: String, val: Vec<u8>, handle: usize },
    Get { ns: usize, key: String, handle: usize },
    All { ns: usize, handle: usize },
    Crash { power: bool },
    Reopen,
    Noop,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum GraphOp {
    Add { new: String, to: Option<String> },
    /// A build into the version store.
    Build { doc: Doc },
    /// A build that has to fail.
    Refused { doc: Doc, how: u8 },
    Crash { power: bool },
    Reopen,
    Noop,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum TLine {
    Meta(String, String),
    Rename(Pairs),
    Link(Pairs),
    Raw(String),
}

/// A transformation file.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct TFile {
    pub lines: Vec<TLine>,
    #[serde(default)]
    pub style: u32,
    /// Why it has to be refused.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refused: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum TransOp {
    File(TFile),
    /// A bundle with these of the transformations built so far.
    Mount(Vec<usize>),
    Noop,
}

/// What happens to nodes and to the network between them.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum NetOp {
    /// A node builds a document of its own (number `id`) and announces the result to all.
    Author { node: usize, id: usize, doc: Doc },
    /// One of the messages on its way arrives.
    Deliver { from: usize, to: usize, pick: usize, dup: bool, corrupt: bool },
    Lose { from: usize, to: usize, pick: usize },
    Cut { a: usize, b: usize },
    Heal { a: usize, b: usize },
    /// A node asks another for what it lacks.
    Pull { node: usize, from: usize },
    Crash { power: bool },
    Noop,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Plan {
    Facade(Vec<Op>),
    /// Several tasks, each with a facade of its own over the same stores.
    Concurrent { setup: Vec<Op>, tasks: Vec<Vec<Op>> },
    Store { backend: Backend, ops: Vec<StoreOp> },
    Graph { sled: bool, ops: Vec<GraphOp> },
    Trans(Vec<TransOp>),
    /// Nodes with stores of their own, and the network between them.
    Mesh { nodes: Vec<Config>, events: Vec<NetOp> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
pub enum Sched {
    Random { seed: u64, num: u64, den: u64 },
    Pct { seed: u64, depth: usize, span: u64 },
    Replay { switches: Vec<(u64, usize)> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RunSpec {
    pub property: String,
    pub seed: u64,
    pub variant: u64,
    pub config: Config,
    pub plan: Plan,
    /// Entropy (hash seeds, SQLite randomness), crash choices.
    pub env_seed: u64,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sched: Option<Sched>,
    /// Failed builds are repeated only after the whole burst.
    #[serde(default)]
    pub defer_retries: bool,
    /// Full audit after every operation (otherwise after faults and at the end).
    #[serde(default)]
    pub audit_each: bool,
}

impl RunSpec {
    pub fn nfaults(&self) -> usize {
        self.faults.len()
    }
}
