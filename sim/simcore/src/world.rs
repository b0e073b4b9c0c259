//! The simulated world: disk, stores, clock, entropy, faults.
use crate::disk::Fs;
use crate::rng::{derive, Rng};
use crate::sched::{self, CLOCK};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "kind", rename_all = "snake_case")]
pub enum FaultKind {
    /// The process dies here. `after`: the operation itself still took effect;
    /// `torn`: half of it did (writes).
    Kill { after: bool, torn: bool },
    /// Power loss here: un-synced data is lost as well.
    Power { after: bool, torn: bool },
    /// The operation fails with this errno, once.
    Err { errno: i32 },
    /// This and the following `n` fault-eligible operations of the same group fail.
    Sticky { errno: i32, n: usize },
    /// The write is short (the caller must continue it).
    Short,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// Workload operation, attempt of that operation, seam operation within the attempt.
    pub op: usize,
    pub attempt: usize,
    pub seam: usize,
    #[serde(flatten)]
    pub kind: FaultKind,
}

/// Kind of a seam operation, as recorded in traces.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Seam {
    Open,
    Read,
    Write,
    Sync,
    Trunc,
    Stat,
    Mkdir,
    Unlink,
    Rename,
    ReadDir,
    KvGet,
    KvGetAll,
    KvPut,
    SledGet,
    SledPut,
    SledFlush,
    SledIter,
    SledOpen,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SeamRec {
    pub seam: Seam,
    pub mutating: bool,
    /// Class of the object operated on ("db", "cache", "search", "journal", "dir", ...).
    pub class: String,
    /// Faults of the error family may be placed here.
    pub errs: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Go,
    Fail(i32),
    Short,
    /// Apply half of the operation (writes) then call `freeze`.
    Torn,
    /// Apply the operation, then call `freeze`.
    GoThenFreeze,
}

#[derive(Default, Clone, Debug)]
pub struct CallCtx {
    pub op: usize,
    pub attempt: usize,
    pub seam: usize,
    pub budget: usize,
    pub sticky: Option<(i32, usize, String)>,
    pub trace: Vec<SeamRec>,
    pub fired: Vec<Fault>,
    pub over: usize,
}

/// One sled-like database: trees of durable and buffered content.
#[derive(Clone, Debug, Default)]
pub struct SledDisk {
    pub dur: BTreeMap<Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>>,
    pub cur: BTreeMap<Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>>,
    pub pend: Vec<SledOp>,
    pub open: usize,
    pub next_id: u64,
}
#[derive(Clone, Debug)]
pub enum SledOp {
    Tree(Vec<u8>),
    DropTree(Vec<u8>),
    Put(Vec<u8>, Vec<u8>, Vec<u8>),
    Del(Vec<u8>, Vec<u8>),
    Batch(Vec<SledOp>),
}

pub type KvMap = BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>>;

pub struct World {
    pub fs: Fs,
    pub kv: BTreeMap<String, KvMap>,
    pub sled: BTreeMap<String, SledDisk>,
    pub crash_rng: Rng,
    pub entropy: Rng,
    pub frozen: bool,
    pub crash: Option<bool>,
    pub stalled: bool,
    pub faults: Vec<Fault>,
    pub call: CallCtx,
    pub fired: BTreeMap<String, u64>,
    pub hash: u64,
    pub seams: u64,
    pub log: Vec<String>,
    pub verbose: bool,
    pub probes: BTreeMap<String, u64>,
    pub generation: u64,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);
static FATAL: Mutex<Option<Box<dyn Fn(i32, &str) + Send>>> = Mutex::new(None);

pub fn on_fatal(f: Box<dyn Fn(i32, &str) + Send>) {
    *FATAL.lock().unwrap() = Some(f);
}

/// Ends the process at once (hang or deadlock of the system under test).
pub fn fatal_exit(code: i32, why: &str) -> ! {
    sched::set_in_sim(false);
    if let Ok(g) = FATAL.try_lock() {
        if let Some(f) = g.as_ref() {
            f(code, why);
        }
    }
    unsafe { libc::_exit(code) }
}

pub fn install(seed: u64) {
    CLOCK.store(1_700_000_000_000_000_000, Ordering::Relaxed);
    let w = World {
        fs: Fs::new(),
        kv: BTreeMap::new(),
        sled: BTreeMap::new(),
        crash_rng: Rng::new(derive(seed, "crash")),
        entropy: Rng::new(derive(seed, "entropy")),
        frozen: false,
        crash: None,
        stalled: false,
        faults: vec![],
        call: CallCtx::default(),
        fired: BTreeMap::new(),
        hash: 0xcbf29ce484222325,
        seams: 0,
        log: vec![],
        verbose: false,
        probes: BTreeMap::new(),
        generation: 0,
    };
    *WORLD.lock().unwrap() = Some(w);
}

pub fn uninstall() -> World {
    WORLD.lock().unwrap().take().expect("world installed")
}

pub fn world_active() -> bool {
    WORLD.lock().unwrap().is_some()
}

pub fn with_world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _o = sched::Outside::enter();
    let mut g = match WORLD.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    f(g.as_mut().expect("world installed"))
}

pub fn now_ns() -> u64 {
    CLOCK.load(Ordering::Relaxed)
}

impl World {
    pub fn mix(&mut self, s: &str) {
        for b in s.bytes() {
            self.hash ^= b as u64;
            self.hash = self.hash.wrapping_mul(0x100000001b3);
        }
    }

    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_insert(0) += 1;
    }

    pub fn begin_call(&mut self, op: usize, attempt: usize, budget: usize) {
        self.call = CallCtx {
            op,
            attempt,
            budget,
            ..Default::default()
        };
        self.stalled = false;
    }

    pub fn freeze(&mut self) {
        self.frozen = true;
    }

    /// Counts a seam operation, records it, and decides what happens to it.
    pub fn seam(&mut self, seam: Seam, mutating: bool, class: &str, errs: bool, detail: &str) -> Act {
        CLOCK.fetch_add(20_000, Ordering::Relaxed);
        if self.frozen || self.stalled {
            self.call.over += 1;
            if self.call.over > 200_000 {
                fatal_exit(77, "a call does not end: it keeps retrying failed storage operations");
            }
            return Act::Fail(libc::EIO);
        }
        self.seams += 1;
        let idx = self.call.seam;
        self.call.seam += 1;
        if self.call.seam > self.call.budget {
            self.stalled = true;
            self.probe("budget_exceeded");
            return Act::Fail(libc::EIO);
        }
        if self.verbose {
            let line = format!(
                "  [{}.{}#{idx}] {seam:?} {class} {detail}",
                self.call.op, self.call.attempt
            );
            self.log.push(line);
        }
        let h = format!("{seam:?}{class}{detail}");
        self.mix(&h);
        self.call.trace.push(SeamRec {
            seam,
            mutating,
            class: class.to_string(),
            errs,
        });
        if let Some((errno, n, c)) = self.call.sticky.clone() {
            if errs && c == class {
                if n <= 1 {
                    self.call.sticky = None;
                } else {
                    self.call.sticky = Some((errno, n - 1, c));
                }
                if !(errno == libc::ENOSPC && !mutating) {
                    *self.fired.entry(format!("sticky_{}", errname(errno))).or_insert(0) += 1;
                    return Act::Fail(errno);
                }
            }
        }
        let (op, attempt) = (self.call.op, self.call.attempt);
        let hit = self
            .faults
            .iter()
            .find(|f| f.op == op && f.attempt == attempt && f.seam == idx)
            .cloned();
        let Some(f) = hit else { return Act::Go };
        let act = match &f.kind {
            FaultKind::Kill { after, torn } | FaultKind::Power { after, torn } => {
                let power = matches!(f.kind, FaultKind::Power { .. });
                self.crash = Some(power);
                let writes = matches!(seam, Seam::Write);
                if *torn && writes {
                    Act::Torn
                } else if *after {
                    Act::GoThenFreeze
                } else {
                    self.frozen = true;
                    Act::Fail(libc::EIO)
                }
            }
            FaultKind::Err { errno } => {
                if !errs || (*errno == libc::EINTR && !matches!(seam, Seam::Open | Seam::Read | Seam::Write | Seam::Sync)) {
                    return Act::Go;
                }
                Act::Fail(*errno)
            }
            FaultKind::Sticky { errno, n } => {
                if !errs {
                    return Act::Go;
                }
                self.call.sticky = Some((*errno, *n, class.to_string()));
                Act::Fail(*errno)
            }
            FaultKind::Short => {
                if !matches!(seam, Seam::Write) {
                    return Act::Go;
                }
                Act::Short
            }
        };
        let name = match &f.kind {
            FaultKind::Kill { .. } => "kill".to_string(),
            FaultKind::Power { .. } => "power_loss".to_string(),
            FaultKind::Err { errno } => format!("error_{}", errname(*errno)),
            FaultKind::Sticky { errno, .. } => format!("sticky_{}", errname(*errno)),
            FaultKind::Short => "short_write".to_string(),
        };
        *self.fired.entry(name.clone()).or_insert(0) += 1;
        if matches!(act, Act::Torn) {
            *self.fired.entry("torn_write".into()).or_insert(0) += 1;
        }
        if self.verbose {
            self.log.push(format!("    !! injected {name} ({act:?})"));
        }
        self.call.fired.push(f);
        act
    }

    /// The process restarts: frozen mode ends, the disk takes the crash.
    pub fn restart(&mut self, power: bool) {
        self.frozen = false;
        self.stalled = false;
        self.crash = None;
        self.call = CallCtx::default();
        self.generation += 1;
        let mut log = vec![];
        let mut rng = Rng::new(self.crash_rng.next());
        self.fs.crash(power, &mut rng, &mut log);
        for (path, s) in self.sled.iter_mut() {
            let n = s.pend.len();
            // sled buffers writes in the process: a kill loses a suffix as well.
            let keep = rng.below(n as u64 + 1) as usize;
            let ops: Vec<SledOp> = s.pend.drain(..).collect();
            if n > 0 {
                log.push(format!("sled {path}: kept {keep} of {n} un-flushed operations"));
            }
            for op in ops.into_iter().take(keep) {
                apply_sled(&mut s.dur, op);
            }
            s.cur = s.dur.clone();
            s.open = 0;
        }
        if self.verbose {
            self.log.push(format!(
                "  -- {} and restart",
                if power { "power loss" } else { "kill" }
            ));
            for l in log {
                self.log.push(format!("     {l}"));
            }
        }
    }
}

pub fn apply_sled(m: &mut BTreeMap<Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>>, op: SledOp) {
    match op {
        SledOp::Tree(t) => {
            m.entry(t).or_default();
        }
        SledOp::DropTree(t) => {
            m.remove(&t);
        }
        SledOp::Put(t, k, v) => {
            m.entry(t).or_default().insert(k, v);
        }
        SledOp::Del(t, k) => {
            m.entry(t).or_default().remove(&k);
        }
        SledOp::Batch(ops) => {
            for o in ops {
                apply_sled(m, o);
            }
        }
    }
}

pub fn errname(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EINTR => "EINTR",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::ESTALE => "ESTALE",
        libc::EAGAIN => "EAGAIN",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::EPERM => "EPERM",
        _ => "errno",
    }
}

/// Seam for stores written in Rust (the sled stand-in, the simulated KV store).
/// `apply` performs the effect; errors are returned as text.
pub fn rust_seam<R>(
    seam: Seam,
    mutating: bool,
    class: &str,
    detail: &str,
    apply: impl FnOnce(&mut World) -> R,
) -> Result<R, String> {
    let _o = sched::Outside::enter();
    sched::yield_point();
    with_world(|w| match w.seam(seam, mutating, class, true, detail) {
        Act::Fail(e) => Err(format!("simulated storage error: {}", errname(e))),
        Act::Torn => {
            w.freeze();
            Err("simulated crash".into())
        }
        Act::GoThenFreeze => {
            let r = apply(w);
            w.freeze();
            Ok(r)
        }
        Act::Go | Act::Short => Ok(apply(w)),
    })
}
