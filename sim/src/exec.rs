//! Executes one facade workload in the simulated world and checks it against the model.
use crate::model::*;
use crate::simstorage::SimKv;
use crate::spec::*;
use oca_rs::data_storage::{DataStorage, FileSystemStorage, InMemoryDataStorage, SledDataStorage};
use oca_rs::Facade;
use simcore::rng::{derive, Rng};
use simcore::sched::set_in_sim;
use simcore::with_world;
use simcore::world::{Fault, FaultKind, Seam, SeamRec};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub const BUDGET: usize = 400_000;
pub const AUDIT_OP: usize = 9_000_000;
pub const OPEN_OP: usize = 8_000_000;
/// Operations of the final round (repeated builds after a burst).
pub const RETRY_OP: usize = 7_000_000;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Finding {
    pub props: Vec<String>,
    pub kind: String,
    pub subject: String,
    pub detail: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub known: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Info {
    pub mb: MBundle,
    pub chain: Vec<String>,
    pub records: Vec<crate::prov::Record>,
}

#[derive(Default, Clone)]
pub struct Model {
    pub acked: BTreeMap<String, Arc<Info>>,
    /// Results of attempts that were not acknowledged (yet).
    pub limbo: BTreeMap<String, Arc<Info>>,
    /// Everything any attempt may have stored: final and intermediate bundles.
    pub known: BTreeMap<String, Arc<MBundle>>,
    pub names: BTreeMap<String, String>,
    pub name_limbo: BTreeMap<String, BTreeSet<String>>,
    pub results: BTreeMap<usize, String>,
    pub provenance: crate::prov::Provenance,
}

impl Resolve for Model {
    fn said(&self, r: &Ref) -> Option<String> {
        match r {
            Ref::Op(i) => self.results.get(i).cloned(),
            Ref::Lit(s) => Some(s.clone()),
            Ref::Name(n) => {
                if self.name_limbo.get(n).is_some_and(|s| !s.is_empty()) {
                    None
                } else {
                    self.names.get(n).cloned()
                }
            }
        }
    }
}

pub struct Planned {
    pub text: String,
    pub steps: Vec<MBundle>,
    pub last: MBundle,
    pub records: Vec<crate::prov::Record>,
}

/// Names resolved from outside (validation against external references).
pub struct External<'a>(pub &'a Model, pub BTreeMap<String, String>);
impl Resolve for External<'_> {
    fn said(&self, r: &Ref) -> Option<String> {
        match r {
            Ref::Name(n) => self.1.get(n).cloned(),
            x => self.0.said(x),
        }
    }
}

pub const DIVERGED: &str = "diverged";

/// A name that may have been bound anew by an attempt that did not report success.
struct Rebound<'a>(&'a Model, &'a str, String);
impl Resolve for Rebound<'_> {
    fn said(&self, r: &Ref) -> Option<String> {
        match r {
            Ref::Name(n) if n == self.1 => Some(self.2.clone()),
            x => self.0.said(x),
        }
    }
}

impl Model {
    /// Text and expected result of a valid document; None if it cannot be valid here.
    pub fn plan(&self, doc: &Doc) -> Option<Planned> {
        self.plan_with(doc, self)
    }
    pub fn plan_with(&self, doc: &Doc, res: &dyn Resolve) -> Option<Planned> {
        let mut content = Content::default();
        let mut last = None;
        if let Some(b) = &doc.base {
            let said = self.said(b)?;
            let info = self.known.get(&said)?;
            content = info.content.clone();
            last = Some((**info).clone());
        } else if doc.cmds.is_empty() {
            return None;
        }
        let mut local: BTreeSet<&String> = BTreeSet::new();
        let mut local_class = false;
        let mut steps = vec![];
        for c in &doc.cmds {
            match c {
                Cmd::AddAttrs(v) => {
                    for (a, _) in v {
                        if !local.insert(a) {
                            return None;
                        }
                    }
                    if v.is_empty() {
                        return None;
                    }
                }
                Cmd::RemoveAttrs(v) => {
                    for a in v {
                        if !local.remove(a) {
                            return None;
                        }
                    }
                    if v.is_empty() {
                        return None;
                    }
                }
                Cmd::AddClass(_) => {
                    if local_class {
                        return None;
                    }
                    local_class = true;
                }
                Cmd::RemoveClass => {
                    if !local_class {
                        return None;
                    }
                    local_class = false;
                }
                Cmd::Label { attrs, .. } | Cmd::Info { attrs, .. } | Cmd::Plain { attrs, .. } | Cmd::Condition { attrs }
                    if attrs.is_empty() =>
                {
                    return None
                }
                Cmd::Link { attrs, .. } if attrs.is_empty() => return None,
                Cmd::EntryCode { attrs } if attrs.is_empty() => return None,
                Cmd::Entry { attrs, .. } if attrs.is_empty() => return None,
                Cmd::Framing { attrs, .. } if attrs.is_empty() => return None,
                Cmd::Meta { pairs, .. } if pairs.is_empty() => return None,
                _ => {}
            }
            content.apply(c, res)?;
            steps.push(content.bundle());
        }
        if let Some(s) = steps.last() {
            last = Some(s.clone());
        }
        let text = render(doc, res)?;
        let records = if self.provenance.wanted { crate::prov::records(doc, &steps, res) } else { vec![] };
        Some(Planned { text, steps, last: last?, records })
    }

    pub fn begin(&mut self, doc: &Doc, p: &Planned) -> Arc<Info> {
        for s in p.steps.iter().chain(std::iter::once(&p.last)) {
            self.known.entry(s.said.clone()).or_insert_with(|| Arc::new(s.clone()));
        }
        let info = Arc::new(Info {
            mb: p.last.clone(),
            chain: p.steps.iter().map(|s| s.said.clone()).collect(),
            records: p.records.clone(),
        });
        self.provenance.begin(&p.records);
        if !self.acked.contains_key(&p.last.said) {
            self.limbo.insert(p.last.said.clone(), info.clone());
        }
        if let Some(n) = &doc.name {
            if self.names.get(n) != Some(&p.last.said) {
                self.name_limbo.entry(n.clone()).or_default().insert(p.last.said.clone());
            }
        }
        info
    }
    pub fn ack(&mut self, op: usize, doc: &Doc, info: &Arc<Info>) {
        let said = info.mb.said.clone();
        self.limbo.remove(&said);
        self.provenance.ack(&info.records);
        self.acked.entry(said.clone()).or_insert_with(|| info.clone());
        self.results.insert(op, said.clone());
        if let Some(n) = &doc.name {
            self.names.insert(n.clone(), said);
            self.name_limbo.remove(n);
        }
    }
    /// Relations the acknowledged (and optionally the unfinished) bundles give an object.
    pub fn relations(&self, said: &str, limbo: bool) -> BTreeSet<(String, String)> {
        let mut out = BTreeSet::new();
        let mut add = |b: &MBundle| {
            if b.said == said {
                for (s, k) in b.objects().into_iter().skip(1) {
                    out.insert((s, k));
                }
            } else if b.cb_said == said {
                out.insert((b.said.clone(), "OCABundle".into()));
                for o in &b.overlays {
                    out.insert((o.said.clone(), o.kind.to_string()));
                }
            } else if b.overlays.iter().any(|o| o.said == said) {
                out.insert((b.said.clone(), "OCABundle".into()));
                out.insert((b.cb_said.clone(), "CaptureBase".into()));
            }
        };
        for i in self.acked.values() {
            add(&i.mb);
        }
        if limbo {
            for i in self.limbo.values() {
                add(&i.mb);
            }
        }
        out
    }
    pub fn kind_of(&self, said: &str) -> Option<String> {
        for b in self.known.values() {
            for (s, k) in b.objects() {
                if s == said {
                    return Some(k);
                }
            }
        }
        None
    }
    pub fn closure(&self, said: &str) -> Option<BTreeSet<String>> {
        let mut out = BTreeSet::new();
        let mut todo = self.known.get(said)?.deps.clone();
        while let Some(d) = todo.pop() {
            if out.insert(d.clone()) {
                todo.extend(self.known.get(&d)?.deps.clone());
            }
        }
        Some(out)
    }
    pub fn candidates(&self, name: &str) -> BTreeSet<String> {
        let mut s: BTreeSet<String> = self.name_limbo.get(name).cloned().unwrap_or_default();
        if let Some(x) = self.names.get(name) {
            s.insert(x.clone());
        }
        s
    }
}

pub struct Called<R> {
    /// Err: the call panicked.
    pub res: Result<R, String>,
    pub crashed: Option<bool>,
    pub errs: bool,
    pub stalled: bool,
    pub cost: Cost,
}

/// Accesses of one call to the stores, weighted by what one access takes there.
#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub records: u64,
    /// Reads of whole namespaces.
    pub scans: u64,
    /// Operations on the files of the search database.
    pub search: u64,
    /// Bytes allocated.
    pub bytes: u64,
}

impl Cost {
    fn of(cfg: &Config, trace: &[SeamRec]) -> Cost {
        let mut c = Cost::default();
        let (mut db, mut cache) = (0u64, 0u64);
        for r in trace {
            match (r.seam, r.class.as_str()) {
                (Seam::KvGetAll, "db" | "cache") => c.scans += 1,
                (_, "db") => db += 1,
                (_, "cache") => cache += 1,
                (_, "search" | "journal") => c.search += 1,
                _ => {}
            }
        }
        c.records = db.div_ceil(weight(cfg.db)) + cache.div_ceil(weight(cfg.cache));
        c
    }
}

/// Operations that one access to a record takes at most.
fn weight(b: Backend) -> u64 {
    match b {
        Backend::Kv | Backend::Mem => 1,
        Backend::Sled => 4,
        Backend::Fs => 12,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct At {
    pub op: usize,
    pub attempt: usize,
}

pub struct Env {
    /// How many steps the histories seen have, and how long their results are.
    pub hist: BTreeMap<String, (usize, usize)>,
    pub spec: Arc<RunSpec>,
    pub facade: Option<Facade>,
    /// Files that calls of the facade have opened and not closed.
    pub left_open: i64,
    /// Where on the disk its stores are.
    pub root: String,
    /// Other facades of the process, which end with it.
    pub others: Vec<Option<Facade>>,
    pub m: Model,
    pub findings: Vec<Finding>,
    pub traces: BTreeMap<(usize, usize), Vec<SeamRec>>,
    pub keep_traces: bool,
    pub obs: BTreeMap<String, String>,
    pub crashes: usize,
    pub errors: usize,
    pub opens: usize,
    pub audits: usize,
    pub acks: usize,
    pub rejected: usize,
    pub queries: usize,
    pub skipped: usize,
    /// Builds that failed and are to be repeated after the burst.
    pub pending: Vec<(usize, Doc)>,
    pub rng: Rng,
    pub say: bool,
}

pub fn storage(b: Backend, which: &str) -> Box<dyn DataStorage> {
    let mut c = HashMap::new();
    c.insert("path".to_string(), format!("/simdisk/{which}"));
    match b {
        Backend::Fs => Box::new(FileSystemStorage::new().config(c)),
        Backend::Sled => Box::new(SledDataStorage::new().config(c)),
        Backend::Kv => Box::new(SimKv::named(which)),
        Backend::Mem => Box::new(InMemoryDataStorage::new()),
    }
}

pub fn durable(c: &Config) -> bool {
    c.db != Backend::Mem && c.cache != Backend::Mem && c.search_disk
}

pub fn open_facade(c: &Config, root: &str) -> Facade {
    let db = storage(c.db, &format!("{root}db"));
    let cache = storage(c.cache, &format!("{root}cache"));
    let mut s = oca_rs::repositories::SQLiteConfig::build();
    if c.search_disk {
        s = s.path(format!("/simdisk/{root}search").into());
    }
    Facade::new(db, cache, s.unwrap())
}

/// Directories that exist before the service is first started.
pub fn provision(root: &str) {
    with_world(|w| {
        if !root.is_empty() {
            w.fs.provision_dir(&format!("/simdisk/{}", root.trim_end_matches('/')));
        }
        for d in ["db", "cache", "search"] {
            w.fs.provision_dir(&format!("/simdisk/{root}{d}"));
        }
    });
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn short(s: &str) -> String {
    let mut t: String = s.chars().take(300).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    t
}

/// A storage error answered the call (as opposed to a crash).
fn is_err(f: &Fault) -> bool {
    matches!(f.kind, FaultKind::Err { .. } | FaultKind::Sticky { .. })
}

/// Names resolved by a table of the caller's.
pub struct Refs(BTreeMap<String, String>, Vec<(String, String)>);
impl Refs {
    pub fn none() -> Refs {
        Refs(BTreeMap::new(), vec![])
    }
}
impl oca_rs::facade::build::References for Refs {
    fn find(&self, r: &str) -> Option<String> {
        self.0.get(r).cloned()
    }
    fn save(&mut self, r: &str, v: String) {
        self.1.push((r.into(), v));
    }
}

impl Env {
    pub fn new(spec: Arc<RunSpec>) -> Env {
        let rng = Rng::new(derive(spec.seed, "audit"));
        let mut m = Model::default();
        m.provenance.wanted = spec.property == "C21";
        Env {
            spec,
            hist: BTreeMap::new(),
            facade: None,
            left_open: 0,
            root: String::new(),
            others: vec![],
            m,
            findings: vec![],
            traces: BTreeMap::new(),
            keep_traces: false,
            obs: BTreeMap::new(),
            crashes: 0,
            errors: 0,
            opens: 0,
            audits: 0,
            acks: 0,
            rejected: 0,
            queries: 0,
            skipped: 0,
            pending: vec![],
            rng,
            say: false,
        }
    }

    pub fn note(&self, s: impl FnOnce() -> String) {
        if self.say {
            let t = s();
            with_world(|w| w.log.push(t));
        }
    }

    /// Properties a wrong answer also concerns, given what happened so far.
    pub fn context(&self) -> Vec<String> {
        let mut v = vec![];
        if self.crashes > 0 {
            v.push("C01".into());
            v.push("C02".into());
        }
        if self.errors > 0 {
            v.push("C03".into());
            v.push("C04".into());
        }
        v
    }

    pub fn find(&mut self, props: &[&str], ctx: bool, kind: &str, subject: &str, detail: String) {
        let mut p: Vec<String> = props.iter().map(|s| s.to_string()).collect();
        if ctx {
            for x in self.context() {
                if !p.contains(&x) {
                    p.push(x);
                }
            }
        }
        let f = Finding {
            props: p,
            kind: kind.into(),
            subject: subject.into(),
            detail: short(&detail),
            known: None,
        };
        self.note(|| format!("  ** {} [{}] {}: {}", f.kind, f.props.join(","), f.subject, f.detail));
        self.findings.push(f);
    }
    pub fn find_known(&mut self, known: &str, props: &[&str], kind: &str, subject: &str, detail: String) {
        self.find(props, false, kind, subject, detail);
        self.findings.last_mut().unwrap().known = Some(known.to_string());
    }

    pub fn open(&mut self) -> bool {
        for k in 0..8 {
            with_world(|w| w.begin_call(OPEN_OP + self.opens, k, BUDGET));
            let cfg = self.spec.config.clone();
            let root = self.root.clone();
            let was = set_in_sim(true);
            let r = catch_unwind(AssertUnwindSafe(|| open_facade(&cfg, &root)));
            set_in_sim(was);
            let crash = with_world(|w| w.crash);
            if self.keep_traces {
                let t = with_world(|w| std::mem::take(&mut w.call.trace));
                self.traces.insert((OPEN_OP + self.opens, k), t);
            }
            if let Some(p) = crash {
                let was = set_in_sim(true);
                drop(r);
                self.others.iter_mut().for_each(|f| *f = None);
                set_in_sim(was);
                with_world(|w| w.restart(p));
                self.crashes += 1;
                continue;
            }
            match r {
                Ok(f) => {
                    self.facade = Some(f);
                    self.left_open = 0;
                    self.opens += 1;
                    return true;
                }
                Err(p) => {
                    let t = panic_text(p);
                    self.find(&["C04"], true, "cannot-open", "facade", format!("restart fails: {t}"));
                    return false;
                }
            }
        }
        self.find(&["C04"], true, "cannot-open", "facade", "restart keeps failing".into());
        false
    }

    pub fn close(&mut self) {
        with_world(|w| w.begin_call(OPEN_OP + 900_000, 0, BUDGET));
        let was = set_in_sim(true);
        self.facade = None;
        set_in_sim(was);
    }

    /// One request against the facade. A crash inside it is taken care of: restart, reopen.
    pub fn call<R>(&mut self, at: At, f: impl FnOnce(&mut Facade) -> R) -> Called<R> {
        let Some(mut fac) = self.facade.take() else {
            return Called {
                res: Err("no facade".into()),
                crashed: None,
                errs: true,
                stalled: false,
                cost: Cost::default(),
            };
        };
        with_world(|w| w.begin_call(at.op, at.attempt, BUDGET));
        let before = crate::alloc::bytes();
        let open = with_world(|w| w.fs.fds.len()) as i64;
        let was = set_in_sim(true);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut fac)));
        set_in_sim(was);
        let bytes = crate::alloc::bytes() - before;
        let keep = self.keep_traces && at.op < AUDIT_OP;
        let counted = self.spec.property == "C20";
        let (crash, errs, stalled, trace) = with_world(|w| {
            let t = if keep || counted { std::mem::take(&mut w.call.trace) } else { vec![] };
            (w.crash, w.call.fired.iter().any(is_err), w.stalled, t)
        });
        let cost = if counted { Cost { bytes, ..Cost::of(&self.spec.config, &trace) } } else { Cost::default() };
        if keep {
            self.traces.insert((at.op, at.attempt), trace);
        }
        if errs {
            self.errors += 1;
        }
        let res = r.map_err(panic_text);
        if let Some(p) = crash {
            let was = set_in_sim(true);
            drop(fac);
            set_in_sim(was);
            self.restart(p);
        } else {
            self.facade = Some(fac);
            let (now, records) = with_world(|w| {
                let file = |f: &&simcore::disk::OpenFile| matches!(w.fs.inodes.get(&f.ino), Some(simcore::disk::Node::File(_))) && !f.path.contains("/search");
                let records: Vec<String> = w.fs.fds.values().filter(file).map(|f| f.path.clone()).collect();
                (w.fs.fds.len() as i64, records)
            });
            self.left_open += now - open;
            // The search database comes with a journal or two, a file of a record is closed.
            let sled = self.spec.config.db == Backend::Sled || self.spec.config.cache == Backend::Sled;
            let records = if !sled { records } else { vec![] };
            if self.left_open > 4 || !records.is_empty() {
                let t = format!("the calls since the facade was opened left {} files open {records:?}", self.left_open);
                self.left_open = 0;
                self.find(&["C20", "C04"], true, "files-left-open", &format!("op {}", at.op), t);
            }
        }
        if stalled && crash.is_none() {
            self.find(
                &["C04", "C20"],
                true,
                "no-end",
                &format!("op {}", at.op),
                format!("the call does not end within {BUDGET} storage operations"),
            );
        }
        Called { res, crashed: crash, errs, stalled, cost }
    }

    /// A request concerned with `records` records may access the stores in proportion.
    pub fn afford<R>(&mut self, c: &Called<R>, what: &str, subject: &str, (records, bytes): (usize, usize), scans: u64) {
        if self.spec.property != "C20" || c.crashed.is_some() || c.stalled || c.res.is_err() {
            return;
        }
        // A build writes several records for each object and reads those related to it.
        let build = what == "costly-build";
        let most = if build { 20 * records + 40 } else { 6 * records + 20 } as u64;
        let most_search = 20 * records as u64 + 1000;
        let per_byte = match what {
            "costly-build" => 1200,
            "costly-page" => 2400,
            _ => 250,
        };
        let most_bytes = 6_000_000 + per_byte * bytes as u64;
        if c.cost.bytes > most_bytes {
            let t = format!("{} bytes allocated for a request concerned with {bytes} bytes in {records} records", c.cost.bytes);
            self.find(&["C20"], true, what, subject, t);
        }
        if c.cost.records > most || c.cost.scans > scans || c.cost.search > most_search {
            let t = format!(
                "{} accesses to records, {} reads of a whole namespace and {} operations on the search database for a request concerned with {records} records",
                c.cost.records, c.cost.scans, c.cost.search
            );
            self.find(&["C20"], true, what, subject, t);
        }
    }

    pub fn restart(&mut self, power: bool) {
        self.crashes += 1;
        let was = set_in_sim(true);
        self.others.iter_mut().for_each(|f| *f = None);
        set_in_sim(was);
        with_world(|w| w.restart(power));
        self.open();
    }

    fn faults_at(&self, op: usize, attempt: usize) -> bool {
        self.spec.faults.iter().any(|f| f.op == op && f.attempt == attempt)
    }

    // ------------------------------------------------------------ workload

    pub fn run_ops(&mut self, ops: &[Op]) {
        for (i, op) in ops.iter().enumerate() {
            if self.facade.is_none() {
                return;
            }
            self.note(|| format!("op {i}: {}", summary(op)));
            match op {
                Op::Noop => {}
                Op::Build(d) => self.do_build(i, d),
                Op::Reject { doc, why } => self.do_reject(i, doc, why),
                Op::Validate { doc, external } => self.do_validate(i, doc, external),
                Op::Query(q) if self.spec.property == "C14" => {
                    // Looking changes nothing.
                    let before = self.dump();
                    self.do_query(i, q);
                    if self.facade.is_some() {
                        let after = self.dump();
                        self.compare_dump("C14", "query", &before, &after);
                    }
                }
                Op::Query(q) => self.do_query(i, q),
                Op::Crash { power } => {
                    if durable(&self.spec.config) {
                        let was = set_in_sim(true);
                        with_world(|w| {
                            w.begin_call(OPEN_OP + 800_000, 0, BUDGET);
                            w.freeze();
                        });
                        self.facade = None;
                        set_in_sim(was);
                        with_world(|w| {
                            *w.fired.entry(if *power { "idle_power_loss" } else { "idle_kill" }.into()).or_insert(0) += 1
                        });
                        self.restart(*power);
                        self.audit();
                    }
                }
                Op::Reopen => {
                    if durable(&self.spec.config) {
                        self.close();
                        with_world(|w| *w.fired.entry("orderly_restart".into()).or_insert(0) += 1);
                        self.open();
                    }
                }
            }
            if self.spec.audit_each && !matches!(op, Op::Noop) {
                self.audit();
            }
        }
        let pending = std::mem::take(&mut self.pending);
        for (i, d) in pending {
            if self.facade.is_none() {
                return;
            }
            if self.m.results.contains_key(&i) {
                continue;
            }
            self.note(|| format!("op {i} again"));
            self.build_attempts(i, &d, RETRY_OP + i);
        }
        if self.facade.is_some() {
            self.audit();
            self.observe();
        }
        if self.facade.is_some() {
            self.close();
        }
    }

    pub fn do_build(&mut self, i: usize, d: &Doc) {
        self.build_attempts(i, d, i);
    }

    pub fn build_attempts(&mut self, i: usize, d: &Doc, opid: usize) {
        let Some(p) = self.m.plan(d) else {
            self.skipped += 1;
            self.note(|| "  (skipped: not applicable here)".into());
            return;
        };
        let info = self.m.begin(d, &p);
        // An OCAFile that uses the name it declares may mean its own result when repeated.
        let mut ways = vec![(p, info)];
        for attempt in 0..8 {
            if let (1.., Some(n)) = (attempt, &d.name) {
                let said = ways.last().unwrap().0.last.said.clone();
                if let Some(q) = self.m.plan_with(d, &Rebound(&self.m, n, said)) {
                    if ways.iter().all(|w| w.0.last.said != q.last.said) {
                        let info = self.m.begin(d, &q);
                        ways.push((q, info));
                    }
                }
            }
            let at = At { op: opid, attempt };
            let text = ways[0].0.text.clone();
            let split = d.name.is_none() && d.style & SPLIT != 0;
            let names = if split { self.m.names.clone() } else { BTreeMap::new() };
            let c = self.call(at, |f| {
                let built = if split {
                    use oca_rs::facade::build::Error::ValidationError;
                    let checked = f.validate_ocafile_with_external_references(text, &mut Refs(names, vec![]));
                    checked.map_err(ValidationError).and_then(|b| f.build(&b))
                } else {
                    f.build_from_ocafile(text)
                };
                built
                    .map(|b| (b.said.clone().map(|s| s.to_string()), encode(&b)))
                    .map_err(|e| format!("{e:?}"))
            });
            let steps = |p: &Planned| p.steps.iter().chain([&p.last]).map(|b| 2 + b.overlays.len()).sum::<usize>();
            let names = ways[0].0.text.matches("ref").count();
            let records = ways.iter().map(|w| steps(&w.0)).max().unwrap_or(0) + names;
            let long = |p: &Planned| p.steps.iter().chain([&p.last]).map(|b| b.json.len()).sum::<usize>();
            let bytes = ways.iter().map(|w| long(&w.0)).max().unwrap_or(0) + ways[0].0.text.len();
            self.afford(&c, "costly-build", &ways[0].0.last.said.clone(), (records, bytes), 0);
            let next_faulted = self.faults_at(opid, attempt + 1);
            if let Some(power) = c.crashed {
                self.note(|| format!("  attempt {attempt}: {} and restart", if power { "power loss" } else { "kill" }));
                if self.facade.is_none() {
                    return;
                }
                if !next_faulted {
                    self.audit();
                }
                continue;
            }
            match c.res {
                Ok(Ok((said, json))) => {
                    self.note(|| format!("  attempt {attempt}: ok {}", said.clone().unwrap_or_default()));
                    let k = ways.iter().position(|w| said.as_deref() == Some(w.0.last.said.as_str())).unwrap_or(0);
                    let (p, info) = ways.swap_remove(k);
                    if k > 0 {
                        // From here on another history than the undisturbed one.
                        self.obs.insert(DIVERGED.into(), String::new());
                    }
                    if said.as_deref() != Some(p.last.said.as_str()) || json != p.last.json {
                        let props: &[&str] = if p.text.contains("refn:") { &["C06", "C05", "C08"] } else { &["C06", "C05"] };
                        self.find(
                            props,
                            false,
                            "wrong-result",
                            &p.last.said,
                            diff("build result", &p.last.json, &json),
                        );
                        // The store now holds something the model does not know.
                        self.facade = None;
                        return;
                    }
                    self.m.ack(i, d, &info);
                    self.acks += 1;
                    if let Some(b) = &d.alien_base {
                        self.find_known(
                            "unknown-base-accepted",
                            &["C14"],
                            "accepted",
                            "unknown base",
                            format!("FROM {b}, which is not stored, is built as if there were no base"),
                        );
                    }
                    if c.errs {
                        self.audit();
                        if self.spec.property == "C03" && durable(&self.spec.config) {
                            // Everything the success promises is in place, also after a power loss.
                            self.note(|| "  (power loss)".into());
                            let was = set_in_sim(true);
                            with_world(|w| {
                                w.begin_call(OPEN_OP + 800_000, 0, BUDGET);
                                w.freeze()
                            });
                            self.facade = None;
                            set_in_sim(was);
                            self.restart(true);
                            if self.facade.is_some() {
                                self.audit();
                            }
                        }
                    }
                    return;
                }
                other => {
                    let (how, text) = match other {
                        Err(p) => ("panic", p),
                        Ok(Err(e)) => ("error", e),
                        _ => unreachable!(),
                    };
                    self.note(|| format!("  attempt {attempt}: {how}: {}", short(&text)));
                    if c.errs {
                        if !next_faulted {
                            self.audit();
                        }
                        if self.spec.defer_retries {
                            self.pending.push((i, d.clone()));
                            return;
                        }
                        continue;
                    }
                    if d.alien_base.is_some() && how == "error" {
                        self.rejected += 1;
                        for (w, _) in &ways {
                            self.m.limbo.remove(&w.last.said);
                        }
                        return;
                    }
                    let props: &[&str] = if how == "panic" { &["C06", "C04"] } else { &["C06"] };
                    self.find(props, true, "build-refused", &ways[0].0.last.said, format!("{how} on a valid OCAFile: {text}"));
                    for (w, _) in &ways {
                        self.m.limbo.remove(&w.last.said);
                    }
                    return;
                }
            }
        }
        self.find(&["C04"], true, "build-refused", &ways[0].0.last.said, "the build keeps failing after the faults stopped".into());
    }

    fn do_reject(&mut self, i: usize, d: &Doc, why: &str) {
        let text = match render(d, &self.m) {
            Some(t) => t,
            None => {
                self.skipped += 1;
                return;
            }
        };
        let before = self.dump();
        for attempt in 0..3 {
            let t = text.clone();
            let c = self.call(At { op: i, attempt }, |f| {
                f.build_from_ocafile(t).map(|b| b.said.map(|s| s.to_string())).map_err(|e| format!("{e:?}"))
            });
            let done = match (&c.res, c.crashed) {
                (_, Some(_)) => false,
                (Ok(Err(e)), None) => {
                    self.note(|| format!("  rejected: {}", short(e)));
                    self.rejected += 1;
                    true
                }
                (Ok(Ok(s)), None) => {
                    // Only known after the fact: the store has changed, nothing more can be said.
                    self.find(&["C14"], false, "accepted", why, format!("invalid OCAFile built as {s:?}: {t}", t = short(&text)));
                    self.facade = None;
                    return;
                }
                (Err(p), None) => {
                    self.find(&["C14", "C04"], false, "reject-panics", why, format!("{p}: {}", short(&text)));
                    true
                }
            };
            if self.facade.is_none() {
                return;
            }
            let after = self.dump();
            self.compare_dump("C14", why, &before, &after);
            if done && self.spec.property == "C14" {
                let n = self.rng.range(2, 16);
                self.look_at_damaged(&text, None, n);
                if self.facade.is_none() {
                    return;
                }
            }
            self.audit();
            if done {
                return;
            }
        }
    }

    fn do_validate(&mut self, i: usize, d: &Doc, external: &[(String, Ref)]) {
        let mut names = BTreeMap::new();
        for (n, r) in external {
            match self.m.said(r) {
                Some(s) => {
                    names.insert(n.clone(), s);
                }
                None => {
                    self.skipped += 1;
                    return;
                }
            }
        }
        let ext = External(&self.m, names.clone());
        let text = match render_ext(d, &self.m, &names) {
            Some(t) => t,
            None => {
                self.skipped += 1;
                return;
            }
        };
        let expect = self.m.plan_with(d, &ext).map(|p| p.last);
        let before = self.dump();
        let t = text.clone();
        let c = self.call(At { op: i, attempt: 0 }, |f| {
            let mut refs = Refs(names, vec![]);
            f.validate_ocafile_with_external_references(t, &mut refs)
                .map(|b| encode(&b.oca_bundle))
                .map_err(|e| format!("{e:?}"))
        });
        if self.facade.is_none() {
            return;
        }
        if c.crashed.is_none() {
            match (&c.res, &expect) {
                (Ok(Ok(j)), Some(e)) if *j == e.json => {}
                (Ok(Ok(j)), Some(e)) => {
                    let d = diff("validation result", &e.json, j);
                    self.find(&["C06", "C05"], true, "wrong-validation", &e.said, d);
                }
                (Ok(Ok(_)), None) => {}
                (Ok(Err(_)), _) if c.errs || expect.is_none() => {}
                (Ok(Err(e)), _) => {
                    self.find(&["C14"], true, "validation-refused", &format!("op {i}"), format!("{e}: {}", short(&text)))
                }
                (Err(p), _) => {
                    if !c.errs {
                        self.find(&["C14", "C04"], false, "validation-panics", &format!("op {i}"), format!("{p}: {}", short(&text)))
                    }
                }
            }
        }
        let after = self.dump();
        self.compare_dump("C14", "validation", &before, &after);
        if self.spec.property == "C14" {
            let n = self.rng.range(2, 16);
            self.look_at_damaged(&text, None, n);
            if self.facade.is_none() {
                return;
            }
        }
        self.audit();
    }

    /// Damaged versions of a text are refused or mean something else: validating one neither
    /// panics nor leaves anything.
    pub fn look_at_damaged(&mut self, text: &str, said: Option<&str>, n: usize) {
        let before = self.dump();
        for _ in 0..n {
            let t = crate::load::garble(&mut self.rng, text);
            let sent = t.clone();
            let c = self.call(At { op: AUDIT_OP + 500_000, attempt: 0 }, |f| {
                let _ = oca_file::ocafile::parse_from_string(t.clone());
                f.validate_ocafile_with_external_references(t, &mut Refs::none())
                    .map(|b| (b.oca_bundle.said.clone().map(|s| s.to_string()), encode(&b.oca_bundle)))
                    .map_err(|e| format!("{e:?}"))
            });
            crate::load::count("text_garbled");
            match c.res {
                Err(p) => self.find(&["C14", "C04"], false, "garbled-panics", "garbled text", format!("{p}: {sent}")),
                Ok(Ok((Some(s), json))) if Some(s.as_str()) == said => {
                    let want = self.m.known.get(&s).map(|k| k.json.clone());
                    if want.as_ref().is_some_and(|w| *w != json) {
                        let d = diff("garbled text", &want.unwrap_or_default(), &json);
                        self.find(&["C06"], false, "garbled-differs", &s, d);
                    }
                }
                _ => {}
            }
            if self.facade.is_none() {
                return;
            }
        }
        let after = self.dump();
        self.compare_dump("C14", "garbled text", &before, &after);
    }

    fn compare_dump(&mut self, prop: &str, why: &str, a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) {
        if a == b {
            return;
        }
        let mut d = String::new();
        for (k, v) in b {
            match a.get(k) {
                None => d.push_str(&format!("added {k}; ")),
                Some(x) if x != v => d.push_str(&format!("changed {k}; ")),
                _ => {}
            }
        }
        for k in a.keys() {
            if !b.contains_key(k) {
                d.push_str(&format!("removed {k}; "));
            }
        }
        self.find(&[prop], false, "store-changed", why, d);
    }

    /// Every record of both key-value stores, read without passing the fault seam where possible.
    pub fn dump(&mut self) -> BTreeMap<String, Vec<u8>> {
        let mut out = BTreeMap::new();
        for (b, which) in [(self.spec.config.db, "db"), (self.spec.config.cache, "cache")] {
            let place = format!("{}{which}", self.root);
            match b {
                Backend::Kv => with_world(|w| {
                    if let Some(m) = w.kv.get(place.as_str()) {
                        for (ns, t) in m {
                            for (k, v) in t {
                                out.insert(format!("{which}/{ns}/{}", String::from_utf8_lossy(k)), v.clone());
                            }
                        }
                    }
                }),
                Backend::Sled => with_world(|w| {
                    if let Some(s) = w.sled.get(&format!("/simdisk/{place}")) {
                        for (t, m) in &s.cur {
                            for (k, v) in m {
                                out.insert(
                                    format!("{which}/{}/{}", String::from_utf8_lossy(t), String::from_utf8_lossy(k)),
                                    v.clone(),
                                );
                            }
                        }
                    }
                }),
                Backend::Fs => {
                    use oca_rs::data_storage::Namespace as N;
                    let st = storage(Backend::Fs, &place);
                    let all: [(fn() -> N, &str); 6] = [
                        (|| N::OCA, "oca"),
                        (|| N::OCABundlesJSON, "oca_bundles_json"),
                        (|| N::OCAObjectsJSON, "oca_objects_json"),
                        (|| N::CoreModel, "core_model"),
                        (|| N::OCARelations, "oca_relations"),
                        (|| N::OCAReferences, "oca_refs"),
                    ];
                    for (ns, name) in all {
                        with_world(|w| w.begin_call(AUDIT_OP + 500_000, 0, BUDGET));
                        let was = set_in_sim(true);
                        let r = catch_unwind(AssertUnwindSafe(|| st.get_all(ns())));
                        set_in_sim(was);
                        match r {
                            Ok(Ok(m)) => {
                                for (k, v) in m {
                                    out.insert(format!("{which}/{name}/{k}"), v);
                                }
                            }
                            _ => with_world(|w| {
                                for (k, v) in w.fs.dump(&format!("/simdisk/{place}/{name}")) {
                                    out.insert(format!("{which}/{name}/{k}"), v);
                                }
                            }),
                        }
                    }
                }
                Backend::Mem => {}
            }
        }
        out
    }
}

pub fn encode(b: &oca_bundle_semantics::state::oca::OCABundle) -> String {
    use oca_rs::facade::{Encode, HashFunctionCode, SerializationFormats};
    match b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON) {
        Ok(v) => String::from_utf8(v).unwrap_or_else(|_| "not UTF-8".into()),
        Err(e) => format!("not encodable: {e}"),
    }
}

pub fn diff(what: &str, want: &str, got: &str) -> String {
    // The leading version and digest differ whenever anything does.
    let skip = if want.starts_with("{\"v\"") && got.starts_with("{\"v\"") && want.len() > 80 && got.len() > 80 { 80 } else { 0 };
    let i = skip
        + want.bytes().skip(skip).zip(got.bytes().skip(skip)).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let mut a = i.saturating_sub(40);
        while !s.is_char_boundary(a) {
            a -= 1;
        }
        let mut b = (i + 90).min(s.len());
        while !s.is_char_boundary(b) {
            b += 1;
        }
        s.get(a.min(s.len())..b).unwrap_or("").to_string()
    };
    format!("{what} differs at byte {i}: expected …{}… got …{}…", cut(want), cut(got))
}

/// Renders a document whose names are resolved by the caller of the validation.
fn render_ext(d: &Doc, m: &Model, _names: &BTreeMap<String, String>) -> Option<String> {
    render(d, m)
}

pub fn summary(op: &Op) -> String {
    let s = serde_json::to_string(op).unwrap_or_default();
    short(&s)
}
