//! Storage backends against a reference map (C11), under crashes and disk errors.
use crate::exec::*;
use crate::run::RunResult;
use crate::spec::*;
use oca_rs::data_storage::{DataStorage, Namespace};
use simcore::sched::set_in_sim;
use simcore::with_world;
use simcore::world::{FaultKind, SeamRec};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

const DIR: &str = "/simdisk/db";
const NS: [&str; 6] = ["oca", "oca_bundles_json", "oca_objects_json", "core_model", "oca_relations", "oca_refs"];

fn ns(i: usize) -> Namespace {
    match i % 6 {
        0 => Namespace::OCA,
        1 => Namespace::OCABundlesJSON,
        2 => Namespace::OCAObjectsJSON,
        3 => Namespace::CoreModel,
        4 => Namespace::OCARelations,
        _ => Namespace::OCAReferences,
    }
}

type Val = Option<Vec<u8>>;

struct S {
    spec: RunSpec,
    backend: Backend,
    handles: Vec<Box<dyn DataStorage>>,
    /// What may be read: one value once a write is acknowledged.
    model: BTreeMap<(usize, String), BTreeSet<Val>>,
    out: RunResult,
    opens: usize,
    say: bool,
    keep: bool,
    provisioned: BTreeSet<String>,
}

struct Done<R> {
    res: Result<R, String>,
    crashed: bool,
    errs: bool,
    stalled: bool,
}

fn show(v: &Val) -> String {
    match v {
        None => "nothing".into(),
        Some(b) => {
            let t = String::from_utf8_lossy(&b[..b.len().min(24)]).to_string();
            format!("{t:?} ({} bytes)", b.len())
        }
    }
}

impl S {
    fn find(&mut self, kind: &str, subject: &str, detail: String) {
        let f = Finding {
            props: vec!["C11".into()],
            kind: kind.into(),
            subject: short(subject),
            detail: short(&detail),
            known: None,
        };
        if self.say {
            let t = format!("  ** {} {}: {}", f.kind, f.subject, f.detail);
            with_world(|w| w.log.push(t));
        }
        self.out.findings.push(f);
    }
    fn note(&self, t: String) {
        if self.say {
            with_world(|w| w.log.push(t));
        }
    }
    fn open(&mut self) {
        for k in 0..6 {
            with_world(|w| w.begin_call(OPEN_OP + self.opens, k, BUDGET));
            let b = self.backend;
            let was = set_in_sim(true);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let s = storage(b, "db");
                let c = dyn_clone(&s);
                vec![s, c]
            }));
            set_in_sim(was);
            let (crash, trace) = with_world(|w| (w.crash, std::mem::take(&mut w.call.trace)));
            if self.keep {
                self.out.traces.insert((OPEN_OP + self.opens, k), trace);
            }
            if let Some(p) = crash {
                let was = set_in_sim(true);
                drop(r);
                set_in_sim(was);
                with_world(|w| w.restart(p));
                self.out.crashes += 1;
                continue;
            }
            match r {
                Ok(v) => {
                    self.handles = v;
                    self.opens += 1;
                    return;
                }
                Err(p) => {
                    self.find("cannot-open", "backend", panic_text(p));
                    return;
                }
            }
        }
    }
    fn drop_handles(&mut self) {
        let was = set_in_sim(true);
        self.handles.clear();
        set_in_sim(was);
    }
    fn call<R>(&mut self, op: usize, attempt: usize, h: usize, f: impl FnOnce(&mut Box<dyn DataStorage>) -> R) -> Done<R> {
        if self.handles.is_empty() {
            return Done { res: Err("not open".into()), crashed: false, errs: true, stalled: false };
        }
        let h = h % self.handles.len();
        let mut handles = std::mem::take(&mut self.handles);
        with_world(|w| w.begin_call(op, attempt, BUDGET));
        let was = set_in_sim(true);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut handles[h])));
        set_in_sim(was);
        let (crash, errs, stalled, trace): (_, _, _, Vec<SeamRec>) = with_world(|w| {
            (
                w.crash,
                w.call.fired.iter().any(|f| matches!(f.kind, FaultKind::Err { .. } | FaultKind::Sticky { .. })),
                w.stalled,
                std::mem::take(&mut w.call.trace),
            )
        });
        if self.keep && op < AUDIT_OP {
            self.out.traces.insert((op, attempt), trace);
        }
        if errs {
            self.out.errors += 1;
        }
        self.handles = handles;
        if let Some(p) = crash {
            self.drop_handles();
            self.out.crashes += 1;
            with_world(|w| w.restart(p));
            self.open();
        } else if stalled {
            self.find("no-end", &format!("op {op}"), format!("does not end within {BUDGET} storage operations"));
        }
        Done { res: r.map_err(panic_text), crashed: crash.is_some(), errs, stalled }
    }

    fn cand(&self, n: usize, k: &str) -> BTreeSet<Val> {
        self.model.get(&(n, k.to_string())).cloned().unwrap_or_else(|| BTreeSet::from([None]))
    }
    /// A name this long may be refused by the file system.
    fn long(&self, k: &str) -> bool {
        // However the special characters are written.
        let room: usize = k.bytes().map(|b| if b.is_ascii_alphanumeric() || b"._-".contains(&b) { 1 } else { 3 }).sum();
        self.backend == Backend::Fs && room > 245
    }

    fn get(&mut self, at: (usize, usize), n: usize, k: &str, h: usize) {
        let key = k.to_string();
        let d = self.call(at.0, at.1, h, |s| s.get(ns(n), &key));
        if d.crashed || d.stalled {
            return;
        }
        let cand = self.cand(n, k);
        let subject = format!("{}/{k:?}", NS[n % 6]);
        match d.res {
            Ok(Ok(v)) => {
                if !cand.contains(&v) {
                    let c: Vec<String> = cand.iter().map(show).collect();
                    let kind = if v.is_none() && d.errs {
                        "absence-for-error"
                    } else if v.is_none() {
                        "lost"
                    } else {
                        "wrong-value"
                    };
                    self.find(kind, &subject, format!("read {}, expected {}", show(&v), c.join(" or ")));
                }
            }
            Ok(Err(e)) => {
                if !d.errs && !self.long(k) {
                    self.find("read-refused", &subject, e);
                }
            }
            Err(p) => self.find("read-panics", &subject, p),
        }
    }

    fn all(&mut self, at: (usize, usize), n: usize, h: usize) {
        let d = self.call(at.0, at.1, h, |s| s.get_all(ns(n)).map(|m| m.into_iter().collect::<BTreeMap<_, _>>()));
        if d.crashed || d.stalled {
            return;
        }
        let subject = NS[n % 6].to_string();
        match d.res {
            Ok(Ok(m)) => {
                let mut keys: BTreeSet<String> = m.keys().cloned().collect();
                keys.extend(self.model.keys().filter(|x| x.0 == n % 6).map(|x| x.1.clone()));
                for k in keys {
                    let v = m.get(&k).cloned();
                    let cand = self.cand(n % 6, &k);
                    if !cand.contains(&v) {
                        let c: Vec<String> = cand.iter().map(show).collect();
                        let kind = if v.is_none() { "all-misses" } else { "all-wrong" };
                        let kind = if d.errs { format!("{kind}-on-error") } else { kind.to_string() };
                        self.find(&kind, &format!("{subject}/{k:?}"), format!("listed {}, expected {}", show(&v), c.join(" or ")));
                    }
                }
            }
            Ok(Err(e)) => {
                if !d.errs {
                    self.find("all-refused", &subject, e);
                }
            }
            Err(p) => self.find("all-panics", &subject, p),
        }
    }

    fn audit(&mut self) {
        self.out.audits += 1;
        let keys: Vec<(usize, String)> = self.model.keys().cloned().collect();
        for (n, k) in keys {
            for h in 0..2 {
                if self.backend == Backend::Mem && h == 1 {
                    continue;
                }
                self.get((AUDIT_OP + self.out.audits, 0), n, &k, h);
            }
            // The same key elsewhere is another record.
            self.get((AUDIT_OP + self.out.audits, 0), (n + 1) % 6, &k, 0);
        }
        for n in 0..6 {
            self.all((AUDIT_OP + self.out.audits, 0), n, 0);
        }
    }

    fn put(&mut self, i: usize, n: usize, k: &str, v: &[u8], h: usize) {
        for attempt in 0..5 {
            let cand = self.cand(n, k);
            let (key, val) = (k.to_string(), v.to_vec());
            let mut m = cand.clone();
            m.insert(Some(v.to_vec()));
            self.model.insert((n, k.to_string()), m);
            let d = self.call(i, attempt, h, |s| s.insert(ns(n), &key, &val));
            let subject = format!("{}/{k:?}", NS[n % 6]);
            if d.crashed {
                self.audit();
                continue;
            }
            match d.res {
                Ok(Ok(())) => {
                    self.out.acks += 1;
                    self.model.insert((n, k.to_string()), BTreeSet::from([Some(v.to_vec())]));
                    if d.errs {
                        self.audit();
                    }
                    return;
                }
                Ok(Err(e)) => {
                    if !d.errs {
                        if self.long(k) {
                            // Refused as a whole.
                            self.model.insert((n, k.to_string()), cand);
                        } else {
                            self.find("write-refused", &subject, e);
                        }
                        return;
                    }
                    self.audit();
                    if self.spec.defer_retries {
                        return;
                    }
                }
                Err(p) => {
                    self.find("write-panics", &subject, p);
                    return;
                }
            }
        }
    }

    fn contained(&mut self) {
        if self.backend != Backend::Fs {
            return;
        }
        let bad: Vec<(String, bool)> = with_world(|w| {
            w.fs.touched
                .iter()
                .filter(|(p, _)| {
                    let p = p.as_str();
                    !(p == DIR || p.starts_with("/simdisk/db/") || p == "/dev/urandom" || p == "/simdisk" || p == "/")
                })
                .map(|(p, m)| (p.clone(), *m))
                .collect()
        });
        for (p, m) in bad {
            self.find("outside", &p, if m { "modified outside of the directory".into() } else { "accessed outside of the directory".into() });
        }
        let top: Vec<String> = with_world(|w| w.fs.dump("/simdisk").keys().map(|k| k.split('/').next().unwrap_or("").to_string()).collect());
        for t in top.into_iter().collect::<BTreeSet<_>>() {
            if !t.is_empty() && t != "db" && !self.provisioned.contains(&t) {
                self.find("outside", &t, "created outside of the directory".into());
            }
        }
    }
}

fn dyn_clone(s: &Box<dyn DataStorage>) -> Box<dyn DataStorage> {
    s.clone()
}

pub fn run(spec: &RunSpec, backend: Backend, ops: &[StoreOp], say: bool, traces: bool) -> RunResult {
    with_world(|w| {
        w.fs.provision_dir(DIR);
        w.fs.provision_dir("/simdisk/other");
    });
    let mut s = S {
        spec: spec.clone(),
        backend,
        handles: vec![],
        model: BTreeMap::new(),
        out: RunResult::default(),
        opens: 0,
        say,
        keep: traces,
        provisioned: BTreeSet::from(["other".to_string()]),
    };
    s.open();
    let durable = backend != Backend::Mem;
    for (i, op) in ops.iter().enumerate() {
        if s.handles.is_empty() {
            break;
        }
        s.note(format!("op {i}: {}", short(&serde_json::to_string(op).unwrap_or_default())));
        match op {
            StoreOp::Noop => {}
            StoreOp::Put { ns, key, val, handle } => {
                let h = if durable { *handle } else { 0 };
                s.put(i, ns % 6, key, val, h)
            }
            StoreOp::Get { ns, key, handle } => {
                let h = if durable { *handle } else { 0 };
                s.get((i, 0), ns % 6, key, h)
            }
            StoreOp::All { ns, handle } => {
                let h = if durable { *handle } else { 0 };
                s.all((i, 0), ns % 6, h)
            }
            StoreOp::Crash { power } => {
                if durable {
                    with_world(|w| {
                        w.begin_call(OPEN_OP + 800_000, 0, BUDGET);
                        w.freeze();
                        *w.fired.entry(if *power { "idle_power_loss" } else { "idle_kill" }.into()).or_insert(0) += 1;
                    });
                    s.drop_handles();
                    s.out.crashes += 1;
                    with_world(|w| w.restart(*power));
                    s.open();
                    s.audit();
                }
            }
            StoreOp::Reopen => {
                if durable {
                    with_world(|w| {
                        w.begin_call(OPEN_OP + 900_000, 0, BUDGET);
                        *w.fired.entry("orderly_restart".into()).or_insert(0) += 1;
                    });
                    s.drop_handles();
                    s.open();
                    s.audit();
                }
            }
        }
    }
    if !s.handles.is_empty() {
        s.audit();
    }
    with_world(|w| w.begin_call(OPEN_OP + 900_001, 0, BUDGET));
    s.drop_handles();
    s.contained();
    s.out
}
