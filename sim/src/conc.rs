//! Several facades at work on one store, every interleaving chosen by the scheduler (C12).
use crate::exec::*;
use crate::run::{finish, RunResult};
use crate::spec::*;
use crate::views::*;
use oca_rs::data_storage::DataStorage;
use oca_rs::repositories::SQLiteConfig;
use oca_rs::Facade;
use simcore::sched::{run_tasks, set_in_sim, Policy};
use simcore::with_world;
use simcore::world::FaultKind;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub const CONC_OP: usize = 6_000_000;
const CONC_BUDGET: usize = 400_000;

/// Global number of an operation of a task.
pub fn opnum(task: usize, j: usize) -> usize {
    (task + 1) * 100 + j
}

struct Rec {
    said: String,
    name: Option<String>,
    start: u64,
    /// Acknowledged at.
    end: Option<u64>,
}

#[derive(Default)]
struct Shared {
    clock: u64,
    recs: BTreeMap<usize, Rec>,
    infos: BTreeMap<usize, Arc<Info>>,
    findings: Vec<(String, String, String)>,
    log: Vec<String>,
    queries: usize,
    errors: usize,
    put_off: BTreeSet<usize>,
}

type Sh = Arc<Mutex<Shared>>;

struct Job {
    op: usize,
    what: What,
}
enum What {
    Build { text: String, info: Arc<Info>, name: Option<String>, base: Option<String> },
    Query(Query, Option<String>),
}

struct Ctx {
    sh: Sh,
    setup: Model,
    say: bool,
}

/// An error was injected somewhere or the process is dying.
fn disturbed() -> bool {
    with_world(|w| {
        w.frozen
            || w.stalled
            || w.call.fired.iter().any(|f| matches!(f.kind, FaultKind::Err { .. } | FaultKind::Sticky { .. }))
    })
}
fn frozen() -> bool {
    with_world(|w| w.frozen || w.crash.is_some())
}

impl Ctx {
    fn tick(&self) -> u64 {
        let mut s = self.sh.lock().unwrap();
        s.clock += 1;
        s.clock
    }
    fn find(&self, kind: &str, subject: &str, detail: String) {
        let mut s = self.sh.lock().unwrap();
        if self.say {
            let t = format!("  ** {kind} {subject}: {detail}");
            s.log.push(t.clone());
            drop(s);
            with_world(|w| w.log.push(t));
            s = self.sh.lock().unwrap();
        }
        s.findings.push((kind.into(), subject.into(), detail));
    }
    fn note(&self, t: impl FnOnce() -> String) {
        if self.say {
            let t = t();
            with_world(|w| w.log.push(t));
        }
    }
    /// Bundles acknowledged before `t` / begun up to now.
    fn bounds(&self, t: u64) -> (BTreeMap<String, Arc<Info>>, BTreeMap<String, Arc<Info>>) {
        let s = self.sh.lock().unwrap();
        let mut low: BTreeMap<String, Arc<Info>> = self.setup.acked.clone();
        let mut high = low.clone();
        for (op, r) in &s.recs {
            let i = s.infos[op].clone();
            if r.end.is_some_and(|e| e < t) {
                low.insert(r.said.clone(), i.clone());
            }
            high.insert(r.said.clone(), i);
        }
        (low, high)
    }

    fn task(&self, t: usize, mut f: Facade, jobs: &[Job]) {
        for j in jobs {
            if frozen() {
                break;
            }
            self.note(|| format!("task {t}: op {} begins", j.op));
            match &j.what {
                What::Build { text, info, name, base } => {
                    // Its base or what it refers to failed to be built (an injected error).
                    let now = self.tick();
                    let low = self.bounds(now).0;
                    if base.iter().chain(&info.mb.deps).any(|b| !low.contains_key(b)) {
                        self.note(|| format!("task {t}: op {} put off, what it needs is missing", j.op));
                        self.sh.lock().unwrap().put_off.insert(j.op);
                        continue;
                    }
                    {
                        let start = self.tick();
                        let mut s = self.sh.lock().unwrap();
                        s.recs.insert(
                            j.op,
                            Rec { said: info.mb.said.clone(), name: name.clone(), start, end: None },
                        );
                        s.infos.insert(j.op, info.clone());
                    }
                    let text = text.clone();
                    let was = set_in_sim(true);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        f.build_from_ocafile(text)
                            .map(|b| (b.said.clone().map(|s| s.to_string()), encode(&b)))
                            .map_err(|e| format!("{e:?}"))
                    }));
                    set_in_sim(was);
                    if frozen() {
                        break;
                    }
                    let said = info.mb.said.clone();
                    match r {
                        Ok(Ok((s, json))) => {
                            if s.as_deref() != Some(said.as_str()) || json != info.mb.json {
                                self.find("wrong-result", &said, diff("build result", &info.mb.json, &json));
                            }
                            let end = self.tick();
                            self.sh.lock().unwrap().recs.get_mut(&j.op).unwrap().end = Some(end);
                            self.note(|| format!("task {t}: op {} acknowledged {said}", j.op));
                        }
                        other => {
                            let text = match other {
                                Ok(Err(e)) => format!("error {e}"),
                                Err(p) => format!("panic {}", panic_text(p)),
                                _ => unreachable!(),
                            };
                            self.note(|| format!("task {t}: op {} failed: {text}", j.op));
                            if disturbed() {
                                self.sh.lock().unwrap().errors += 1;
                            } else {
                                self.find("build-refused", &said, text);
                            }
                        }
                    }
                }
                What::Query(q, said) => {
                    self.sh.lock().unwrap().queries += 1;
                    self.query(&mut f, q, said.as_deref());
                }
            }
        }
        let was = set_in_sim(true);
        drop(f);
        set_in_sim(was);
    }

    fn run<R>(&self, f: &mut Facade, g: impl FnOnce(&mut Facade) -> R) -> Option<R> {
        let was = set_in_sim(true);
        let r = catch_unwind(AssertUnwindSafe(|| g(f)));
        set_in_sim(was);
        match r {
            Ok(r) => Some(r),
            Err(p) => {
                if !disturbed() {
                    self.find("query-panics", "query", panic_text(p));
                }
                None
            }
        }
    }

    fn fetchable(&self, f: &mut Facade, said: &str, via: &str) {
        let Some(id) = sai(said) else { return };
        let id2 = id.clone();
        let r = self.run(f, |f| {
            (
                f.get_oca_bundle(id, false).map(|b| encode(&b.bundle)).map_err(|e| e.join("; ")),
                f.get_oca_bundle_steps(id2).map_err(|e| e.join("; ")),
            )
        });
        if disturbed() {
            return;
        }
        let Some((b, s)) = r else { return };
        let (_, high) = self.bounds(0);
        match b {
            Err(e) => self.find("found-unusable", said, format!("found through {via}, but: {e}")),
            Ok(j) => {
                if let Some(i) = high.get(said) {
                    if i.mb.json != j {
                        self.find("bundle-content", said, diff("bundle", &i.mb.json, &j));
                    }
                }
            }
        }
        match s {
            Err(e) => self.find("found-unusable", said, format!("found through {via}, no history: {e}")),
            Ok(s) => {
                if let Err(e) = check_history(said, &s) {
                    self.find("history-wrong", said, format!("found through {via}: {e}"));
                }
            }
        }
    }

    fn query(&self, f: &mut Facade, q: &Query, said: Option<&str>) {
        let t0 = self.tick();
        match q {
            Query::Bundle { deps, .. } => {
                let Some(s) = said else { return };
                let Some(id) = sai(s) else { return };
                let (low, high) = self.bounds(t0);
                let d = *deps;
                let r = self.run(f, |f| {
                    f.get_oca_bundle(id, d).map(|b| encode(&b.bundle)).map_err(|e| e.join("; "))
                });
                if disturbed() {
                    return;
                }
                match r {
                    Some(Ok(j)) => {
                        if let Some(i) = high.get(s) {
                            if i.mb.json != j {
                                self.find("bundle-content", s, diff("bundle", &i.mb.json, &j));
                            }
                        }
                    }
                    Some(Err(e)) if low.contains_key(s) => self.find("bundle-missing", s, e),
                    _ => {}
                }
            }
            Query::Steps { .. } | Query::Ast { .. } | Query::Ocafile { .. } | Query::Objects { .. } => {
                let Some(s) = said else { return };
                let (low, _) = self.bounds(t0);
                if low.contains_key(s) {
                    self.fetchable(f, s, "its acknowledgement");
                }
            }
            Query::Explore { which, .. } => {
                let Some(s) = said else { return };
                let (low, high) = self.bounds(t0);
                let Some(i) = high.get(s) else { return };
                let o = i.mb.objects();
                let obj = o[which % o.len()].0.clone();
                let o2 = obj.clone();
                let r = self.run(f, |f| {
                    f.explore(o2).map(|r| {
                        (
                            kind_name(&r.base_object.object_type),
                            r.relations.iter().map(|x| (x.said.clone(), kind_name(&x.object_type))).collect::<BTreeSet<_>>(),
                        )
                    })
                });
                if disturbed() {
                    return;
                }
                let Some(r) = r else { return };
                let (_, high) = self.bounds(t0);
                let rel = |m: &BTreeMap<String, Arc<Info>>| {
                    let mut x = Model::default();
                    x.acked = m.clone();
                    x.relations(&obj, false)
                };
                let (lo, hi) = (rel(&low), rel(&high));
                let got = r.map(|x| x.1).unwrap_or_default();
                let lost: Vec<_> = lo.difference(&got).collect();
                let extra: Vec<_> = got.difference(&hi).collect();
                if !lost.is_empty() {
                    self.find("relations-lost", &obj, format!("not related to {lost:?}"));
                }
                if !extra.is_empty() {
                    self.find("relations-extra", &obj, format!("related to {extra:?}"));
                }
            }
            Query::ListBundles { .. } | Query::ListBases { .. } | Query::Search { .. } => {
                let (low, _) = self.bounds(t0);
                enum K {
                    B,
                    C,
                    S(String, Option<isolang::Language>),
                }
                let k = match q {
                    Query::ListBundles { .. } => K::B,
                    Query::Search { phrase, lang, .. } => K::S(phrase.clone(), lang2(lang)),
                    _ => K::C,
                };
                let r = self.run(f, |f| match &k {
                    K::B => f
                        .fetch_all_oca_bundle(1000, 1)
                        .map(|r| r.records.iter().map(|b| (b.said.clone().map(|s| s.to_string()).unwrap_or_default(), encode(b))).collect::<Vec<_>>())
                        .map_err(|e| e.join("; ")),
                    K::C => f
                        .fetch_all_capture_base(1000, 1)
                        .map(|r| {
                            r.records
                                .iter()
                                .map(|b| {
                                    (
                                        b.said.clone().map(|s| s.to_string()).unwrap_or_default(),
                                        serde_json::to_string(b).unwrap_or_default(),
                                    )
                                })
                                .collect::<Vec<_>>()
                        })
                        .map_err(|e| e.join("; ")),
                    K::S(p, l) => Ok(f
                        .search_oca_bundle(*l, p.clone(), 1000, 1)
                        .records
                        .iter()
                        .map(|b| (b.oca_bundle.said.clone().map(|s| s.to_string()).unwrap_or_default(), encode(&b.oca_bundle)))
                        .collect()),
                });
                if disturbed() {
                    return;
                }
                let Some(r) = r else { return };
                let (_, high) = self.bounds(t0);
                let got = match r {
                    Ok(g) => g,
                    Err(e) => {
                        self.find("listing-fails", "listing", e);
                        return;
                    }
                };
                let what = match &k {
                    K::B => "bundle listing".to_string(),
                    K::C => "capture-base listing".to_string(),
                    K::S(p, _) => format!("search {p:?}"),
                };
                let keyed = |m: &BTreeMap<String, Arc<Info>>| -> BTreeMap<String, String> {
                    m.values()
                        .filter(|i| match &k {
                            K::S(p, _) => {
                                let n = p.to_lowercase();
                                i.mb.metas().any(|(_, a, b)| a.to_lowercase().contains(&n) || b.to_lowercase().contains(&n))
                            }
                            _ => true,
                        })
                        .map(|i| match &k {
                            K::C => (i.mb.cb_said.clone(), i.mb.cb_json.clone()),
                            _ => (i.mb.said.clone(), i.mb.json.clone()),
                        })
                        .collect()
                };
                let (lo, hi) = (keyed(&low), keyed(&high));
                let keys: BTreeSet<String> = got.iter().map(|x| x.0.clone()).collect();
                if keys.len() != got.len() {
                    self.find("listed-twice", &what, format!("{} records, {} different", got.len(), keys.len()));
                }
                for m in lo.keys().filter(|x| !keys.contains(*x)) {
                    self.find("not-listed", &what, format!("{m} was acknowledged before"));
                }
                for (s, j) in &got {
                    match hi.get(s) {
                        None => self.find("listed-alien", &what, s.clone()),
                        Some(w) if w != j => self.find("listed-content", s, diff("listed content", w, j)),
                        _ => {}
                    }
                }
                if !matches!(k, K::C) {
                    for s in keys {
                        self.fetchable(f, &s, &what);
                    }
                }
            }
            Query::Refs => {
                let r = self.run(f, |f| f.fetch_all_refs().map(|m| m.into_iter().collect::<BTreeMap<_, _>>()));
                if disturbed() {
                    return;
                }
                let Some(r) = r else { return };
                let got = match r {
                    Ok(g) => g,
                    Err(e) => {
                        self.find("names-fail", "names", e);
                        return;
                    }
                };
                let t1 = self.tick();
                for (n, s) in &got {
                    let ok = self.bindings(n, t0, t1);
                    if !ok.contains(s) {
                        self.find("name-wrong", n, format!("resolves to {s}, expected one of {ok:?}"));
                    }
                }
                let must: Vec<String> = {
                    let s = self.sh.lock().unwrap();
                    s.recs
                        .values()
                        .filter(|r| r.end.is_some_and(|e| e < t0))
                        .filter_map(|r| r.name.clone())
                        .chain(self.setup.names.keys().cloned())
                        .collect()
                };
                for n in must {
                    if !got.contains_key(&n) {
                        self.find("name-lost", &n, "the name resolves to nothing".into());
                    }
                }
                let saids: BTreeSet<String> = got.values().cloned().collect();
                for s in saids {
                    self.fetchable(f, &s, "name");
                }
            }
        }
    }

    /// What a name may be bound to at some time between `t0` and `t`.
    fn bindings(&self, name: &str, t0: u64, t: u64) -> BTreeSet<String> {
        let s = self.sh.lock().unwrap();
        let mut all: Vec<(String, u64, Option<u64>)> = s
            .recs
            .values()
            .filter(|r| r.name.as_deref() == Some(name) && r.start <= t)
            .map(|r| (r.said.clone(), r.start, r.end))
            .collect();
        if let Some(x) = self.setup.names.get(name) {
            all.push((x.clone(), 0, Some(0)));
        }
        all.iter()
            .filter(|(_, _, end)| {
                // Superseded for good: another one began after this one ended, and ended.
                !end.is_some_and(|e| all.iter().any(|(_, s2, e2)| *s2 > e && e2.is_some_and(|x| x < t0)))
            })
            .map(|x| x.0.clone())
            .collect()
    }
}

pub fn policy(s: &Option<Sched>, tasks: usize) -> (u64, Policy) {
    match s {
        Some(Sched::Random { seed, num, den }) => (*seed, Policy::Random { num: *num, den: *den }),
        Some(Sched::Pct { seed, depth, span }) => {
            let mut r = simcore::rng::Rng::new(*seed);
            let mut prio: Vec<u64> = (0..tasks as u64).map(|i| 1_000_000 + i).collect();
            r.shuffle(&mut prio);
            let changes = (0..*depth).map(|_| 1 + r.below((*span).max(1))).collect();
            (*seed, Policy::Pct { prio, changes })
        }
        Some(Sched::Replay { switches }) => (0, Policy::Replay(switches.clone())),
        None => (0, Policy::Replay(vec![])),
    }
}

pub fn run(spec: Arc<RunSpec>, setup: &[Op], tasks: &[Vec<Op>], say: bool) -> RunResult {
    provision("");
    let mut e = Env::new(spec.clone());
    e.say = say;
    if !e.open() {
        return finish(e);
    }
    for (i, op) in setup.iter().enumerate() {
        if e.facade.is_none() {
            return finish(e);
        }
        e.note(|| format!("setup {i}: {}", summary(op)));
        if let Op::Build(d) = op {
            e.do_build(i, d);
        }
    }
    if e.facade.is_none() {
        return finish(e);
    }
    e.close();
    // Everything the tasks are going to ask for, planned beforehand.
    let names = e.m.names.clone();
    let mut jobs: Vec<Vec<Job>> = vec![];
    let mut docs: BTreeMap<usize, (usize, Doc)> = BTreeMap::new();
    for (t, ops) in tasks.iter().enumerate() {
        let mut m = e.m.clone();
        let mut v = vec![];
        for (j, op) in ops.iter().enumerate() {
            let num = opnum(t, j);
            match op {
                Op::Build(d) => {
                    let Some(p) = m.plan(d) else {
                        e.skipped += 1;
                        continue;
                    };
                    let base = d.base.as_ref().and_then(|b| crate::model::Resolve::said(&m, b));
                    let info = m.begin(d, &p);
                    m.ack(num, d, &info);
                    // Names are shared: only those of the setup are used in texts.
                    m.names = names.clone();
                    e.m.results.insert(num, p.last.said.clone());
                    for (k, x) in &m.known {
                        e.m.known.entry(k.clone()).or_insert_with(|| x.clone());
                    }
                    docs.insert(num, (t, d.clone()));
                    v.push(Job { op: num, what: What::Build { text: p.text, info, name: d.name.clone(), base } });
                }
                Op::Query(q) => {
                    use crate::model::Resolve;
                    let of = match q {
                        Query::Bundle { of, .. }
                        | Query::Steps { of }
                        | Query::Ast { of }
                        | Query::Ocafile { of }
                        | Query::Objects { of }
                        | Query::Explore { of, .. } => m.said(of),
                        _ => None,
                    };
                    v.push(Job { op: num, what: What::Query(q.clone(), of) });
                }
                _ => {}
            }
        }
        jobs.push(v);
    }
    let say2 = say;
    let sh: Sh = Arc::new(Mutex::new(Shared::default()));
    let ctx = Arc::new(Ctx { sh: sh.clone(), setup: e.m.clone(), say: say2 });
    // The shared store is opened once and cloned, as an embedder does; every task makes
    // its own facade and its own connection to the one search database.
    with_world(|w| w.begin_call(CONC_OP, 0, CONC_BUDGET));
    let cfg = spec.config.clone();
    let was = set_in_sim(true);
    let db = storage(cfg.db, "db");
    let cache = storage(cfg.cache, "cache");
    set_in_sim(was);
    with_world(|w| w.begin_call(CONC_OP, 0, CONC_BUDGET));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, j) in jobs.into_iter().enumerate() {
        let (db, cache): (Box<dyn DataStorage>, Box<dyn DataStorage>) = (db.clone(), cache.clone());
        let ctx = ctx.clone();
        bodies.push(Box::new(move || {
            crate::interpose::set_sim_entropy(true);
            let was = set_in_sim(true);
            let f = catch_unwind(AssertUnwindSafe(|| {
                Facade::new(db, cache, SQLiteConfig::build().path("/simdisk/search".into()).unwrap())
            }));
            set_in_sim(was);
            match f {
                Ok(f) => ctx.task(t, f, &j),
                Err(p) => {
                    if !disturbed() {
                        ctx.find("cannot-open", "facade", panic_text(p));
                    }
                }
            }
        }));
    }
    let (seed, pol) = policy(&spec.sched, tasks.len());
    let out = run_tasks(bodies, seed, pol);
    let (crash, stalled, errs) = with_world(|w| {
        (
            w.crash,
            w.stalled,
            w.call.fired.iter().any(|f| matches!(f.kind, FaultKind::Err { .. } | FaultKind::Sticky { .. })),
        )
    });
    let trace = with_world(|w| std::mem::take(&mut w.call.trace));
    e.traces.insert((CONC_OP, 0), trace);
    if errs {
        e.errors += 1;
    }
    let was = set_in_sim(true);
    drop(db);
    drop(cache);
    set_in_sim(was);
    if stalled && crash.is_none() {
        e.find(&["C12", "C04"], false, "no-end", "tasks", format!("the requests do not end within {CONC_BUDGET} storage operations"));
    }
    let (recs, infos, found, queries) = {
        let mut s = sh.lock().unwrap();
        (std::mem::take(&mut s.recs), std::mem::take(&mut s.infos), std::mem::take(&mut s.findings), s.queries)
    };
    e.queries += queries;
    let put_off = std::mem::take(&mut sh.lock().unwrap().put_off);
    for (kind, subject, detail) in found {
        let p: &[&str] = match kind.as_str() {
            "wrong-result" => &["C12", "C05", "C06"],
            "bundle-content" | "listed-content" => &["C12", "C05"],
            "history-wrong" => &["C12", "C07"],
            "relations-lost" => &["C12", "C09"],
            "name-lost" | "name-wrong" => &["C12", "C08"],
            "query-panics" => &["C12", "C04"],
            _ => &["C12"],
        };
        e.find(p, false, &kind, &subject, detail);
    }
    // The outcome becomes the model for the final audit.
    for (op, r) in &recs {
        let info = infos[op].clone();
        if r.end.is_some() {
            e.m.limbo.remove(&r.said);
            e.m.acked.insert(r.said.clone(), info);
            e.acks += 1;
        } else if !e.m.acked.contains_key(&r.said) {
            e.m.limbo.insert(r.said.clone(), info);
        }
    }
    let mut bound: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    {
        let mut s = sh.lock().unwrap();
        s.recs = recs;
    }
    {
        let s: Vec<String> = sh.lock().unwrap().recs.values().filter_map(|r| r.name.clone()).collect();
        for n in s {
            let b = ctx.bindings(&n, u64::MAX, u64::MAX);
            bound.insert(n, b);
        }
    }
    let recs = std::mem::take(&mut sh.lock().unwrap().recs);
    for (n, b) in bound {
        let acked = e.m.names.contains_key(&n) || recs.values().any(|r| r.name.as_deref() == Some(n.as_str()) && r.end.is_some());
        let mut b = b;
        if acked {
            let pick = recs
                .values()
                .filter(|r| r.name.as_deref() == Some(n.as_str()) && r.end.is_some())
                .map(|r| r.said.clone())
                .chain(e.m.names.get(&n).cloned())
                .find(|s| b.contains(s));
            if let Some(p) = pick {
                b.remove(&p);
                e.m.names.insert(n.clone(), p);
            }
        }
        if b.is_empty() {
            e.m.name_limbo.remove(&n);
        } else {
            e.m.name_limbo.insert(n, b);
        }
    }
    if let Some(p) = crash {
        e.crashes += 1;
        with_world(|w| w.restart(p));
    }
    let before = e.findings.len();
    if e.open() {
        e.audit();
        if e.facade.is_some() {
            // What was interrupted is repeated.
            for (op, (_, d)) in &docs {
                if (put_off.contains(op) || recs.get(op).is_some_and(|r| r.end.is_none())) && e.facade.is_some() {
                    e.note(|| format!("op {op} again"));
                    e.do_build(*op, d);
                }
            }
            if e.facade.is_some() {
                e.audit();
                e.observe();
            }
        }
    }
    for f in &mut e.findings[before..] {
        if !f.props.contains(&"C12".to_string()) {
            f.props.push("C12".into());
        }
    }
    if e.facade.is_some() {
        e.close();
    }
    let mut r = finish(e);
    r.switches = out.switches;
    r.points = out.points;
    r
}
