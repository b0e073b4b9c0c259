//! The version graph against a reference of parent and child links (C13), and builds
//! into the version store against the model of bundles (C16).
use crate::exec::*;
use crate::run::RunResult;
use crate::simstorage::DagKv;
use crate::spec::*;
use crate::model::Resolve;
use oca_ast_semantics::ast::Command;
use oca_bundle_semantics::build::apply_command;
use oca_bundle_semantics::state::oca::{OCABox, OCABundle};
use oca_dag_semantics::data_storage::{DataStorage, SledDataStorage};
use oca_dag_semantics::versioning::ocafile::build_oca;
use oca_dag_semantics::versioning::Graph;
use simcore::sched::set_in_sim;
use simcore::with_world;
use simcore::world::FaultKind;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct G {
    graph: Option<Graph>,
    sled: bool,
    opens: usize,
    out: RunResult,
    say: bool,
    keep: bool,
    /// Versions acknowledged: their parent.
    parent: BTreeMap<String, Option<String>>,
    /// Children in order.
    children: BTreeMap<String, Vec<String>>,
    /// Additions not acknowledged yet: version -> parent.
    limbo: BTreeMap<String, Option<String>>,
    /// Builds into the version store.
    m: Model,
    /// Operation records of acknowledged steps.
    pinned: BTreeMap<String, Vec<u8>>,
}

fn decode(b: &[u8]) -> Option<Vec<String>> {
    let mut out = vec![];
    let mut b = b;
    while let Some((n, t)) = b.split_first() {
        let n = *n as usize;
        if t.len() < n {
            return None;
        }
        out.push(String::from_utf8(t[..n].to_vec()).ok()?);
        b = &t[n..];
    }
    Some(out)
}

impl G {
    fn find(&mut self, prop: &str, kind: &str, subject: &str, detail: String) {
        let f = Finding { props: vec![prop.into()], kind: kind.into(), subject: subject.into(), detail: short(&detail), known: None };
        self.note(format!("  ** {} {}: {}", f.kind, f.subject, f.detail));
        self.out.findings.push(f);
    }
    fn note(&self, t: String) {
        if self.say {
            with_world(|w| w.log.push(t));
        }
    }
    fn open(&mut self) {
        for k in 0..6 {
            with_world(|w| w.begin_call(OPEN_OP + self.opens, k, BUDGET));
            let sled = self.sled;
            let was = set_in_sim(true);
            let db: Box<dyn DataStorage> =
                if sled { Box::new(SledDataStorage::open("/simdisk/dag")) } else { Box::new(DagKv) };
            set_in_sim(was);
            let (crash, trace) = with_world(|w| (w.crash, std::mem::take(&mut w.call.trace)));
            if self.keep {
                self.out.traces.insert((OPEN_OP + self.opens, k), trace);
            }
            if let Some(p) = crash {
                let was = set_in_sim(true);
                drop(db);
                set_in_sim(was);
                with_world(|w| w.restart(p));
                self.out.crashes += 1;
                continue;
            }
            self.graph = Some(Graph { db });
            self.opens += 1;
            return;
        }
    }
    fn close(&mut self) {
        let was = set_in_sim(true);
        self.graph = None;
        set_in_sim(was);
    }
    fn restart(&mut self, power: bool) {
        self.close();
        self.out.crashes += 1;
        with_world(|w| w.restart(power));
        self.open();
    }
    /// (result, crashed, errors)
    fn call<R>(&mut self, op: usize, attempt: usize, f: impl FnOnce(&Graph) -> R) -> (Result<R, String>, bool, bool) {
        self.call_db(op, attempt, |g| (f(&g), Some(g)))
    }
    /// The call may keep the store, which is then opened anew.
    fn call_db<R>(
        &mut self,
        op: usize,
        attempt: usize,
        f: impl FnOnce(Graph) -> (R, Option<Graph>),
    ) -> (Result<R, String>, bool, bool) {
        let Some(g) = self.graph.take() else { return (Err("closed".into()), false, true) };
        with_world(|w| w.begin_call(op, attempt, BUDGET));
        let was = set_in_sim(true);
        let r = catch_unwind(AssertUnwindSafe(|| f(g)));
        set_in_sim(was);
        let r = match r {
            Ok((r, g)) => {
                self.graph = g;
                Ok(r)
            }
            Err(p) => Err(panic_text(p)),
        };
        let (crash, errs, stalled, trace) = with_world(|w| {
            (
                w.crash,
                w.call.fired.iter().any(|f| matches!(f.kind, FaultKind::Err { .. } | FaultKind::Sticky { .. })),
                w.stalled,
                std::mem::take(&mut w.call.trace),
            )
        });
        if self.keep && op < AUDIT_OP {
            self.out.traces.insert((op, attempt), trace);
        }
        if errs {
            self.out.errors += 1;
        }
        if let Some(p) = crash {
            self.restart(p);
        } else {
            if stalled {
                let p = if self.m.known.is_empty() { "C13" } else { "C16" };
                self.find(p, "no-end", &format!("op {op}"), "the call does not end".into());
            }
            if self.graph.is_none() {
                self.open();
            }
        }
        (r, crash.is_some(), errs)
    }
    fn links(&mut self, key: String) -> Option<Vec<String>> {
        let k = key.clone();
        let op = AUDIT_OP + self.out.audits;
        let (r, _, _) = self.call(op, 0, move |g| g.db.get(&k));
        match r {
            Ok(Ok(None)) => Some(vec![]),
            Ok(Ok(Some(b))) => match decode(&b) {
                Some(v) => Some(v),
                None => {
                    self.find("C13", "torn-links", &key, format!("unreadable links {b:?}"));
                    None
                }
            },
            Ok(Err(e)) | Err(e) => {
                self.find("C13", "read-fails", &key, e);
                None
            }
        }
    }
    fn audit(&mut self) {
        self.out.audits += 1;
        if !self.m.known.is_empty() {
            self.audit_builds();
        }
        let nodes: BTreeSet<String> = self
            .parent
            .keys()
            .chain(self.children.keys())
            .chain(self.limbo.keys())
            .chain(self.limbo.values().flatten())
            .cloned()
            .collect();
        for n in nodes {
            if self.parent.contains_key(&n) {
                self.recorded(&n);
            }
            if let Some(up) = self.links(format!("{n}.upscending")) {
                let mut ok: Vec<Vec<String>> = vec![];
                match self.parent.get(&n) {
                    Some(p) => ok.push(p.iter().cloned().collect()),
                    None => ok.push(vec![]),
                }
                if let Some(p) = self.limbo.get(&n) {
                    ok.push(p.iter().cloned().collect());
                }
                if !ok.contains(&up) {
                    self.find("C13", "parent-link", &n, format!("parents {up:?}, expected {ok:?}"));
                }
            }
            if let Some(down) = self.links(format!("{n}.downscending")) {
                let acked = self.children.get(&n).cloned().unwrap_or_default();
                let pend: BTreeSet<String> =
                    self.limbo.iter().filter(|(_, p)| p.as_deref() == Some(n.as_str())).map(|(c, _)| c.clone()).collect();
                let uniq: BTreeSet<&String> = down.iter().collect();
                // Acknowledged children in the order of their additions; an interrupted
                // addition may or may not have left its link.
                let seen: Vec<String> =
                    down.iter().filter(|c| !pend.contains(*c) || acked.contains(c)).cloned().collect();
                if seen != acked || uniq.len() != down.len() {
                    self.find("C13", "child-links", &n, format!("children {down:?}, expected {acked:?} (in flight {pend:?})"));
                }
            }
        }
    }
    /// An acknowledged version that nothing records. What was derived from it shows
    /// that it is there just as well.
    fn recorded(&mut self, n: &str) {
        if let Some(None) = self.read(&format!("{n}.upscending")) {
            self.find("C13", "version-missing", n, format!("nothing is stored as {n}.upscending"));
        }
    }

    fn add(&mut self, i: usize, new: &str, to: Option<&str>) {
        for attempt in 0..5 {
            self.limbo.insert(new.into(), to.map(|s| s.to_string()));
            let (n, t) = (new.to_string(), to.map(|s| s.to_string()));
            let (r, crashed, errs) = self.call(i, attempt, move |g| g.add(&n, t.as_deref()));
            if crashed {
                self.audit();
                continue;
            }
            match r {
                Ok(Ok(())) => {
                    self.out.acks += 1;
                    self.limbo.remove(new);
                    self.parent.insert(new.into(), to.map(|s| s.to_string()));
                    if let Some(t) = to {
                        let c = self.children.entry(t.into()).or_default();
                        if !c.contains(&new.to_string()) {
                            c.push(new.into());
                        }
                        // Where an interrupted addition left its link is where it stays.
                        if let Some(d) = self.links(format!("{t}.downscending")) {
                            let known: BTreeSet<&String> = self.children[t].iter().collect();
                            let order: Vec<String> = d.iter().filter(|x| known.contains(x)).cloned().collect();
                            let before: Vec<&String> = self.children[t].iter().filter(|x| *x != new).collect();
                            let after: Vec<&String> = order.iter().filter(|x| *x != new).collect();
                            if attempt > 0 && before == after && order.iter().filter(|x| *x == new).count() == 1 {
                                self.children.insert(t.into(), order);
                            }
                        }
                    }
                    self.audit();
                    return;
                }
                Ok(Err(e)) => {
                    if !errs {
                        self.find("C13", "addition-refused", new, e);
                        return;
                    }
                    self.audit();
                }
                Err(p) => {
                    if !errs {
                        self.find("C13", "addition-panics", new, p);
                        return;
                    }
                    self.find("C13", "error-panics", new, p);
                    return;
                }
            }
        }
    }
}

impl G {
    fn commands(text: String) -> Result<Vec<Command>, String> {
        oca_file_semantics::ocafile::parse_from_string(text).map(|a| a.commands).map_err(|e| format!("{e:?}"))
    }

    fn build(&mut self, i: usize, doc: &Doc) {
        for attempt in 0..5 {
            // A base counts once its build has returned.
            let base_ok = doc.base.as_ref().is_none_or(|b| self.m.said(b).is_some());
            let p = if base_ok { self.m.plan(doc) } else { None };
            let Some(p) = p else {
                self.out.skipped += 1;
                return;
            };
            let commands = match Self::commands(p.text.clone()) {
                Ok(c) => c,
                Err(_) => {
                    self.out.skipped += 1;
                    return;
                }
            };
            let info = self.m.begin(doc, &p);
            let (r, crashed, errs) = self.call_db(i, attempt, move |g| {
                (build_oca(g.db, commands).map(|b| (b.said.clone().map(|s| s.to_string()), encode(&b))), None)
            });
            if crashed {
                self.audit();
                continue;
            }
            match r {
                Ok(Ok((said, json))) => {
                    self.out.acks += 1;
                    let mb = &info.mb;
                    if said.as_deref() != Some(mb.said.as_str()) || json != mb.json {
                        let d = diff("bundle", &mb.json, &json);
                        self.find("C16", "build-result", &mb.said.clone(), d);
                        return;
                    }
                    self.m.ack(i, doc, &info);
                    for s in info.chain.clone() {
                        if let Some(b) = self.record(&format!("oca.{s}.operation"), "operation-missing", &s) {
                            self.pinned.entry(s).or_insert(b);
                        }
                    }
                    if self.m.known.len() < 60 || i % 16 == 0 {
                        self.audit();
                    }
                    return;
                }
                Ok(Err(e)) => {
                    if !errs {
                        self.find("C16", "build-refused", &info.mb.said, e);
                        return;
                    }
                    self.audit();
                }
                Err(t) => {
                    let kind = if errs { "error-panics" } else { "build-panics" };
                    self.find("C16", kind, &info.mb.said, t);
                    return;
                }
            }
        }
    }

    /// A build that has to fail: how 0 a command that does not apply in the middle,
    /// 1 at the end, 2 an unknown base, 3 an unsupported command at its beginning,
    /// 4 nothing at all.
    fn refused(&mut self, i: usize, doc: &Doc, how: u8) {
        let Some(p) = self.m.plan(doc) else {
            self.out.skipped += 1;
            return;
        };
        let Ok(mut commands) = Self::commands(p.text.clone()) else {
            self.out.skipped += 1;
            return;
        };
        let bad = |t: &str| Self::commands(t.to_string()).ok().and_then(|c| c.into_iter().next_back());
        let some = p.steps.last().and_then(|s| s.content.attrs.keys().next().cloned()).unwrap_or("zz".into());
        let label = match i % 6 {
            0 | 1 => bad("ADD ATTRIBUTE zz=Text\nADD LABEL en ATTRS nosuchattribute=\"x\"\n"),
            2 => bad("ADD ATTRIBUTE zz=Text\nADD META en PROPS name=\"x\" type=\"y\"\n"),
            3 => bad(&format!("ADD ATTRIBUTE zz=Text\nADD UNIT ATTRS {some}=\"kg\" nosuchattribute=\"kg\"\n")),
            4 => bad("ADD ATTRIBUTE zz=Text\nADD CHARACTER_ENCODING ATTRS nosuchattribute=\"utf-8\"\n"),
            _ => bad("ADD ATTRIBUTE zz=Text\nADD ENTRY_CODE ATTRS nosuchattribute=[\"a\"]\n"),
        };
        let from = usize::from(doc.base.is_some());
        let mut stored = p.steps.len();
        match how {
            0 | 1 => {
                let Some(l) = label else { return };
                let at = if how == 1 { commands.len() } else { from + (commands.len() - from) / 2 };
                stored = at - from;
                commands.insert(at, l);
            }
            2 => {
                commands.drain(..from);
                let Some(f) = bad("FROM EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\n") else { return };
                commands.insert(0, f);
                stored = 0;
            }
            3 => {
                let Some(mut c) = commands.get(from).cloned() else { return };
                c.kind = match i % 3 {
                    0 => oca_ast_semantics::ast::CommandType::Modify,
                    _ => {
                        let Some(o) = bad("ADD ATTRIBUTE zz=Text\nADD UNIT ATTRS zz=\"kg\"\n") else { return };
                        c = o;
                        oca_ast_semantics::ast::CommandType::Remove
                    }
                };
                commands.insert(from, c);
                stored = 0;
            }
            _ => {
                commands.clear();
                stored = 0;
            }
        }
        // What comes before the command is recorded as it is applied.
        for s in &p.steps[..stored.min(p.steps.len())] {
            self.m.known.entry(s.said.clone()).or_insert_with(|| std::sync::Arc::new(s.clone()));
        }
        let (r, _, errs) = self.call_db(i, 0, move |g| (build_oca(g.db, commands).map(|b| encode(&b)), None));
        self.out.rejected += 1;
        let subject = format!("op {i}");
        match r {
            Ok(Ok(j)) => self.find("C16", "built-from-nothing", &subject, j),
            Ok(Err(_)) => {}
            Err(t) if !errs => self.find("C16", "refusal-panics", &subject, t),
            Err(t) => self.find("C16", "error-panics", &subject, t),
        }
        self.audit();
    }

    /// A record that has to be there.
    fn record(&mut self, key: &str, kind: &str, subject: &str) -> Option<Vec<u8>> {
        match self.read(key) {
            Some(Some(b)) => Some(b),
            Some(None) => {
                self.find("C16", kind, subject, format!("nothing is stored as {key}"));
                None
            }
            None => None,
        }
    }
    fn read(&mut self, key: &str) -> Option<Option<Vec<u8>>> {
        let k = key.to_string();
        let op = AUDIT_OP + self.out.audits;
        match self.call(op, 0, move |g| g.db.get(&k)).0 {
            Ok(Ok(b)) => Some(b),
            Ok(Err(e)) | Err(e) => {
                self.find("C16", "read-fails", key, e);
                None
            }
        }
    }

    fn audit_builds(&mut self) {
        let mut must: BTreeSet<String> = BTreeSet::new();
        for i in self.m.acked.values() {
            must.extend(i.chain.iter().cloned());
        }
        // Every record, then the histories they make up.
        let mut ops: BTreeMap<String, (Option<String>, Command)> = BTreeMap::new();
        let mut have: BTreeMap<String, OCABundle> = BTreeMap::new();
        for (said, mb) in self.m.known.clone() {
            let Some(b) = self.read(&format!("oca.{said}")) else { return };
            let Some(o) = self.read(&format!("oca.{said}.operation")) else { return };
            if must.contains(&said) && (b.is_none() || o.is_none()) {
                let what = if b.is_none() { "bundle" } else { "operation" };
                self.find("C16", "record-missing", &said, format!("the {what} of a step of a finished build"));
                return;
            }
            if let Some(b) = b {
                if b != mb.json.as_bytes() {
                    let d = diff("stored", &mb.json, &String::from_utf8_lossy(&b));
                    self.find("C16", "record-content", &said, d);
                    return;
                }
                if let Ok(x) = serde_json::from_slice(&b) {
                    have.insert(said.clone(), x);
                }
            }
            let Some(o) = o else { continue };
            if let Some(p) = self.pinned.get(&said) {
                if *p != o {
                    self.find(
                        "C16",
                        "history-rewritten",
                        &said,
                        format!("was {}, is {}", String::from_utf8_lossy(p), String::from_utf8_lossy(&o)),
                    );
                    return;
                }
            }
            match operation(&o) {
                Some(x) => {
                    ops.insert(said.clone(), x);
                }
                None => {
                    let t = format!("unreadable operation {}", String::from_utf8_lossy(&o));
                    self.find("C16", "torn-operation", &said, t);
                    return;
                }
            }
        }
        for (said, (parent, command)) in &ops {
            let base = match parent {
                None => None,
                Some(p) => match have.get(p) {
                    Some(b) => Some(OCABox::from(b.clone())),
                    None => {
                        let t = format!("the parent {p} is not stored");
                        self.find("C16", "history-broken", said, t);
                        return;
                    }
                },
            };
            let got = apply_command(base, command.clone()).map(|mut b| b.generate_bundle().said.map(|s| s.to_string()));
            if !matches!(&got, Ok(Some(s)) if s == said) {
                self.find("C16", "history-replays", said, format!("the recorded command results in {got:?}"));
                return;
            }
            let (mut at, mut n) = (said.clone(), 0);
            while let Some((Some(p), _)) = ops.get(&at) {
                at = p.clone();
                n += 1;
                if n > ops.len() {
                    self.find("C16", "history-endless", said, format!("the history of {said} does not end"));
                    return;
                }
            }
            if must.contains(said) && !ops.contains_key(&at) {
                self.find("C16", "history-broken", said, format!("no operation led to {at}"));
                return;
            }
        }
        if !self.sled {
            // Nothing but what the commands describe.
            let keys: Vec<String> = with_world(|w| {
                w.kv.get("dag")
                    .and_then(|m| m.get(""))
                    .map(|t| t.keys().map(|k| String::from_utf8_lossy(k).into_owned()).collect())
                    .unwrap_or_default()
            });
            for k in keys {
                let Some(s) = k.strip_prefix("oca.") else { continue };
                let s = s.strip_suffix(".operation").unwrap_or(s);
                if !self.m.known.contains_key(s) {
                    self.find("C16", "record-of-nothing", &k, "no build describes this bundle".into());
                    return;
                }
            }
        }
    }
}

/// Parent and command of an operation record.
fn operation(b: &[u8]) -> Option<(Option<String>, Command)> {
    let (n, t) = b.split_first()?;
    let n = *n as usize;
    if t.len() < n {
        return None;
    }
    let parent = if n == 0 { None } else { Some(String::from_utf8(t[..n].to_vec()).ok()?) };
    // The rest of the record, with or without its length.
    let c = serde_json::from_slice(&t[n..]).or_else(|e| t.get(n + 1..).map_or(Err(e), serde_json::from_slice));
    Some((parent, c.ok()?))
}

pub fn run(_s: &RunSpec, sled: bool, ops: &[GraphOp], say: bool, traces: bool) -> RunResult {
    with_world(|w| w.fs.provision_dir("/simdisk/dag"));
    let mut g = G {
        graph: None,
        sled,
        opens: 0,
        out: RunResult::default(),
        say,
        keep: traces,
        parent: BTreeMap::new(),
        children: BTreeMap::new(),
        limbo: BTreeMap::new(),
        m: Model::default(),
        pinned: BTreeMap::new(),
    };
    g.open();
    for (i, op) in ops.iter().enumerate() {
        g.note(format!("op {i}: {}", serde_json::to_string(op).unwrap_or_default()));
        match op {
            GraphOp::Noop => {}
            GraphOp::Build { doc } => g.build(i, doc),
            GraphOp::Refused { doc, how } => g.refused(i, doc, *how),
            GraphOp::Add { new, to } => {
                // A version can only be added to one already there (or as a root).
                if let Some(t) = to {
                    if !g.parent.contains_key(t) {
                        g.out.skipped += 1;
                        continue;
                    }
                }
                if g.parent.contains_key(new) && g.parent.get(new) != Some(to) {
                    g.out.skipped += 1;
                    continue;
                }
                g.add(i, new, to.as_deref())
            }
            GraphOp::Crash { power } => {
                with_world(|w| {
                    w.begin_call(OPEN_OP + 800_000, 0, BUDGET);
                    w.freeze();
                    *w.fired.entry(if *power { "idle_power_loss" } else { "idle_kill" }.into()).or_insert(0) += 1;
                });
                g.restart(*power);
                g.audit();
            }
            GraphOp::Reopen => {
                with_world(|w| {
                    w.begin_call(OPEN_OP + 900_000, 0, BUDGET);
                    *w.fired.entry("orderly_restart".into()).or_insert(0) += 1;
                });
                g.close();
                g.open();
                g.audit();
            }
        }
    }
    g.audit();
    with_world(|w| w.begin_call(OPEN_OP + 900_001, 0, BUDGET));
    g.close();
    g.out
}
