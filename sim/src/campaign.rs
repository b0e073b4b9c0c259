//! Seeded search over many runs: workers, their parent, replay files and evidence.
use crate::drive::*;
use crate::exec::Finding;
use crate::run::{run_spec, RunResult};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use simcore::rng::derive;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Seek, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Directory of the framework: two levels above this crate's manifest.
pub fn home() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Stats {
    pub runs: u64,
    pub bases: u64,
    pub seams: u64,
    pub sim_ns: u64,
    pub acks: u64,
    pub crashes: u64,
    pub errors: u64,
    pub audits: u64,
    pub rejected: u64,
    pub queries: u64,
    pub skipped: u64,
    pub points: u64,
    pub switches: u64,
    pub runs_with_faults: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub placed: BTreeMap<String, u64>,
    pub scenes: BTreeMap<String, u64>,
    pub hashes: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub interleavings: BTreeSet<u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub secs: f64,
    pub done: bool,
    pub unconfirmed: u64,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.bases += o.bases;
        self.seams += o.seams;
        self.sim_ns += o.sim_ns;
        self.acks += o.acks;
        self.crashes += o.crashes;
        self.errors += o.errors;
        self.audits += o.audits;
        self.rejected += o.rejected;
        self.queries += o.queries;
        self.skipped += o.skipped;
        self.points += o.points;
        self.switches += o.switches;
        self.runs_with_faults += o.runs_with_faults;
        self.unconfirmed += o.unconfirmed;
        for (a, b) in [
            (&mut self.fired, o.fired),
            (&mut self.probes, o.probes),
            (&mut self.placed, o.placed),
            (&mut self.known, o.known),
            (&mut self.scenes, o.scenes),
        ] {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        self.hashes.extend(o.hashes);
        self.nontrivial.extend(o.nontrivial);
        self.interleavings.extend(o.interleavings);
        self.samples.extend(o.samples);
    }
    fn add(&mut self, c: &Case, r: &RunResult, twin: Option<&RunResult>) {
        self.runs += 1;
        self.seams += r.seams;
        self.sim_ns += r.sim_ns;
        self.acks += r.acks as u64;
        self.crashes += r.crashes as u64;
        self.errors += r.errors as u64;
        self.audits += r.audits as u64;
        self.rejected += r.rejected as u64;
        self.queries += r.queries as u64;
        self.skipped += r.skipped as u64;
        self.points += r.points;
        self.switches += r.switches.len() as u64;
        for (k, v) in &r.fired {
            *self.fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        let scene = match &c.spec.plan {
            Plan::Facade(_) => "one facade",
            Plan::Concurrent { .. } => "concurrent facades",
            Plan::Store { .. } => "storage backend",
            Plan::Graph { ops, .. } if ops.iter().any(|o| matches!(o, GraphOp::Build { .. })) => "version store builds",
            Plan::Graph { .. } => "version graph",
            Plan::Trans(_) => "transformation files",
            Plan::Mesh { .. } => "replicas",
        };
        *self.scenes.entry(scene.into()).or_insert(0) += 1;
        self.hashes.insert(r.hash);
        if !r.fired.is_empty() {
            self.runs_with_faults += 1;
        }
        if r.acks + r.rejected > 0 && (!r.fired.is_empty() || !r.switches.is_empty() || r.acks > 1 || r.queries > 0) {
            self.nontrivial.insert(r.hash);
        }
        if r.points > 0 {
            let mut h = 0xcbf29ce484222325u64;
            for (p, t) in &r.switches {
                h = (h ^ p).wrapping_mul(0x100000001b3);
                h = (h ^ *t as u64).wrapping_mul(0x100000001b3);
            }
            self.interleavings.insert(h ^ derive(c.spec.seed, "i"));
        }
        if let Some(t) = twin {
            for f in &c.spec.faults {
                if let Some(x) = t.traces.get(&(f.op, 0)).and_then(|v| v.get(f.seam)) {
                    let k = serde_json::to_value(&f.kind).ok().and_then(|v| v["kind"].as_str().map(String::from)).unwrap_or_default();
                    *self.placed.entry(format!("{k} at {:?} of {}", x.seam, x.class)).or_insert(0) += 1;
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hit {
    pub case: Case,
    pub finding: Finding,
    /// Where in the campaign it came up.
    pub index: u64,
    pub start: u64,
    pub step: u64,
    pub total: u64,
}

pub struct Known {
    pub findings: Vec<(String, String, Option<String>, String)>,
}

pub fn known() -> Known {
    let mut k = Known { findings: vec![] };
    let text = std::fs::read_to_string(home().join("known-findings.txt")).unwrap_or_default();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let (mut prop, mut id, mut replay, mut words) = (String::new(), String::new(), None, vec![]);
            for w in rest.split(' ') {
                if let Some(x) = w.strip_prefix("property=") {
                    prop = x.into();
                } else if let Some(x) = w.strip_prefix("id=") {
                    id = x.into();
                } else if let Some(x) = w.strip_prefix("replay=") {
                    replay = Some(x.to_string());
                } else {
                    words.push(w);
                }
            }
            k.findings.push((prop, id, replay, words.join(" ")));
        }
    }
    k
}

impl Known {
    pub fn listed(&self, prop: &str, f: &Finding) -> bool {
        f.known.as_ref().is_some_and(|id| self.findings.iter().any(|x| x.0 == prop && x.1 == *id))
    }
}

pub fn relevant<'a>(prop: &str, fs: &'a [Finding], k: &Known) -> Option<&'a Finding> {
    fs.iter().find(|f| (f.props.iter().any(|p| p == prop || p == "harness")) && !k.listed(prop, f))
}

static CURRENT: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Leaves the case about to run where the parent finds it should the process die.
fn announce(c: &Case) {
    let mut g = CURRENT.lock().unwrap();
    if let Some(f) = g.as_mut() {
        let s = serde_json::to_vec(c).unwrap_or_default();
        let _ = f.seek(std::io::SeekFrom::Start(0));
        let _ = f.set_len(0);
        let _ = f.write_all(&s);
    }
}

fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
    // The code under test prints to stdout.
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 1);
        }
        let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
}

pub struct WorkerArgs {
    pub prop: String,
    pub seed: u64,
    pub start: u64,
    pub step: u64,
    pub total: u64,
    pub secs: f64,
    pub mult: usize,
    pub dir: PathBuf,
    pub verify: bool,
}

pub fn worker(a: WorkerArgs) -> i32 {
    quiet();
    let k = known();
    *CURRENT.lock().unwrap() = std::fs::File::create(a.dir.join(format!("current-{}.json", a.start))).ok();
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut hit: Option<Hit> = None;
    let m = variants(&a.prop) * a.mult;
    let mut idx = a.start;
    let mut determinism: Option<String> = None;
    'all: while idx < a.total {
        if t0.elapsed().as_secs_f64() > a.secs {
            break;
        }
        let base = base_spec(&a.prop, derive(a.seed, &format!("{}/{idx}", a.prop)));
        let case = Case { spec: base.clone(), twin: None };
        announce(&case);
        let twin = run_spec(&base, false, true);
        st.bases += 1;
        st.add(&case, &twin, None);
        note_known(&mut st, &a.prop, &twin, &k);
        if let Some(f) = relevant(&a.prop, &twin.findings, &k) {
            hit = Some(Hit { case, finding: f.clone(), index: idx, start: a.start, step: a.step, total: a.total });
            break 'all;
        }
        for v in 1..=worth(&base, m) {
            let spec = variant_spec(&a.prop, &base, &twin, v);
            let case = Case { spec: spec.clone(), twin: Some(base.clone()) };
            announce(&case);
            let mut r = run_spec(&spec, false, false);
            if a.verify && v % 3 == 1 {
                let r2 = run_spec(&spec, false, false);
                if (r2.hash, r2.seams, r2.sim_ns) != (r.hash, r.seams, r.sim_ns) {
                    determinism = Some(format!("seed {} variant {v}", spec.seed));
                    break 'all;
                }
            }
            compare(&spec, &mut r, &twin);
            st.add(&case, &r, Some(&twin));
            if st.samples.len() < 2 && (!r.fired.is_empty() || !r.switches.is_empty()) && v > 2 {
                st.samples.push(sample(&case, &r));
            }
            note_known(&mut st, &a.prop, &r, &k);
            if let Some(f) = relevant(&a.prop, &r.findings, &k) {
                hit = Some(Hit { case, finding: f.clone(), index: idx, start: a.start, step: a.step, total: a.total });
                break 'all;
            }
        }
        idx += a.step;
    }
    st.secs = t0.elapsed().as_secs_f64();
    st.done = idx >= a.total;
    let _ = std::fs::write(a.dir.join(format!("stats-{}.json", a.start)), serde_json::to_vec(&st).unwrap());
    if let Some(d) = determinism {
        let _ = std::fs::write(a.dir.join(format!("nondet-{}", a.start)), d);
        return 3;
    }
    if let Some(h) = hit {
        let _ = std::fs::write(a.dir.join(format!("hit-{}.json", a.start)), serde_json::to_vec(&h).unwrap());
        return 1;
    }
    0
}

fn note_known(st: &mut Stats, prop: &str, r: &RunResult, k: &Known) {
    for f in &r.findings {
        if k.listed(prop, f) {
            *st.known.entry(f.known.clone().unwrap()).or_insert(0) += 1;
        }
    }
}

fn sample(c: &Case, r: &RunResult) -> serde_json::Value {
    let plan = serde_json::to_string(&c.spec.plan).unwrap_or_default();
    let mut p: String = plan.chars().take(900).collect();
    if p.len() < plan.len() {
        p.push('…');
    }
    serde_json::json!({
        "seed": c.spec.seed, "variant": c.spec.variant, "config": c.spec.config,
        "faults": c.spec.faults, "schedule": c.spec.sched, "switches": r.switches.len(),
        "plan": p, "acknowledged": r.acks, "crashes": r.crashes, "audits": r.audits, "trace_hash": format!("{:016x}", r.hash)
    })
}

// ------------------------------------------------------------------ one case in a process

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Outcome {
    pub findings: Vec<Finding>,
    pub hash: u64,
    pub log: Vec<String>,
    pub switches: Vec<(u64, usize)>,
    pub fatal: Option<String>,
}

/// Runs a case in this process; the result goes to a file.
pub fn exec_case(file: &str, out: &str, say: bool) -> i32 {
    quiet();
    let Ok(t) = std::fs::read(file) else { return 2 };
    let Ok(c) = serde_json::from_slice::<Case>(&t) else { return 2 };
    let out2 = out.to_string();
    simcore::world::on_fatal(Box::new(move |code, why| {
        let o = Outcome { fatal: Some(format!("{why} (code {code})")), ..Default::default() };
        let _ = std::fs::write(&out2, serde_json::to_vec(&o).unwrap());
    }));
    let r = run_case(&c, say);
    let o = Outcome { findings: r.findings, hash: r.hash, log: r.log, switches: r.switches, fatal: None };
    let _ = std::fs::write(out, serde_json::to_vec(&o).unwrap());
    0
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("own path")
}

/// Runs a case in a fresh process.
pub fn fresh(c: &Case, dir: &Path, say: bool, secs: u64) -> Outcome {
    let inp = dir.join("case.json");
    let out = dir.join("outcome.json");
    let _ = std::fs::remove_file(&out);
    let _ = std::fs::write(&inp, serde_json::to_vec(c).unwrap());
    let mut ch = Command::new(exe())
        .arg("exec-case")
        .arg(&inp)
        .arg(&out)
        .arg(if say { "1" } else { "0" })
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t = Instant::now();
    let mut why = None;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                if !s.success() {
                    why = Some(format!("the process died: {s}"));
                }
                break;
            }
            _ if t.elapsed() > Duration::from_secs(secs) => {
                let _ = ch.kill();
                let _ = ch.wait();
                why = Some("the call does not end (no progress in wall-clock time)".into());
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    }
    match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<Outcome>(&b).ok()) {
        Some(o) => o,
        None => Outcome { fatal: why.or(Some("no outcome".into())), ..Default::default() },
    }
}

/// The finding of an outcome that counts for the property.
pub fn verdict(prop: &str, o: &Outcome, k: &Known) -> Option<Finding> {
    if let Some(w) = &o.fatal {
        return Some(Finding {
            props: vec![prop.into()],
            kind: "process-ends".into(),
            subject: "run".into(),
            detail: w.clone(),
            known: None,
        });
    }
    relevant(prop, &o.findings, k).cloned()
}

// ------------------------------------------------------------------ minimization

fn map_docs(s: &mut RunSpec, f: &mut dyn FnMut(&mut Doc)) {
    let mut on = |ops: &mut Vec<Op>| {
        for o in ops.iter_mut() {
            match o {
                // What makes a document invalid is left alone.
                Op::Build(d) => f(d),
                Op::Validate { doc, .. } => f(doc),
                _ => {}
            }
        }
    };
    match &mut s.plan {
        Plan::Facade(o) => on(o),
        Plan::Concurrent { setup, tasks } => {
            on(setup);
            for t in tasks {
                on(t);
            }
        }
        Plan::Graph { ops, .. } => {
            for o in ops {
                if let GraphOp::Build { doc } = o {
                    f(doc);
                }
            }
        }
        Plan::Mesh { events, .. } => {
            for e in events {
                if let NetOp::Author { doc, .. } = e {
                    f(doc);
                }
            }
        }
        _ => {}
    }
}

type Edit = Box<dyn Fn(&mut RunSpec)>;

fn edits(c: &Case) -> Vec<Edit> {
    let mut v: Vec<Edit> = vec![];
    let s = &c.spec;
    for i in (0..s.faults.len()).rev() {
        let f = s.faults[i].clone();
        v.push(Box::new(move |s| s.faults.retain(|x| *x != f)));
    }
    match &s.plan {
        Plan::Facade(ops) => {
            for i in (0..ops.len()).rev() {
                if ops[i] != Op::Noop {
                    v.push(Box::new(move |s| {
                        if let Plan::Facade(o) = &mut s.plan {
                            o[i] = Op::Noop;
                        }
                    }));
                }
            }
        }
        Plan::Concurrent { setup, tasks } => {
            for i in (0..tasks.len()).rev() {
                for j in (0..tasks[i].len()).rev() {
                    if tasks[i][j] != Op::Noop {
                        v.push(Box::new(move |s| {
                            if let Plan::Concurrent { tasks, .. } = &mut s.plan {
                                tasks[i][j] = Op::Noop;
                            }
                        }));
                    }
                }
            }
            for i in (0..setup.len()).rev() {
                if setup[i] != Op::Noop {
                    v.push(Box::new(move |s| {
                        if let Plan::Concurrent { setup, .. } = &mut s.plan {
                            setup[i] = Op::Noop;
                        }
                    }));
                }
            }
        }
        Plan::Mesh { events, .. } => {
            for i in (0..events.len()).rev() {
                if events[i] != NetOp::Noop {
                    v.push(Box::new(move |s| {
                        if let Plan::Mesh { events, .. } = &mut s.plan {
                            events[i] = NetOp::Noop;
                        }
                    }));
                }
            }
        }
        Plan::Store { ops, .. } => {
            for i in (0..ops.len()).rev() {
                if ops[i] != StoreOp::Noop {
                    v.push(Box::new(move |s| {
                        if let Plan::Store { ops, .. } = &mut s.plan {
                            ops[i] = StoreOp::Noop;
                        }
                    }));
                }
            }
        }
        Plan::Graph { ops, .. } => {
            for i in (0..ops.len()).rev() {
                if ops[i] != GraphOp::Noop {
                    v.push(Box::new(move |s| {
                        if let Plan::Graph { ops, .. } = &mut s.plan {
                            ops[i] = GraphOp::Noop;
                        }
                    }));
                }
            }
        }
        Plan::Trans(ops) => {
            for i in (0..ops.len()).rev() {
                if ops[i] != TransOp::Noop {
                    v.push(Box::new(move |s| {
                        if let Plan::Trans(o) = &mut s.plan {
                            o[i] = TransOp::Noop;
                        }
                    }));
                }
                let TransOp::File(f) = &ops[i] else { continue };
                let on = |f: Box<dyn Fn(&mut TFile)>| -> Edit {
                    Box::new(move |s: &mut RunSpec| {
                        if let Plan::Trans(o) = &mut s.plan {
                            if let TransOp::File(t) = &mut o[i] {
                                f(t);
                            }
                        }
                    })
                };
                if f.style != 0 {
                    v.push(on(Box::new(|f| f.style = 0)));
                }
                for j in (0..f.lines.len()).rev() {
                    // What makes a file invalid is left alone.
                    match &f.lines[j] {
                        TLine::Rename(p) | TLine::Link(p) => {
                            v.push(on(Box::new(move |f| {
                                if j < f.lines.len() {
                                    f.lines.remove(j);
                                }
                            })));
                            for k in (0..p.len()).rev() {
                                v.push(on(Box::new(move |f| {
                                    if let Some(TLine::Rename(p) | TLine::Link(p)) = f.lines.get_mut(j) {
                                        if p.len() > 1 && k < p.len() {
                                            p.remove(k);
                                        }
                                    }
                                })));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    // Single commands of documents, names, attributes.
    let mut s2 = s.clone();
    let mut n = 0;
    let mut docs: Vec<Doc> = vec![];
    map_docs(&mut s2, &mut |d| {
        docs.push(d.clone());
        n += 1;
    });
    let at = |k: usize, f: Box<dyn Fn(&mut Doc)>| -> Edit {
        Box::new(move |s: &mut RunSpec| {
            let mut i = 0;
            map_docs(s, &mut |d| {
                if i == k {
                    f(d);
                }
                i += 1;
            });
        })
    };
    for (k, d) in docs.iter().enumerate() {
        for i in (0..d.cmds.len()).rev() {
            v.push(at(k, Box::new(move |d| {
                if i < d.cmds.len() {
                    d.cmds.remove(i);
                }
            })));
        }
        if d.name.is_some() {
            v.push(at(k, Box::new(|d| d.name = None)));
        }
        if d.style != 0 {
            v.push(at(k, Box::new(|d| d.style = 0)));
        }
        for (i, c) in d.cmds.iter().enumerate() {
            if let Cmd::AddAttrs(a) = c {
                if a.len() > 1 {
                    for j in (0..a.len()).rev() {
                        v.push(at(k, Box::new(move |d| {
                            if let Some(Cmd::AddAttrs(a)) = d.cmds.get_mut(i) {
                                if a.len() > 1 && j < a.len() {
                                    a.remove(j);
                                }
                            }
                        })));
                    }
                }
            }
        }
    }
    if s.audit_each {
        v.push(Box::new(|s| s.audit_each = false));
    }
    if s.defer_retries {
        v.push(Box::new(|s| s.defer_retries = false));
    }
    if matches!(s.plan, Plan::Facade(_) | Plan::Concurrent { .. }) {
        for (db, cache) in [(Backend::Kv, Backend::Kv)] {
            if s.config.db != db {
                v.push(Box::new(move |s| s.config.db = db));
            }
            if s.config.cache != cache {
                v.push(Box::new(move |s| s.config.cache = cache));
            }
        }
    }
    if let Some(Sched::Replay { switches }) = &s.sched {
        let n = switches.len();
        let mut chunk = n / 2;
        while chunk >= 1 {
            let mut a = 0;
            while a < n {
                let b = (a + chunk).min(n);
                v.push(Box::new(move |s| {
                    if let Some(Sched::Replay { switches }) = &mut s.sched {
                        if switches.len() == n {
                            switches.drain(a..b);
                        }
                    }
                }));
                a = b;
            }
            chunk /= 2;
        }
    }
    v
}

pub fn minimize(prop: &str, case: &Case, want: &Finding, dir: &Path, k: &Known, budget: Duration) -> (Case, u64) {
    let t = Instant::now();
    let mut best = case.clone();
    let mut tries = 0;
    let fatal = want.kind == "process-ends";
    let per = if fatal { 25 } else { 20 };
    let same = |o: &Outcome| verdict(prop, o, k).is_some_and(|f| f.kind == want.kind);
    // A concrete list of switches replaces the scheduler's dice.
    if best.spec.sched.is_some() && !fatal {
        let o = fresh(&best, dir, false, per);
        let mut c = best.clone();
        c.spec.sched = Some(Sched::Replay { switches: o.switches.clone() });
        if same(&fresh(&c, dir, false, per)) {
            best = c;
        }
    }
    if fatal && want.detail.contains("wall-clock") {
        return (best, 0);
    }
    // Without the comparison, where it is not what shows the failure.
    if best.twin.is_some() && want.kind != "execution-differs" {
        let mut c = best.clone();
        c.twin = None;
        if same(&fresh(&c, dir, false, per)) {
            best = c;
        }
    }
    loop {
        let mut progress = false;
        let n = edits(&best).len();
        let mut i = 0;
        while i < n {
            if t.elapsed() > budget {
                return (best, tries);
            }
            let es = edits(&best);
            if i >= es.len() {
                break;
            }
            let mut c = best.clone();
            es[i](&mut c.spec);
            if let Some(tw) = &mut c.twin {
                let f = std::mem::take(&mut tw.faults);
                es[i](tw);
                tw.faults = f;
                tw.config = best.twin.as_ref().unwrap().config.clone();
                tw.sched = best.twin.as_ref().unwrap().sched.clone();
            }
            if c.spec != best.spec {
                tries += 1;
                if same(&fresh(&c, dir, false, per)) {
                    best = c;
                    progress = true;
                    continue;
                }
            }
            i += 1;
        }
        if !progress {
            return (best, tries);
        }
    }
}

// ------------------------------------------------------------------ replay files

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub seed: u64,
    pub violation: Finding,
    pub trace_hash: String,
    pub case: Case,
    /// Set when only the whole slice of the campaign reproduces it.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub campaign: Option<Slice>,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Slice {
    pub seed: u64,
    pub start: u64,
    pub step: u64,
    pub until: u64,
    pub mult: usize,
}

fn run_slice(prop: &str, s: &Slice, dir: &Path) -> Option<Hit> {
    let _ = std::fs::create_dir_all(dir);
    let out = dir.join(format!("hit-{}.json", s.start));
    let _ = std::fs::remove_file(&out);
    let mut c = worker_cmd(prop, s.seed, s.start, s.step, s.until + 1, 600.0, s.mult, dir);
    let _ = c.status();
    std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok())
}

pub fn replay(file: &str) -> i32 {
    let Ok(b) = std::fs::read(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let r: ReplayFile = match serde_json::from_slice(&b) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let dir = scratch(&format!("replay-{}", std::process::id()));
    // A recorded violation counts here whether it is listed as known or not.
    let k = Known { findings: vec![] };
    let code;
    if let Some(s) = &r.campaign {
        match run_slice(&r.property, s, &dir) {
            Some(h) => {
                println!("reproduced by the campaign slice: {} {}: {}", h.finding.kind, h.finding.subject, h.finding.detail);
                println!("VIOLATION property={} replay={file}", r.property);
                code = 1;
            }
            None => {
                println!("not reproduced: the property held in this slice");
                code = 0;
            }
        }
    } else {
        let o = fresh(&r.case, &dir, true, 60);
        for l in &o.log {
            println!("{l}");
        }
        match verdict(&r.property, &o, &k) {
            Some(f) => {
                let h = format!("{:016x}", o.hash);
                println!("{} {}: {}", f.kind, f.subject, f.detail);
                if f.kind == r.violation.kind && f.subject == r.violation.subject && h == r.trace_hash {
                    println!("exactly as recorded: same violation, same trace hash {h}");
                } else {
                    println!(
                        "differs from the record ({} {}, trace hash {} then, {h} now)",
                        r.violation.kind, r.violation.subject, r.trace_hash
                    );
                }
                println!("VIOLATION property={} replay={file}", r.property);
                code = 1;
            }
            None => {
                println!("not reproduced: the property held in this run");
                code = 0;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn scratch(name: &str) -> PathBuf {
    let d = home().join("target").join("scratch").join(name);
    let _ = std::fs::create_dir_all(&d);
    d
}

#[allow(clippy::too_many_arguments)]
fn worker_cmd(prop: &str, seed: u64, start: u64, step: u64, total: u64, secs: f64, mult: usize, dir: &Path) -> Command {
    let mut c = Command::new(exe());
    c.arg("worker")
        .arg(prop)
        .arg(seed.to_string())
        .arg(start.to_string())
        .arg(step.to_string())
        .arg(total.to_string())
        .arg(secs.to_string())
        .arg(mult.to_string())
        .arg(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    c
}

pub fn bases(prop: &str) -> u64 {
    match prop {
        "C11" => 12000,
        "C13" => 16000,
        "C18" => 12000,
        "C12" => 700,
        "C05" => 1500,
        "C10" => 700,
        "C20" | "C21" => 600,
        "C19" => 500,
        _ => 900,
    }
}

pub fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let k = known();
    let thorough = tier == "thorough";
    let workers: u64 = std::env::var("OCASIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale: f64 = std::env::var("OCASIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let (total, secs, mult) = if thorough {
        ((bases(prop) as f64 * 25.0 * scale) as u64, 1500.0, 2)
    } else {
        ((bases(prop) as f64 * scale) as u64, 240.0, 1)
    };
    let dir = scratch(&format!("{prop}-{}", std::process::id()));
    let mut kids: Vec<(u64, Child, Instant, Vec<u8>)> = vec![];
    for i in 0..workers {
        let c = worker_cmd(prop, seed, i, workers, total, secs, mult, &dir).spawn().expect("spawn worker");
        kids.push((i, c, Instant::now(), vec![]));
    }
    let mut hit: Option<Hit> = None;
    let mut broken: Option<String> = None;
    // The workers run until one of them finds something.
    while !kids.is_empty() && hit.is_none() && broken.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        let mut left = vec![];
        for (i, mut ch, mut since, mut last) in kids {
            let cur = dir.join(format!("current-{i}.json"));
            match ch.try_wait() {
                Ok(Some(s)) => match s.code() {
                    Some(0) => {}
                    Some(1) => {
                        let h = std::fs::read(dir.join(format!("hit-{i}.json")))
                            .ok()
                            .and_then(|b| serde_json::from_slice::<Hit>(&b).ok());
                        match h {
                            Some(h) if hit.is_none() => hit = Some(h),
                            Some(_) => {}
                            None => broken = Some(format!("worker {i} left no finding")),
                        }
                    }
                    _ => {
                        let case = std::fs::read(&cur).ok().and_then(|b| serde_json::from_slice::<Case>(&b).ok());
                        match case {
                            Some(case) => {
                                hit = Some(Hit {
                                    case,
                                    finding: Finding {
                                        props: vec![prop.into()],
                                        kind: "process-ends".into(),
                                        subject: "run".into(),
                                        detail: format!("{s}"),
                                        known: None,
                                    },
                                    index: 0,
                                    start: i,
                                    step: workers,
                                    total,
                                })
                            }
                            None => broken = Some(format!("worker {i} ended: {s}")),
                        }
                    }
                },
                Ok(None) => {
                    if since.elapsed() > Duration::from_secs(60) {
                        let now = std::fs::read(&cur).unwrap_or_default();
                        if now == last && !now.is_empty() {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            if let Ok(case) = serde_json::from_slice::<Case>(&now) {
                                hit = Some(Hit {
                                    case,
                                    finding: Finding {
                                        props: vec![prop.into()],
                                        kind: "process-ends".into(),
                                        subject: "run".into(),
                                        detail: "no progress in wall-clock time".into(),
                                        known: None,
                                    },
                                    index: 0,
                                    start: i,
                                    step: workers,
                                    total,
                                });
                            }
                            continue;
                        }
                        last = now;
                        since = Instant::now();
                    }
                    left.push((i, ch, since, last));
                }
                Err(e) => broken = Some(e.to_string()),
            }
        }
        kids = left;
    }
    let explored = t0.elapsed().as_secs_f64();
    for (_, mut ch, _, _) in kids {
        let _ = ch.kill();
        let _ = ch.wait();
    }
    let mut st = Stats::default();
    let mut all_done = true;
    for i in 0..workers {
        match std::fs::read(dir.join(format!("stats-{i}.json"))).ok().and_then(|b| serde_json::from_slice::<Stats>(&b).ok()) {
            Some(s) => {
                all_done &= s.done;
                st.merge(s)
            }
            None => all_done = false,
        }
    }
    let mut violations = 0;
    let mut lines = vec![];
    if let Some(h) = &hit {
        let f = h.finding.clone();
        let first = fresh(&h.case, &dir, false, 60);
        match verdict(prop, &first, &k) {
            Some(f1) => {
                let (case, tries) = minimize(prop, &h.case, &f1, &dir, &k, Duration::from_secs(if thorough { 180 } else { 60 }));
                let a = fresh(&case, &dir, true, 60);
                let b = fresh(&case, &dir, true, 60);
                let v = verdict(prop, &a, &k).unwrap_or(f1);
                let exact = a.hash == b.hash;
                let path = save(prop, seed, &case, &v, &a, None, &h.case);
                println!("{}: {} [{}] {}", prop, v.kind, v.subject, v.detail);
                println!(
                    "seed {} variant {}; minimised in {tries} runs to {} faults; replay {}",
                    h.case.spec.seed,
                    h.case.spec.variant,
                    case.spec.faults.len(),
                    if exact { "reproduces exactly" } else { "reproduces (trace differs between processes)" }
                );
                for l in tail(&a.log) {
                    println!("  {l}");
                }
                lines.push(format!("VIOLATION property={prop} replay={}", path.display()));
                violations += 1;
            }
            None => {
                // Not from this case alone: the process carried something over from before.
                let s = Slice { seed, start: h.start, step: h.step, until: h.index, mult };
                match run_slice(prop, &s, &dir) {
                    Some(h2) => {
                        let o = Outcome { findings: vec![h2.finding.clone()], ..Default::default() };
                        let path = save(prop, seed, &h2.case, &h2.finding, &o, Some(s), &h2.case);
                        println!("{}: {} [{}] {} (needs the runs before it)", prop, f.kind, f.subject, f.detail);
                        lines.push(format!("VIOLATION property={prop} replay={}", path.display()));
                        violations += 1;
                    }
                    None => {
                        eprintln!("unconfirmed: {} {} {}: seed {} variant {}", f.kind, f.subject, f.detail, h.case.spec.seed, h.case.spec.variant);
                        st.unconfirmed += 1;
                        let p = save(prop, seed, &h.case, &f, &Outcome::default(), None, &h.case);
                        eprintln!("kept as {}", p.display());
                        broken = Some("a finding could not be reproduced in a fresh process".into());
                    }
                }
            }
        }
    }
    for (p, id, replay, what) in &k.findings {
        if p != prop {
            continue;
        }
        let mut seen = st.known.contains_key(id);
        if !seen {
            if let Some(r) = replay {
                if let Some(rf) = std::fs::read(home().join(r)).ok().and_then(|b| serde_json::from_slice::<ReplayFile>(&b).ok()) {
                    let o = fresh(&rf.case, &dir, false, 60);
                    seen = o.findings.iter().any(|f| f.known.as_ref() == Some(id));
                }
            }
        }
        if seen {
            println!("KNOWN-FINDING: property={prop} {what} [{id}]");
        } else {
            println!("known finding {id} did not show in this run");
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    evidence(prop, tier, seed, &st, explored, t0.elapsed().as_secs_f64(), violations, all_done, total, workers);
    println!(
        "{prop}: {} runs ({} workloads), {} with faults, {} crashes, {} failed calls, {} acknowledged builds, {:.0} s{}",
        st.runs,
        st.bases,
        st.runs_with_faults,
        st.crashes,
        st.errors,
        st.acks,
        t0.elapsed().as_secs_f64(),
        if all_done { "" } else { " (stopped early)" }
    );
    for l in &lines {
        println!("{l}");
    }
    if violations > 0 {
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("harness: {b}");
        return 2;
    }
    0
}

fn tail(v: &[String]) -> Vec<String> {
    let keep: Vec<String> = v.iter().filter(|l| !l.starts_with("  [")).cloned().collect();
    let n = keep.len();
    keep[n.saturating_sub(25)..].to_vec()
}

fn save(prop: &str, seed: u64, case: &Case, f: &Finding, o: &Outcome, s: Option<Slice>, orig: &Case) -> PathBuf {
    let dir = home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{prop}-{:016x}-{}.json", orig.spec.seed, orig.spec.variant));
    let mut trace = o.log.clone();
    if trace.len() > 4000 {
        trace.drain(..trace.len() - 4000);
    }
    let r = ReplayFile {
        property: prop.into(),
        seed,
        violation: f.clone(),
        trace_hash: format!("{:016x}", o.hash),
        case: case.clone(),
        campaign: s,
        trace,
    };
    let _ = std::fs::write(&p, serde_json::to_vec_pretty(&r).unwrap());
    p
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, st: &Stats, explored: f64, wall: f64, violations: u64, all_done: bool, total: u64, workers: u64) {
    let scenes = &st.scenes;
    let mut real = vec![];
    let mut stub = vec!["entropy and clock (simulated)".to_string()];
    if scenes.contains_key("one facade") || scenes.contains_key("concurrent facades") {
        real.extend(
            [
                "oca facade, repositories, data_storage (file system, sled wrapper, in-memory)",
                "oca-bundle, oca-ast, oca-file, oca-dag crates",
                "SQLite 3 (bundled C library) with its unix VFS",
                "rusqlite, said, std::fs, std::sync",
            ]
            .map(String::from),
        );
        stub.extend(
            [
                "kernel file system: simulated disk below libc with page-cache, journal of un-synced writes and metadata",
                "sled 0.34: stand-in with buffered writes, flush and prefix loss on a crash",
                "remote key-value store: simulated, implements the repository's storage trait",
                "pthread mutex/futex waiting and sleeping: simulated scheduler over real threads",
            ]
            .map(String::from),
        );
    }
    if scenes.contains_key("storage backend") {
        real.extend(["FileSystemStorage, SledDataStorage, InMemoryDataStorage of data_storage", "std::fs"].map(String::from));
        stub.extend(["kernel file system (simulated disk)", "sled (stand-in)", "key-value store (simulated)"].map(String::from));
    }
    if scenes.contains_key("version graph") {
        real.extend(["oca-dag versioning graph, its SledDataStorage"].map(String::from));
        stub.extend(["sled (stand-in)", "key-value store (simulated)"].map(String::from));
    }
    let distinct = st.hashes.len();
    let e = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": "One evaluation is one simulated run: a workload drawn from a seed, executed in the simulated world once undisturbed and then under drawn variants (crash and error faults at drawn storage operations, schedules, entropy, backends). A run is non-trivial if it acknowledged or rejected something and had a fault, a task switch, a query or several builds; runs are distinct by the hash of their complete sequence of storage operations.",
            "samples": st.samples.iter().take(4).collect::<Vec<_>>(),
            "workloads": st.bases,
            "workloads_planned": total,
            "complete": all_done,
            "workers": workers,
            "distinct_traces": distinct,
            "runs_with_faults": st.runs_with_faults,
            "runs_per_hour": if explored > 0.0 { (st.runs as f64 / explored * 3600.0) as u64 } else { 0 },
            "seeds_per_hour": if explored > 0.0 { (st.bases as f64 / explored * 3600.0) as u64 } else { 0 },
            "simulated_seconds": (st.sim_ns as f64 / 1e9),
            "storage_operations": st.seams,
            "faults_injected": st.fired,
            "fault_places": st.placed,
            "distinct_fault_places": st.placed.len(),
            "crashes_and_restarts": st.crashes,
            "calls_with_storage_errors": st.errors,
            "acknowledged": st.acks,
            "rejected": st.rejected,
            "queries": st.queries,
            "full_audits": st.audits,
            "skipped_operations": st.skipped,
            "scheduling_points": st.points,
            "task_switches": st.switches,
            "distinct_interleavings": st.interleavings.len(),
            "interleaving_measure": "distinct (workload, list of task switches)",
            "scenarios": st.scenes,
            "probes": st.probes,
            "known_findings_seen": st.known,
            "real_components": real,
            "stub_components": stub,
        },
        "assumptions": [
            "The simulated disk: a write survives a power loss for certain only after fsync of the file, a directory entry only after fsync of the directory; before that any subset may survive, writes may be torn; a kill keeps everything written to the kernel.",
            "sled is replaced by a stand-in that loses a suffix of un-flushed operations; bugs inside the real sled are not explored.",
            "SQLite errors are injected where SQLite treats them as errors."
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let d = home().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{prop}.json")), serde_json::to_vec_pretty(&e).unwrap());
}
