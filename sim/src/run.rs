//! One run: a pure function of its specification and the code.
use crate::exec::*;
use crate::spec::*;
use simcore::world::{self, SeamRec};
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Default, Clone, Debug)]
pub struct RunResult {
    pub findings: Vec<Finding>,
    pub traces: BTreeMap<(usize, usize), Vec<SeamRec>>,
    pub obs: BTreeMap<String, String>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub hash: u64,
    pub seams: u64,
    pub sim_ns: u64,
    pub log: Vec<String>,
    pub acks: usize,
    pub crashes: usize,
    pub errors: usize,
    pub audits: usize,
    pub rejected: usize,
    pub queries: usize,
    pub skipped: usize,
    pub switches: Vec<(u64, usize)>,
    pub points: u64,
}

pub fn run_spec(spec: &RunSpec, say: bool, traces: bool) -> RunResult {
    let spec = Arc::new(spec.clone());
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            world::install(spec.env_seed);
            crate::interpose::set_sim_entropy(true);
            unsafe { rusqlite::ffi::sqlite3_randomness(0, std::ptr::null_mut()) };
            simcore::with_world(|w| {
                w.verbose = say;
                w.faults = spec.faults.clone();
            });
            let mut out = match &spec.plan {
                Plan::Facade(ops) => run_facade(spec.clone(), ops, say, traces),
                Plan::Concurrent { setup, tasks } => crate::conc::run(spec.clone(), setup, tasks, say),
                Plan::Store { backend, ops } => crate::store::run(&spec, *backend, ops, say, traces),
                Plan::Graph { sled, ops } => crate::graph::run(&spec, *sled, ops, say, traces),
                Plan::Trans(ops) => crate::trans::run(&spec, ops, say),
                Plan::Mesh { nodes, events } => crate::mesh::run(spec.clone(), nodes, events, say, traces),
            };
            let now = world::now_ns();
            let w = world::uninstall();
            out.fired = w.fired;
            out.probes = w.probes;
            out.hash = w.hash;
            out.seams = w.seams;
            out.sim_ns = now - 1_700_000_000_000_000_000;
            out.log = w.log;
            out
        })
        .expect("spawn run");
    match h.join() {
        Ok(r) => r,
        Err(p) => {
            // A bug of the harness itself.
            let t = panic_text(p);
            if world::world_active() {
                world::uninstall();
            }
            RunResult {
                findings: vec![Finding {
                    props: vec!["harness".into()],
                    kind: "harness-panic".into(),
                    subject: String::new(),
                    detail: t,
                    known: None,
                }],
                ..Default::default()
            }
        }
    }
}

fn run_facade(spec: Arc<RunSpec>, ops: &[Op], say: bool, traces: bool) -> RunResult {
    provision("");
    let mut e = Env::new(spec);
    e.say = say;
    e.keep_traces = traces;
    if e.open() {
        e.run_ops(ops);
    }
    let was = simcore::sched::set_in_sim(true);
    e.facade = None;
    simcore::sched::set_in_sim(was);
    finish(e)
}

pub fn finish(e: Env) -> RunResult {
    RunResult {
        findings: e.findings,
        traces: e.traces,
        obs: e.obs,
        acks: e.acks,
        crashes: e.crashes,
        errors: e.errors,
        audits: e.audits,
        rejected: e.rejected,
        queries: e.queries,
        skipped: e.skipped,
        ..Default::default()
    }
}
