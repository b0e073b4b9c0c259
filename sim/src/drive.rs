//! Per-property campaigns: what is generated, which faults are placed where.
use crate::conc::{opnum, CONC_OP};
use crate::exec::*;
use crate::gen::{self, Gen, Profile, Shape};
use crate::run::RunResult;
use crate::spec::*;
use simcore::rng::{derive, Rng};
use simcore::world::{Fault, FaultKind, Seam, SeamRec};
use std::collections::BTreeMap;

pub const PROPS: [&str; 21] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scene {
    Facade,
    Conc,
    Store,
    Graph,
    Builds,
    Trans,
    Mesh,
}

pub fn scene(prop: &str, r: &mut Rng) -> Scene {
    match prop {
        "C11" => Scene::Store,
        "C12" => Scene::Conc,
        "C13" => Scene::Graph,
        "C16" => Scene::Builds,
        "C18" => Scene::Trans,
        "C19" => Scene::Mesh,
        "C05" | "C08" | "C09" | "C10" if r.chance(15, 100) => Scene::Conc,
        "C07" | "C06" if r.chance(8, 100) => Scene::Conc,
        _ => Scene::Facade,
    }
}

pub fn profile(prop: &str, r: &mut Rng) -> Profile {
    let mut p = Profile::default();
    match prop {
        "C01" => {
            p.w = [10, 0, 0, 1, 4, 1];
            p.again = 12;
            p.name = 55;
            p.refs = 15;
        }
        "C02" => {
            p.w = [10, 0, 0, 0, 1, 0];
            p.ops = (2, 5);
            p.again = 12;
            p.name = 50;
            p.refs = 15;
        }
        "C03" => {
            p.w = [10, 0, 0, 6, 0, 0];
            p.ops = (3, 8);
            p.refs = 20;
            p.name = 50;
        }
        "C04" => {
            p.w = [8, 3, 1, 6, 0, 0];
            p.ops = (4, 9);
            p.hostile = true;
        }
        "C05" => {
            p.w = [10, 0, 0, 0, 0, 2];
            p.cmds = (1, 8);
            p.ops = (2, 6);
        }
        "C06" => {
            p.w = [10, 0, 0, 1, 0, 2];
            p.cmds = (1, 8);
            p.from = 60;
        }
        "C07" => {
            p.w = [10, 0, 0, 2, 1, 1];
            p.from = 60;
            p.revert = 45;
            p.again = 15;
            p.ops = (3, 9);
        }
        "C08" => {
            p.w = [10, 1, 0, 3, 1, 1];
            p.name = 75;
            p.refs = 45;
            p.ops = (3, 9);
        }
        "C09" => {
            p.w = [10, 0, 0, 3, 1, 1];
            p.collide = true;
            p.again = 15;
            p.ops = (3, 9);
        }
        "C10" => {
            p.w = [10, 1, 0, 7, 1, 1];
            p.hostile = true;
            p.again = 15;
            p.ops = (4, 11);
        }
        "C15" => {
            p.w = [10, 0, 0, 3, 1, 1];
            p.from = 50;
            p.refs = 20;
            p.cmds = (1, 8);
            p.ops = (3, 8);
        }
        "C17" => {
            p.w = [10, 0, 0, 0, 0, 0];
            p.cmds = (1, 8);
            p.ops = (2, 6);
        }
        "C16" => {
            p.w = [10, 0, 0, 0, 1, 1];
            p.ops = (2, 7);
            p.from = 55;
            p.revert = 45;
            p.again = 15;
        }
        "C20" => {
            p.w = [10, 0, 0, 4, 0, 1];
            p.refs = 45;
            p.name = 40;
            p.ops = (3, 9);
        }
        "C21" => {
            p.w = [10, 0, 1, 0, 1, 0];
            p.cmds = (1, 8);
            p.from = 35;
            p.refs = 20;
            p.again = 20;
            p.revert = 25;
            p.ops = (3, 8);
        }
        "C14" => {
            p.w = [6, 8, 4, 3, 0, 0];
            p.ops = (3, 7);
            p.name = 60;
        }
        _ => {}
    }
    let only: Option<u64> = std::env::var("OCASIM_SHAPE").ok().and_then(|s| s.parse().ok());
    p.shape = match only.unwrap_or(r.below(240)) {
        0..=11 => Shape::Chain,
        12..=17 => Shape::Wide,
        18..=29 => Shape::Layers,
        30..=35 => Shape::Big,
        36 => Shape::Many,
        39..=42 if matches!(prop, "C09" | "C10") => Shape::Many,
        43..=90 if prop == "C20" => Shape::Tangle,
        91..=110 if prop == "C20" => Shape::Deep,
        111..=112 if prop == "C20" => Shape::Many,
        113..=114 if prop == "C20" => Shape::Long,
        37 => Shape::Long,
        38 => Shape::Deep,
        _ => Shape::Mixed,
    };
    // Swarm: leave out kinds of commands, vary the shape.
    if r.chance(1, 3) {
        p.overlays = r.next() | 1;
    }
    if r.chance(1, 4) {
        p.collide = !p.collide;
    }
    if r.chance(1, 8) {
        p.ops = (1, 2);
    }
    if r.chance(1, 10) {
        p.ops.1 += 8;
    }
    p.same = p.shape == Shape::Many && r.chance(1, 2);
    if matches!(p.shape, Shape::Many | Shape::Long | Shape::Tangle) {
        p.w[4] = 0;
        p.w[5] = 0;
    }
    if p.shape == Shape::Long {
        p.cmds = (90, 280);
        p.collide = false;
    }
    if r.chance(1, 5) {
        p.from = *r.pick(&[0, 80]);
    }
    if r.chance(1, 5) {
        p.refs = *r.pick(&[0, 40]);
    }
    p
}

fn idle_crashes(prop: &str) -> bool {
    matches!(prop, "C01" | "C02" | "C07" | "C08" | "C09" | "C10")
}

/// Which fault families the variants of a property use: (crash, error) weights.
fn families(prop: &str) -> (u64, u64, u64) {
    // none, crash, error
    match prop {
        "C01" => (1, 9, 0),
        "C02" => (0, 10, 0),
        "C03" => (0, 1, 9),
        "C04" => (1, 1, 8),
        "C05" => (6, 2, 2),
        "C06" | "C15" | "C17" => (6, 2, 2),
        "C14" => (3, 3, 4),
        _ => (4, 3, 3),
    }
}

pub fn variants(prop: &str) -> usize {
    match prop {
        "C05" => 4,
        "C06" => 3,
        "C15" => 4,
        "C17" | "C18" => 3,
        "C10" => 5,
        "C12" => 8,
        _ => 8,
    }
}

/// How many variants a workload is worth.
pub fn worth(base: &RunSpec, m: usize) -> usize {
    match &base.plan {
        Plan::Graph { ops, .. } => {
            let long = ops.iter().any(|o| matches!(o, GraphOp::Build { doc } if doc.cmds.len() > 60));
            if ops.len() > 60 || long {
                m.div_ceil(4)
            } else {
                m
            }
        }
        Plan::Facade(ops) => {
            let long = ops.iter().any(|o| matches!(o, Op::Build(d) if d.cmds.len() > 60));
            if ops.len() > 60 || long {
                m.div_ceil(4)
            } else {
                m
            }
        }
        _ => m,
    }
}

pub fn base_spec(prop: &str, seed: u64) -> RunSpec {
    let mut r = Rng::new(derive(seed, "plan"));
    let sc = scene(prop, &mut r);
    let crashes = matches!(prop, "C01" | "C02" | "C03" | "C20") || r.chance(70, 100);
    let mut config = gen::config(&mut r, crashes || prop == "C21");
    let mut heavy = false;
    let plan = match sc {
        Scene::Facade => {
            let p = profile(prop, &mut r);
            heavy = p.shape != Shape::Mixed;
            let mut g = Gen::new(&mut r, p);
            let mut ops = g.ops();
            if idle_crashes(prop) && prop == "C01" {
                ops.push(Op::Crash { power: g.r.chance(7, 10) });
            }
            Plan::Facade(ops)
        }
        Scene::Conc => {
            config = gen::config(&mut r, true);
            conc_plan(prop, &mut r)
        }
        Scene::Store => store_plan(&mut r),
        Scene::Graph => graph_plan(&mut r),
        Scene::Trans => crate::trans::plan(&mut r),
        Scene::Mesh => mesh_plan(&mut r, crashes),
        Scene::Builds => {
            let p = profile(prop, &mut r);
            heavy = p.shape != Shape::Mixed;
            builds_plan(&mut r, p)
        }
    };
    let n = if let Plan::Concurrent { tasks, .. } = &plan { tasks.len() } else { 0 };
    let sched = if n > 0 { Some(Sched::Random { seed, num: 1, den: 4 }) } else { None };
    RunSpec {
        property: prop.into(),
        seed,
        variant: 0,
        config,
        plan,
        env_seed: derive(seed, "env"),
        faults: vec![],
        sched,
        defer_retries: false,
        audit_each: r.chance(1, 4) && !heavy,
    }
}

fn conc_plan(prop: &str, r: &mut Rng) -> Plan {
    let mut p = Profile {
        ops: (0, 3),
        cmds: (1, 3),
        w: [1, 0, 0, 0, 0, 0],
        collide: r.chance(2, 3),
        again: 0,
        name: 50,
        refs: 10,
        ..Default::default()
    };
    if prop == "C08" {
        p.name = 80;
        p.refs = 40;
    }
    let nset = r.range(0, 2);
    p.ops = (nset, nset);
    let mut g = Gen::new(r, p.clone());
    let setup = if nset == 0 { vec![] } else { g.ops() };
    // Names several tasks declare are not used in any text.
    let hot = ["first".to_string(), "second".to_string()];
    let stable: BTreeMap<String, String> =
        g.m.names.iter().filter(|(n, _)| !hot.contains(n)).map(|(a, b)| (a.clone(), b.clone())).collect();
    let model = g.m.clone();
    let docs = g.docs.clone();
    let nt = g.r.range(2, 4);
    let mut tasks: Vec<Vec<Op>> = vec![];
    let mut all: Vec<Doc> = vec![];
    g.p.again = 15;
    for t in 0..nt {
        g.m = model.clone();
        g.m.names = stable.clone();
        g.docs = docs.clone();
        let n = g.r.range(1, 3);
        let mut v = vec![];
        for j in 0..n {
            let num = opnum(t, j);
            let query = g.r.chance(if prop == "C12" { 35 } else { 20 }, 100);
            if query {
                let q = match g.r.below(8) {
                    0 => Query::ListBundles { limit: 1000, page: 1 },
                    1 => Query::ListBases { limit: 1000, page: 1 },
                    2 | 3 => Query::Refs,
                    4 => Query::Search {
                        lang: None,
                        phrase: g.r.pick(&["Passport", "one", "two", "Driving"]).to_string(),
                        limit: 1000,
                        page: 1,
                    },
                    k => {
                        if g.docs.is_empty() {
                            Query::ListBundles { limit: 1000, page: 1 }
                        } else {
                            let i = g.r.below(g.docs.len() as u64) as usize;
                            let of = Ref::Op(g.docs[i].0);
                            match k {
                                5 => Query::Bundle { of, deps: g.r.chance(1, 2) },
                                6 => Query::Steps { of },
                                _ => Query::Explore { of, which: g.r.below(8) as usize },
                            }
                        }
                    }
                };
                v.push(Op::Query(q));
                continue;
            }
            let mut d = if !all.is_empty() && g.r.chance(35, 100) {
                let k = g.r.below(all.len() as u64) as usize;
                all[k].clone()
            } else {
                g.doc()
            };
            d.name = if g.r.chance(p.name, 100) { Some(g.r.pick(&hot).clone()) } else { None };
            if g.m.plan(&d).is_none() {
                continue;
            }
            g.take(num, &d);
            g.m.names = stable.clone();
            // Only documents that stand on the setup can be shared between tasks.
            let own = |r: &Ref| matches!(r, Ref::Op(i) if *i >= 100);
            if !doc_refs(&d).iter().any(|r| own(r)) {
                all.push(d.clone());
            }
            v.push(Op::Build(d));
        }
        tasks.push(v);
    }
    Plan::Concurrent { setup, tasks }
}

fn ty_refs(t: &Ty, out: &mut Vec<Ref>) {
    match t {
        Ty::Ref(r) => out.push(r.clone()),
        Ty::Array(t) => ty_refs(t, out),
        _ => {}
    }
}
pub fn doc_refs(d: &Doc) -> Vec<Ref> {
    let mut out: Vec<Ref> = d.base.iter().cloned().collect();
    for c in &d.cmds {
        match c {
            Cmd::AddAttrs(v) => {
                for (_, t) in v {
                    ty_refs(t, &mut out);
                }
            }
            Cmd::Link { target, .. } => out.push(target.clone()),
            _ => {}
        }
    }
    out
}

fn store_plan(r: &mut Rng) -> Plan {
    let backend = *r.pick(&[Backend::Fs, Backend::Fs, Backend::Fs, Backend::Sled, Backend::Sled, Backend::Kv, Backend::Mem]);
    let mut keys: Vec<String> = [
        "plain", "EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0", "oca.X.operation", "a", "A", "a/b", "a%2Fb", "a%b", "..", ".",
        "", "../escape", "../../simdisk/other/x", "/abs/path", "/simdisk/other/y", "%", "%tmp0", "%tmp", "x.tmp", ".tmp-x",
        "tmp", "core_model", "oca_refs/first", "nul\0byte", "new\nline", "Łódź", "sp ace", "a/", "a/../a", "~", "%00", "%2E%2E",
        "team/person", "x:y", "C:\\x", "*", ".hidden", "a.lock", "a~", "%25", "%2F",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    keys.push("k".repeat(300));
    keys.push("/".repeat(120));
    for n in [80usize, 130, 200, 240] {
        keys.push("k".repeat(n) + "1");
        keys.push("k".repeat(n) + "2");
    }
    r.shuffle(&mut keys);
    let nk = r.range(1, 6);
    keys.truncate(nk);
    // Random keys, and neighbours of those there are.
    for _ in 0..r.range(0, 3) {
        let abc: Vec<char> = "aAbB01._-~%/\\: é\u{301}\n+#?&=$'\"*|<>ß😀".chars().collect();
        let n = r.range(1, 9);
        keys.push((0..n).map(|_| *r.pick(&abc)).collect());
    }
    for _ in 0..r.range(0, 2) {
        let k = r.pick(&keys).clone();
        let n = k.chars().count();
        keys.push(match r.below(9) {
            0 => k.to_uppercase(),
            1 => k.to_lowercase(),
            2 => k + " ",
            3 => format!(" {k}"),
            4 => k.replace('/', "%2F"),
            5 => k.replace('%', "%25"),
            6 => k.replace('/', "_"),
            7 => k.chars().take(n.saturating_sub(1)).collect(),
            _ => k + ".",
        });
    }
    let many = r.chance(1, 250);
    if many {
        keys.extend((0..150).map(|i| format!("many{i}")));
    }
    let n = if many { 170 } else { r.range(2, 14) };
    let mut ops = vec![];
    let mut serial = 0u32;
    for i in 0..n {
        let key = if many && i < 150 { keys[keys.len() - 1 - i].clone() } else { r.pick(&keys).clone() };
        let spread = if r.chance(1, 2) { 2 } else { 6 };
        let ns = if many && r.chance(9, 10) { 0 } else { r.below(spread) as usize };
        let handle = r.below(2) as usize;
        ops.push(match r.below(12) {
            0..=5 => {
                serial += 1;
                let mut val = match r.below(6) {
                    0 => vec![],
                    1 => vec![0, 255, 10, 13, 0, serial as u8],
                    2 if r.chance(1, 30) => {
                        let mut v = vec![b'y'; *r.pick(&[65_535usize, 65_536, 70_000, 1 << 20, (1 << 20) + 1])];
                        let n = v.len();
                        v[n - 1] = serial as u8;
                        v
                    }
                    3 => {
                        // Blanks and line ends matter.
                        let t = *r.pick(&["\n", " ", "\r\n", "null", "[]", "\0", "\u{feff}"]);
                        let v = format!("value {serial}");
                        (match r.below(3) {
                            0 => t.to_string(),
                            1 => v + t,
                            _ => t.to_string() + &v,
                        })
                        .into_bytes()
                    }
                    2 => {
                        let mut v = vec![b'x'; r.range(4000, 20000)];
                        let n = v.len();
                        v[n - 1] = serial as u8;
                        v
                    }
                    _ => format!("value {serial}").into_bytes(),
                };
                if r.chance(1, 10) {
                    val = b"value 1".to_vec();
                }
                StoreOp::Put { ns, key, val, handle }
            }
            6..=7 => StoreOp::Get { ns, key, handle },
            8 => StoreOp::All { ns, handle },
            9 | 10 => StoreOp::Crash { power: r.chance(7, 10) },
            _ => StoreOp::Reopen,
        });
    }
    Plan::Store { backend, ops }
}

/// Authors on several nodes, and what the network does in the meantime.
fn mesh_plan(r: &mut Rng, crashes: bool) -> Plan {
    let n = *r.pick(&[2usize, 2, 3, 3, 3, 4]);
    let nodes: Vec<Config> = (0..n).map(|_| gen::config(r, crashes)).collect();
    let p = Profile {
        w: [1, 0, 0, 0, 0, 0],
        ops: (3, 8),
        cmds: (1, 5),
        from: *r.pick(&[0, 40, 70]),
        refs: *r.pick(&[0, 15, 40]),
        again: *r.pick(&[5, 25]),
        name: 0,
        collide: r.chance(1, 3),
        revert: 15,
        shape: match r.below(40) {
            0 => Shape::Layers,
            1 => Shape::Big,
            2 => Shape::Wide,
            _ => Shape::Mixed,
        },
        ..Default::default()
    };
    let mut g = Gen::new(r, p);
    let docs: Vec<(usize, Doc)> = g
        .ops()
        .into_iter()
        .enumerate()
        .filter_map(|(i, o)| match o {
            Op::Build(d) => Some((i, Doc { name: None, ..d })),
            _ => None,
        })
        .collect();
    let (loss, dups, bad, cuts) = (*r.pick(&[0, 10, 30]), *r.pick(&[0, 15, 40]), *r.pick(&[0, 15, 40]), *r.pick(&[0, 5, 15]));
    let mut events = vec![];
    for (id, doc) in docs {
        events.push(NetOp::Author { node: r.below(n as u64) as usize, id, doc });
        for _ in 0..r.range(0, 2 * n) {
            let (a, mut b) = (r.below(n as u64) as usize, r.below(n as u64) as usize);
            if a == b {
                b = (a + 1) % n;
            }
            let pick = if r.chance(1, 2) { 0 } else { r.below(6) as usize };
            events.push(if r.chance(cuts, 100) {
                NetOp::Cut { a, b }
            } else if r.chance(cuts, 100) {
                NetOp::Heal { a, b }
            } else if r.chance(loss, 200) {
                NetOp::Lose { from: a, to: b, pick }
            } else if r.chance(12, 100) {
                NetOp::Pull { node: a, from: b }
            } else if crashes && r.chance(4, 100) {
                NetOp::Crash { power: r.chance(6, 10) }
            } else {
                NetOp::Deliver { from: a, to: b, pick, dup: r.chance(dups, 100), corrupt: r.chance(bad, 100) }
            });
        }
    }
    Plan::Mesh { nodes, events }
}

fn graph_plan(r: &mut Rng) -> Plan {
    let sled = r.chance(1, 2);
    let big = r.chance(1, 400);
    let n = if big { r.range(60, 320) } else { r.range(2, 14) };
    // Children of one version, or a line of descent.
    let line = r.chance(1, 2);
    let mut names: Vec<String> = vec![];
    let mut parents: Vec<Option<String>> = vec![];
    let mut ops = vec![];
    for i in 0..n {
        if !names.is_empty() && r.chance(if big { 2 } else { 15 }, 100) {
            ops.push(if r.chance(3, 4) { GraphOp::Crash { power: r.chance(1, 2) } } else { GraphOp::Reopen });
            continue;
        }
        if !names.is_empty() && r.chance(8, 100) {
            // Repeated addition.
            let k = r.below(names.len() as u64) as usize;
            ops.push(GraphOp::Add { new: names[k].clone(), to: parents[k].clone() });
            continue;
        }
        // Names that are the beginning, the end or another spelling of one there already.
        let near = if !names.is_empty() && r.chance(1, 5) {
            let o = r.pick(&names).clone();
            let near = match r.below(5) {
                0 | 1 => o[..r.range(1, o.len())].to_string(),
                2 => o[r.range(0, o.len() - 1)..].to_string(),
                3 if o.len() < 250 => format!("{o}0"),
                _ => o.to_uppercase(),
            };
            (!names.contains(&near)).then_some(near)
        } else {
            None
        };
        let new = match r.below(4) {
            _ if near.is_some() => near.unwrap(),
            0 => format!("EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1P{i:02}"),
            1 if i > 0 => {
                let most = if r.chance(1, 4) { 240 } else { 40 };
                format!("v{}", "x".repeat(r.range(0, most))) + &i.to_string()
            }
            _ => format!("dag{i}"),
        };
        let to = if names.is_empty() || r.chance(12, 100) {
            None
        } else if big && r.chance(9, 10) {
            Some(if line { names[names.len() - 1].clone() } else { names[0].clone() })
        } else if r.chance(1, 2) {
            Some(names[0].clone())
        } else {
            Some(r.pick(&names).clone())
        };
        names.push(new.clone());
        parents.push(to.clone());
        ops.push(GraphOp::Add { new, to });
    }
    Plan::Graph { sled, ops }
}

fn builds_plan(r: &mut Rng, mut p: Profile) -> Plan {
    p.name = 0;
    let sled = r.chance(1, 2);
    let mut g = Gen::new(r, p);
    let all = g.ops();
    let mut ops = vec![];
    for o in all {
        ops.push(match o {
            Op::Build(doc) => GraphOp::Build { doc: Doc { name: None, ..doc } },
            Op::Crash { power } => GraphOp::Crash { power },
            _ => GraphOp::Reopen,
        });
    }
    for o in ops.iter_mut() {
        if matches!(o, GraphOp::Reopen) && g.r.chance(60, 100) && !g.docs.is_empty() {
            let i = g.r.below(g.docs.len() as u64) as usize;
            let doc = Doc { name: None, ..g.docs[i].1.clone() };
            *o = GraphOp::Refused { doc, how: g.r.below(5) as u8 };
        }
    }
    Plan::Graph { sled, ops }
}

fn pick_seam(r: &mut Rng, t: &[SeamRec], pred: impl Fn(&SeamRec) -> bool, bias: u64) -> Option<usize> {
    let all: Vec<usize> = (0..t.len()).filter(|i| pred(&t[*i])).collect();
    if all.is_empty() {
        return None;
    }
    let m: Vec<usize> = all.iter().copied().filter(|i| t[*i].mutating).collect();
    if !m.is_empty() && r.chance(bias, 100) {
        // Spread over the kinds of objects, not only over the many journal writes.
        if r.chance(1, 2) {
            let mut classes: Vec<&String> = m.iter().map(|i| &t[*i].class).collect();
            classes.sort();
            classes.dedup();
            let c = (*r.pick(&classes)).clone();
            let v: Vec<usize> = m.iter().copied().filter(|i| t[*i].class == c).collect();
            return Some(*r.pick(&v));
        }
        return Some(*r.pick(&m));
    }
    Some(*r.pick(&all))
}

fn crash_fault(r: &mut Rng, op: usize, attempt: usize, t: &[SeamRec]) -> Option<Fault> {
    let seam = pick_seam(r, t, |_| true, 85)?;
    let write = t[seam].seam == Seam::Write;
    let after = r.chance(45, 100);
    let torn = write && r.chance(30, 100);
    let kind = if r.chance(35, 100) { FaultKind::Kill { after, torn } } else { FaultKind::Power { after, torn } };
    Some(Fault { op, attempt, seam, kind })
}

fn error_fault(r: &mut Rng, op: usize, attempt: usize, t: &[SeamRec]) -> Option<Fault> {
    if r.chance(8, 100) {
        if let Some(seam) = pick_seam(r, t, |x| x.seam == Seam::Write, 50) {
            return Some(Fault { op, attempt, seam, kind: FaultKind::Short });
        }
    }
    let seam = pick_seam(r, t, |x| x.errs, 55)?;
    let m = t[seam].mutating;
    let open = t[seam].seam == Seam::Open;
    let errno = match r.below(20) {
        0..=8 => libc::EIO,
        9..=12 if m => libc::ENOSPC,
        13 | 14 => libc::EINTR,
        15 if open => libc::EMFILE,
        16 => libc::EACCES,
        17 => *r.pick(&[libc::ETIMEDOUT, libc::ESTALE, libc::EAGAIN]),
        18 if m => *r.pick(&[libc::EROFS, libc::EDQUOT, libc::EPERM]),
        _ => libc::EIO,
    };
    let kind = if errno != libc::EINTR && r.chance(35, 100) {
        FaultKind::Sticky { errno, n: *r.pick(&[2usize, 3, 5, 10, 40]) }
    } else {
        FaultKind::Err { errno }
    };
    Some(Fault { op, attempt, seam, kind })
}

/// Weight of a call as the place of a fault.
fn weight(prop: &str, plan: &Plan, op: usize) -> u64 {
    match plan {
        Plan::Facade(ops) => match ops.get(op) {
            Some(Op::Build(_)) => {
                if prop == "C14" {
                    1
                } else {
                    6
                }
            }
            Some(Op::Reject { .. }) | Some(Op::Validate { .. }) => {
                if prop == "C14" {
                    8
                } else {
                    2
                }
            }
            Some(Op::Query(_)) => 4,
            _ => 0,
        },
        Plan::Concurrent { setup, .. } => {
            if op == CONC_OP {
                30
            } else if op < setup.len() {
                1
            } else {
                0
            }
        }
        Plan::Store { ops, .. } => match ops.get(op) {
            Some(StoreOp::Put { .. }) => 6,
            Some(StoreOp::Get { .. }) | Some(StoreOp::All { .. }) => 2,
            _ => 0,
        },
        Plan::Graph { ops, .. } => match ops.get(op) {
            Some(GraphOp::Add { .. } | GraphOp::Build { .. }) => 5,
            Some(GraphOp::Refused { .. }) => 1,
            _ => 0,
        },
        Plan::Trans(_) => 0,
        Plan::Mesh { events, .. } => match events.get(op / crate::mesh::STEP) {
            Some(NetOp::Author { .. }) => 6,
            Some(NetOp::Deliver { .. }) => 5,
            Some(NetOp::Pull { .. }) => 4,
            _ => 0,
        },
    }
}

pub fn all_durable(s: &RunSpec) -> bool {
    match &s.plan {
        Plan::Store { backend, .. } => *backend != Backend::Mem,
        Plan::Graph { .. } => true,
        Plan::Mesh { nodes, .. } => nodes.iter().all(durable),
        _ => durable(&s.config),
    }
}

pub fn variant_spec(prop: &str, base: &RunSpec, twin: &RunResult, k: usize) -> RunSpec {
    let mut s = base.clone();
    s.variant = k as u64;
    let mut r = Rng::new(derive(derive(base.seed, "variant"), &k.to_string()));
    if prop == "C05" || prop == "C18" || (r.chance(1, 4) && prop != "C12") {
        // Another execution: hash seeds, and for C05 other backends.
        s.env_seed = r.next();
        if prop == "C05" && matches!(s.plan, Plan::Facade(_)) {
            s.config = gen::config(&mut r, k % 2 == 0);
        }
    }
    if let Plan::Concurrent { tasks, .. } = &s.plan {
        let seed = r.next();
        s.sched = Some(match r.below(10) {
            0 => Sched::Random { seed, num: 1, den: 1 },
            1..=2 => Sched::Random { seed, num: 1, den: 2 },
            3..=4 => Sched::Random { seed, num: 1, den: 8 },
            5 => Sched::Random { seed, num: 1, den: 40 },
            _ => Sched::Pct { seed, depth: 1 + r.below(5) as usize, span: twin.points.max(50) },
        });
        let _ = tasks;
    }
    let (n, c, e) = families(prop);
    let (n, c, e) = if matches!(s.plan, Plan::Concurrent { .. }) && prop != "C01" && prop != "C02" { (7, 2, 2) } else { (n, c, e) };
    let c = if all_durable(&s) { c } else { 0 };
    let same_config = s.config == base.config;
    let mut fam = r.below(n + c + e);
    fam = if fam < n {
        0
    } else if fam < n + c {
        1
    } else {
        2
    };
    if fam == 0 || !same_config {
        return s;
    }
    let mut calls: Vec<(usize, u64)> = twin
        .traces
        .iter()
        .filter(|((op, a), t)| *a == 0 && *op < OPEN_OP && !t.is_empty())
        .map(|((op, _), _)| (*op, weight(prop, &s.plan, *op)))
        .collect();
    calls.retain(|c| c.1 > 0);
    if calls.is_empty() {
        return s;
    }
    let pick_call = |r: &mut Rng| -> usize {
        let total: u64 = calls.iter().map(|c| c.1).sum();
        let mut x = r.below(total);
        for (op, w) in &calls {
            if x < *w {
                return *op;
            }
            x -= w;
        }
        calls[0].0
    };
    if fam == 1 {
        let count = *r.pick(&[1usize, 1, 1, 2, 2, 3]);
        for _ in 0..count {
            let op = pick_call(&mut r);
            let t = &twin.traces[&(op, 0)];
            if let Some(f) = crash_fault(&mut r, op, 0, t) {
                s.faults.push(f);
            }
            if r.chance(20, 100) && op < CONC_OP {
                if let Some(f) = crash_fault(&mut r, op, 1, t) {
                    s.faults.push(f);
                }
            }
        }
        if r.chance(20, 100) {
            // The restart is interrupted as well.
            let open = OPEN_OP + 1 + r.below(2) as usize;
            let seam = r.below(60) as usize;
            let power = r.chance(1, 2);
            let after = r.chance(1, 2);
            let kind = if power { FaultKind::Power { after, torn: false } } else { FaultKind::Kill { after, torn: false } };
            s.faults.push(Fault { op: open, attempt: 0, seam, kind });
        }
        if r.chance(1, 6) && prop == "C04" {
            let op = pick_call(&mut r);
            if let Some(f) = error_fault(&mut r, op, 0, &twin.traces[&(op, 0)]) {
                s.faults.push(f);
            }
        }
    } else {
        let count = if prop == "C04" { r.range(1, 5) } else { *r.pick(&[1usize, 1, 1, 2, 3]) };
        for _ in 0..count {
            let op = pick_call(&mut r);
            let t = &twin.traces[&(op, 0)];
            if let Some(f) = error_fault(&mut r, op, 0, t) {
                s.faults.push(f);
            }
            if r.chance(15, 100) && op < CONC_OP {
                if let Some(f) = error_fault(&mut r, op, 1, t) {
                    s.faults.push(f);
                }
            }
        }
        s.defer_retries = r.chance(if prop == "C04" { 50 } else { 25 }, 100);
    }
    s.faults.sort_by_key(|f| (f.op, f.attempt, f.seam));
    s.faults.dedup_by_key(|f| (f.op, f.attempt, f.seam));
    s
}

/// A run and the undisturbed execution it is compared with.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Case {
    pub spec: RunSpec,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub twin: Option<RunSpec>,
}

/// Adds what only the comparison shows; keeps the context of findings honest.
pub fn compare(spec: &RunSpec, res: &mut RunResult, twin: &RunResult) {
    for f in &mut res.findings {
        if let Some(t) = twin.findings.iter().find(|t| t.kind == f.kind && t.subject == f.subject) {
            let props = t.props.clone();
            f.props.retain(|p| props.contains(p));
        }
    }
    if !res.findings.is_empty() || !twin.findings.is_empty() || spec.defer_retries {
        return;
    }
    if !matches!(spec.plan, Plan::Facade(_) | Plan::Trans(_)) {
        return;
    }
    if res.obs.contains_key(DIVERGED) {
        return;
    }
    let prop = if matches!(spec.plan, Plan::Trans(_)) { "C18" } else { "C05" };
    for (k, v) in &twin.obs {
        match res.obs.get(k) {
            Some(w) if w == v => {}
            Some(w) => {
                let d = diff(k, v, w);
                res.findings.push(Finding {
                    props: vec![prop.into()],
                    kind: "execution-differs".into(),
                    subject: k.clone(),
                    detail: d,
                    known: None,
                });
            }
            None => res.findings.push(Finding {
                props: vec![prop.into()],
                kind: "execution-differs".into(),
                subject: k.clone(),
                detail: "present in one execution only".into(),
                known: None,
            }),
        }
    }
}

pub fn run_case(c: &Case, say: bool) -> RunResult {
    let twin = c.twin.as_ref().map(|t| crate::run::run_spec(t, false, false));
    let mut r = crate::run::run_spec(&c.spec, say, false);
    if let Some(t) = twin {
        compare(&c.spec, &mut r, &t);
    }
    r
}
