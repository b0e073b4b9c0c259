//! Several nodes, each with stores of its own, that hand each other the OCAFiles they serve
//! over a network that loses, repeats, reorders, delays and damages messages (C19).
use crate::exec::*;
use crate::load::{count, garble};
use crate::run::{finish, RunResult};
use crate::spec::*;
use crate::views::sai;
use simcore::rng::{derive, Rng};
use simcore::sched::set_in_sim;
use simcore::with_world;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Operation numbers an event has to itself.
pub const STEP: usize = 32;
/// Bundles fetched by one pull.
const SOME: usize = 4;

#[derive(Clone, Debug)]
struct Msg {
    from: usize,
    to: usize,
    said: String,
    text: String,
    /// Not damaged on the way.
    whole: bool,
}

struct Mesh {
    nodes: Vec<Env>,
    wire: Vec<Msg>,
    cuts: BTreeSet<(usize, usize)>,
    /// Every bundle an author reported, and the documents it came from.
    made: BTreeMap<String, (Arc<Info>, Vec<usize>)>,
    over: bool,
    r: Rng,
}

impl Mesh {
    /// Something that happens at one node. A crash takes the whole machine, all nodes, down.
    fn with<R>(&mut self, k: usize, f: impl FnOnce(&mut Env) -> R) -> R {
        let r = self.alone(k, f);
        while let Some(j) = (0..self.nodes.len()).find(|j| self.nodes[*j].facade.is_none()) {
            if self.over || self.nodes.iter().any(|e| !e.findings.is_empty()) {
                self.over = true;
                break;
            }
            self.nodes[j].crashes += 1;
            self.alone(j, |e| e.open());
        }
        r
    }

    fn alone<R>(&mut self, k: usize, f: impl FnOnce(&mut Env) -> R) -> R {
        let mut others: Vec<_> = vec![];
        for (j, e) in self.nodes.iter_mut().enumerate() {
            others.push(if j == k { None } else { e.facade.take() });
        }
        self.nodes[k].others = others;
        let r = f(&mut self.nodes[k]);
        let back = std::mem::take(&mut self.nodes[k].others);
        for (j, fac) in back.into_iter().enumerate() {
            if j != k {
                self.nodes[j].facade = fac;
            }
        }
        self.over |= self.nodes[k].facade.is_none();
        r
    }

    fn cut(&self, a: usize, b: usize) -> bool {
        self.cuts.contains(&(a.min(b), a.max(b)))
    }

    /// The document numbers known at a node by which bundles it has are referred to.
    fn number(&mut self, said: &str) {
        let Some((_, ids)) = self.made.get(said).cloned() else { return };
        for e in &mut self.nodes {
            if e.m.acked.contains_key(said) {
                for i in &ids {
                    e.m.results.insert(*i, said.to_string());
                }
            }
        }
    }

    fn author(&mut self, node: usize, id: usize, doc: &Doc, op: usize) {
        let n = self.nodes.len();
        // Whoever has what it stands on.
        let Some(k) = (0..n).map(|i| (node + i) % n).find(|k| self.nodes[*k].m.plan(doc).is_some()) else {
            self.nodes[node].skipped += 1;
            return;
        };
        self.with(k, |e| e.build_attempts(id, doc, op));
        if self.over {
            return;
        }
        let Some(said) = self.nodes[k].m.results.get(&id).cloned() else { return };
        let Some(info) = self.nodes[k].m.acked.get(&said).cloned() else { return };
        let made = self.made.entry(said.clone()).or_insert_with(|| (info, vec![]));
        made.1.push(id);
        self.number(&said);
        let Some(text) = self.serve(k, &said, op + 1) else { return };
        for to in 0..n {
            if to != k {
                self.wire.push(Msg { from: k, to, said: said.clone(), text: text.clone(), whole: true });
            }
        }
    }

    /// The text a node hands out for a bundle it has.
    fn serve(&mut self, k: usize, said: &str, op: usize) -> Option<String> {
        if self.over {
            return None;
        }
        let id = sai(said)?;
        let deref = self.r.chance(1, 2);
        self.with(k, |e| {
            let c = e.call(At { op, attempt: 0 }, |f| f.get_oca_bundle_ocafile(id, deref).map_err(|x| x.join("; ")));
            match c.res {
                _ if c.crashed.is_some() => None,
                Ok(Ok(t)) => Some(t),
                Ok(Err(_)) if c.errs => None,
                Ok(Err(x)) => {
                    e.find(&["C15"], true, "ocafile-missing", said, x);
                    None
                }
                Err(_) if c.errs => None,
                Err(p) => {
                    e.find(&["C15", "C04"], true, "ocafile-missing-panics", said, p);
                    None
                }
            }
        })
    }

    /// A node is handed a text said to be that of a bundle. True if it has the bundle now.
    fn receive(&mut self, m: &Msg, op: usize) -> bool {
        if self.over {
            return false;
        }
        let Some((info, _)) = self.made.get(&m.said).cloned() else { return true };
        let (text, said) = (m.text.clone(), m.said.clone());
        let trusting = self.r.chance(1, 3);
        let ok = self.with(m.to, |e| {
            let waiting = e.m.limbo.contains_key(&said);
            e.m.known.entry(said.clone()).or_insert_with(|| Arc::new(info.mb.clone()));
            if !e.m.acked.contains_key(&said) {
                e.m.limbo.insert(said.clone(), info.clone());
            }
            let want = said.clone();
            let c = e.call(At { op, attempt: 0 }, |f| {
                let checked = f
                    .validate_ocafile_with_external_references(text.clone(), &mut Refs::none())
                    .map_err(|x| (false, format!("{x:?}")))?;
                let got = checked.oca_bundle.said.clone().map(|s| s.to_string());
                if got.as_deref() != Some(want.as_str()) {
                    return Err((false, format!("the text is that of {got:?}")));
                }
                let built = if trusting { f.build_from_ocafile(text) } else { f.build(&checked) };
                built
                    .map(|b| (b.said.clone().map(|s| s.to_string()), encode(&b)))
                    .map_err(|x| (true, format!("{x:?}")))
            });
            if e.facade.is_none() {
                return false;
            }
            let faulted = c.crashed.is_some() || c.errs;
            e.note(|| match &c.res {
                Ok(Ok(_)) => "  received".into(),
                Ok(Err(x)) => format!("  not received: {}", short(&x.1)),
                Err(p) => format!("  not received: panic {}", short(p)),
            });
            let done = match c.res {
                _ if c.crashed.is_some() => false,
                Ok(Ok((got, json))) => {
                    if got.as_deref() != Some(said.as_str()) || json != info.mb.json {
                        let d = diff("received bundle", &info.mb.json, &json);
                        e.find(&["C15", "C06"], true, "received-differs", &said, d);
                    }
                    e.m.limbo.remove(&said);
                    e.m.acked.entry(said.clone()).or_insert_with(|| info.clone());
                    e.acks += 1;
                    true
                }
                Ok(Err((building, x))) => {
                    if !faulted {
                        if m.whole || building {
                            e.find(&["C15"], true, "exchange-refused", &said, x);
                        }
                        e.rejected += 1;
                        if !waiting {
                            e.m.limbo.remove(&said);
                        }
                    }
                    false
                }
                Err(p) => {
                    if !c.errs {
                        e.find(&["C04"], true, "exchange-panics", &said, p);
                    }
                    false
                }
            };
            if faulted && e.facade.is_some() {
                e.audit();
            }
            done
        });
        if ok {
            self.number(&m.said);
        }
        ok
    }

    /// Messages under way between two nodes, or on the next link that has any.
    fn queue(&self, from: usize, to: usize) -> (usize, usize, Vec<usize>) {
        let n = self.nodes.len();
        let (mut a, mut b) = (from, to);
        for k in 0..n * n {
            (a, b) = ((from + (to + k) / n) % n, (to + k) % n);
            let q: Vec<usize> = (0..self.wire.len()).filter(|i| (self.wire[*i].from, self.wire[*i].to) == (a, b)).collect();
            if !q.is_empty() {
                return (a, b, q);
            }
        }
        (a, b, vec![])
    }

    fn deliver(&mut self, from: usize, to: usize, pick: usize, dup: bool, corrupt: bool, op: usize) {
        let (from, to, queue) = self.queue(from, to);
        if queue.is_empty() {
            return;
        }
        if self.cut(from, to) {
            // What is sent into a partition is gone; what stays queued waits for its end.
            if dup {
                self.wire.remove(queue[pick % queue.len()]);
                count("message_lost_in_partition");
            } else {
                count("message_held_up");
            }
            return;
        }
        let which = pick % queue.len();
        if which > 0 {
            count("message_reordered");
        }
        let m = if dup {
            count("message_duplicated");
            self.wire[queue[which]].clone()
        } else {
            self.wire.remove(queue[which])
        };
        let mut sent = m.clone();
        if corrupt {
            sent.text = garble(&mut self.r, &m.text);
            sent.whole = sent.text == m.text;
            count("message_corrupted");
            let n = self.r.range(4, 24);
            let (text, said) = (m.text.clone(), m.said.clone());
            self.with(m.to, |e| e.look_at_damaged(&text, Some(&said), n));
        }
        count("message_delivered");
        if !self.receive(&sent, op) && !dup {
            // No acknowledgement: it is sent again.
            self.wire.push(m);
        }
    }

    /// Everything a node lists, page by page; none if it could not be read.
    fn listed(&mut self, k: usize, op: usize) -> Option<BTreeSet<String>> {
        if self.over {
            return None;
        }
        let limit = *self.r.pick(&[1usize, 2, 3, 5, 20, 100]);
        self.with(k, |e| {
            let c = e.call(At { op, attempt: 0 }, |f| {
                let mut all = BTreeSet::new();
                for page in 1..10_000 {
                    let p = f.fetch_all_oca_bundle(limit, page).map_err(|x| x.join("; "))?;
                    all.extend(p.records.iter().filter_map(|b| b.said.clone().map(|s| s.to_string())));
                    if p.records.len() < limit {
                        break;
                    }
                }
                Ok::<_, String>(all)
            });
            match c.res {
                _ if c.crashed.is_some() => None,
                Ok(Ok(v)) => Some(v),
                Ok(Err(_)) | Err(_) if c.errs => None,
                Ok(Err(x)) => {
                    e.find(&["C10"], true, "listing-fails", "exchange", x);
                    None
                }
                Err(p) => {
                    e.find(&["C10", "C04"], true, "listing-fails-panics", "exchange", p);
                    None
                }
            }
        })
    }

    /// A node asks another what it has and fetches what it lacks itself.
    fn pull(&mut self, node: usize, from: usize, most: usize, op: usize, final_: bool) {
        if node == from || self.cut(node, from) {
            return;
        }
        let Some(theirs) = self.listed(from, op) else { return };
        let Some(own) = self.listed(node, op + 1) else { return };
        let e = &self.nodes[node];
        let mut lack: Vec<String> =
            theirs.into_iter().filter(|s| !own.contains(s) || e.m.limbo.contains_key(s) || !e.m.acked.contains_key(s)).collect();
        // What has been built but not reported is not handed on.
        let src = &self.nodes[from].m.acked;
        lack.retain(|s| src.contains_key(s) && self.made.contains_key(s));
        self.r.shuffle(&mut lack);
        lack.truncate(most);
        if !lack.is_empty() {
            count("anti_entropy_pull");
        }
        for (j, said) in lack.into_iter().enumerate() {
            let at = if final_ { op + 2 } else { op + 2 + 2 * j };
            let Some(text) = self.serve(from, &said, at) else { continue };
            let m = Msg { from, to: node, said, text, whole: true };
            self.receive(&m, at + 1);
            if self.over {
                return;
            }
        }
    }

    fn event(&mut self, i: usize, e: &NetOp) {
        let n = self.nodes.len();
        let op = i * STEP;
        match e {
            NetOp::Noop => {}
            NetOp::Author { node, id, doc } => self.author(node % n, *id, doc, op),
            NetOp::Deliver { from, to, pick, dup, corrupt } => self.deliver(*from, *to, *pick, *dup, *corrupt, op + 2),
            NetOp::Lose { from, to, pick } => {
                let (_, _, q) = self.queue(*from, *to);
                if !q.is_empty() {
                    self.wire.remove(q[pick % q.len()]);
                    count("message_lost");
                }
            }
            NetOp::Cut { a, b } => {
                if a != b {
                    self.cuts.insert((*a.min(b), *a.max(b)));
                    count("partition");
                }
            }
            NetOp::Heal { a, b } => {
                if self.cuts.remove(&(*a.min(b), *a.max(b))) {
                    count("partition_healed");
                }
            }
            NetOp::Pull { node, from } => self.pull(*node, *from, SOME, op + 3, false),
            NetOp::Crash { power } => {
                if self.nodes.iter().any(|e| !durable(&e.spec.config)) {
                    return;
                }
                self.with(0, |e| {
                    let was = set_in_sim(true);
                    with_world(|w| {
                        w.begin_call(OPEN_OP + 800_000, 0, BUDGET);
                        w.freeze();
                    });
                    e.facade = None;
                    set_in_sim(was);
                    count(if *power { "idle_power_loss" } else { "idle_kill" });
                    e.restart(*power);
                });
                for k in 0..n {
                    if self.over {
                        return;
                    }
                    self.with(k, |e| e.audit());
                }
            }
        }
    }

    /// The network heals and nothing fails any more: all nodes come to hold the same.
    fn settle(&mut self) {
        let n = self.nodes.len();
        self.cuts.clear();
        let mut op = RETRY_OP;
        self.nodes[0].note(|| "the network heals".into());
        for m in std::mem::take(&mut self.wire) {
            op += STEP;
            self.receive(&m, op);
            if self.over {
                return;
            }
        }
        for _ in 0..2 {
            for a in 0..n {
                for b in 0..n {
                    op += STEP;
                    self.pull(a, b, usize::MAX, op, true);
                    if self.over {
                        return;
                    }
                }
            }
        }
        let all: BTreeSet<String> = self.made.keys().cloned().collect();
        for k in 0..n {
            op += STEP;
            let Some(got) = self.listed(k, op) else { return };
            let lack: Vec<&String> = all.difference(&got).collect();
            let extra: Vec<&String> = got.iter().filter(|s| !all.contains(*s) && !self.nodes[k].m.limbo.contains_key(*s)).collect();
            if !lack.is_empty() || !extra.is_empty() {
                let d = format!("after the last exchange node {k} lacks {lack:?} and has {extra:?} nobody made");
                self.nodes[k].find(&[], true, "no-convergence", &format!("node {k}"), d);
                return;
            }
        }
        for k in 0..n {
            self.with(k, |e| e.audit());
            if self.over {
                return;
            }
            self.with(k, |e| e.observe());
        }
        let first = self.nodes[0].obs.clone();
        for k in 1..n {
            let mut wrong = None;
            for (key, v) in first.iter().filter(|(key, _)| key.starts_with("stored ")) {
                match self.nodes[k].obs.get(key) {
                    Some(w) if w == v => {}
                    Some(w) => wrong = Some((key.clone(), diff(key, v, w))),
                    None => wrong = Some((key.clone(), "present on node 0 only".into())),
                }
            }
            if let Some((key, d)) = wrong {
                self.nodes[k].find(&["C05"], true, "replicas-differ", &key, d);
            }
        }
    }
}

pub fn run(spec: Arc<RunSpec>, configs: &[Config], events: &[NetOp], say: bool, traces: bool) -> RunResult {
    let mut mesh = Mesh {
        nodes: vec![],
        wire: vec![],
        cuts: BTreeSet::new(),
        made: BTreeMap::new(),
        over: false,
        r: Rng::new(derive(spec.seed, "network")),
    };
    for (k, c) in configs.iter().enumerate() {
        let mut own = (*spec).clone();
        own.config = c.clone();
        let mut e = Env::new(Arc::new(own));
        e.root = format!("node{k}/");
        e.opens = k * 1000;
        e.say = say;
        e.keep_traces = traces;
        provision(&e.root);
        mesh.nodes.push(e);
    }
    for k in 0..configs.len() {
        if !mesh.alone(k, |e| e.open()) {
            mesh.over = true;
        }
    }
    mesh.over = mesh.nodes.iter().any(|e| e.facade.is_none());
    for (i, ev) in events.iter().enumerate() {
        if mesh.over {
            break;
        }
        mesh.nodes[0].note(|| format!("event {i}: {}", short(&serde_json::to_string(ev).unwrap_or_default())));
        mesh.event(i, ev);
        if spec.audit_each && !mesh.over {
            if let NetOp::Author { node: k, .. } | NetOp::Deliver { to: k, .. } | NetOp::Pull { node: k, .. } = ev {
                mesh.with(*k, |e| e.audit());
            }
        }
    }
    if !mesh.over {
        mesh.settle();
    }
    let mut out = RunResult::default();
    for mut e in mesh.nodes {
        let was = set_in_sim(true);
        e.facade = None;
        set_in_sim(was);
        let r = finish(e);
        out.findings.extend(r.findings);
        out.traces.extend(r.traces);
        out.acks += r.acks;
        out.crashes = out.crashes.max(r.crashes);
        out.errors += r.errors;
        out.audits += r.audits;
        out.rejected += r.rejected;
        out.queries += r.queries;
        out.skipped += r.skipped;
    }
    for f in &mut out.findings {
        if f.known.is_none() {
            f.props.push("C19".into());
        }
    }
    out
}
