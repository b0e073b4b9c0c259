//! The ways of looking at the store, each checked against the model.
use crate::exec::*;
use crate::spec::*;
use oca_ast_semantics::ast::{Command, ObjectKind, OverlayType};
use oca_bundle_semantics::build::{apply_command, OCABuildStep};
use oca_bundle_semantics::state::oca::OCABox;
use said::SelfAddressingIdentifier;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub fn sai(s: &str) -> Option<SelfAddressingIdentifier> {
    SelfAddressingIdentifier::from_str(s).ok()
}

pub fn kind_name(k: &ObjectKind) -> String {
    match k {
        ObjectKind::OCABundle(_) => "OCABundle",
        ObjectKind::CaptureBase(_) => "CaptureBase",
        ObjectKind::Overlay(t, _) => match t {
            OverlayType::Label(_) => "Label",
            OverlayType::Information(_) => "Information",
            OverlayType::Encoding(_) => "Encoding",
            OverlayType::CharacterEncoding(_) => "CharacterEncoding",
            OverlayType::Format(_) => "Format",
            OverlayType::Meta(_) => "Meta",
            OverlayType::Standard(_) => "Standard",
            OverlayType::Cardinality(_) => "Cardinality",
            OverlayType::Conditional(_) => "Conditional",
            OverlayType::Conformance(_) => "Conformance",
            OverlayType::EntryCode(_) => "EntryCode",
            OverlayType::Entry(_) => "Entry",
            OverlayType::Unit(_) => "Unit",
            OverlayType::AttributeMapping(_) => "AttributeMapping",
            OverlayType::EntryCodeMapping(_) => "EntryCodeMapping",
            OverlayType::Subset(_) => "Subset",
            OverlayType::UnitMapping(_) => "UnitMapping",
            OverlayType::Layout(_) => "Layout",
            OverlayType::Sensitivity(_) => "Sensitivity",
            OverlayType::Link(_) => "Link",
            OverlayType::AttributeFraming(_) => "AttributeFraming",
        },
    }
    .to_string()
}

pub fn lang2(l: &Option<String>) -> Option<isolang::Language> {
    l.as_ref().and_then(|s| isolang::Language::from_639_1(s))
}

/// Step history: rooted, linked, ends at the bundle, replays to its SAIDs.
pub fn check_history(said: &str, steps: &[OCABuildStep]) -> Result<(), String> {
    let first = steps.first().ok_or("empty history")?;
    if let Some(p) = &first.parent_said {
        return Err(format!("the first step has the parent {p}"));
    }
    let mut prev: Option<String> = None;
    let mut b: Option<OCABox> = None;
    for (i, s) in steps.iter().enumerate() {
        let parent = s.parent_said.as_ref().map(|x| x.to_string());
        if parent != prev {
            return Err(format!("step {i} has parent {parent:?}, the step before results in {prev:?}"));
        }
        let r = s.result.said.as_ref().map(|x| x.to_string());
        let nb = apply_command(b.take(), s.command.clone()).map_err(|e| format!("step {i} does not apply: {e:?}"))?;
        let got = nb.clone().generate_bundle().said.map(|x| x.to_string());
        if got != r {
            return Err(format!("step {i} recorded as {r:?} replays to {got:?}"));
        }
        b = Some(nb);
        prev = r;
    }
    if prev.as_deref() != Some(said) {
        return Err(format!("the last step results in {prev:?}"));
    }
    Ok(())
}

pub fn cmd_json(c: &Command) -> String {
    serde_json::to_string(c).unwrap_or_else(|e| format!("{e}"))
}

/// What one page of a listing or of a search said.
struct Page {
    recs: Vec<(String, String)>,
    total: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Bundles,
    Bases,
    Search,
}

/// The longest phrase looked for.
pub const LONGEST_PHRASE: usize = 1000;

impl Env {
    /// Common treatment of failures; true if the answer may be examined.
    fn usable<R>(&mut self, c: &Called<Result<R, String>>, prop: &str, kind: &str, subject: &str, must: bool) -> bool {
        if c.crashed.is_some() {
            return false;
        }
        match &c.res {
            Ok(Ok(_)) => true,
            Ok(Err(e)) => {
                if !c.errs && must {
                    let e = e.clone();
                    self.find(&[prop], true, kind, subject, e);
                }
                false
            }
            Err(p) => {
                if !c.errs {
                    let p = p.clone();
                    self.find(&[prop, "C04"], true, &format!("{kind}-panics"), subject, p);
                }
                false
            }
        }
    }

    pub fn view_bundle(&mut self, at: At, said: &str, must: bool, deps: bool) -> bool {
        let Some(id) = sai(said) else { return true };
        // What is not stored cannot come along.
        let all = |c: BTreeSet<String>| self.root.is_empty() || c.iter().all(|d| self.m.acked.contains_key(d));
        let deps = deps && self.m.closure(said).is_some_and(all);
        let c = self.call(at, |f| {
            f.get_oca_bundle(id, deps)
                .map(|b| {
                    (
                        b.bundle.said.clone().map(|s| s.to_string()),
                        encode(&b.bundle),
                        b.dependencies
                            .iter()
                            .map(|d| (d.said.clone().map(|s| s.to_string()).unwrap_or_default(), encode(d)))
                            .collect::<Vec<_>>(),
                    )
                })
                .map_err(|e| e.join("; "))
        });
        let errs = c.errs;
        let mut concerned = if deps { self.m.closure(said).unwrap_or_default() } else { BTreeSet::new() };
        concerned.insert(said.to_string());
        let bytes = concerned.iter().filter_map(|x| self.m.known.get(x)).map(|k| k.json.len()).sum();
        self.afford(&c, if deps { "costly-dependencies" } else { "costly-bundle" }, said, (concerned.len(), bytes), 0);
        if let (true, Ok(Ok((_, _, d)))) = (deps, &c.res) {
            let different: BTreeSet<&String> = d.iter().map(|x| &x.0).collect();
            if different.len() != d.len() {
                let t = format!("{} dependencies, {} different", d.len(), different.len());
                self.find(&["C20"], true, "dependencies-repeated", said, t);
            }
        }
        if !self.usable(&c, if deps { "C08" } else { "C06" }, "bundle-missing", said, must) {
            return c.crashed.is_none();
        }
        let Ok(Ok((s, json, d))) = c.res else { return true };
        let Some(k) = self.m.known.get(said).cloned() else { return true };
        if s.as_deref() != Some(said) || json != k.json {
            let t = diff("bundle", &k.json, &json);
            self.find(&["C06"], true, "bundle-content", said, t);
            return true;
        }
        if deps {
            let want = self.m.closure(said).unwrap_or_default();
            let got: BTreeSet<String> = d.iter().map(|x| x.0.clone()).collect();
            if want != got {
                self.find(
                    &["C08"],
                    true,
                    "dependencies",
                    said,
                    format!("expected {want:?}, got {got:?}{}", if errs { " (a read failed)" } else { "" }),
                );
                if errs {
                    self.findings.last_mut().unwrap().props.push("C03".into());
                }
            }
            for (x, j) in &d {
                if let Some(k) = self.m.known.get(x).cloned() {
                    if *j != k.json {
                        let t = diff("dependency", &k.json, j);
                        self.find(&["C08", "C06"], true, "dependency-content", x, t);
                    }
                }
            }
        }
        true
    }

    pub fn view_steps(&mut self, at: At, said: &str, must: bool) -> bool {
        let Some(id) = sai(said) else { return true };
        let c = self.call(at, |f| f.get_oca_bundle_steps(id).map_err(|e| e.join("; ")));
        if c.stalled && c.crashed.is_none() {
            self.find(&["C07", "C20"], true, "history-endless", said, "the history does not end".into());
            return true;
        }
        if !self.usable(&c, "C07", "history-missing", said, must) {
            return c.crashed.is_none();
        }
        if let Ok(Ok(steps)) = &c.res {
            let saids = steps.iter().filter_map(|s| s.result.said.as_ref().map(|x| x.to_string()));
            let bytes = saids.filter_map(|x| self.m.known.get(&x).map(|k| k.json.len())).sum();
            self.hist.insert(said.to_string(), (steps.len(), bytes));
            self.afford(&c, "costly-history", said, (steps.len(), bytes), 0);
        }
        let Ok(Ok(steps)) = c.res else { return true };
        if let Err(e) = check_history(said, &steps) {
            self.find(&["C07"], true, "history-wrong", said, e);
            return true;
        }
        for s in &steps {
            let r = s.result.said.clone().map(|x| x.to_string()).unwrap_or_default();
            if let Some(k) = self.m.known.get(&r).cloned() {
                let j = encode(&s.result);
                if j != k.json {
                    let t = diff("step result", &k.json, &j);
                    self.find(&["C07", "C06"], true, "history-content", &r, t);
                }
            }
        }
        true
    }

    pub fn view_ast(&mut self, at: At, said: &str, must: bool) -> bool {
        let Some(id) = sai(said) else { return true };
        let id2 = id.clone();
        let c = self.call(at, |f| {
            let a = f.get_oca_bundle_ast(id).map_err(|e| e.join("; "))?;
            let s = f.get_oca_bundle_steps(id2).map_err(|e| e.join("; "))?;
            Ok((
                a.commands.iter().map(cmd_json).collect::<Vec<_>>(),
                s.iter().map(|s| cmd_json(&s.command)).collect::<Vec<_>>(),
            ))
        });
        if !self.usable(&c, "C07", "ast-missing", said, must) {
            return c.crashed.is_none();
        }
        if let Ok(Ok((a, s))) = &c.res {
            if let Some((n, bytes)) = self.hist.get(said).copied().filter(|h| h.0 == s.len()) {
                self.afford(&c, "costly-ast", said, (a.len() + n, 2 * bytes), 0);
            }
        }
        let Ok(Ok((a, s))) = c.res else { return true };
        if a != s {
            self.find(&["C07"], true, "ast-wrong", said, format!("{} commands in the AST, {} steps", a.len(), s.len()));
        }
        true
    }

    /// The OCAFile served for a stored bundle builds that bundle from nothing.
    pub fn view_ocafile(&mut self, at: At, said: &str, must: bool) -> bool {
        let Some(id) = sai(said) else { return true };
        let deref = self.rng.chance(1, 2);
        let c = self.call(at, |f| f.get_oca_bundle_ocafile(id, deref).map_err(|e| e.join("; ")));
        if let Some(h) = self.hist.get(said).copied() {
            self.afford(&c, "costly-ocafile", said, h, 0);
        }
        if !self.usable(&c, "C15", "ocafile-missing", said, must) {
            return c.crashed.is_none();
        }
        let Ok(Ok(text)) = c.res else { return true };
        let Some(k) = self.m.known.get(said).cloned() else { return true };
        let t = text.clone();
        let r = std::panic::catch_unwind(move || {
            oca_rs::facade::build::build_from_ocafile(t).map(|b| encode(&b)).map_err(|e| format!("{e:?}"))
        });
        match r {
            Ok(Ok(j)) if j == k.json => {}
            Ok(Ok(j)) => {
                let d = diff("rebuilt", &k.json, &j);
                self.find(&["C15"], true, "ocafile-differs", said, d)
            }
            Ok(Err(e)) => {
                self.find(&["C15"], true, "ocafile-refused", said, e)
            }
            Err(p) => self.find(&["C15"], true, "ocafile-panics", said, panic_text(p)),
        }
        true
    }

    pub fn view_objects(&mut self, at: At, said: &str, must: bool) -> bool {
        let Some(k) = self.m.known.get(said).cloned() else { return true };
        let ids: Vec<String> = k.objects().into_iter().skip(1).map(|x| x.0).collect();
        let want: Vec<String> =
            std::iter::once(k.cb_json.clone()).chain(k.overlays.iter().map(|o| o.json.clone())).collect();
        let c = self.call(at, |f| {
            f.get_oca_objects(ids)
                .map(|v| v.iter().map(|o| serde_json::to_string(o).unwrap_or_default()).collect::<Vec<_>>())
                .map_err(|e| e.join("; "))
        });
        let errs = c.errs;
        self.afford(&c, "costly-objects", said, (want.len(), want.iter().map(|x| x.len()).sum()), 0);
        if !self.usable(&c, "C06", "objects-missing", said, must) {
            return c.crashed.is_none();
        }
        let Ok(Ok(got)) = c.res else { return true };
        if got.len() != want.len() {
            self.find(&["C06"], true, "objects-count", said, format!("asked for {}, got {}", want.len(), got.len()));
            if errs {
                self.findings.last_mut().unwrap().props.push("C03".into());
            }
            return true;
        }
        for (w, g) in want.iter().zip(&got) {
            if w != g {
                let t = diff("object", w, g);
                self.find(&["C06"], true, "object-content", said, t);
                break;
            }
        }
        true
    }

    /// Exploring an object of an acknowledged (`must`) or unfinished bundle.
    pub fn view_explore(&mut self, at: At, obj: &str, must: bool) -> bool {
        let o = obj.to_string();
        let c = self.call(at, |f| {
            Ok::<_, String>(f.explore(o).map(|r| {
                (
                    r.base_object.said.clone(),
                    kind_name(&r.base_object.object_type),
                    r.relations.iter().map(|x| (x.said.clone(), kind_name(&x.object_type))).collect::<BTreeSet<_>>(),
                    r.relations.len(),
                )
            }))
        });
        let errs = c.errs;
        let related = self.m.relations(obj, true).len();
        self.afford(&c, "costly-explore", obj, (1 + related, 100 * related), 0);
        if !self.usable(&c, "C09", "explore", obj, must) {
            return c.crashed.is_none();
        }
        let Ok(Ok(got)) = c.res else { return true };
        let low = self.m.relations(obj, false);
        let high = self.m.relations(obj, true);
        match got {
            None => {
                if !low.is_empty() {
                    if errs {
                        self.find_known(
                            "explore-none-on-read-error",
                            &["C03"],
                            "explore-none",
                            obj,
                            "a read failed and explore answers that the object does not exist".into(),
                        );
                    } else {
                        self.find(&["C09"], true, "relations-missing", obj, "explore knows nothing of it".into());
                    }
                }
            }
            Some((s, k, rel, n)) => {
                let kind = self.m.kind_of(obj);
                if s != obj || Some(k.clone()) != kind {
                    self.find(&["C09"], true, "relations-kind", obj, format!("explored as {k}, it is a {kind:?}"));
                }
                if n != rel.len() {
                    self.find(&["C09"], true, "relations-twice", obj, "an object is related twice".into());
                }
                let lost: Vec<_> = low.difference(&rel).cloned().collect();
                let extra: Vec<_> = rel.difference(&high).cloned().collect();
                if !lost.is_empty() {
                    self.find(&["C09"], true, "relations-lost", obj, format!("not related to {lost:?}"));
                    if errs {
                        self.findings.last_mut().unwrap().props.push("C03".into());
                    }
                }
                if !extra.is_empty() {
                    self.find(&["C09"], true, "relations-extra", obj, format!("related to {extra:?}"));
                }
            }
        }
        true
    }

    fn one_page(
        &mut self,
        at: At,
        kind: Kind,
        lang: &Option<String>,
        phrase: &str,
        limit: usize,
        page: usize,
    ) -> Called<Result<Page, String>> {
        let l = lang2(lang);
        let ph = phrase.to_string();
        self.call(at, |f| match kind {
            Kind::Bundles => f
                .fetch_all_oca_bundle(limit, page)
                .map(|r| Page {
                    recs: r
                        .records
                        .iter()
                        .map(|b| (b.said.clone().map(|s| s.to_string()).unwrap_or_default(), encode(b)))
                        .collect(),
                    total: r.metadata.total,
                })
                .map_err(|e| e.join("; ")),
            Kind::Bases => f
                .fetch_all_capture_base(limit, page)
                .map(|r| Page {
                    recs: r
                        .records
                        .iter()
                        .map(|b| {
                            (
                                b.said.clone().map(|s| s.to_string()).unwrap_or_default(),
                                serde_json::to_string(b).unwrap_or_default(),
                            )
                        })
                        .collect(),
                    total: r.metadata.total,
                })
                .map_err(|e| e.join("; ")),
            Kind::Search => {
                let r = f.search_oca_bundle(l, ph, limit, page);
                Ok(Page {
                    recs: r
                        .records
                        .iter()
                        .map(|b| {
                            (
                                b.oca_bundle.said.clone().map(|s| s.to_string()).unwrap_or_default(),
                                encode(&b.oca_bundle),
                            )
                        })
                        .collect(),
                    total: r.metadata.total,
                })
            }
        })
    }

    fn expected(&self, kind: Kind, phrase: &str) -> (BTreeMap<String, String>, BTreeMap<String, String>) {
        let mut low = BTreeMap::new();
        let mut high = BTreeMap::new();
        let needle = phrase.to_lowercase();
        let hit = |b: &crate::model::MBundle| match kind {
            Kind::Search => b.metas().any(|(_, n, d)| n.to_lowercase().contains(&needle) || d.to_lowercase().contains(&needle)),
            _ => true,
        };
        let item = |b: &crate::model::MBundle| match kind {
            Kind::Bases => (b.cb_said.clone(), b.cb_json.clone()),
            _ => (b.said.clone(), b.json.clone()),
        };
        for i in self.m.acked.values() {
            if hit(&i.mb) {
                let (k, v) = item(&i.mb);
                low.insert(k.clone(), v.clone());
                high.insert(k, v);
            }
        }
        for i in self.m.limbo.values() {
            if hit(&i.mb) {
                let (k, v) = item(&i.mb);
                high.insert(k, v);
            }
        }
        (low, high)
    }

    /// All pages of a listing or of a search.
    fn view_pages(&mut self, at: At, kind: Kind, lang: &Option<String>, phrase: &str, limit: usize) -> bool {
        let (low, high) = self.expected(kind, phrase);
        let exact = kind != Kind::Search || phrase.chars().count() >= 3;
        let what = match kind {
            Kind::Bundles => "bundle listing".to_string(),
            Kind::Bases => "capture-base listing".to_string(),
            Kind::Search => format!("search {phrase:?}"),
        };
        let mut got: Vec<(String, String)> = vec![];
        let mut total = None;
        let mut errs = false;
        for page in 1..=(high.len() + 3) {
            let c = self.one_page(at, kind, lang, phrase, limit, page);
            errs |= c.errs;
            if let Ok(Ok(p)) = &c.res {
                let bytes = p.recs.iter().map(|x| x.1.len()).sum();
                self.afford(&c, "costly-page", &what, (p.recs.len(), bytes), 0);
            }
            if !self.usable(&c, "C10", "listing-fails", &what, true) {
                return c.crashed.is_none();
            }
            let Ok(Ok(p)) = c.res else { return true };
            if p.recs.len() > limit {
                self.find(&["C10"], true, "page-size", &what, format!("{} records on a page of {limit}", p.recs.len()));
            }
            if *total.get_or_insert(p.total) != p.total {
                self.find(&["C10"], true, "total-varies", &what, format!("{total:?} on the first page, {} on page {page}", p.total));
            }
            let n = p.recs.len();
            // Every page but the last is full.
            let full = low.len().saturating_sub((page - 1).saturating_mul(limit)).min(limit);
            if exact && low.len() == high.len() && n != full {
                let d = format!("{n} records on page {page} of {limit}, {full} expected of {}", low.len());
                self.find(&["C10"], true, "page-short", &what, d);
            }
            got.extend(p.recs);
            if n < limit && page > 1 || n == 0 {
                break;
            }
        }
        let total = total.unwrap_or(0);
        let keys: BTreeSet<String> = got.iter().map(|x| x.0.clone()).collect();
        if keys.len() != got.len() {
            self.find(&["C10"], true, "listed-twice", &what, format!("{} records, {} different", got.len(), keys.len()));
        }
        let missing: Vec<&String> = low.keys().filter(|k| !keys.contains(*k)).collect();
        if !missing.is_empty() && exact {
            let m = format!("{} of {} missing: {:?}", missing.len(), low.len(), missing.first());
            self.find(&["C10"], true, "not-listed", &what, m);
            if errs {
                self.findings.last_mut().unwrap().props.push("C03".into());
            }
        }
        for (k, j) in &got {
            match high.get(k) {
                None => {
                    let d = match self.m.known.get(k) {
                        Some(_) if kind == Kind::Search => "it does not contain the phrase",
                        Some(_) => "it is only an intermediate step",
                        None => "no build produced it",
                    };
                    self.find(&["C10"], true, "listed-alien", &what, format!("{k}: {d}"));
                    let made = match kind {
                        Kind::Bases => self.m.known.values().any(|b| b.cb_said == *k),
                        _ => self.m.known.contains_key(k),
                    };
                    if self.spec.property == "C14" && !made {
                        // A validated or rejected document has left it.
                        self.findings.last_mut().unwrap().props.push("C14".into());
                    }
                }
                Some(w) => {
                    if w != j {
                        let t = diff("listed content", w, j);
                        self.find(&["C10"], true, "listed-content", k, t);
                    }
                }
            }
        }
        if exact && (total < low.len() || total > high.len() || (low.len() == high.len() && total != keys.len())) {
            self.find(&["C10"], true, "wrong-total", &what, format!("total {total}, {} bundles", low.len()));
        }
        // What is listed although unfinished must be usable.
        if kind != Kind::Bases {
            for k in keys {
                if self.m.limbo.contains_key(&k) && !errs {
                    self.full_use(&k, &what);
                }
            }
        }
        true
    }

    /// A discovered bundle can be fetched with content, objects, history and relations.
    fn full_use(&mut self, said: &str, via: &str) {
        let n = self.findings.len();
        let at = At { op: AUDIT_OP + self.audits, attempt: 1 };
        self.view_bundle(at, said, true, false);
        self.view_steps(at, said, true);
        let mut bad: Vec<String> = self.findings[n..].iter().map(|f| f.kind.clone()).collect();
        if bad.is_empty() && self.spec.property == "C02" {
            bad = self.incomplete(at, said);
        }
        if !bad.is_empty() {
            let p = if via == "name" { "C08" } else { "C10" };
            self.find(&[p, "C02"], true, "found-unusable", said, format!("found through {via}, but: {}", bad.join(", ")));
        }
    }

    /// What of a discovered bundle's objects and relations is not there.
    fn incomplete(&mut self, at: At, said: &str) -> Vec<String> {
        let Some(k) = self.m.known.get(said).cloned() else { return vec![] };
        let n = self.findings.len();
        self.view_objects(at, said, true);
        let mut bad: Vec<String> = self.findings[n..].iter().map(|f| f.kind.clone()).collect();
        let all = k.objects();
        for (o, _) in &all {
            let id = o.clone();
            let c = self.call(at, |f| {
                Ok::<_, String>(f.explore(id).map(|r| r.relations.iter().map(|x| x.said.clone()).collect::<BTreeSet<_>>()))
            });
            let Ok(Ok(got)) = c.res else { continue };
            let got = got.unwrap_or_default();
            let want: Vec<&String> = match o {
                _ if *o == k.said => all.iter().skip(1).map(|x| &x.0).collect(),
                _ if *o == k.cb_said => all.iter().map(|x| &x.0).filter(|x| *x != o).collect(),
                _ => vec![&k.said, &k.cb_said],
            };
            if let Some(w) = want.iter().find(|w| !got.contains(**w)) {
                bad.push(format!("{o} is not related to {w}"));
                break;
            }
        }
        bad
    }

    pub fn view_refs(&mut self, at: At) -> bool {
        let c = self.call(at, |f| f.fetch_all_refs().map(|m| m.into_iter().collect::<BTreeMap<_, _>>()));
        let errs = c.errs;
        let n = self.m.names.len() + self.m.name_limbo.len();
        self.afford(&c, "costly-names", "names", (n, 100 * n), 1);
        if !self.usable(&c, "C08", "names-fail", "names", true) {
            return c.crashed.is_none();
        }
        let Ok(Ok(got)) = c.res else { return true };
        let names: BTreeSet<String> = self.m.names.keys().chain(self.m.name_limbo.keys()).cloned().collect();
        for n in &names {
            let cand = self.m.candidates(n);
            match got.get(n) {
                None => {
                    if self.m.names.contains_key(n) {
                        self.find(&["C08"], true, "name-lost", n, "the name resolves to nothing".into());
                        if errs {
                            self.findings.last_mut().unwrap().props.push("C03".into());
                        }
                    }
                }
                Some(s) => {
                    if !cand.contains(s) {
                        self.find(&["C08"], true, "name-wrong", n, format!("resolves to {s}, expected one of {cand:?}"));
                    } else if !errs {
                        self.full_use(&s.clone(), "name");
                    }
                }
            }
        }
        for n in got.keys() {
            if !names.contains(n) {
                self.find(&["C08", "C14"], true, "name-alien", n, "no build declared this name".into());
            }
        }
        true
    }

    pub fn phrases(&self) -> Vec<String> {
        let mut v = BTreeSet::new();
        for i in self.m.acked.values().chain(self.m.limbo.values()) {
            for (_, n, d) in i.mb.metas() {
                for t in [n, d] {
                    if t.chars().count() >= 3 {
                        v.insert(t.to_string());
                    }
                }
            }
        }
        v.into_iter().collect()
    }

    /// Checks every view of everything, without faults.
    pub fn audit(&mut self) {
        self.audits += 1;
        let at = At { op: AUDIT_OP + self.audits, attempt: 0 };
        let saids: Vec<String> = self.m.acked.keys().cloned().collect();
        let mut objs = BTreeSet::new();
        for s in &saids {
            self.view_bundle(at, s, true, false);
            self.view_steps(at, s, true);
            self.view_ast(at, s, true);
            self.view_ocafile(at, s, true);
            self.view_objects(at, s, true);
            self.view_bundle(at, s, true, true);
            if let Some(k) = self.m.known.get(s) {
                objs.extend(k.objects().into_iter().map(|o| o.0));
            }
            if self.facade.is_none() {
                return;
            }
        }
        for o in objs {
            self.view_explore(at, &o, true);
        }
        // Every page of a size, the more bundles the larger it is.
        let big = |r: &mut simcore::rng::Rng, n: usize| {
            if n <= 12 {
                r.range(1, 4)
            } else {
                *r.pick(&[7, n / 5, n / 2, n - 1, n, n + 1, 100, 1000])
            }
        };
        let l = big(&mut self.rng, saids.len());
        let l2 = big(&mut self.rng, saids.len());
        self.view_pages(at, Kind::Bundles, &None, "", l);
        self.view_pages(at, Kind::Bases, &None, "", l2);
        if self.facade.is_none() {
            return;
        }
        let mut ph = self.phrases();
        self.rng.shuffle(&mut ph);
        ph.truncate(4);
        for p in ph {
            let cs: Vec<char> = p.chars().collect();
            let a = self.rng.range(0, cs.len() - 3);
            // SQLite takes memory for every character of a phrase (gigabytes for 60,000 of them),
            // what is looked for here is no longer than this.
            let b = self.rng.range(a + 3, cs.len()).min(a + LONGEST_PHRASE);
            let mut q: String = cs[a..b].iter().collect();
            if self.rng.chance(1, 4) && q.is_ascii() {
                q = q.to_uppercase();
            }
            if self.rng.chance(1, 3) && cs.len() <= LONGEST_PHRASE {
                q = p.clone();
            }
            // A letter with or without its accent is another letter.
            if self.rng.chance(1, 6) {
                q = if q.contains('é') { q.replace('é', "e") } else { q.replacen('e', "é", 1) };
            }
            // The language asked for makes no difference.
            let lang = match self.rng.below(4) {
                0 => Some("en".to_string()),
                1 => Some(self.rng.pick(&["pl", "fr", "de", "pt", "zh", "uk"]).to_string()),
                _ => None,
            };
            let l = big(&mut self.rng, saids.len());
            self.view_pages(at, Kind::Search, &lang, &q, l);
        }
        self.view_pages(at, Kind::Search, &None, "no such phrase", 3);
        if saids.len() > 12 {
            // A phrase many bundles share, on one large page.
            let words: BTreeSet<String> = self
                .phrases()
                .iter()
                .flat_map(|p| p.split_whitespace())
                .filter(|w| (3..=LONGEST_PHRASE).contains(&w.chars().count()))
                .map(|w| w.to_string())
                .collect();
            let most = words.into_iter().map(|p| (self.expected(Kind::Search, &p).0.len(), p)).max();
            if let Some((n, p)) = most {
                let l = *self.rng.pick(&[n.max(1), n + 1, 60, 100, 1000]);
                self.view_pages(at, Kind::Search, &None, &p, l);
            }
        }
        self.view_refs(at);
        if self.spec.property == "C21" {
            self.view_provenance();
        }
        if self.spec.property == "C17" {
            let mut s: Vec<String> = saids;
            self.rng.shuffle(&mut s);
            s.truncate(12);
            for s in s {
                self.view_document(at, &s);
            }
        }
    }

    /// Records what another execution of the same workload must reproduce.
    pub fn observe(&mut self) {
        use oca_rs::data_storage::Namespace as N;
        let at = At { op: AUDIT_OP + 400_000, attempt: 0 };
        let saids: Vec<String> = self.m.acked.keys().cloned().collect();
        for s in saids {
            let objs: Vec<String> = self.m.known[&s].objects().into_iter().skip(1).map(|o| o.0).collect();
            let key = s.clone();
            let id = sai(&s);
            let c = self.call(at, |f| {
                let st = f.storage();
                let mut out = vec![st
                    .get(N::OCABundlesJSON, &key)
                    .map(|v| String::from_utf8_lossy(&v.unwrap_or_default()).to_string())
                    .unwrap_or_default()];
                for o in &objs {
                    out.push(
                        st.get(N::OCAObjectsJSON, o)
                            .map(|v| String::from_utf8_lossy(&v.unwrap_or_default()).to_string())
                            .unwrap_or_default(),
                    );
                }
                let steps = id.map(|i| f.get_oca_bundle_steps(i).unwrap_or_default()).unwrap_or_default();
                let hist: Vec<String> = steps
                    .iter()
                    .map(|s| format!("{} {}", cmd_json(&s.command), s.result.said.clone().map(|x| x.to_string()).unwrap_or_default()))
                    .collect();
                (out, hist)
            });
            if let Ok((raw, hist)) = c.res {
                self.obs.insert(format!("stored {s}"), raw.join("\n"));
                self.obs.insert(format!("history {s}"), hist.join("\n"));
            }
        }
    }

    pub fn do_query(&mut self, i: usize, q: &Query) {
        self.queries += 1;
        for attempt in 0..4 {
            let at = At { op: i, attempt };
            let done = match q {
                Query::Bundle { of, deps } => self.with_said(of, |e, s, must| e.view_bundle(at, s, must, *deps)),
                Query::Steps { of } => self.with_said(of, |e, s, must| e.view_steps(at, s, must)),
                Query::Ast { of } => self.with_said(of, |e, s, must| e.view_ast(at, s, must)),
                Query::Ocafile { of } => self.with_said(of, |e, s, must| e.view_ocafile(at, s, must)),
                Query::Objects { of } => self.with_said(of, |e, s, must| e.view_objects(at, s, must)),
                Query::Explore { of, which } => {
                    let w = *which;
                    self.with_said(of, |e, s, must| {
                        let Some(k) = e.m.known.get(s).cloned() else { return true };
                        let o = k.objects();
                        let o = o[w % o.len()].0.clone();
                        e.view_explore(at, &o, must)
                    })
                }
                Query::ListBundles { limit, page } => self.odd_page(at, Kind::Bundles, &None, "", *limit, *page),
                Query::ListBases { limit, page } => self.odd_page(at, Kind::Bases, &None, "", *limit, *page),
                Query::Search { lang, phrase, limit, page } => {
                    self.odd_page(at, Kind::Search, lang, phrase, *limit, *page)
                }
                Query::Refs => self.view_refs(at),
            };
            if done || self.facade.is_none() {
                return;
            }
            self.audit();
        }
    }

    fn with_said(&mut self, of: &Ref, f: impl FnOnce(&mut Env, &str, bool) -> bool) -> bool {
        use crate::model::Resolve;
        match self.m.said(of) {
            Some(s) => {
                let must = self.m.acked.contains_key(&s);
                f(self, &s, must)
            }
            None => true,
        }
    }

    /// One page with arbitrary arguments; page 0 means all pages of the given size.
    fn odd_page(&mut self, at: At, kind: Kind, lang: &Option<String>, phrase: &str, limit: usize, page: usize) -> bool {
        if (1..=8).contains(&limit) && page == 1 {
            return self.view_pages(at, kind, lang, phrase, limit);
        }
        let (low, high) = self.expected(kind, phrase);
        let exact = kind != Kind::Search || phrase.chars().count() >= 3;
        let c = self.one_page(at, kind, lang, phrase, limit, page);
        let errs = c.errs;
        let what = format!("page {page} of size {limit} {phrase:?}");
        if !self.usable(&c, "C10", "page-fails", &what, true) {
            return c.crashed.is_none();
        }
        let Ok(Ok(p)) = c.res else { return true };
        if p.recs.len() > limit {
            self.find(&["C10"], true, "page-size", &what, format!("{} records", p.recs.len()));
        }
        let keys: BTreeSet<&String> = p.recs.iter().map(|r| &r.0).collect();
        if keys.len() != p.recs.len() {
            self.find(&["C10"], true, "listed-twice", &what, format!("{} records, {} different", p.recs.len(), keys.len()));
        }
        for (k, j) in &p.recs {
            match high.get(k) {
                None => self.find(&["C10"], true, "listed-alien", &what, format!("{k} does not belong there")),
                Some(w) if w != j => {
                    let t = diff("listed content", w, j);
                    self.find(&["C10"], true, "listed-content", k, t);
                }
                _ => {}
            }
        }
        if exact && page >= 1 && low.len() == high.len() {
            let start = (page - 1).saturating_mul(limit);
            let want = low.len().saturating_sub(start).min(limit);
            if p.recs.len() != want {
                self.find(&["C10"], true, "page-incomplete", &what, format!("{} records instead of {want}", p.recs.len()));
                if errs {
                    self.findings.last_mut().unwrap().props.push("C03".into());
                }
            }
            if p.total != low.len() && limit > 0 {
                self.find(&["C10"], true, "wrong-total", &what, format!("total {} instead of {}", p.total, low.len()));
            }
        }
        true
    }
}
