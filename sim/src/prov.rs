//! The object model: which command made which version of an object out of which.
//!
//! Beside the bundles, every build leaves records of a second kind: one for each command,
//! and for each bundle, capture base and overlay a command led to, one that names what it
//! was made from and by which command. What they must be is computed here from the model.
use crate::exec::Env;
use crate::model::{render, said_of, MBundle, Resolve};
use crate::spec::{Cmd, Doc, Plain, Ref, Ty};
use std::collections::{BTreeMap, BTreeSet};

/// Key and readable content of a record; no content if only its being there is specified.
pub type Record = (String, Option<String>);

const PREFIX: &str = "core_model.";

fn literal(t: &Ty, res: &dyn Resolve) -> Option<Ty> {
    Some(match t {
        Ty::Ref(r) => Ty::Ref(Ref::Lit(res.said(r)?)),
        Ty::Array(i) => Ty::Array(Box::new(literal(i, res)?)),
        t => t.clone(),
    })
}

/// The commands of a document as they are recorded, names replaced by what they mean.
fn commands(doc: &Doc, res: &dyn Resolve) -> Option<Vec<String>> {
    let mut d = Doc { name: None, base: None, alien_base: None, cmds: vec![], style: 0 };
    if let Some(b) = &doc.base {
        d.base = Some(Ref::Lit(res.said(b)?));
    }
    d.alien_base.clone_from(&doc.alien_base);
    for c in &doc.cmds {
        d.cmds.push(match c {
            Cmd::AddAttrs(v) => {
                let v: Option<Vec<_>> = v.iter().map(|(a, t)| Some((a.clone(), literal(t, res)?))).collect();
                Cmd::AddAttrs(v?)
            }
            Cmd::Link { target, attrs } => Cmd::Link { target: Ref::Lit(res.said(target)?), attrs: attrs.clone() },
            c => c.clone(),
        });
    }
    let text = render(&d, res)?;
    let Ok(oca_file::ocafile::OCAAst::SemanticsAst(ast)) = oca_file::ocafile::parse_from_string(text) else { return None };
    let based = usize::from(d.base.is_some() || d.alien_base.is_some());
    Some(ast.commands.iter().skip(based).map(crate::views::cmd_json).collect())
}

/// Kind and language of the overlay a command is about.
fn overlay_of(c: &Cmd) -> Option<(&'static str, Option<&str>)> {
    Some(match c {
        Cmd::Meta { lang, .. } => ("Meta", Some(lang)),
        Cmd::Label { lang, .. } => ("Label", Some(lang)),
        Cmd::Info { lang, .. } => ("Information", Some(lang)),
        Cmd::Entry { lang, .. } => ("Entry", Some(lang)),
        Cmd::Plain { kind, .. } => (
            match kind {
                Plain::CharacterEncoding => "CharacterEncoding",
                Plain::Conformance => "Conformance",
                Plain::Format => "Format",
                Plain::Unit => "Unit",
                Plain::Cardinality => "Cardinality",
            },
            None,
        ),
        Cmd::Condition { .. } => ("Conditional", None),
        Cmd::EntryCode { .. } => ("EntryCode", None),
        Cmd::Link { .. } => ("Link", None),
        Cmd::Framing { .. } => ("AttributeFraming", None),
        _ => return None,
    })
}

fn line(parent: Option<&String>, rest: &[&str]) -> String {
    format!("from {} with {}", parent.map(|s| s.as_str()).unwrap_or("nothing"), rest.join(" "))
}

/// What building a document records.
pub fn records(doc: &Doc, steps: &[MBundle], res: &dyn Resolve) -> Vec<Record> {
    let Some(cmds) = commands(doc, res) else { return vec![] };
    let mut out = vec![];
    if cmds.len() != steps.len() || cmds.len() != doc.cmds.len() {
        return out;
    }
    let (mut bundle, mut base): (Option<String>, Option<String>) = (None, None);
    let mut overlays: BTreeMap<(&str, Option<&str>), String> = BTreeMap::new();
    for ((c, json), b) in doc.cmds.iter().zip(cmds).zip(steps) {
        let digest = said_of(&json);
        out.push((digest.clone(), Some(json)));
        match overlay_of(c) {
            None => {
                out.push((b.cb_said.clone(), Some(line(base.as_ref(), &[&digest]))));
                base = Some(b.cb_said.clone());
            }
            Some((kind, lang)) => {
                let three = lang.and_then(isolang::Language::from_639_1).map(|l| format!("\"language\":\"{}\"", l.to_639_3()));
                let all: Vec<_> = b
                    .overlays
                    .iter()
                    .filter(|o| o.kind == kind && three.as_ref().is_none_or(|l| o.json.contains(l)))
                    .collect();
                if matches!(kind, "Link" | "AttributeFraming") {
                    // Which of several is meant is not specified.
                    for o in all {
                        out.push((o.said.clone(), None));
                    }
                } else if let [o] = all[..] {
                    let was = overlays.insert((kind, lang), o.said.clone());
                    out.push((o.said.clone(), Some(line(was.as_ref(), &[&digest]))));
                }
            }
        }
        let mut rest: Vec<&str> = b.overlays.iter().map(|o| o.said.as_str()).collect();
        rest.sort();
        rest.insert(0, &b.cb_said);
        out.push((b.said.clone(), Some(line(bundle.as_ref(), &rest))));
        bundle = Some(b.said.clone());
    }
    out
}

/// A record as `records` would put it.
fn read(value: &[u8]) -> Option<String> {
    if value.first() == Some(&b'{') {
        return String::from_utf8(value.to_vec()).ok();
    }
    let mut parts = vec![];
    let mut rest = value;
    while let Some((n, tail)) = rest.split_first() {
        let part = tail.get(..*n as usize)?;
        parts.push(std::str::from_utf8(part).ok()?);
        rest = &tail[*n as usize..];
    }
    let (parent, with) = parts.split_first()?;
    let (first, overlays) = with.split_first()?;
    let mut overlays = overlays.to_vec();
    overlays.sort();
    overlays.insert(0, first);
    let parent = parent.to_string();
    Some(line(Some(&parent).filter(|p| !p.is_empty()), &overlays))
}

#[derive(Default, Clone)]
pub struct Provenance {
    /// Whether it is computed at all.
    pub wanted: bool,
    allowed: BTreeMap<String, BTreeSet<Option<String>>>,
    must: BTreeSet<String>,
}

impl Provenance {
    pub fn begin(&mut self, records: &[Record]) {
        for (k, v) in records {
            self.allowed.entry(k.clone()).or_default().insert(v.clone());
        }
    }
    pub fn ack(&mut self, records: &[Record]) {
        self.must.extend(records.iter().filter(|r| r.1.is_some()).map(|r| r.0.clone()));
    }
}

impl Env {
    /// Every step of every acknowledged build is recorded, and only steps are.
    pub fn view_provenance(&mut self) {
        let prov = self.m.provenance.clone();
        let stored: BTreeMap<String, Vec<u8>> = self
            .dump()
            .into_iter()
            .filter_map(|(k, v)| Some((k.strip_prefix("db/core_model/")?.to_string(), v)))
            .collect();
        for said in &prov.must {
            if !stored.contains_key(&format!("{PREFIX}{said}")) {
                self.find(&["C21"], true, "provenance-missing", said, "no record of a step of an acknowledged build".into());
                return;
            }
        }
        for (k, v) in &stored {
            let said = k.strip_prefix(PREFIX).unwrap_or(k);
            let got = read(v);
            let Some(allowed) = prov.allowed.get(said) else {
                self.find(&["C21"], true, "provenance-unknown", said, format!("{got:?} is recorded of what no build led to"));
                return;
            };
            if got.is_none() || !allowed.contains(&None) && !allowed.contains(&got) {
                let t = format!("{:?} is recorded, not {:?}", got, allowed.iter().flatten().take(3).collect::<Vec<_>>());
                self.find(&["C21"], true, "provenance-wrong", said, t);
                return;
            }
        }
    }
}
