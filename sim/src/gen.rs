//! Workload generation. Everything drawn here comes from the run's seed.
use crate::exec::Model;
use crate::model::{Content, Resolve};
use crate::spec::*;
use simcore::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// Overall form of a workload.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Mixed,
    /// Each bundle extends the one before it.
    Chain,
    /// Many bundles over one capture base.
    Wide,
    /// Bundles referring to bundles referring to bundles.
    Layers,
    /// Many attributes, long texts, many languages.
    Big,
    /// More bundles than any page, buffer or cache may be thought to hold.
    Many,
    /// Documents of hundreds of commands.
    Long,
    /// Bundles to which countless ways of references lead.
    Tangle,
    /// A long line of references.
    Deep,
}

/// Swarm knobs: what a workload is made of.
#[derive(Clone, Debug)]
pub struct Profile {
    pub shape: Shape,
    /// Most of many bundles have one capture base.
    pub same: bool,
    pub ops: (usize, usize),
    pub cmds: (usize, usize),
    /// Weights: build, reject, validate, query, crash, reopen.
    pub w: [u64; 6],
    /// Percent of builds FROM an earlier one.
    pub from: u64,
    /// Percent of builds repeating an earlier document.
    pub again: u64,
    /// Percent of builds declaring a name.
    pub name: u64,
    /// Percent of attributes referring to other bundles.
    pub refs: u64,
    /// Small value pools, so that documents collide.
    pub collide: bool,
    /// Hostile search phrases and page arguments.
    pub hostile: bool,
    pub overlays: u64,
    /// Undo and redo of single values through FROM.
    pub revert: u64,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            shape: Shape::Mixed,
            same: false,
            ops: (3, 7),
            cmds: (1, 5),
            w: [10, 0, 0, 0, 0, 0],
            from: 35,
            again: 8,
            name: 40,
            refs: 12,
            collide: false,
            hostile: false,
            overlays: u64::MAX,
            revert: 15,
        }
    }
}

const ATTRS: [&str; 14] =
    ["a", "A", "First_Name", "b", "name", "d", "first_name", "x.y", "n-1", "digest", "zolw2", "Z", "9", "attribute-with-quite-a-long-name_of.its.own-0001"];
const LANGS: [&str; 6] = ["en", "pl", "fr", "de", "it", "es"];
const MORE_LANGS: [&str; 34] = [
    "pt", "nl", "sv", "fi", "da", "cs", "sk", "hu", "ro", "bg", "el", "tr", "uk", "ru", "ar", "he", "fa", "hi", "bn", "ta", "zh",
    "ja", "ko", "vi", "th", "id", "ms", "sw", "ga", "is", "lv", "lt", "et", "sl",
];
const WORDS: [&str; 15] = [
    "Passport", "A -- B", "Driving licence", "Entrance credential", "it's", "50% (approx.)", "A*B", "résumé", "données",
    "name:x", "a.b.c", "NOT or AND", "x^2 + y", "tab", "[draft]",
];
const CODES: [&str; 6] = ["o1", "o2", "red", "green", "A-1", "z"];
const NAMES: [&str; 11] = ["first", "second", "firs",
    "a-name_of.quite:some/length-0123456789-abcdefghijklmnopqrstuvwxyz-0123456789-ABCDEFGHIJKLMNOPQRSTUVWXYZ-0123456789", "people.v1", "a-b_c", "team/person", "x:y", "Łódź", "FIRST", "refs:first"];
const ODD_NAMES: [&str; 4] = ["../up", "/abs/name", "..", "a//b"];
const SAIS: [&str; 2] = ["EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0", "EC694D_WMDtVIRvBXgj3mzBIMSiBrVb4_-TM7s9GpKhq"];

fn text(r: &mut Rng, p: &Profile) -> String {
    if p.collide {
        return (*r.pick(&["one", "two", "Passport"])).to_string();
    }
    let long = p.shape == Shape::Big && r.chance(1, 4);
    let n = match long {
        true if r.chance(1, 8) => r.range(9_000, 15_000),
        true => r.range(20, 900),
        false => r.range(1, 3),
    };
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(r.pick(&WORDS[..]));
    }
    if r.chance(1, 3) {
        s.push_str(&format!(" {}", r.below(1000)));
    }
    match r.below(60) {
        0 => s.push(' '),
        1 => s.insert(0, ' '),
        2 => s = s.replace(' ', "  "),
        3 => s.push_str(r.pick(&["日本語のテキスト", "🎉 party 🎉", "Ελληνικά", "عربي", "e\u{301}", "."])),
        _ => {}
    }
    s
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Profile,
    /// Planning model: every build is assumed to succeed.
    pub m: Model,
    pub docs: Vec<(usize, Doc)>,
    pub fresh: u64,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, p: Profile) -> Self {
        Gen { r, p, m: Model::default(), docs: vec![], fresh: 0 }
    }

    fn pct(&mut self, n: u64) -> bool {
        self.r.chance(n, 100)
    }

    fn style(&mut self) -> u32 {
        let split = if self.pct(8) { SPLIT } else { 0 };
        self.r.below(64) as u32 | split
    }

    fn lang(&mut self) -> String {
        if self.p.collide {
            return self.r.pick(&LANGS[..2]).to_string();
        }
        let odd = if self.p.shape == Shape::Big { 70 } else { 10 };
        if self.pct(odd) {
            return self.r.pick(&MORE_LANGS).to_string();
        }
        self.r.pick(&LANGS).to_string()
    }

    fn some(&mut self, attrs: &[String]) -> Vec<String> {
        let n = self.r.range(1, attrs.len().min(if self.p.shape == Shape::Big { 40 } else { 3 }));
        let mut v = attrs.to_vec();
        self.r.shuffle(&mut v);
        v.truncate(n);
        v
    }

    fn a_ref(&mut self) -> Option<Ref> {
        let names: Vec<String> = self.m.names.keys().cloned().collect();
        if !names.is_empty() && self.pct(60) {
            return Some(Ref::Name(self.r.pick(&names).clone()));
        }
        if self.docs.is_empty() {
            return None;
        }
        let i = self.r.below(self.docs.len() as u64) as usize;
        Some(Ref::Op(self.docs[i].0))
    }

    fn ty(&mut self) -> Ty {
        if self.pct(self.p.refs) {
            if let Some(x) = self.a_ref() {
                let deep = *self.r.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 5]);
                return (0..deep).fold(Ty::Ref(x), |t, _| Ty::Array(Box::new(t)));
            }
        }
        let leaf = match self.r.below(5) {
            0 => Ty::Text,
            1 => Ty::Numeric,
            2 => Ty::Boolean,
            3 => Ty::Binary,
            _ => Ty::DateTime,
        };
        match self.r.below(8) {
            0 => Ty::Array(Box::new(leaf)),
            1 if self.pct(30) => (0..*self.r.pick(&[2, 3, 6])).fold(leaf, |t, _| Ty::Array(Box::new(t))),
            _ => leaf,
        }
    }

    fn cmd(&mut self, c: &Content, local: &BTreeSet<String>, local_class: bool, from: bool) -> Option<Cmd> {
        let present: Vec<String> = c.attrs.keys().cloned().collect();
        let pool = if self.p.collide { 3 } else { ATTRS.len() };
        let k = self.r.below(22);
        if k < 4 || present.is_empty() && k > 6 {
            let mut v = vec![];
            let big = self.p.shape == Shape::Big;
            let wide = big || self.pct(4);
            let n = if big { self.r.range(5, 40) } else if wide { self.r.range(10, 30) } else { self.r.range(1, 3) };
            for _ in 0..n {
                let mut a = if wide { format!("k{}", self.r.below(80)) } else { self.r.pick(&ATTRS[..pool]).to_string() };
                if !present.is_empty() && self.pct(10) {
                    // Another spelling of a name there already, or its beginning.
                    let o = self.r.pick(&present).clone();
                    a = match self.r.below(4) {
                        0 | 1 => o.to_uppercase(),
                        2 => o.to_lowercase(),
                        _ => format!("{o}1"),
                    };
                }
                if local.contains(&a) || v.iter().any(|(x, _)| *x == a) {
                    continue;
                }
                if c.attrs.contains_key(&a) && !(from && self.pct(25)) {
                    continue;
                }
                v.push((a, self.ty()));
            }
            if !big && self.pct(6) {
                if let Some(a) = v.first().map(|(a, _)| if a.to_uppercase() == *a { a.to_lowercase() } else { a.to_uppercase() }) {
                    if !local.contains(&a) && !c.attrs.contains_key(&a) && v.iter().all(|(x, _)| *x != a) {
                        v.push((a, self.ty()));
                    }
                }
            }
            return if v.is_empty() { None } else { Some(Cmd::AddAttrs(v)) };
        }
        let lang = self.lang();
        // One of two spellings of a name.
        let twins: Vec<String> = local
            .iter()
            .filter(|a| local.iter().any(|b| a != &b && a.eq_ignore_ascii_case(b)))
            .cloned()
            .collect();
        if k > 4 && !twins.is_empty() && self.pct(12) {
            return Some(Cmd::RemoveAttrs(vec![self.r.pick(&twins).clone()]));
        }
        if k == 4 {
            let l: Vec<String> = local.iter().cloned().collect();
            if l.is_empty() {
                return None;
            }
            let mut l = l;
            self.r.shuffle(&mut l);
            l.truncate(if self.pct(75) { 1 } else { self.r.range(1, 6) });
            return Some(Cmd::RemoveAttrs(l));
        }
        if k == 5 {
            return Some(if local_class {
                Cmd::RemoveClass
            } else {
                Cmd::AddClass(self.r.pick(&["GICS:35102020", "GICS:1", "x.y:z", "gics:1.", "A-b_C/9", "0"]).to_string())
            });
        }
        if k <= 9 {
            if self.p.overlays & 1 == 0 {
                return None;
            }
            let mut v = vec![];
            if self.pct(85) {
                v.push(("name".to_string(), text(self.r, &self.p)));
            }
            if self.pct(60) {
                v.push(("description".to_string(), text(self.r, &self.p)));
            }
            if self.pct(15) {
                v.push(("affiliation".to_string(), text(self.r, &self.p)));
            }
            return if v.is_empty() { None } else { Some(Cmd::Meta { lang, pairs: v }) };
        }
        if self.p.overlays & (1 << (k - 9)) == 0 || present.is_empty() {
            return None;
        }
        let attrs = self.some(&present);
        let mut pairs = |g: &mut Self, f: &dyn Fn(&mut Rng, &Profile) -> String| -> Pairs {
            attrs
                .iter()
                .map(|a| {
                    let p = g.p.clone();
                    (a.clone(), f(g.r, &p))
                })
                .collect()
        };
        Some(match k {
            10 => Cmd::Label { lang, attrs: pairs(self, &text) },
            11 => Cmd::Info { lang, attrs: pairs(self, &text) },
            12 => Cmd::Plain {
                kind: Plain::CharacterEncoding,
                attrs: pairs(self, &|r, _| r.pick(&["utf-8", "base64", "utf-16le", "iso-8859-1"]).to_string()),
            },
            13 => Cmd::Plain { kind: Plain::Conformance, attrs: pairs(self, &|r, _| r.pick(&["M", "O", "M", "O", "Q"]).to_string()) },
            14 => Cmd::Plain {
                kind: Plain::Format,
                attrs: pairs(self, &|r, _| r.pick(&["image/jpeg", "YYYY-MM-DD", "^[a-z]+$", "^\\d{4}-\\d{2}$", " DD  MM ", "%H:%M", "[A-Z]{2},?", "IMAGE/JPEG", "#,##0.00"]).to_string()),
            },
            15 => Cmd::Plain { kind: Plain::Unit, attrs: pairs(self, &|r, _| r.pick(&["m", "kg", "cm", "Cel", "M", "%", "m/s^2", "°C", "[in_i]", "10*3/ul", " m"]).to_string()) },
            16 => Cmd::Plain {
                kind: Plain::Cardinality,
                attrs: pairs(self, &|r, _| r.pick(&["1-2", "1", "2-", "0-9", "2-2", "1-1", "10-100", "0", "-3", "01-2"]).to_string()),
            },
            17 => {
                let dep = self.r.pick(&present).clone();
                let dep2 = self.r.pick(&present).clone();
                Cmd::Condition {
                    attrs: pairs(self, &|r, _| {
                        if r.chance(1, 8) {
                            // On many others.
                            let mut on = ATTRS.map(String::from).to_vec();
                            r.shuffle(&mut on);
                            on.truncate(r.range(2, 14));
                            let on: Vec<String> = on.iter().enumerate().map(|(i, a)| format!("${{{a}}} == {i}")).collect();
                            return on.join(" and ");
                        }
                        r.pick(&[
                            format!("${{{dep}}} == 1"),
                            format!("${{{dep}}} > 0 and ${{{dep2}}} < 5"),
                            format!("${{{dep2}}}"),
                            format!("${{{dep}}}  ==  'a  b' or (${{{dep2}}}<3)"),
                            format!(" not ${{{dep}}} "),
                            format!("${{{dep}}} == ${{{dep}}} and ${{{dep2}}} ~= ${{{dep}}}"),
                        ])
                        .clone()
                    }),
                }
            }
            18 => {
                let mut v = vec![];
                for a in &attrs {
                    let mut codes = CODES.map(String::from).to_vec();
                    self.r.shuffle(&mut codes);
                    codes.truncate(if self.pct(8) { 0 } else { self.r.range(1, 4) });
                    let c = match self.r.below(3) {
                        0 => Codes::Sai(self.r.pick(&SAIS).to_string()),
                        1 => Codes::List(codes),
                        _ => {
                            let mut g = vec![];
                            let mut names = vec!["g1".to_string(), "other".into(), "A".into(), "zz".into()];
                            self.r.shuffle(&mut names);
                            let n = if self.pct(8) { 0 } else { self.r.range(1, names.len()) };
                            for n in names.into_iter().take(n) {
                                let mut c = codes.clone();
                                self.r.shuffle(&mut c);
                                if self.pct(8) {
                                    c.clear();
                                }
                                g.push((n, c));
                            }
                            Codes::Groups(g)
                        }
                    };
                    v.push((a.clone(), c));
                }
                Cmd::EntryCode { attrs: v }
            }
            19 => {
                let mut v = vec![];
                for a in &attrs {
                    let e = if self.pct(20) {
                        Entr::Sai(self.r.pick(&SAIS).to_string())
                    } else {
                        let mut codes = CODES.map(String::from).to_vec();
                        self.r.shuffle(&mut codes);
                        codes.truncate(self.r.range(1, 5));
                        Entr::Map(
                            codes
                                .into_iter()
                                .map(|c| {
                                    let p = self.p.clone();
                                    (c, text(self.r, &p))
                                })
                                .collect(),
                        )
                    };
                    v.push((a.clone(), e));
                }
                Cmd::Entry { lang, attrs: v }
            }
            20 => {
                let target = self.a_ref()?;
                Cmd::Link { target, attrs: pairs(self, &|r, _| r.pick(&["firstName", "x", "other"]).to_string()) }
            }
            _ => {
                let id = self.r.pick(&["SNOMEDCT", "other-frame"]).to_string();
                let mut meta = vec![];
                for (k, vals) in [("label", ["Clinical", "Basic"]), ("location", ["http://x.org", "here"]), ("version", ["1", "2"])] {
                    if self.pct(60) {
                        meta.push((k.to_string(), self.r.pick(&vals).to_string()));
                    }
                }
                let mut v = vec![];
                for a in &attrs {
                    let mut f = vec![];
                    let mut urls = ["http://snomed.info/id/703503000", "http://snomed.info/id/397669002", "urn:x"];
                    self.r.shuffle(&mut urls);
                    let n = self.r.range(1, 3);
                    for u in urls.iter().take(n) {
                        f.push((
                            u.to_string(),
                            self.r.pick(&["skos:exactMatch", "skos:broadMatch"]).to_string(),
                            self.r.pick(&["semapv:ManualMappingCuration", "auto"]).to_string(),
                        ));
                    }
                    v.push((a.clone(), f));
                }
                Cmd::Framing { id, meta, attrs: v }
            }
        })
    }

    /// A single change of one value, so that FROM chains can go back and forth.
    fn toggle(&mut self, c: &Content) -> Option<Cmd> {
        let lang = "en".to_string();
        let v = self.r.pick(&["one", "two"]).to_string();
        let present: Vec<String> = c.attrs.keys().cloned().collect();
        if present.is_empty() || self.pct(50) {
            return Some(Cmd::Meta { lang, pairs: vec![("name".into(), v)] });
        }
        let a = self.r.pick(&present).clone();
        Some(match self.r.below(3) {
            0 => Cmd::Label { lang, attrs: vec![(a, v)] },
            1 => Cmd::AddAttrs(vec![(a, if v == "one" { Ty::Text } else { Ty::Numeric })]),
            _ => Cmd::Plain { kind: Plain::Unit, attrs: vec![(a, if v == "one" { "m".into() } else { "kg".into() })] },
        })
    }

    /// Gives an earlier command again: straight away, or after the value has changed.
    fn repeat(&mut self, d: &mut Doc) {
        let i = self.r.below(d.cmds.len() as u64) as usize;
        let c = d.cmds[i].clone();
        let p = self.p.clone();
        let mut other = c.clone();
        match &mut other {
            Cmd::Meta { pairs, .. } => pairs.iter_mut().for_each(|x| x.1 = text(self.r, &p)),
            Cmd::Label { attrs, .. } | Cmd::Info { attrs, .. } => attrs.iter_mut().for_each(|x| x.1 = text(self.r, &p)),
            Cmd::Plain { kind: Plain::Unit, attrs } => attrs.iter_mut().for_each(|x| x.1 = "mol".into()),
            Cmd::Condition { attrs } => attrs.iter_mut().for_each(|x| x.1 = "1 == 1".into()),
            Cmd::EntryCode { attrs } => attrs.iter_mut().for_each(|x| x.1 = Codes::List(vec!["other".into()])),
            Cmd::Entry { attrs, .. } => attrs.iter_mut().for_each(|x| x.1 = Entr::Map(vec![("o1".into(), "other".into())])),
            Cmd::Link { attrs, .. } => attrs.iter_mut().for_each(|x| x.1 = "elsewhere".into()),
            Cmd::Plain { .. } => {}
            _ => return,
        }
        if other != c && self.pct(80) {
            d.cmds.push(other);
        }
        if self.pct(70) {
            let l = self.lang();
            d.cmds.push(Cmd::Meta { lang: l, pairs: vec![("description".into(), text(self.r, &p))] });
        }
        d.cmds.push(c);
    }

    pub fn doc(&mut self) -> Doc {
        if !self.docs.is_empty() && self.pct(self.p.again) {
            let i = self.r.below(self.docs.len() as u64) as usize;
            let mut d = self.docs[i].1.clone();
            if self.pct(30) {
                d.style = self.style();
            }
            return d;
        }
        for _ in 0..20 {
            let mut d = Doc { style: self.style(), ..Default::default() };
            let mut content = Content::default();
            if !self.docs.is_empty() && self.pct(self.p.from) {
                let i = self.r.below(self.docs.len() as u64) as usize;
                let op = self.docs[i].0;
                if let Some(s) = self.m.results.get(&op) {
                    content = self.m.known[s].content.clone();
                    d.base = Some(Ref::Op(op));
                }
            }
            let from = d.base.is_some();
            if from && self.pct(self.p.revert) {
                if let Some(c) = self.toggle(&content) {
                    d.cmds.push(c);
                }
            } else {
                let n = if from && self.pct(5) { 0 } else { self.r.range(self.p.cmds.0, self.p.cmds.1) };
                let mut local = BTreeSet::new();
                let mut local_class = false;
                let mut tries = 0;
                while d.cmds.len() < n && tries < 60 + 6 * n {
                    tries += 1;
                    let c = if d.cmds.is_empty() && !from && self.pct(90) {
                        let k = if self.p.collide { 2 } else { self.r.range(1, 5) };
                        let pool = if self.p.collide { 3 } else { ATTRS.len() };
                        let mut names: Vec<&str> = ATTRS[..pool].to_vec();
                        self.r.shuffle(&mut names);
                        names.truncate(k);
                        Some(Cmd::AddAttrs(names.into_iter().map(|a| (a.to_string(), self.ty())).collect()))
                    } else {
                        self.cmd(&content, &local, local_class, from)
                    };
                    let Some(c) = c else { continue };
                    let mut next = content.clone();
                    if next.apply(&c, &self.m).is_none() {
                        continue;
                    }
                    match &c {
                        Cmd::AddAttrs(v) => local.extend(v.iter().map(|x| x.0.clone())),
                        Cmd::RemoveAttrs(v) => {
                            for a in v {
                                local.remove(a);
                            }
                        }
                        Cmd::AddClass(_) => local_class = true,
                        Cmd::RemoveClass => local_class = false,
                        _ => {}
                    }
                    content = next;
                    d.cmds.push(c);
                }
            }
            if !d.cmds.is_empty() && self.pct(14) {
                self.repeat(&mut d);
            }
            if self.pct(self.p.name) {
                let n = if self.p.hostile && self.pct(15) {
                    self.r.pick(&ODD_NAMES).to_string()
                } else {
                    let k = if self.p.collide { 3 } else { NAMES.len() };
                    self.r.pick(&NAMES[..k]).to_string()
                };
                d.name = Some(n);
            }
            if self.m.plan(&d).is_some() {
                return d;
            }
        }
        Doc { cmds: vec![Cmd::AddAttrs(vec![("a".into(), Ty::Text)])], ..Default::default() }
    }

    /// Takes a document into the planning model as the result of operation `i`.
    pub fn take(&mut self, i: usize, d: &Doc) {
        if let Some(p) = self.m.plan(d) {
            let info = self.m.begin(d, &p);
            self.m.ack(i, d, &info);
            self.docs.push((i, d.clone()));
        }
    }

    /// An OCAFile nobody may accept: a valid one with one bad command somewhere in it.
    fn reject(&mut self, i: usize) -> Op {
        if self.pct(6) {
            let mut d = Doc { name: Some(self.r.pick(&NAMES).to_string()), ..Default::default() };
            d.alien_base = Some(self.r.pick(&SAIS).to_string());
            d.cmds = vec![Cmd::AddAttrs(vec![("a".to_string(), Ty::Text), (format!("zz{}", self.r.below(5)), Ty::Numeric)])];
            self.take(i, &d);
            return Op::Build(d);
        }
        let (doc, why) = self.bad_doc();
        Op::Reject { doc, why }
    }

    fn bad_doc(&mut self) -> (Doc, String) {
        let mut d = self.doc();
        d.name = if self.pct(60) { Some(self.r.pick(&NAMES).to_string()) } else { None };
        let at = match self.r.below(4) {
            0 => 0,
            1 => d.cmds.len(),
            _ => self.r.range(0, d.cmds.len()),
        };
        let mut content = match d.base.as_ref().and_then(|b| self.m.said(b)).and_then(|s| self.m.known.get(&s)) {
            Some(b) => b.content.clone(),
            None => Content::default(),
        };
        let mut local: BTreeSet<String> = BTreeSet::new();
        let mut gone: Vec<String> = vec![];
        let mut class = false;
        for c in &d.cmds[..at] {
            let _ = content.apply(c, &self.m);
            match c {
                Cmd::AddAttrs(v) => local.extend(v.iter().map(|x| x.0.clone())),
                Cmd::RemoveAttrs(v) => {
                    for a in v {
                        local.remove(a);
                        gone.push(a.clone());
                    }
                }
                Cmd::AddClass(_) => class = true,
                Cmd::RemoveClass => class = false,
                _ => {}
            }
        }
        gone.retain(|a| !content.attrs.contains_key(a));
        let mut present: Vec<String> = content.attrs.keys().cloned().collect();
        self.r.shuffle(&mut present);
        // An attribute nobody defined, one defined only later or elsewhere, one removed before.
        let mut absent = vec![format!("missing{}", self.r.below(9))];
        absent.extend(ATTRS.iter().map(|a| a.to_string()).filter(|a| !content.attrs.contains_key(a)));
        let bad = if !gone.is_empty() && self.pct(40) {
            self.r.pick(&gone).clone()
        } else if self.pct(50) {
            absent[0].clone()
        } else {
            self.r.pick(&absent).clone()
        };
        // Among good ones.
        let some = if self.pct(20) { present.len() } else { 2 };
        let mut list: Vec<String> = present.iter().take(self.r.range(0, some)).cloned().collect();
        let k = self.r.range(0, list.len());
        list.insert(k, bad.clone());
        let good: Vec<String> = if present.is_empty() { vec![bad.clone()] } else { vec![present[0].clone()] };
        let with = |l: &Vec<String>, v: &str| -> String { l.iter().map(|a| format!(" {a}={v}")).collect() };
        let lang = self.lang();
        let badlang = self.r.pick(&["xx", "zz", "en-US", "EN", "qq"]).to_string();
        let framing = "{\"http://x\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}";
        let known = self.a_ref().and_then(|r| match r {
            Ref::Name(n) => Some(format!("refn:{n}")),
            x => self.m.said(&x).map(|s| format!("refs:{s}")),
        });
        let target = known.unwrap_or_else(|| format!("refs:{}", SAIS[0]));
        let nobody = self.r.pick(&["nobody-knows", "First", "first.", "second/1"]).to_string();
        let fresh = format!("fresh{}", self.r.below(3));
        let mix = |r: &mut Rng, bad: String| -> String {
            let many = |r: &mut Rng| -> String { (0..r.range(2, 9)).map(|i| format!(" more{i}=Text")).collect() };
            match r.below(4) {
                0 => format!("ADD ATTRIBUTE {bad}"),
                3 if r.chance(1, 2) => format!("ADD ATTRIBUTE{} {bad}", many(r)),
                3 => format!("ADD ATTRIBUTE {bad}{}", many(r)),
                1 => format!("ADD ATTRIBUTE {fresh}=Text {bad}"),
                _ => format!("ADD ATTRIBUTE {bad} {fresh}=Text"),
            }
        };
        let (line, why): (String, &str) = match self.r.below(40) {
            0 => (format!("ADD LABEL {lang} ATTRS{}", with(&list, "\"q\"")), "label of an undefined attribute"),
            1 => (format!("ADD INFORMATION {lang} ATTRS{}", with(&list, "\"q\"")), "information of an undefined attribute"),
            2 => (format!("ADD CHARACTER_ENCODING ATTRS{}", with(&list, "\"utf-8\"")), "encoding of an undefined attribute"),
            3 => (format!("ADD CONFORMANCE ATTRS{}", with(&list, "\"M\"")), "conformance of an undefined attribute"),
            4 => (format!("ADD FORMAT ATTRS{}", with(&list, "\"image/png\"")), "format of an undefined attribute"),
            5 => (format!("ADD UNIT ATTRS{}", with(&list, "\"kg\"")), "unit of an undefined attribute"),
            6 => (format!("ADD CARDINALITY ATTRS{}", with(&list, "\"1-2\"")), "cardinality of an undefined attribute"),
            7 => (format!("ADD CONDITION ATTRS{}", with(&list, "\"1 == 1\"")), "condition of an undefined attribute"),
            8 => (
                format!("ADD ENTRY_CODE ATTRS{}", with(&list, *self.r.pick(&["[\"o1\"]", "{\"g\": [\"o1\"]}", "\"x\""]))),
                "codes of an undefined attribute",
            ),
            9 => (
                format!("ADD ENTRY {lang} ATTRS{}", with(&list, *self.r.pick(&["{\"o1\": \"x\"}", "\"x\""]))),
                "entries of an undefined attribute",
            ),
            10 => (format!("ADD LINK {target} ATTRS{}", with(&list, "\"x\"")), "link of an undefined attribute"),
            11 => (format!("ADD ATTR_FRAMING id=\"f\" ATTRS{}", with(&list, framing)), "framing of an undefined attribute"),
            12 => (format!("ADD META {badlang} PROPS name=\"q\""), "unknown language of a meta overlay"),
            13 => (format!("ADD LABEL {badlang} ATTRS{}", with(&good, "\"q\"")), "unknown label language"),
            14 => (format!("ADD INFORMATION {badlang} ATTRS{}", with(&good, "\"q\"")), "unknown information language"),
            15 => (format!("ADD ENTRY {badlang} ATTRS{}", with(&good, "{\"o1\": \"x\"}")), "unknown entry language"),
            16 => (format!("ADD CHARACTER_ENCODING ATTRS{}", with(&good, "\"no-such-encoding\"")), "unknown encoding"),
            17 => (mix(self.r, format!("r=refn:{nobody}")), "unknown reference"),
            18 => (mix(self.r, format!("r=Array[refn:{nobody}]")), "unknown reference in an array"),
            19 => (mix(self.r, format!("r=Array[Array[refn:{nobody}]]")), "unknown reference in a nested array"),
            20 => (format!("ADD LINK refn:{nobody} ATTRS{}", with(&good, "\"x\"")), "unknown link target"),
            21 => (format!("ADD LINK refs:{nobody} ATTRS{}", with(&good, "\"x\"")), "malformed link target"),
            22 => (mix(self.r, "r=refs:nosaid".into()), "malformed reference"),
            23 => (mix(self.r, "r=Array[refs:nosaid]".into()), "malformed reference in an array"),
            24 if !local.is_empty() => {
                let mut l: Vec<String> = local.iter().cloned().collect();
                // The other spelling of one removed before.
                let near: Vec<String> =
                    l.iter().filter(|a| gone.iter().any(|g| g.eq_ignore_ascii_case(a))).cloned().collect();
                if !near.is_empty() {
                    l = near;
                }
                let a = self.r.pick(&l).clone();
                (mix(self.r, format!("{a}=Text")), "attribute added twice")
            }
            25 => (
                format!("REMOVE ATTRIBUTE {}", {
                    let mut l: Vec<String> = local.iter().take(if self.pct(25) { 6 } else { 1 }).cloned().collect();
                    let k = self.r.range(0, l.len());
                    l.insert(k, bad.clone());
                    l.join(" ")
                }),
                "removal of a missing attribute",
            ),
            26 if !class && content.class.is_empty() => ("REMOVE CLASSIFICATION".into(), "removal of a missing classification"),
            27 => ("ADD META en PROPS name=\"q\" language=\"x\"".into(), "reserved property"),
            28 => (self.r.pick(&["REMOVE META en", "REMOVE LABEL en", "MODIFY ATTRIBUTE a=Text"]).to_string(), "unsupported command"),
            29 => (format!("ADD ATTR_FRAMING label=\"x\" ATTRS{}", with(&good, framing)), "framing without an id"),
            30 => (format!("ADD ATTRIBUTE deep={}Text{}", "Array[".repeat(400), "]".repeat(400)), "nested too deep"),
            31 => (format!("FROM {}", SAIS[0]), "a base in the middle"),
            32 => (self.r.pick(&["ADD ATTRIBUTE", "ADD ATTRIBUTE q=", "ADD META en PROPS", "ADD LABEL en ATTRS", "ADD"]).to_string(), "incomplete command"),
            33 => (mix(self.r, "q=Random".into()), "unknown type"),
            34 => ("ADD LABEL en ATTRS a=\"no end".into(), "unterminated text"),
            35 => ("-- precompiler=nonsense".into(), "unknown precompiler"),
            36 => ("this is not an OCAFile".into(), "syntax error"),
            37 => (mix(self.r, "q=Array[Text, Numeric]".into()), "malformed array"),
            38 => ("FROM not-a-said".into(), "malformed base"),
            _ => ("ADD NONSENSE a=b".into(), "unknown command"),
        };
        let at = if why == "a base in the middle" { d.cmds.len().max(1).min(at.max(1)) } else { at };
        if why == "a base in the middle" && d.cmds.is_empty() {
            d.base = None;
            d.cmds = vec![Cmd::AddAttrs(vec![("a".into(), Ty::Text)])];
        }
        d.style &= !8;
        d.cmds.insert(at.min(d.cmds.len()), Cmd::Raw(line));
        (d, why.into())
    }

    fn query(&mut self) -> Query {
        let of = |g: &mut Self| -> Ref {
            if g.docs.is_empty() {
                Ref::Lit(SAIS[0].into())
            } else {
                let i = g.r.below(g.docs.len() as u64) as usize;
                Ref::Op(g.docs[i].0)
            }
        };
        let limit = if self.p.hostile {
            *self.r.pick(&[0usize, 1, 2, 3, 100, usize::MAX, 1 << 62])
        } else {
            self.r.range(1, 4)
        };
        let page = if self.p.hostile { *self.r.pick(&[0usize, 1, 1, 2, 3, 1000, usize::MAX, 1 << 40]) } else { 1 };
        match self.r.below(14) {
            0 => Query::Bundle { of: of(self), deps: false },
            1 => Query::Bundle { of: of(self), deps: true },
            2 => Query::Steps { of: of(self) },
            3 => Query::Ast { of: of(self) },
            4 => Query::Ocafile { of: of(self) },
            5 => Query::Objects { of: of(self) },
            6 | 7 => Query::Explore { of: of(self), which: self.r.below(8) as usize },
            8 => Query::ListBundles { limit, page },
            9 => Query::ListBases { limit, page },
            10..=12 => {
                let phrase = if self.p.hostile && self.pct(60) {
                    self.r
                        .pick(&[
                            "", "a", "it's", "\"", "\"\"", "a\"b", "*", "NEAR(", "AND", "x OR", "(", ")", "name:", "-", "^pas",
                            "a AND b", "50% (approx.)", "+", "[draft]", "name:x", "{name}", "a.b.c", "zolw2", "\\", "%", "'; --",
                            "Entrance credential Passport", "A*B",
                        ])
                        .to_string()
                } else {
                    let ph: Vec<String> = {
                        let mut v = vec!["Passport".to_string()];
                        for i in self.m.acked.values() {
                            for (_, n, d) in i.mb.metas() {
                                v.push(n.to_string());
                                v.push(d.to_string());
                            }
                        }
                        v.retain(|s| !s.is_empty());
                        v
                    };
                    self.r.pick(&ph).chars().take(crate::views::LONGEST_PHRASE).collect()
                };
                let lang = if self.pct(40) { Some(self.lang()) } else { None };
                Query::Search { lang, phrase, limit, page }
            }
            _ => Query::Refs,
        }
    }

    fn validate(&mut self) -> Option<Op> {
        if self.pct(25) {
            let (doc, _) = self.bad_doc();
            let external = self.m.names.keys().map(|n| (n.clone(), Ref::Name(n.clone()))).collect();
            return Some(Op::Validate { doc, external });
        }
        let mut d = self.doc();
        d.name = if self.pct(60) { Some(self.r.pick(&NAMES).to_string()) } else { None };
        if d.cmds.is_empty() {
            return None;
        }
        let mut external = vec![];
        if !self.docs.is_empty() && self.pct(50) {
            let i = self.r.below(self.docs.len() as u64) as usize;
            external.push(("ext".to_string(), Ref::Op(self.docs[i].0)));
            d.cmds.push(Cmd::AddAttrs(vec![(format!("e{}", self.r.below(3)), Ty::Ref(Ref::Name("ext".into())))]));
        }
        for n in self.m.names.keys() {
            external.push((n.clone(), Ref::Name(n.clone())));
        }
        Some(Op::Validate { doc: d, external })
    }

    /// The next document of a workload of a special form.
    fn shaped(&mut self) -> Option<Doc> {
        let mut d = Doc { style: self.style(), ..Default::default() };
        match self.p.shape {
            Shape::Chain => {
                let (op, _) = self.docs.last().cloned()?;
                let said = self.m.results.get(&op)?;
                let content = self.m.known[said].content.clone();
                d.base = Some(Ref::Op(op));
                for _ in 0..20 {
                    if let Some(c) = self.cmd(&content, &BTreeSet::new(), false, true) {
                        if matches!(c, Cmd::RemoveClass | Cmd::RemoveAttrs(_)) {
                            continue;
                        }
                        d.cmds.push(c);
                        break;
                    }
                }
            }
            Shape::Wide => {
                d.cmds.push(Cmd::AddAttrs(vec![("a".into(), Ty::Text), ("b".into(), Ty::Numeric)]));
                let lang = self.r.pick(&LANGS).to_string();
                let v = format!("Passport {}", self.r.below(60));
                d.cmds.push(match self.r.below(3) {
                    0 => Cmd::Label { lang, attrs: vec![("a".into(), v)] },
                    _ => Cmd::Meta { lang, pairs: vec![("name".into(), v)] },
                });
                if self.pct(20) {
                    d.cmds.push(Cmd::Plain { kind: Plain::Unit, attrs: vec![("b".into(), "kg".into())] });
                }
            }
            Shape::Many => {
                let k = self.docs.len();
                let a = if self.pct(if self.p.same { 5 } else { 80 }) { format!("a{k}") } else { "a".into() };
                let refs = if self.p.same { 2 } else { 10 };
                let mut v = vec![(a, Ty::Text)];
                if self.pct(refs) {
                    if let Some(r) = self.a_ref() {
                        v.push(("r".into(), Ty::Ref(r)));
                    }
                }
                d.cmds.push(Cmd::AddAttrs(v));
                if self.pct(85) {
                    let lang = self.lang();
                    d.cmds.push(Cmd::Meta { lang, pairs: vec![("name".into(), format!("Passport {k}"))] });
                }
                if self.pct(60) {
                    d.name = Some(format!("name{k}"));
                }
                if k > 20 && self.pct(2) {
                    // One that refers to many of them.
                    let mut ops: Vec<usize> = self.docs.iter().map(|x| x.0).collect();
                    self.r.shuffle(&mut ops);
                    ops.truncate(self.r.range(9, 70));
                    let mut v: Vec<(String, Ty)> = ops.into_iter().map(|o| (format!("m{o}"), Ty::Ref(Ref::Op(o)))).collect();
                    if self.pct(60) {
                        let names: Vec<String> = self.m.names.keys().cloned().collect();
                        v.extend(names.into_iter().enumerate().map(|(i, n)| (format!("n{i}"), Ty::Ref(Ref::Name(n)))));
                        self.r.shuffle(&mut v);
                        v.truncate(70);
                    }
                    d.cmds.push(Cmd::AddAttrs(v));
                }
                return self.m.plan(&d).map(|_| d);
            }
            Shape::Deep if !self.docs.is_empty() => {
                let op = self.docs[self.docs.len() - 1].0;
                let mut t = Ty::Ref(Ref::Op(op));
                if self.pct(30) {
                    t = Ty::Array(Box::new(t));
                }
                d.cmds.push(Cmd::AddAttrs(vec![("r".into(), t), (format!("a{}", self.r.below(3)), Ty::Text)]));
            }
            Shape::Tangle if !self.docs.is_empty() => {
                let mut v = vec![(format!("t{}", self.docs.len()), Ty::Text)];
                let near = self.r.range(1, 4).min(self.docs.len());
                for k in 0..self.r.range(2, 4) {
                    let back = if self.pct(90) { k % near } else { self.r.below(self.docs.len() as u64) as usize };
                    let mut t = Ty::Ref(Ref::Op(self.docs[self.docs.len() - 1 - back].0));
                    if self.pct(15) {
                        t = Ty::Array(Box::new(t));
                    }
                    v.push((format!("r{k}"), t));
                }
                self.r.shuffle(&mut v);
                d.cmds.push(Cmd::AddAttrs(v));
            }
            Shape::Layers => {
                let mut v = vec![(format!("l{}", self.docs.len()), Ty::Text)];
                let n = self.r.range(1, 3).min(self.docs.len());
                for k in 0..n {
                    // Mostly the newest ones: deep rather than broad.
                    let back = self.r.range(1, self.docs.len().min(if k == 0 { 2 } else { 5 }));
                    let op = self.docs[self.docs.len() - back].0;
                    let mut t = Ty::Ref(Ref::Op(op));
                    for _ in 0..*self.r.pick(&[0, 0, 1, 2, 3]) {
                        t = Ty::Array(Box::new(t));
                    }
                    v.push((format!("r{k}"), t));
                }
                self.r.shuffle(&mut v);
                d.cmds.push(Cmd::AddAttrs(v));
            }
            _ => return None,
        }
        if matches!(self.p.shape, Shape::Tangle | Shape::Deep | Shape::Layers) && self.pct(35) {
            let (lang, n) = (self.lang(), self.docs.len());
            d.cmds.push(Cmd::Meta { lang, pairs: vec![("name".into(), format!("Passport {n}"))] });
        }
        if self.pct(self.p.name / 2) {
            d.name = Some(self.r.pick(&NAMES).to_string());
        }
        self.m.plan(&d).map(|_| d)
    }

    pub fn ops(&mut self) -> Vec<Op> {
        let n = match self.p.shape {
            Shape::Chain => self.r.range(8, 26),
            Shape::Wide => self.r.range(10, 28),
            Shape::Layers => self.r.range(5, 12),
            Shape::Big => self.r.range(1, 3),
            Shape::Many => self.r.range(105, 150),
            Shape::Long => 1,
            Shape::Deep => self.r.range(20, 40),
            Shape::Tangle => self.r.range(22, 36),
            Shape::Mixed => self.r.range(self.p.ops.0, self.p.ops.1),
        };
        let mut out = vec![];
        let total: u64 = self.p.w.iter().sum();
        while out.len() < n {
            let mut k = self.r.below(total);
            let mut which = 0;
            for (i, w) in self.p.w.iter().enumerate() {
                if k < *w {
                    which = i;
                    break;
                }
                k -= w;
            }
            if out.is_empty() && self.pct(80) {
                which = 0;
            }
            let i = out.len();
            let op = match which {
                0 => {
                    let d = match self.shaped() {
                        Some(d) => d,
                        None => self.doc(),
                    };
                    self.take(i, &d);
                    Op::Build(d)
                }
                1 => self.reject(i),
                2 => match self.validate() {
                    Some(o) => o,
                    None => continue,
                },
                3 => Op::Query(self.query()),
                4 => Op::Crash { power: self.pct(70) },
                _ => Op::Reopen,
            };
            out.push(op);
        }
        out
    }
}

#[allow(unused)]
fn _unused(_: BTreeMap<String, Arc<()>>) {}

pub fn config(r: &mut Rng, crashes: bool) -> Config {
    let d = [Backend::Fs, Backend::Sled, Backend::Kv];
    if crashes {
        Config { db: *r.pick(&d), cache: *r.pick(&d), search_disk: true }
    } else {
        let all = [Backend::Fs, Backend::Sled, Backend::Kv, Backend::Mem];
        Config { db: *r.pick(&all), cache: *r.pick(&all), search_disk: r.chance(3, 4) }
    }
}
