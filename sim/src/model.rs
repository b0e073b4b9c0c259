//! Reference model of OCA content, written from the specification and independent of the
//! code under test: commands applied to plain maps, JSON text assembled by hand, SAIDs
//! recomputed with BLAKE3.
use crate::spec::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum MTy {
    Leaf(&'static str),
    Ref(String),
    Array(Box<MTy>),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MAttr {
    pub ty: Option<MTy>,
    pub labels: BTreeMap<String, String>,
    pub infos: BTreeMap<String, String>,
    pub entries: BTreeMap<String, Entr>,
    pub plain: BTreeMap<usize, String>,
    pub cond: Option<(String, Vec<String>)>,
    pub codes: Option<Codes>,
    pub links: BTreeMap<String, String>,
    pub framings: BTreeMap<String, BTreeMap<String, (String, String)>>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Content {
    pub attrs: BTreeMap<String, MAttr>,
    pub class: String,
    pub meta: BTreeMap<String, BTreeMap<String, String>>,
    pub frame_meta: BTreeMap<String, BTreeMap<String, String>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MOverlay {
    pub said: String,
    pub kind: &'static str,
    pub json: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MBundle {
    pub said: String,
    /// Encoded form, with the version string.
    pub json: String,
    pub cb_said: String,
    pub cb_json: String,
    pub overlays: Vec<MOverlay>,
    pub content: Content,
    pub deps: Vec<String>,
}

pub fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn said_of(text: &str) -> String {
    let h = blake3::hash(text.as_bytes());
    let mut b = vec![0u8];
    b.extend_from_slice(h.as_bytes());
    let mut s = base64::encode_config(&b, base64::URL_SAFE_NO_PAD);
    s.replace_range(0..1, "E");
    s
}
const DUMMY: &str = "############################################";

fn lang3(two: &str) -> String {
    isolang::Language::from_639_1(two).map(|l| l.to_639_3().to_string()).unwrap_or_else(|| two.to_string())
}

fn obj(pairs: impl IntoIterator<Item = (String, String)>) -> String {
    let v: Vec<String> = pairs.into_iter().map(|(k, v)| format!("{}:{}", esc(&k), v)).collect();
    format!("{{{}}}", v.join(","))
}
fn sobj(m: &BTreeMap<String, String>) -> String {
    obj(m.iter().map(|(k, v)| (k.clone(), esc(v))))
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

pub fn ty_json(t: &MTy) -> String {
    match t {
        MTy::Leaf(s) => esc(s),
        MTy::Ref(s) => esc(&format!("refs:{s}")),
        MTy::Array(i) => format!("[{}]", ty_json(i)),
    }
}
fn ty_refs(t: &MTy, out: &mut Vec<String>) {
    match t {
        MTy::Leaf(_) => {}
        MTy::Ref(s) => {
            if !out.contains(s) {
                out.push(s.clone())
            }
        }
        MTy::Array(i) => ty_refs(i, out),
    }
}

pub fn plain_index(k: Plain) -> usize {
    match k {
        Plain::CharacterEncoding => 0,
        Plain::Conformance => 1,
        Plain::Format => 2,
        Plain::Unit => 3,
        Plain::Cardinality => 4,
    }
}

/// Resolution of symbolic references while a document is planned.
pub trait Resolve {
    fn said(&self, r: &Ref) -> Option<String>;
}

fn mty(t: &Ty, r: &dyn Resolve) -> Option<MTy> {
    Some(match t {
        Ty::Text => MTy::Leaf("Text"),
        Ty::Numeric => MTy::Leaf("Numeric"),
        Ty::Boolean => MTy::Leaf("Boolean"),
        Ty::Binary => MTy::Leaf("Binary"),
        Ty::DateTime => MTy::Leaf("DateTime"),
        Ty::Ref(x) => MTy::Ref(r.said(x)?),
        Ty::Array(i) => MTy::Array(Box::new(mty(i, r)?)),
    })
}

impl Content {
    /// Applies one command; None if the model has no opinion (unresolvable reference).
    pub fn apply(&mut self, c: &Cmd, r: &dyn Resolve) -> Option<()> {
        match c {
            Cmd::AddAttrs(v) => {
                for (a, t) in v {
                    let t = mty(t, r)?;
                    self.attrs.entry(a.clone()).or_default().ty = Some(t);
                }
            }
            Cmd::RemoveAttrs(v) => {
                for a in v {
                    self.attrs.remove(a);
                }
            }
            Cmd::AddClass(s) => self.class = s.clone(),
            Cmd::RemoveClass => self.class = String::new(),
            Cmd::Meta { lang, pairs } => {
                if !pairs.is_empty() {
                    let m = self.meta.entry(lang3(lang)).or_default();
                    for (k, v) in pairs {
                        m.insert(k.clone(), v.clone());
                    }
                }
            }
            Cmd::Label { lang, attrs } => {
                for (a, v) in attrs {
                    self.attrs.get_mut(a)?.labels.insert(lang3(lang), v.clone());
                }
            }
            Cmd::Info { lang, attrs } => {
                for (a, v) in attrs {
                    self.attrs.get_mut(a)?.infos.insert(lang3(lang), v.clone());
                }
            }
            Cmd::Plain { kind, attrs } => {
                for (a, v) in attrs {
                    self.attrs.get_mut(a)?.plain.insert(plain_index(*kind), v.clone());
                }
            }
            Cmd::Condition { attrs } => {
                for (a, v) in attrs {
                    let mut deps: Vec<String> = vec![];
                    let mut out = String::new();
                    let mut rest = v.as_str();
                    while let Some(i) = rest.find("${") {
                        let Some(j) = rest[i..].find('}') else { break };
                        out.push_str(&rest[..i]);
                        let name = &rest[i + 2..i + j];
                        let n = deps.iter().position(|d| d == name).unwrap_or_else(|| {
                            deps.push(name.to_string());
                            deps.len() - 1
                        });
                        out.push_str(&format!("${{{n}}}"));
                        rest = &rest[i + j + 1..];
                    }
                    out.push_str(rest);
                    self.attrs.get_mut(a)?.cond = Some((out, deps));
                }
            }
            Cmd::EntryCode { attrs } => {
                for (a, v) in attrs {
                    self.attrs.get_mut(a)?.codes = Some(v.clone());
                }
            }
            Cmd::Entry { lang, attrs } => {
                for (a, v) in attrs {
                    self.attrs.get_mut(a)?.entries.insert(lang3(lang), v.clone());
                }
            }
            Cmd::Link { target, attrs } => {
                let t = r.said(target)?;
                for (a, v) in attrs {
                    self.attrs.get_mut(a)?.links.insert(t.clone(), v.clone());
                }
            }
            Cmd::Framing { id, meta, attrs } => {
                let m = self.frame_meta.entry(id.clone()).or_default();
                for (k, v) in meta {
                    m.insert(format!("frame_{k}"), v.clone());
                }
                for (a, v) in attrs {
                    let f = self.attrs.get_mut(a)?.framings.entry(id.clone()).or_default();
                    for (u, p, j) in v {
                        f.insert(u.clone(), (p.clone(), j.clone()));
                    }
                }
            }
            Cmd::Raw(_) => return None,
        }
        // A frame nobody uses any more is forgotten.
        let attrs = &self.attrs;
        self.frame_meta.retain(|id, _| attrs.values().any(|a| a.framings.contains_key(id)));
        Some(())
    }

    fn overlay(&self, cb: &str, kind: &'static str, snake: &str, fields: &str) -> MOverlay {
        let t = |d: &str| {
            format!(
                "{{\"d\":{},\"capture_base\":{},\"type\":{},{}}}",
                esc(d),
                esc(cb),
                esc(&format!("spec/overlays/{snake}/1.1")),
                fields
            )
        };
        let said = said_of(&t(DUMMY));
        let json = t(&said);
        MOverlay { said, kind, json }
    }

    pub fn bundle(&self) -> MBundle {
        let attrs = obj(self.attrs.iter().map(|(k, a)| (k.clone(), ty_json(a.ty.as_ref().unwrap()))));
        let cbt = |d: &str| {
            format!(
                "{{\"d\":{},\"type\":\"spec/capture_base/1.1\",\"attributes\":{},\"classification\":{},\"flagged_attributes\":[]}}",
                esc(d),
                attrs,
                esc(&self.class)
            )
        };
        let cb_said = said_of(&cbt(DUMMY));
        let cb_json = cbt(&cb_said);
        let cb = &cb_said;
        let mut ov: Vec<MOverlay> = vec![];

        for (l, m) in &self.meta {
            let mut f = format!("\"language\":{}", esc(l));
            for (k, v) in m {
                f.push_str(&format!(",{}:{}", esc(k), esc(v)));
            }
            ov.push(self.overlay(cb, "Meta", "meta", &f));
        }
        let plains: [(&'static str, &str, &str); 5] = [
            ("CharacterEncoding", "character_encoding", "attribute_character_encoding"),
            ("Conformance", "conformance", "attribute_conformance"),
            ("Format", "format", "attribute_formats"),
            ("Unit", "unit", "attribute_unit"),
            ("Cardinality", "cardinality", "attribute_cardinality"),
        ];
        for (i, (kind, snake, field)) in plains.iter().enumerate() {
            let m: BTreeMap<String, String> = self
                .attrs
                .iter()
                .filter_map(|(k, a)| a.plain.get(&i).map(|v| (k.clone(), v.clone())))
                .collect();
            if !m.is_empty() {
                ov.push(self.overlay(cb, kind, snake, &format!("\"{field}\":{}", sobj(&m))));
            }
        }
        let cond: Vec<(&String, &(String, Vec<String>))> =
            self.attrs.iter().filter_map(|(k, a)| a.cond.as_ref().map(|c| (k, c))).collect();
        if !cond.is_empty() {
            let f = format!(
                "\"attribute_conditions\":{},\"attribute_dependencies\":{}",
                obj(cond.iter().map(|(k, c)| (k.to_string(), esc(&c.0)))),
                obj(cond.iter().map(|(k, c)| (k.to_string(), arr(c.1.iter().map(|d| esc(d))))))
            );
            ov.push(self.overlay(cb, "Conditional", "conditional", &f));
        }
        let codes: Vec<(String, String)> = self
            .attrs
            .iter()
            .filter_map(|(k, a)| {
                a.codes.as_ref().map(|c| {
                    let j = match c {
                        Codes::Sai(s) => esc(s),
                        Codes::List(v) => {
                            let mut v = v.clone();
                            v.sort();
                            arr(v.iter().map(|s| esc(s)))
                        }
                        Codes::Groups(g) => {
                            let m: BTreeMap<String, String> = g
                                .iter()
                                .map(|(k, v)| (k.clone(), arr(v.iter().map(|s| esc(s)))))
                                .collect();
                            obj(m)
                        }
                    };
                    (k.clone(), j)
                })
            })
            .collect();
        if !codes.is_empty() {
            ov.push(self.overlay(cb, "EntryCode", "entry_code", &format!("\"attribute_entry_codes\":{}", obj(codes))));
        }
        let langs = |f: &dyn Fn(&MAttr) -> Vec<String>| -> Vec<String> {
            let mut l: Vec<String> = self.attrs.values().flat_map(f).collect();
            l.sort();
            l.dedup();
            l
        };
        for l in langs(&|a| a.entries.keys().cloned().collect()) {
            let m = self.attrs.iter().filter_map(|(k, a)| {
                a.entries.get(&l).map(|e| {
                    let j = match e {
                        Entr::Sai(s) => esc(s),
                        Entr::Map(v) => {
                            let m: BTreeMap<String, String> = v.iter().cloned().collect();
                            sobj(&m)
                        }
                    };
                    (k.clone(), j)
                })
            });
            let f = format!("\"language\":{},\"attribute_entries\":{}", esc(&l), obj(m));
            ov.push(self.overlay(cb, "Entry", "entry", &f));
        }
        for l in langs(&|a| a.labels.keys().cloned().collect()) {
            let m: BTreeMap<String, String> =
                self.attrs.iter().filter_map(|(k, a)| a.labels.get(&l).map(|v| (k.clone(), v.clone()))).collect();
            let f = format!(
                "\"language\":{},\"attribute_categories\":[],\"attribute_labels\":{},\"category_labels\":{{}}",
                esc(&l),
                sobj(&m)
            );
            ov.push(self.overlay(cb, "Label", "label", &f));
        }
        for l in langs(&|a| a.infos.keys().cloned().collect()) {
            let m: BTreeMap<String, String> =
                self.attrs.iter().filter_map(|(k, a)| a.infos.get(&l).map(|v| (k.clone(), v.clone()))).collect();
            let f = format!("\"language\":{},\"attribute_information\":{}", esc(&l), sobj(&m));
            ov.push(self.overlay(cb, "Information", "information", &f));
        }
        for t in langs(&|a| a.links.keys().cloned().collect()) {
            let m: BTreeMap<String, String> =
                self.attrs.iter().filter_map(|(k, a)| a.links.get(&t).map(|v| (k.clone(), v.clone()))).collect();
            let f = format!("\"target_bundle\":{},\"attribute_mapping\":{}", esc(&t), sobj(&m));
            ov.push(self.overlay(cb, "Link", "link", &f));
        }
        for id in langs(&|a| a.framings.keys().cloned().collect()) {
            let mut meta = self.frame_meta.get(&id).cloned().unwrap_or_default();
            meta.insert("frame_id".into(), id.clone());
            let m = self.attrs.iter().filter_map(|(k, a)| {
                a.framings.get(&id).map(|f| {
                    (
                        k.clone(),
                        obj(f.iter().map(|(u, (p, j))| {
                            (
                                u.clone(),
                                format!("{{\"predicate_id\":{},\"framing_justification\":{}}}", esc(p), esc(j)),
                            )
                        })),
                    )
                })
            });
            let f = format!("\"framing_metadata\":{},\"attribute_framing\":{}", sobj(&meta), obj(m));
            ov.push(self.overlay(cb, "AttributeFraming", "attribute_framing", &f));
        }

        let mut groups: BTreeMap<String, Vec<&MOverlay>> = BTreeMap::new();
        for o in &ov {
            groups.entry(snake(o.kind)).or_default().push(o);
        }
        let many = ["meta", "entry", "label", "information", "link", "attribute_framing"];
        let ovj = obj(groups.into_iter().map(|(k, mut v)| {
            let j = if many.contains(&k.as_str()) {
                v.sort_by(|a, b| a.said.cmp(&b.said));
                arr(v.iter().map(|o| o.json.clone()))
            } else {
                v[0].json.clone()
            };
            (k, j)
        }));
        let bt = |v: &str, d: &str| format!("{{\"v\":{},\"d\":{},\"capture_base\":{cb_json},\"overlays\":{ovj}}}", esc(v), esc(d));
        let size = bt("OCAS11JSON000000_", DUMMY).len();
        let v = format!("OCAS11JSON{size:06x}_");
        let said = said_of(&bt(&v, DUMMY));
        let json = bt(&v, &said);
        let mut deps = vec![];
        for a in self.attrs.values() {
            ty_refs(a.ty.as_ref().unwrap(), &mut deps);
        }
        MBundle { said, json, cb_said, cb_json, overlays: ov, content: self.clone(), deps }
    }
}

fn snake(k: &str) -> String {
    let mut s = String::new();
    for (i, c) in k.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                s.push('_');
            }
            s.extend(c.to_lowercase());
        } else {
            s.push(c);
        }
    }
    s
}

impl MBundle {
    /// Everything the bundle consists of: (SAID, kind).
    pub fn objects(&self) -> Vec<(String, String)> {
        let mut v = vec![
            (self.said.clone(), "OCABundle".to_string()),
            (self.cb_said.clone(), "CaptureBase".to_string()),
        ];
        v.extend(self.overlays.iter().map(|o| (o.said.clone(), o.kind.to_string())));
        v
    }
    pub fn metas(&self) -> impl Iterator<Item = (&String, &str, &str)> {
        self.content.meta.iter().map(|(l, m)| {
            (l, m.get("name").map(|s| s.as_str()).unwrap_or(""), m.get("description").map(|s| s.as_str()).unwrap_or(""))
        })
    }
}

// ---------------------------------------------------------------- rendering

fn rref(r: &Ref, res: &dyn Resolve) -> Option<String> {
    Some(match r {
        Ref::Name(n) => format!("refn:{n}"),
        x => format!("refs:{}", res.said(x)?),
    })
}
fn rty(t: &Ty, res: &dyn Resolve) -> Option<String> {
    Some(match t {
        Ty::Text => "Text".into(),
        Ty::Numeric => "Numeric".into(),
        Ty::Boolean => "Boolean".into(),
        Ty::Binary => "Binary".into(),
        Ty::DateTime => "DateTime".into(),
        Ty::Ref(r) => rref(r, res)?,
        Ty::Array(i) => format!("Array[{}]", rty(i, res)?),
    })
}
fn pairs(p: &Pairs) -> String {
    p.iter().map(|(k, v)| format!(" {k}=\"{v}\"")).collect()
}

pub fn render_cmd(c: &Cmd, res: &dyn Resolve) -> Option<String> {
    Some(match c {
        Cmd::AddAttrs(v) => {
            let mut s = "ADD ATTRIBUTE".to_string();
            for (a, t) in v {
                s.push_str(&format!(" {a}={}", rty(t, res)?));
            }
            s
        }
        Cmd::RemoveAttrs(v) => format!("REMOVE ATTRIBUTE {}", v.join(" ")),
        Cmd::AddClass(c) => format!("ADD CLASSIFICATION {c}"),
        Cmd::RemoveClass => "REMOVE CLASSIFICATION".into(),
        Cmd::Meta { lang, pairs: p } => format!("ADD META {lang} PROPS{}", pairs(p)),
        Cmd::Label { lang, attrs } => format!("ADD LABEL {lang} ATTRS{}", pairs(attrs)),
        Cmd::Info { lang, attrs } => format!("ADD INFORMATION {lang} ATTRS{}", pairs(attrs)),
        Cmd::Plain { kind, attrs } => {
            let k = match kind {
                Plain::CharacterEncoding => "CHARACTER_ENCODING",
                Plain::Conformance => "CONFORMANCE",
                Plain::Format => "FORMAT",
                Plain::Unit => "UNIT",
                Plain::Cardinality => "CARDINALITY",
            };
            format!("ADD {k} ATTRS{}", pairs(attrs))
        }
        Cmd::Condition { attrs } => format!("ADD CONDITION ATTRS{}", pairs(attrs)),
        Cmd::EntryCode { attrs } => {
            let list = |v: &Vec<String>| format!("[{}]", v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", "));
            let mut s = "ADD ENTRY_CODE ATTRS".to_string();
            for (a, c) in attrs {
                s.push_str(&format!(" {a}="));
                match c {
                    Codes::Sai(x) => s.push_str(&format!("\"{x}\"")),
                    Codes::List(v) => s.push_str(&list(v)),
                    Codes::Groups(g) => s.push_str(&format!(
                        "{{{}}}",
                        g.iter().map(|(k, v)| format!("\"{k}\": {}", list(v))).collect::<Vec<_>>().join(", ")
                    )),
                }
            }
            s
        }
        Cmd::Entry { lang, attrs } => {
            let mut s = format!("ADD ENTRY {lang} ATTRS");
            for (a, e) in attrs {
                s.push_str(&format!(" {a}="));
                match e {
                    Entr::Sai(x) => s.push_str(&format!("\"{x}\"")),
                    Entr::Map(m) => s.push_str(&format!(
                        "{{{}}}",
                        m.iter().map(|(k, v)| format!("\"{k}\": \"{v}\"")).collect::<Vec<_>>().join(", ")
                    )),
                }
            }
            s
        }
        Cmd::Link { target, attrs } => format!("ADD LINK {} ATTRS{}", rref(target, res)?, pairs(attrs)),
        Cmd::Framing { id, meta, attrs } => {
            let mut s = format!("ADD ATTR_FRAMING id=\"{id}\"");
            for (k, v) in meta {
                s.push_str(&format!(" {k}=\"{v}\""));
            }
            s.push_str(" ATTRS");
            for (a, f) in attrs {
                let inner: Vec<String> = f
                    .iter()
                    .map(|(u, p, j)| format!("\"{u}\": {{\"predicate_id\": \"{p}\", \"framing_justification\": \"{j}\"}}"))
                    .collect();
                s.push_str(&format!(" {a}={{{}}}", inner.join(", ")));
            }
            s
        }
        Cmd::Raw(s) => s.clone(),
    })
}

pub fn render(d: &Doc, res: &dyn Resolve) -> Option<String> {
    let mut s = String::new();
    if let Some(n) = &d.name {
        s.push_str(&format!("-- name={n}\n"));
    }
    if d.style & 1 != 0 {
        s.push_str("# a comment\n\n");
    }
    if let Some(b) = &d.base {
        s.push_str(&format!("FROM {}\n", res.said(b)?));
    }
    if let Some(b) = &d.alien_base {
        s.push_str(&format!("FROM {b}\n"));
    }
    for c in &d.cmds {
        let mut l = render_cmd(c, res)?;
        if d.style & 8 != 0 && !matches!(c, Cmd::Raw(_)) {
            // The same in another spelling.
            for k in [" ATTRS", " PROPS", "ATTRIBUTE"] {
                if let Some(i) = l.find(k) {
                    let low = k.to_lowercase();
                    l.replace_range(i..i + k.len(), &low);
                    break;
                }
            }
        }
        if d.style & 16 != 0 && !matches!(c, Cmd::Raw(_) | Cmd::Entry { .. } | Cmd::EntryCode { .. } | Cmd::Framing { .. }) {
            for k in [" ATTRS ", " attrs ", " PROPS ", " props "] {
                if let Some(i) = l.find(k) {
                    l.insert_str(i + k.len(), "\\\n    ");
                    break;
                }
            }
        }
        if d.style & 32 != 0 && !l.contains('\'') && matches!(c, Cmd::Meta { .. } | Cmd::Label { .. } | Cmd::Info { .. }) {
            l = l.replace('"', "'");
        }
        if d.style & 2 != 0 && !matches!(c, Cmd::Raw(_)) {
            for k in ["ADD ", "REMOVE "] {
                if l.starts_with(k) {
                    l = format!("{}{}", k.to_lowercase(), &l[k.len()..]);
                }
            }
        }
        s.push_str(&l);
        s.push('\n');
        if d.style & 4 != 0 {
            s.push('\n');
        }
    }
    Some(s)
}
