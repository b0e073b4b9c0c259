//! Transformation files (C18): text to AST to transformation to document and back, in
//! executions with different hash seeds, against a reference that shares no code.
use crate::exec::*;
use crate::load::{count, feed};
use crate::model::{esc, said_of};
use crate::run::RunResult;
use crate::spec::*;
use oca_file::ocafile::{parse_from_string, OCAAst};
use oca_rs::facade::bundle::{load_oca, Bundle, BundleElement};
use oca_rs::facade::{Encode, HashFunctionCode, SerializationFormats};
use simcore::rng::{derive, Rng};
use simcore::with_world;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use transformation_file::state::Transformation;

const DUMMY: &str = "############################################";

pub fn render(f: &TFile) -> String {
    let st = f.style;
    let bit = |n: u32| st >> n & 1 == 1;
    let nl = if bit(0) { "\r\n" } else { "\n" };
    let mut t = String::new();
    if bit(1) {
        t.push_str(&format!("# a comment{nl}{nl}"));
    }
    for (i, l) in f.lines.iter().enumerate() {
        let kw = |s: &str| if bit(2) { s.to_lowercase() } else { s.to_string() };
        // Between arguments: a blank, several, or a line continued.
        let gap = if bit(3) && i % 2 == 0 {
            format!(" \\{nl}  ")
        } else if bit(4) {
            "  \t".to_string()
        } else {
            " ".to_string()
        };
        if bit(5) && i % 3 == 1 {
            t.push_str(&format!("{nl}  # comment {i}{nl}"));
        }
        match l {
            TLine::Meta(k, v) => {
                let eq = if bit(6) { " = " } else { "=" };
                t.push_str(&format!("-- {k}{eq}{v}"));
            }
            TLine::Rename(p) => {
                let eq = if bit(7) { " = " } else { "=" };
                t.push_str(&kw("RENAME ATTRIBUTE"));
                for (a, b) in p {
                    t.push_str(&format!("{gap}{a}{eq}{b}"));
                }
            }
            TLine::Link(p) => {
                t.push_str(&kw("LINK ATTRIBUTE"));
                for (a, b) in p {
                    t.push_str(&format!("{gap}{a} -> {b}"));
                }
            }
            TLine::Raw(s) => t.push_str(s),
        }
        t.push_str(nl);
    }
    if bit(8) {
        t.truncate(t.len() - nl.len());
    }
    t
}

/// What the file describes, as the document of the transformation.
pub fn expected(f: &TFile) -> (String, String) {
    let mut meta = std::collections::BTreeMap::new();
    let mut attrs: Vec<(String, String)> = vec![];
    for l in &f.lines {
        match l {
            TLine::Meta(k, v) => {
                meta.insert(k.clone(), v.clone());
            }
            TLine::Rename(p) | TLine::Link(p) => {
                for (a, b) in p {
                    match attrs.iter_mut().find(|x| x.0 == *a) {
                        Some(x) => x.1 = b.clone(),
                        None => attrs.push((a.clone(), b.clone())),
                    }
                }
            }
            TLine::Raw(_) => {}
        }
    }
    let side = |k: &str| meta.get(k).map(|v| esc(v.strip_prefix("refs:").unwrap_or(v))).unwrap_or("null".into());
    let a: Vec<String> = attrs.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect();
    let text = |v: &str, d: &str| {
        format!(
            "{{\"v\":{},\"d\":{},\"source\":{},\"target\":{},\"attributes\":{{{}}}}}",
            esc(v),
            esc(d),
            side("source"),
            side("target"),
            a.join(",")
        )
    };
    let v = format!("OCAT10JSON{:06x}_", text("OCAT10JSON000000_", DUMMY).len());
    let said = said_of(&text(&v, DUMMY));
    let doc = text(&v, &said);
    (said, doc)
}

fn encode_t(t: &Transformation) -> String {
    match t.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON) {
        Ok(v) => String::from_utf8_lossy(&v).into_owned(),
        Err(e) => format!("unencodable: {e}"),
    }
}

struct T {
    out: RunResult,
    say: bool,
    r: Rng,
}

impl T {
    fn find(&mut self, kind: &str, subject: &str, detail: String) {
        let f =
            Finding { props: vec!["C18".into()], kind: kind.into(), subject: subject.into(), detail: short(&detail), known: None };
        if self.say {
            with_world(|w| w.log.push(format!("  ** {} {}: {}", f.kind, f.subject, f.detail)));
        }
        self.out.findings.push(f);
    }
    fn build(&mut self, text: &str, subject: &str) -> Option<Result<Transformation, String>> {
        let text = text.to_string();
        let r = catch_unwind(AssertUnwindSafe(|| match parse_from_string(text) {
            Ok(OCAAst::TransformationAst(ast)) => {
                let again: Result<oca_ast_transformation::ast::TransformationAST, _> =
                    serde_json::to_string(&ast).and_then(|j| serde_json::from_str(&j));
                let lossy = match again {
                    Ok(a) if a == ast => None,
                    Ok(a) => Some(format!("{ast:?} comes back as {a:?}")),
                    Err(e) => Some(format!("{ast:?} does not come back: {e}")),
                };
                let t = transformation_file::build::from_ast(&ast)
                    .map_err(|e| e.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; "));
                (t, lossy)
            }
            Ok(OCAAst::SemanticsAst(_)) => (Err("taken for a semantics file".to_string()), None),
            Err(e) => (Err(e.to_string()), None),
        }));
        match r {
            Ok((t, lossy)) => {
                if let Some(l) = lossy {
                    self.find("ast-lossy", subject, l);
                }
                Some(t)
            }
            Err(p) => {
                self.find("transformation-panics", subject, panic_text(p));
                None
            }
        }
    }
    fn file(&mut self, i: usize, f: &TFile, built: &mut Vec<(Transformation, String)>) {
        let subject = format!("op {i}");
        let text = render(f);
        if self.say {
            with_world(|w| w.log.push(format!("op {i}: {}", short(&text))));
        }
        let Some(r) = self.build(&text, &subject) else { return };
        for _ in 0..self.r.range(2, 10) {
            // Damaged on the way here: refused, or a transformation with a SAID of its own.
            let bad = crate::load::garble(&mut self.r, &text);
            count("text_garbled");
            let Some(r) = self.build(&bad, &subject) else { return };
            let Ok(t) = r else { continue };
            let doc = encode_t(&t);
            let said = t.said.as_ref().map(|s| s.to_string()).unwrap_or_default();
            if said.is_empty() || said_of(&doc.replacen(&said, DUMMY, 1)) != said {
                return self.find("transformation-said", &subject, format!("{said} is not the SAID of {doc}"));
            }
        }
        if let Some(why) = &f.refused {
            self.out.rejected += 1;
            if let Ok(t) = r {
                let j = encode_t(&t);
                self.find("transformation-accepted", why, format!("{text} makes {j}"));
            }
            return;
        }
        let t = match r {
            Ok(t) => t,
            Err(e) => return self.find("transformation-refused", &subject, format!("{e}: {text}")),
        };
        self.out.acks += 1;
        let (said, doc) = expected(f);
        let got = encode_t(&t);
        if t.said.as_ref().map(|s| s.to_string()).as_deref() != Some(&said) || got != doc {
            let d = diff("the transformation", &doc, &got);
            return self.find("transformation-content", &subject, format!("{:?}: {d}", t.said.as_ref().map(|s| s.to_string())));
        }
        // Once more: every map has another seed now.
        if let Some(Ok(u)) = self.build(&text, &subject) {
            if encode_t(&u) != got {
                return self.find("transformation-differs", &subject, diff("built again", &got, &encode_t(&u)));
            }
        }
        self.out.obs.insert(format!("t{i}"), got);
        built.push((t, doc));
    }
    /// A bundle with transformations leaves as a document and comes back.
    fn mount(&mut self, i: usize, ts: &[usize], built: &[(Transformation, String)]) {
        let subject = format!("op {i}");
        let s = oca_rs::facade::build::build_from_ocafile(format!("ADD ATTRIBUTE a{i}=Text b=Numeric\nADD META en PROPS name=\"n{i}\"\n"));
        let s = match s {
            Ok(s) => s,
            Err(e) => return self.find("structural-refused", &subject, format!("{e:?}")),
        };
        let inner = encode(&s);
        let mut whole = Bundle::new();
        let mut docs = vec![];
        for (k, n) in ts.iter().enumerate() {
            if k == ts.len() / 2 {
                whole.add(BundleElement::Structural(s.clone()));
            }
            if built.is_empty() {
                continue;
            }
            let (t, d) = &built[n % built.len()];
            whole.add(BundleElement::Transformation(t.clone()));
            docs.push(d.clone());
        }
        if ts.is_empty() {
            whole.add(BundleElement::Structural(s.clone()));
        }
        let text = match catch_unwind(AssertUnwindSafe(|| whole.encode())) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => return self.find("bundle-unencodable", &subject, e.to_string()),
            Err(p) => return self.find("transformation-panics", &subject, panic_text(p)),
        };
        self.out.acks += 1;
        let doc = |v: &str, d: &str| format!("{{\"v\":{},\"d\":{},\"m\":{inner},\"t\":[{}]}}", esc(v), esc(d), docs.join(","));
        let v = format!("OCAB00JSON{:06x}_", doc("OCAB00JSON000000_", DUMMY).len());
        let want = doc(&v, &said_of(&doc(&v, DUMMY)));
        if text != want {
            let d = diff("the bundle with its transformations", &want, &text);
            return self.find("bundle-content", &subject, d);
        }
        self.out.obs.insert(format!("b{i}"), text.clone());
        let mut r = Rng::new(self.r.next());
        for _ in 0..3 {
            let mut f = feed(&mut r, text.as_bytes());
            match catch_unwind(AssertUnwindSafe(|| load_oca(&mut f).map_err(|e| e.to_string()))) {
                Ok(Ok(b)) => {
                    let again = b.encode().unwrap_or_default();
                    if again != text {
                        return self.find("document-differs", &subject, diff("read back", &text, &again));
                    }
                    let each: Vec<String> = b.transformations.iter().map(encode_t).collect();
                    let saids: Vec<String> =
                        b.transformations.iter().map(|t| t.said.as_ref().map(|s| s.to_string()).unwrap_or_default()).collect();
                    if each != docs || docs.iter().zip(&saids).any(|(d, s)| !d.contains(&format!("\"d\":\"{s}\""))) {
                        return self.find("document-differs", &subject, format!("{docs:?} comes back as {each:?} {saids:?}"));
                    }
                }
                Ok(Err(e)) => return self.find("document-refused", &subject, format!("{e}: {text}")),
                Err(p) => return self.find("transformation-panics", &subject, panic_text(p)),
            }
            let cut = r.below(text.len() as u64) as usize;
            let kind = *r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::TimedOut]);
            let mut f = if r.chance(1, 2) {
                count("source_truncated");
                feed(&mut r, &text.as_bytes()[..cut])
            } else {
                let mut f = feed(&mut r, text.as_bytes());
                f.fail = Some((cut, kind));
                f
            };
            match catch_unwind(AssertUnwindSafe(|| load_oca(&mut f).is_ok())) {
                Ok(false) => self.out.errors += 1,
                Ok(true) => {
                    return self.find("part-accepted", &subject, format!("a bundle from {cut} of {} bytes", text.len()))
                }
                Err(p) => return self.find("transformation-panics", &subject, panic_text(p)),
            }
            let bytes = [text.as_bytes(), &text.as_bytes()[cut..]].concat();
            count("stale_rest");
            let mut f = feed(&mut r, &bytes);
            match catch_unwind(AssertUnwindSafe(|| load_oca(&mut f).is_ok())) {
                Ok(false) => self.out.errors += 1,
                Ok(true) if cut == text.len() => {}
                Ok(true) => {
                    let t = format!("a bundle from {} bytes with {} bytes of another after it", text.len(), text.len() - cut);
                    return self.find("part-accepted", &subject, t);
                }
                Err(p) => return self.find("transformation-panics", &subject, panic_text(p)),
            }
        }
    }
}

pub fn run(spec: &RunSpec, ops: &[TransOp], say: bool) -> RunResult {
    let mut t = T { out: RunResult::default(), say, r: Rng::new(derive(spec.env_seed, "trans")) };
    let mut built = vec![];
    for (i, op) in ops.iter().enumerate() {
        match op {
            TransOp::File(f) => t.file(i, f, &mut built),
            TransOp::Mount(ts) => t.mount(i, ts, &built),
            TransOp::Noop => {}
        }
        if !t.out.findings.is_empty() {
            break;
        }
        with_world(|w| w.log.push(format!("op {i} done")));
    }
    for (k, v) in &t.out.obs {
        with_world(|w| { w.mix(k); w.mix(v) });
    }
    t.out
}

/// Files of transformations, some of which say too little.
pub fn plan(r: &mut Rng) -> Plan {
    let names = ["a", "b", "first_name", "last-name", "x1", "Größe", "A", "0", "_", "name"];
    let names: Vec<&str> = names.into_iter().filter(|n| n.is_ascii()).collect();
    let said = |r: &mut Rng| {
        let t = said_of(&r.next().to_string());
        if r.chance(3, 4) {
            format!("refs:{t}")
        } else {
            t
        }
    };
    let mut ops = vec![];
    let mut old: Vec<TFile> = vec![];
    for _ in 0..r.range(1, 8) {
        if r.chance(35, 100) {
            let n = *r.pick(&[0usize, 1, 1, 2, 3, 9, 40]);
            ops.push(TransOp::Mount((0..n).map(|_| r.below(20) as usize).collect()));
            continue;
        }
        if !old.is_empty() && r.chance(1, 5) {
            // Another writing of the same file.
            let mut f = r.pick(&old).clone();
            f.style = r.next() as u32;
            if f.refused.is_none() {
                ops.push(TransOp::File(f));
                continue;
            }
        }
        let wide = r.chance(1, 6);
        let name = |r: &mut Rng| {
            if wide {
                format!("attr_{}", r.below(200))
            } else {
                r.pick(&names).to_string()
            }
        };
        let mut lines = vec![];
        let many = !wide && r.chance(1, 8);
        for _ in 0..if many { r.range(10, 80) } else { r.range(0, 5) } {
            let n = if wide { r.range(20, 120) } else { r.range(1, 5) };
            let p: Pairs = (0..n).map(|_| (name(r), name(r))).collect();
            lines.push(if r.chance(1, 2) { TLine::Rename(p) } else { TLine::Link(p) });
        }
        let mut metas = vec![("source", said(r)), ("target", said(r))];
        if r.chance(1, 6) {
            // The later one counts.
            metas.push((*r.pick(&["source", "target"]), said(r)));
        }
        if r.chance(1, 2) {
            metas.push(("version", "1.0.0".into()));
        }
        if r.chance(1, 2) {
            metas.push(("name", r.pick(&["Objekt", "\"a name\"", "n-1"]).to_string()));
        }
        let mut refused = None;
        match r.below(12) {
            0 => {
                metas.retain(|m| m.0 != "source");
                refused = Some("no source");
            }
            1 => {
                metas.retain(|m| m.0 != "target");
                refused = Some("no target");
            }
            2 => {
                metas.clear();
                refused = Some("no source and no target");
            }
            3 => {
                let (l, w) = *r.pick(&[
                    ("RENAME ATTRIBUTE a", "attribute without a new name"),
                    ("RENAME ATTRIBUTE", "no attribute"),
                    ("LINK ATTRIBUTE a=b", "link written as a renaming"),
                    ("RENAME ATTRIBUTE a -> b", "renaming written as a link"),
                    ("RENAME ATTRIBUTE =b", "new name without an attribute"),
                    ("LINK ATTRIBUTE a -> ", "link to nothing"),
                    ("ADD ATTRIBUTE a=Text", "command of another kind of file"),
                    ("FROM EAAA", "transformation from a bundle"),
                    ("RENAME a=b", "keyword missing"),
                    ("-- author=me", "unknown property"),
                    ("-- precompiler=other", "unknown precompiler"),
                ]);
                lines.insert(r.below(lines.len() as u64 + 1) as usize, TLine::Raw(l.into()));
                refused = Some(w);
            }
            _ => {}
        }
        metas.push(("precompiler", "transformation".into()));
        if refused == Some("unknown precompiler") {
            metas.pop();
        }
        // The order of properties and commands does not matter.
        let late = r.chance(1, 5);
        for (k, v) in metas {
            let source = k == "source" || k == "target";
            let at = if late && !source { r.below(lines.len() as u64 + 1) as usize } else { lines.iter().take_while(|l| matches!(l, TLine::Meta(..))).count() };
            lines.insert(at, TLine::Meta(k.into(), v));
        }
        let f = TFile { lines, style: if r.chance(1, 3) { 0 } else { r.next() as u32 }, refused: refused.map(String::from) };
        old.push(f.clone());
        ops.push(TransOp::File(f));
    }
    Plan::Trans(ops)
}
