//! Bundle documents handed around as files: written out, read back through a source that
//! misbehaves, or damaged on the way (C17).
use crate::exec::*;
use crate::views::sai;
use oca_bundle_semantics::controller::load_oca;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_bundle_semantics::state::validator::Validator;
use oca_rs::facade::bundle::{Bundle, BundleElement};
use simcore::rng::{derive, Rng};
use simcore::with_world;
use std::collections::BTreeSet;
use std::io::{Error, ErrorKind, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A source of bytes that delivers them as it pleases.
pub struct Feed<'a> {
    data: &'a [u8],
    at: usize,
    piece: usize,
    /// Percent of reads interrupted by a signal.
    interrupts: u64,
    pub fail: Option<(usize, ErrorKind)>,
    r: Rng,
}

impl Read for Feed<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.r.chance(self.interrupts, 100) {
            count("source_interrupted");
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = buf.len().min(self.data.len() - self.at).min(self.r.range(1, self.piece));
        if let Some((at, k)) = self.fail {
            if self.at >= at {
                count("source_error");
                return Err(Error::from(k));
            }
            n = n.min(at - self.at);
        }
        if n < buf.len().min(self.data.len() - self.at) {
            count("source_short_read");
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

pub fn count(what: &str) {
    with_world(|w| *w.fired.entry(what.into()).or_insert(0) += 1);
}

pub fn feed<'a>(r: &mut Rng, data: &'a [u8]) -> Feed<'a> {
    Feed {
        data,
        at: 0,
        piece: *r.pick(&[1, 2, 7, 64, 4096, 1 << 20]),
        interrupts: *r.pick(&[0, 0, 3, 30]),
        fail: None,
        r: Rng::new(r.next()),
    }
}

/// What a bad line makes of a text.
pub fn garble(r: &mut Rng, text: &str) -> String {
    let mut c: Vec<char> = text.chars().collect();
    if c.is_empty() {
        return String::new();
    }
    let lines: Vec<&str> = text.lines().collect();
    let i = r.below(c.len() as u64) as usize;
    match r.below(10) {
        0 => c.truncate(i),
        1 => {
            c.remove(i);
        }
        2 => {
            let mut l = lines.clone();
            l.remove(r.below(lines.len() as u64) as usize);
            return l.join("\n");
        }
        3 => {
            let mut l = lines.clone();
            let k = r.below(lines.len() as u64) as usize;
            l.insert(k, lines[k]);
            return l.join("\n");
        }
        4 => {
            let mut l = lines.clone();
            r.shuffle(&mut l);
            return l.join("\n");
        }
        5 => c[i] = *r.pick(&['"', ' ', '\n', '=', '[', '{', '#', '\\', '\u{fffd}', '\0', 'é']),
        6 => {
            // A burst of noise.
            let n = r.range(1, 80);
            let noise: Vec<char> = (0..n).map(|_| *r.pick(&['é', '\u{fffd}', '日', '🎉', '\u{301}', 'ß', '~'])).collect();
            let end = if r.chance(1, 2) { i } else { (i + n).min(c.len()) };
            c.splice(i..end, noise);
        }
        7 => {
            // Quotes and brackets.
            let q: Vec<usize> = (0..c.len()).filter(|i| matches!(c[*i], '"' | '{' | '}' | '[' | ']' | '=' | ':' | '\n')).collect();
            if !q.is_empty() {
                let i = *r.pick(&q);
                if r.chance(1, 2) {
                    c.remove(i);
                } else {
                    c.insert(i, c[i]);
                }
            }
        }
        _ => {
            for _ in 0..r.range(1, 4) {
                let i = r.below(c.len() as u64) as usize;
                if c[i].is_ascii_alphanumeric() {
                    c[i] = *r.pick(&['a', 'Z', '0', '9', 'e', 'T']);
                }
            }
        }
    }
    c.into_iter().collect()
}

/// What is left of the document after a mishap of the medium, and its name.
fn damage(r: &mut Rng, doc: &str, others: &[String]) -> (Vec<u8>, &'static str) {
    let mut b = doc.as_bytes().to_vec();
    let n = b.len();
    match r.below(10) {
        0 => {
            let i = r.below(n as u64) as usize;
            b[i] ^= 1 << r.below(8);
            (b, "bit_flip_at_rest")
        }
        1..=3 => {
            // Another letter or digit in its place: most often still JSON.
            for _ in 0..*r.pick(&[1, 1, 1, 2, 5]) {
                for _ in 0..50 {
                    let i = r.below(n as u64) as usize;
                    if b[i].is_ascii_alphanumeric() {
                        let c = *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789");
                        b[i] = c;
                        break;
                    }
                }
            }
            (b, "letter_changed_at_rest")
        }
        4 => {
            let size = *r.pick(&[1usize, 8, 64, 512]);
            let i = r.below(n as u64) as usize;
            let end = (i + size).min(n);
            b[i..end].fill(0);
            (b, "sector_zeroed")
        }
        5 => {
            let i = r.below(n as u64) as usize;
            let end = (i + r.range(1, 200)).min(n);
            b.drain(i..end);
            (b, "piece_lost")
        }
        _ => {
            // A part of the document in its state in another version, or none at all.
            let Ok(mut v) = serde_json::from_str::<serde_json::Value>(doc) else { return (b, "none") };
            let other: Option<serde_json::Value> =
                if others.is_empty() { None } else { serde_json::from_str(r.pick(others).as_str()).ok() };
            let name = match (r.below(6), other) {
                (0, Some(o)) => {
                    v["capture_base"] = o["capture_base"].clone();
                    "stale_capture_base"
                }
                (1, Some(o)) => {
                    v["overlays"] = o["overlays"].clone();
                    "stale_overlays"
                }
                (2, Some(o)) => {
                    v["d"] = o["d"].clone();
                    "stale_said"
                }
                (3 | 4, Some(o)) => {
                    let keys: Vec<String> = o["overlays"].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
                    if !keys.is_empty() {
                        let k = r.pick(&keys).clone();
                        v["overlays"][&k] = o["overlays"][&k].clone();
                    }
                    "stale_overlay"
                }
                _ => {
                    if let Some(m) = v["overlays"].as_object_mut() {
                        let keys: Vec<String> = m.keys().cloned().collect();
                        if !keys.is_empty() {
                            let k = r.pick(&keys).clone();
                            match m.get_mut(&k) {
                                Some(serde_json::Value::Array(a)) if a.len() > 1 || r.chance(1, 2) => {
                                    let i = r.below(a.len() as u64) as usize;
                                    a.remove(i);
                                }
                                _ => {
                                    m.remove(&k);
                                }
                            }
                        }
                    }
                    "overlay_lost"
                }
            };
            (serde_json::to_vec(&v).unwrap_or_default(), name)
        }
    }
}

/// Another value for one of the texts of a part of a document.
fn alter(r: &mut Rng, part: &mut serde_json::Value) -> bool {
    fn leaves<'a>(v: &'a mut serde_json::Value, key: &str, out: &mut Vec<&'a mut String>) {
        match v {
            serde_json::Value::String(s) => {
                if !matches!(key, "d" | "digest" | "said" | "capture_base" | "type") {
                    out.push(s);
                }
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(|x| leaves(x, key, out)),
            serde_json::Value::Object(m) => m.iter_mut().for_each(|(k, x)| leaves(x, k, out)),
            _ => {}
        }
    }
    let mut all = vec![];
    leaves(part, "", &mut all);
    if all.is_empty() {
        return false;
    }
    let i = r.below(all.len() as u64) as usize;
    let s = &mut *all[i];
    let new = match s.as_str() {
        "Text" | "Numeric" | "Boolean" | "Binary" | "DateTime" => {
            r.pick(&["Text", "Numeric", "Boolean", "Binary", "DateTime"]).to_string()
        }
        x if x.len() == 2 && r.chance(1, 2) => r.pick(&["en", "pl", "fr", "de"]).to_string(),
        x => match r.below(3) {
            0 => format!("{x}e"),
            1 => format!("{}{x}", r.pick(&["q", "Z", "7"])),
            _ => x.to_uppercase(),
        },
    };
    let other = *s != new;
    *s = new;
    other
}

/// A document whose names were computed anew after a part of it had changed, but not
/// that of the part itself, or not the reference to it.
fn resigned(r: &mut Rng, doc: &str) -> Option<(OCABundle, &'static str)> {
    let mut v = serde_json::from_str::<serde_json::Value>(doc).ok()?;
    let read = |v: &serde_json::Value| load_oca(&mut serde_json::to_vec(v).unwrap_or_default().as_slice()).ok();
    let how = r.below(4);
    let (mut b, name) = match how {
        0 | 1 => {
            let m = v["overlays"].as_object_mut()?;
            let keys: Vec<String> = m.keys().cloned().collect();
            if keys.is_empty() {
                return None;
            }
            let o = m.get_mut(r.pick(&keys).as_str())?;
            let part = match o {
                serde_json::Value::Array(a) if !a.is_empty() => {
                    let i = r.below(a.len() as u64) as usize;
                    &mut a[i]
                }
                x => x,
            };
            if !alter(r, part) {
                return None;
            }
            (read(&v)?, "overlay_changed_under_its_name")
        }
        2 => {
            if !alter(r, &mut v["capture_base"]) {
                return None;
            }
            let mut b = read(&v)?;
            if r.chance(1, 2) {
                if b.overlays.is_empty() {
                    return None;
                }
                b.capture_base.fill_said();
                (b, "overlays_of_another_capture_base")
            } else {
                (b, "capture_base_changed_under_its_name")
            }
        }
        _ => {
            let mut b = read(&v)?;
            if b.overlays.is_empty() {
                return None;
            }
            let i = r.below(b.overlays.len() as u64) as usize;
            let other = sai("EC694D_WMDtVIRvBXgj3mzBIMSiBrVb4_-TM7s9GpKhq")?;
            b.overlays[i].set_capture_base(&other);
            b.overlays[i].fill_said();
            (b, "overlay_of_another_capture_base")
        }
    };
    b.fill_said();
    Some((b, name))
}

fn valid(b: &OCABundle) -> Result<(), String> {
    Validator::new().validate(b).map_err(|e| e.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; "))
}

/// What the validator says to a bundle when translations into certain languages are demanded.
fn translated(b: &OCABundle, langs: &[isolang::Language]) -> Result<(), Vec<String>> {
    Validator::new()
        .enforce_translations(langs.to_vec())
        .validate(b)
        .map_err(|e| e.iter().map(|e| e.to_string()).collect())
}

/// The languages, and the texts in a language, that a document lacks or has too many of.
fn untranslated(v: &serde_json::Value, langs: &BTreeSet<String>) -> Vec<(String, Option<String>)> {
    let mut out = vec![];
    for (kind, inner) in
        [("meta", None), ("entry", Some("attribute_entries")), ("information", Some("attribute_information")), ("label", Some("attribute_labels"))]
    {
        let Some(all) = v["overlays"][kind].as_array() else { continue };
        let texts: Vec<(String, BTreeSet<String>)> = all
            .iter()
            .map(|o| {
                let names = match inner {
                    Some(k) => o[k].as_object(),
                    None => o.as_object(),
                };
                let names = names.into_iter().flat_map(|m| m.keys().cloned());
                let own = |k: &String| inner.is_none() && matches!(k.as_str(), "d" | "type" | "capture_base" | "language");
                (language_name(&o["language"]), names.filter(|k| !own(k)).collect())
            })
            .collect();
        if texts.is_empty() {
            continue;
        }
        let present: BTreeSet<String> = texts.iter().map(|t| t.0.clone()).collect();
        out.extend(present.symmetric_difference(langs).map(|l| (l.clone(), None)));
        let names: BTreeSet<String> = texts.iter().flat_map(|t| t.1.clone()).collect();
        for (l, t) in &texts {
            out.extend(names.difference(t).map(|n| (l.clone(), Some(n.clone()))));
        }
    }
    out
}

fn language(v: &serde_json::Value) -> Option<isolang::Language> {
    let l = v.as_str()?;
    isolang::Language::from_639_1(l).or(isolang::Language::from_639_3(l))
}

fn language_name(v: &serde_json::Value) -> String {
    language(v).map(|l| format!("{l:?}")).unwrap_or_default()
}

impl Env {
    /// Translations demanded of a document: what it lacks is told, neither more nor less.
    fn translations(&mut self, r: &mut Rng, said: &str, b: &OCABundle, json: &str) {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(json) else { return };
        let mut has: Vec<isolang::Language> = vec![];
        for kind in ["meta", "entry", "information", "label"] {
            has.extend(v["overlays"][kind].as_array().into_iter().flatten().filter_map(|o| language(&o["language"])));
        }
        for _ in 0..3 {
            let mut langs: Vec<isolang::Language> = vec![];
            let few = r.chance(1, 2);
            langs.extend(has.iter().filter(|_| !few || r.chance(1, 2)));
            if r.chance(1, 3) {
                langs.push(*r.pick(&[isolang::Language::Pol, isolang::Language::Eng, isolang::Language::Zho, isolang::Language::Deu]));
            }
            r.shuffle(&mut langs);
            let Some(got) = self.ask("validation", said, || translated(b, &langs)) else { return };
            let names: BTreeSet<String> = langs.iter().map(|l| format!("{l:?}")).collect();
            let want = if langs.is_empty() { vec![] } else { untranslated(&v, &names) };
            let got = got.err().unwrap_or_default();
            let unsaid = want.iter().find(|(l, n)| !got.iter().any(|e| e.contains(l) && n.as_ref().is_none_or(|n| e.contains(n))));
            if let Some((l, n)) = unsaid {
                let t = format!("{names:?} demanded: {l} {n:?} is not among {got:?}");
                self.find(&["C17"], true, "missing-translation-accepted", said, t);
                return;
            }
            if got.len() != want.len() {
                let t = format!("{names:?} demanded, {want:?} should be told, {got:?} is");
                self.find(&["C17"], true, "translations-differ", said, t);
                return;
            }
        }
    }

    fn ask<R>(&mut self, what: &str, said: &str, f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(p) => {
                self.find(&["C17"], true, &format!("{what}-panics"), said, panic_text(p));
                None
            }
        }
    }

    /// A stored bundle as a document that leaves the store and comes back.
    pub fn view_document(&mut self, at: At, said: &str) {
        let Some(id) = sai(said) else { return };
        let c = self.call(at, |f| f.get_oca_bundle(id, false).map(|b| b.bundle).map_err(|e| e.join("; ")));
        let Ok(Ok(bundle)) = c.res else { return };
        let json = encode(&bundle);
        let mut r = Rng::new(derive(self.spec.env_seed, said));
        let others: Vec<String> =
            self.m.known.iter().filter(|(s, _)| *s != said).map(|(_, b)| b.json.clone()).take(40).collect();

        // Intact, however it is delivered.
        for _ in 0..2 {
            let mut f = feed(&mut r, json.as_bytes());
            let got = self.ask("load", said, || load_oca(&mut f).map_err(|e| e.to_string()));
            let Some(got) = got else { return };
            let b = match got {
                Ok(b) => b,
                Err(e) => {
                    self.find(&["C17"], true, "document-refused", said, e);
                    return;
                }
            };
            let s = b.said.as_ref().map(|s| s.to_string());
            let again = encode(&b);
            if s.as_deref() != Some(said) || again != json {
                let d = diff("read back", &json, &again);
                self.find(&["C17"], true, "document-differs", said, d);
                return;
            }
            let Some(v) = self.ask("validation", said, || valid(&b)) else { return };
            match v {
                // Whether a condition can be evaluated is another matter.
                Err(e) if !json.contains("\"conditional\":") || e.contains("SAI") => {
                    self.find(&["C17"], true, "intact-invalid", said, e);
                    return;
                }
                Err(_) => {}
                Ok(()) => self.translations(&mut r, said, &b, &json),
            }
        }

        // A source that fails or ends before its time.
        for k in 0..4 {
            let cut = r.below(json.len() as u64) as usize;
            let mut f = feed(&mut r, if k < 2 { &json.as_bytes()[..cut] } else { json.as_bytes() });
            if k >= 2 {
                let kind = *r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::TimedOut, ErrorKind::WouldBlock]);
                f.fail = Some((cut, kind));
            } else {
                count("source_truncated");
            }
            let got = self.ask("load", said, || load_oca(&mut f).map(|b| encode(&b)).map_err(|e| e.to_string()));
            if let Some(Ok(j)) = got {
                let t = format!("a bundle from {cut} of {} bytes: {}", json.len(), short(&j));
                self.find(&["C17"], true, "part-accepted", said, t);
                return;
            }
        }

        // A document written over a longer one whose rest is still there.
        for _ in 0..2 {
            let old = if others.is_empty() { &json } else { r.pick(&others) };
            let from = r.below(old.len() as u64) as usize;
            let rest = &old.as_bytes()[from..];
            let mut bytes = json.clone().into_bytes();
            bytes.extend_from_slice(rest);
            count("stale_rest");
            let mut f = feed(&mut r, &bytes);
            let Some(got) = self.ask("load", said, || load_oca(&mut f).is_ok()) else { return };
            if got {
                let t = format!("a bundle from {} bytes with {} bytes of another document after it", json.len(), rest.len());
                self.find(&["C17"], true, "part-accepted", said, t);
                return;
            }
        }

        // Damaged documents.
        let trials = if json.len() > 20_000 { 4 } else { 14 };
        for _ in 0..trials {
            let (bytes, what) = damage(&mut r, &json, &others);
            if bytes == json.as_bytes() {
                continue;
            }
            count(what);
            let mut f = feed(&mut r, &bytes);
            let Some(got) = self.ask("load", said, || load_oca(&mut f).map_err(|e| e.to_string())) else { return };
            let Ok(b) = got else { continue };
            let text = String::from_utf8_lossy(&bytes).into_owned();
            let same = |b: &OCABundle| encode(b) == json && b.said.as_ref().map(|s| s.to_string()).as_deref() == Some(said);
            let Some(v) = self.ask("validation", said, || valid(&b)) else {
                let d = diff(what, &json, &text);
                self.findings.last_mut().unwrap().detail.push_str(&d);
                return;
            };
            let langs = [isolang::Language::Eng, isolang::Language::Pol];
            let Some(t) = self.ask("validation", said, || translated(&b, &langs)) else { return };
            if t.is_ok() && v.is_err() {
                let d = diff(what, &json, &text);
                self.find(&["C17"], true, "damage-accepted-with-translations", said, d);
                return;
            }
            if v.is_ok() && !same(&b) {
                // Some other bundle, whole, is no damage: one that hashes to its own name.
                let j = encode(&b);
                if self.m.known.get(&b.said.as_ref().map(|s| s.to_string()).unwrap_or_default()).is_some_and(|m| m.json == j) {
                    continue;
                }
                let d = diff(what, &json, &text);
                self.find(&["C17"], true, "damage-accepted", said, d);
                return;
            }
        }

        // Documents changed by a writer that names only some of the parts anew.
        for _ in 0..trials / 2 {
            let Some(x) = self.ask("resigning", said, || resigned(&mut r, &json)) else { return };
            let Some((b, what)) = x else { continue };
            let text = encode(&b);
            if text == json {
                continue;
            }
            count(what);
            let mut f = feed(&mut r, text.as_bytes());
            let Some(got) = self.ask("load", said, || load_oca(&mut f).map_err(|e| e.to_string())) else { return };
            let Ok(b) = got else { continue };
            let Some(v) = self.ask("validation", said, || valid(&b)) else { return };
            if v.is_ok() {
                let d = diff(what, &json, &text);
                self.find(&["C17"], true, "forged-accepted", said, d);
                return;
            }
        }

        // The same bundle with transformations of it.
        let mut whole = Bundle::new();
        whole.add(BundleElement::Structural(bundle));
        let n = r.below(3);
        for i in 0..n {
            let names: Vec<String> = (0..r.range(1, 5)).map(|k| format!("attr{k}={}{k}", *r.pick(&["x", "y"]))).collect();
            let text = format!(
                "-- precompiler=transformation\n-- source=refs:{said}\n-- target=refs:{said}\nRENAME ATTRIBUTE {}\nLINK ATTRIBUTE a{i} -> b\n",
                names.join(" ")
            );
            let t = self.ask("transformation", said, || match oca_file::ocafile::parse_from_string(text) {
                Ok(oca_file::ocafile::OCAAst::TransformationAst(t)) => transformation_file::build::from_ast(&t).ok(),
                _ => None,
            });
            match t {
                Some(Some(t)) => whole.add(BundleElement::Transformation(t)),
                Some(None) => self.find(&["C17"], true, "transformation-refused", said, String::new()),
                None => return,
            }
        }
        let Some(Ok(text)) = self.ask("encode", said, || whole.encode()) else { return };
        let mut f = feed(&mut r, text.as_bytes());
        let got = self.ask("load", said, || {
            oca_rs::facade::bundle::load_oca(&mut f).and_then(|b| Ok(b.encode()?)).map_err(|e| e.to_string())
        });
        match got {
            Some(Ok(t)) if t == text => {}
            Some(Ok(t)) => {
                let d = diff("read back", &text, &t);
                self.find(&["C17"], true, "document-differs", said, d);
            }
            Some(Err(e)) => self.find(&["C17"], true, "document-refused", said, e),
            None => return,
        }
        let cut = r.below(text.len() as u64) as usize;
        let mut f = feed(&mut r, text.as_bytes());
        f.fail = Some((cut, ErrorKind::Other));
        let got = self.ask("load", said, || oca_rs::facade::bundle::load_oca(&mut f).is_ok());
        if got == Some(true) {
            self.find(&["C17"], true, "part-accepted", said, format!("a bundle from {cut} of {} bytes", text.len()));
            return;
        }
        let from = r.below(json.len() as u64) as usize;
        let bytes = [text.as_bytes(), &json.as_bytes()[from..]].concat();
        count("stale_rest");
        let mut f = feed(&mut r, &bytes);
        if self.ask("load", said, || oca_rs::facade::bundle::load_oca(&mut f).is_ok()) == Some(true) {
            let t = format!("a bundle from {} bytes with {} bytes of another document after it", text.len(), bytes.len() - text.len());
            self.find(&["C17"], true, "part-accepted", said, t);
        }
    }
}
