//! C06 and C23: the exported JSON, read back.

use crate::engine::{hash, par_scalars, par_strings, seq_at, seq_total, Check, Cx};
use crate::hist::{self, Export, Hist};
use crate::json::{self, J};
use crate::{data, langs, node};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::Index;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------- C06

pub struct C06;

fn keys(j: &J, want: &[&str], what: &str) -> Result<(), String> {
    let got: BTreeSet<&str> = j.obj()?.iter().map(|e| e.0.as_str()).collect();
    if got != want.iter().copied().collect() {
        return Err(format!("{} has the keys {:?} instead of {:?}", what, got, want));
    }
    Ok(())
}

fn depth(j: &J) -> usize {
    match j {
        J::Obj(v) => 1 + v.iter().map(|e| depth(&e.1)).max().unwrap_or(0),
        J::Arr(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// serde_json stops at 128 levels.
const LEVELS: usize = 120;

fn debug_eq(a: &DocumentStore, b: &DocumentStore) -> bool {
    a.save == b.save && a.docs == b.docs && a.doc_info == b.doc_info && a.length == b.length
}

impl C06 {
    fn history(&self, cx: &Cx, h: &Hist) -> Result<(), String> {
        let ix = h.run();
        let compact = ix.to_json();
        let x = json::parse(&compact)?;
        let pretty = ix.to_json_pretty();
        if !json::parse(&pretty)?.same(&x) {
            return Err("the pretty form has other content than the compact one".into());
        }
        if serde_json::to_string(&ix).ok().as_deref() != Some(&compact) {
            return Err("serializing the index gives something else than to_json".into());
        }
        let x = Export { j: x };
        // Layout.
        keys(&x.j, &["fields", "pipeline", "ref", "version", "index", "documentStore", "lang"], "the export")?;
        let f: Result<Vec<&str>, String> = x.j.get("fields")?.arr()?.iter().map(|s| s.str()).collect();
        if f? != h.fields {
            return Err(format!("the fields are exported as {:?}", x.j.get("fields")));
        }
        if ix.get_fields() != h.fields {
            return Err(format!("the fields are {:?}", ix.get_fields()));
        }
        let (name, stages): (&str, &[&str]) = match h.lang.as_str() {
            "verbatim" => ("Verbatim", &[]),
            c => (langs::by_code(c).name, langs::by_code(c).stages),
        };
        let p: Result<Vec<&str>, String> = x.j.get("pipeline")?.arr()?.iter().map(|s| s.str()).collect();
        if p? != stages {
            return Err(format!("the pipeline is exported as {:?}", x.j.get("pipeline")));
        }
        if x.j.get("ref")?.str()? != h.reff || x.j.get("version")?.str()? != "0.9.5" || x.j.get("lang")?.str()? != name {
            return Err(format!("ref, version and lang are {:?}", (x.j.get("ref"), x.j.get("version"), x.j.get("lang"))));
        }
        let fs: Vec<&str> = h.fields.iter().map(|s| s.as_str()).collect();
        keys(x.j.get("index")?, &fs, "the index")?;
        let st = x.store()?;
        keys(st, &["save", "docs", "docInfo", "length"], "the document store")?;
        if st.get("save")?.bool()? != h.save {
            return Err("the save setting is exported wrongly".into());
        }
        // All strings.
        let m = h.model();
        cx.outcome(&hash(&m));
        let docs = x.docs()?;
        if !docs.keys().eq(m.docs.keys()) {
            return Err(format!("the documents {:?} are exported as {:?}", m.docs.keys(), docs.keys()));
        }
        if h.save && docs != m.docs {
            return Err(format!("the documents {:?} are exported as {:?}", clip(&m.docs), clip(&docs)));
        }
        let lens = x.lens()?;
        for (r, d) in &m.lens {
            for f in d.keys() {
                if lens.get(r).and_then(|d| d.get(f)).is_none() {
                    return Err(format!("no length of field {:?} of document {:?}", f, r));
                }
            }
        }
        x.length()?;
        for (i, f) in h.fields.iter().enumerate() {
            let sub = x.j.get("index")?.get(f)?;
            keys(sub, &["root"], "a field's index")?;
            let t = hist::trie(sub)?;
            nodes(sub.get("root")?)?;
            for term in m.index[i].keys() {
                if t.get(term).is_none_or(|n| n.1.is_empty()) {
                    return Err(format!("the term {:?} of field {:?} is missing", term, f));
                }
            }
            for (term, n) in &t {
                if !n.1.is_empty() && !m.index[i].contains_key(term) {
                    return Err(format!("there is a term {:?} in field {:?} that no document contains", term, f));
                }
            }
            // Back into an inverted index.
            let text = sub.text();
            if depth(sub) < LEVELS {
                let back: InvertedIndex = serde_json::from_str(&text).map_err(|e| format!("the index of field {:?} does not deserialize: {}", f, e))?;
                let again = serde_json::to_string(&back).map_err(|e| e.to_string())?;
                if !json::parse(&again)?.same(sub) {
                    return Err(format!("the index of field {:?} deserializes to a different one", f));
                }
                for (term, n) in &t {
                    if back.get_docs(term).as_ref() != Some(&n.1) && !(term.is_empty() && n.1.is_empty()) {
                        return Err(format!("field {:?}: the deserialized index gives {:?} for {:?} instead of {:?}", f, back.get_docs(term), term, n.1));
                    }
                }
            }
        }
        // Back into a document store.
        let s: DocumentStore = serde_json::from_str(&st.text()).map_err(|e| format!("the document store does not deserialize: {}", e))?;
        if s.save != h.save || s.docs != docs || s.length as u64 != x.length()? || s.len() != docs.len() {
            return Err(format!("the document store deserializes to {:?}", clip(&s)));
        }
        let info: BTreeMap<String, BTreeMap<String, u64>> =
            s.doc_info.iter().map(|(r, d)| (r.clone(), d.iter().map(|(f, n)| (f.clone(), *n as u64)).collect())).collect();
        if info != lens {
            return Err(format!("the field lengths deserialize to {:?}", clip(&info)));
        }
        Ok(())
    }

    /// [[ref, term, tf] or [ref, term] for a removal, ...]
    fn direct(&self, cx: &Cx, p: &str) -> Result<(), String> {
        let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: {}", e))?;
        let mut ii = InvertedIndex::new();
        let ops = v.as_array().unwrap();
        for o in ops {
            let (r, t) = (o[0].as_str().unwrap(), o[1].as_str().unwrap());
            match o.get(2) {
                Some(tf) => ii.add_token(r, t, tf.as_f64().unwrap()),
                None => ii.remove_token(r, t),
            }
        }
        let text = serde_json::to_string(&ii).map_err(|e| e.to_string())?;
        cx.outcome(&text);
        let j = json::parse(&text)?;
        keys(&j, &["root"], "the index")?;
        nodes(j.get("root")?)?;
        let t = hist::trie(&j)?;
        for o in ops {
            let (r, w) = (o[0].as_str().unwrap(), o[1].as_str().unwrap());
            let want = ii.get_docs(w).unwrap_or_default();
            let got = t.get(w).map(|n| n.1.clone()).unwrap_or_default();
            if want != got {
                return Err(format!("the documents of {:?} are {:?} and are exported as {:?} ({:?})", w, want, got, r));
            }
        }
        for form in [text.clone(), serde_json::to_string_pretty(&ii).unwrap()] {
            let back: InvertedIndex = serde_json::from_str(&form).map_err(|e| format!("the export {} does not deserialize: {}", form, e))?;
            if back != ii {
                return Err(format!("the index {:?} deserializes to {:?}", ii, back));
            }
        }
        let back: InvertedIndex = serde_json::from_value(serde_json::to_value(&ii).map_err(|e| e.to_string())?).map_err(|e| format!("a value does not deserialize: {}", e))?;
        if back != ii {
            return Err(format!("the index {:?} deserializes from a value to {:?}", ii, back));
        }
        Ok(())
    }

    /// {"s": save, "o": [[ref, {content}] | [ref] | [ref, field, length], ...]}
    fn store(&self, cx: &Cx, p: &str) -> Result<(), String> {
        let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: {}", e))?;
        let mut s = DocumentStore::new(v["s"].as_bool().unwrap());
        for o in v["o"].as_array().unwrap() {
            let r = o[0].as_str().unwrap();
            match o.as_array().unwrap().len() {
                1 => s.remove_doc(r),
                2 => s.add_doc(r, o[1].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()),
                _ => s.add_field_length(r, o[1].as_str().unwrap(), o[2].as_u64().unwrap() as usize),
            }
        }
        let text = serde_json::to_string(&s).map_err(|e| e.to_string())?;
        cx.outcome(&text);
        let j = json::parse(&text)?;
        keys(&j, &["save", "docs", "docInfo", "length"], "the document store")?;
        let x = Export { j: J::Obj(vec![("documentStore".into(), j)]) };
        if x.docs()? != s.docs || x.length()? != s.length as u64 {
            return Err(format!("the store {:?} is exported as {}", s, text));
        }
        for form in [text.clone(), serde_json::to_string_pretty(&s).unwrap()] {
            let back: DocumentStore = serde_json::from_str(&form).map_err(|e| format!("the export {} does not deserialize: {}", form, e))?;
            if !debug_eq(&back, &s) {
                return Err(format!("the store {:?} deserializes to {:?}", s, back));
            }
        }
        Ok(())
    }

    /// 64 indexes of 128 characters each, read by node.
    fn in_node(&self, cx: &Cx, p: &str) -> Result<(), String> {
        let base: u32 = p.parse().map_err(|_| "harness: bad payload".to_string())?;
        let mut input = String::new();
        for b in 0..64 {
            let mut terms = vec![];
            for u in 0..128 {
                if let Some(c) = char::from_u32(base + b * 128 + u).filter(|c| *c != ' ') {
                    terms.push(format!("{}", c));
                    terms.push(format!("a{}b", c));
                }
            }
            if terms.is_empty() {
                continue;
            }
            let h = Hist {
                lang: "verbatim".into(),
                fields: vec!["t".into()],
                reff: "id".into(),
                save: true,
                ops: vec![("x".into(), vec!["b a".into()]), ("1".into(), vec![terms.join(" ")])],
            };
            input.push_str(&json!({"x": h.run().to_json(), "f": "t", "r": "1", "t": terms}).to_string());
            input.push('\n');
            cx.count("transitions", 2);
        }
        if input.is_empty() {
            return Ok(());
        }
        let n = input.lines().count();
        let out = node::run("walk.js", &[], input)?;
        if out.lines().count() != n {
            return Err("harness: node: output incomplete".into());
        }
        for l in out.lines() {
            let bad: Vec<String> = serde_json::from_str(l).map_err(|e| format!("harness: node: {}", e))?;
            for t in bad {
                let astral = t.chars().any(|c| c as u32 > 0xffff);
                if !(astral && cx.known("astral-key", || format!("term {:?}", t))) {
                    return Err(format!("elasticlunr.js does not find the term {:?} in the export", t));
                }
            }
        }
        Ok(())
    }
}

fn clip<T: std::fmt::Debug>(t: &T) -> String {
    format!("{:?}", t).chars().take(400).collect()
}

/// Every node has docs, df and one key per next character; every posting has tf alone.
fn nodes(j: &J) -> Result<(), String> {
    j.get("docs")?.obj()?.iter().try_for_each(|(_, e)| keys(e, &["tf"], "a posting"))?;
    match j.get("df")? {
        J::Num(_, t) if t.parse::<i64>().is_ok() => {}
        x => return Err(format!("a document frequency is {:?}", x)),
    }
    for (k, e) in j.obj()? {
        if k != "docs" && k != "df" {
            if k.chars().count() != 1 {
                return Err(format!("a node has the key {:?}", k));
            }
            nodes(e)?;
        }
    }
    Ok(())
}

impl Check for C06 {
    fn explore(&self, cx: &Cx) {
        cx.par(0x110000 / 8192, |i| {
            cx.run(self, "node", &format!("{}", i * 8192));
        });
        hist::explore(cx, true, &["char-text", "char-term"], &|f, p| {
            cx.run(self, f, p);
        });
        // Awkward strings everywhere.
        let odd = ["", "\0", "\u{1f}", "\"", "\\", "/", "\u{7f}", "\u{2028}", "\u{feff}", "😀", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "\\u0041", "docs", "df", "tf", "root", "\n\r\t"];
        cx.par(odd.len().pow(3) * 2, |i| {
            let n = odd.len();
            let (a, b, c) = (odd[i % n], odd[i / n % n], odd[i / n / n % n]);
            let t = format!("{} {} {}{}", a, b, b, c);
            let p = hist::payload(if i >= n * n * n { "verbatim" } else { "en" }, &[&format!("f{}", a), c], b, (i + a.len()) % 3 != 0, &[(a, vec![&t, b]), (b, vec![c]), (c, vec!["", &t])]);
            cx.run(self, "odd", &p);
        });
        // Strings that look like JSON.
        let js = ["{", "}", "{}", "[]", ": ", "[", "]", ":", ",", ", ", "\n  ", " ", "\"", "\n", "null", "1.0", "\\", "a"];
        par_strings(cx, &js, 1, cx.tier(3, 4), |s| {
            let p = hist::payload("verbatim", &[&format!("f{}", s), s], &format!("{}r", s), true, &[(s, vec![s, &format!("a {}a", s)]), (&format!("a{}", s), vec![""])]);
            cx.run(self, "json", &p);
        });
        // Inverted indexes on their own.
        let mut tf: Vec<f64> = vec![0.0, 1.0, 0.1, 1.5, 1e300, 5e-324, 1e21, 1e16, 123456789.125, f64::MAX, 1.0 / 3.0];
        tf.extend((2..cx.tier(3000, 60_000)).map(|n| (n as f64).sqrt()));
        cx.par(tf.len(), |i| {
            cx.run(self, "trie", &json!([["1", "a", tf[i]], ["2", "a", 1.0]]).to_string());
        });
        let mut alpha: Vec<Value> = vec![];
        for r in ["", "1", "é"] {
            for t in ["", "a", "ab", "é", "b", "d", "😀"] {
                alpha.push(json!([r, t, 1.0]));
            }
            alpha.push(json!([r, "ab", 2.0]));
            alpha.push(json!([r, "a"]));
            alpha.push(json!([r, "ab"]));
        }
        let d = cx.tier(3, 4);
        cx.par(seq_total(alpha.len(), d), |i| {
            let mut s = vec![];
            seq_at(alpha.len(), i, &mut s);
            let v: Vec<&Value> = s.iter().map(|&k| &alpha[k]).collect();
            cx.run(self, "trie", &serde_json::to_string(&v).unwrap());
        });
        par_scalars(cx, |c| {
            let (a, b) = (c.to_string(), format!("a{}{}", c, c));
            cx.run(self, "trie", &json!([["1", a, 1.0], [a, b, 2.0], [b, "a", 1.0]]).to_string());
        });
        for n in 0..=110usize {
            cx.run(self, "trie", &json!([["1", "é".repeat(n), 1.0], ["2", "é".repeat(n / 2), 2.0]]).to_string());
        }
        // Document stores on their own.
        let mut alpha: Vec<Value> = vec![];
        for r in ["", "1", "é\""] {
            alpha.push(json!([r, {"t": "x", "": "\u{0}"}]));
            alpha.push(json!([r, {}]));
            alpha.push(json!([r]));
            alpha.push(json!([r, "t", 3]));
            alpha.push(json!([r, "", 0]));
            alpha.push(json!([r, "é", u64::MAX]));
        }
        let d = cx.tier(3, 4);
        cx.par(seq_total(alpha.len(), d) * 2, |i| {
            let mut s = vec![];
            seq_at(alpha.len(), i / 2, &mut s);
            let v: Vec<&Value> = s.iter().map(|&k| &alpha[k]).collect();
            cx.run(self, "store", &json!({"s": i % 2 == 0, "o": v}).to_string());
        });
        par_scalars(cx, |c| {
            let (a, b) = (c.to_string(), format!("a{}{}", c, c));
            cx.run(self, "store", &json!({"s": true, "o": [[a, {&a: b}], [b, {"x": a, &b: a}], [a, b, 7]]}).to_string());
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, p.chars().take(200).collect::<String>()));
        match fam {
            "node" => self.in_node(cx, p),
            "trie" => {
                cx.count("transitions", 1);
                self.direct(cx, p)
            }
            "store" => {
                cx.count("transitions", 1);
                self.store(cx, p)
            }
            _ => {
                let h = Hist::parse(p)?;
                cx.count("transitions", h.ops.len() as u64);
                self.history(cx, &h)
            }
        }
    }
    fn rule(&self) -> &'static str {
        "the histories of C01 and awkward strings in every place; sequences of operations on an inverted index and a document store alone; every Unicode character as term, reference, field name and content, and as a term read by node; a state is the content of one export"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "numbers are read exactly (serde_json's feature float_roundtrip), nesting is below serde_json's limit of 128 levels",
            "elasticlunr.js follows a term by its UTF-16 units; characters outside the BMP are a known finding",
        ]
    }
}

// ---------------------------------------------------------------------------------------------- C23

pub struct C23;

fn load(ix: &Index, how: usize) -> Result<Index, String> {
    let r = match how % 4 {
        0 => serde_json::from_str(&ix.to_json()),
        1 => serde_json::from_str(&ix.to_json_pretty()),
        2 => serde_json::from_reader(ix.to_json().as_bytes()),
        _ => {
            let v: Value = serde_json::from_slice(ix.to_json().as_bytes()).map_err(|e| e.to_string())?;
            serde_json::from_value(v)
        }
    };
    r.map_err(|e| format!("an export does not deserialize: {}", e))
}

impl C23 {
    /// The points at which the index is exported and loaded, in one execution: every bit of `mask` one point.
    fn with_loads(&self, cx: &Cx, h: &Hist, mask: usize, want: &[String]) -> Result<(), String> {
        let mut ix = h.make();
        for k in 0..=h.ops.len() {
            if mask >> k & 1 == 1 {
                for _ in 0..1 + (mask >> (k + 1) & 1) {
                    ix = load(&ix, k + mask)?;
                    cx.count("transitions", 1);
                    if ix.get_fields() != h.fields {
                        return Err(format!("after loading the fields are {:?}", ix.get_fields()));
                    }
                    if ix.to_json() != want[k] {
                        return Err(format!("after {} additions (loads {:b}) a loaded index exports differently:\n{}\n{}", k, mask, clip(&want[k]), clip(&ix.to_json())));
                    }
                }
            }
            if k < h.ops.len() {
                ix.add_doc(&h.ops[k].0, &h.ops[k].1);
                cx.count("transitions", 1);
            }
        }
        if ix.to_json() != want[h.ops.len()] {
            return Err(format!("after loading (loads {:b}) further additions have another result:\n{}\n{}", mask, clip(&want[h.ops.len()]), clip(&ix.to_json())));
        }
        Ok(())
    }
}

/// Strings that are not the name of a language but look like one.
fn not_names() -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), " ".into(), "Klingon".into(), "Verbatim".into(), "null".into(), "Engl\u{131}sh".into()];
    for l in langs::LANGS {
        v.push(l.code.into());
        v.push(l.name.to_lowercase());
        v.push(l.name.to_uppercase());
        v.push(format!(" {}", l.name));
        v.push(format!("{}\0", l.name));
        for i in 0..l.name.len() {
            v.push(format!("{}{}", &l.name[..i], &l.name[i + 1..]));
            v.push(format!("{}{}", &l.name[..i], &l.name[i..].to_uppercase()));
            v.push(l.name[..i].to_string());
        }
        for i in 0..=l.name.len() {
            for c in (' '..='~').chain(['\t', '\n', '\0', '\u{a0}', '\u{301}', '\u{feff}', 'é', '１']) {
                v.push(format!("{}{}{}", &l.name[..i], c, &l.name[i..]));
            }
        }
        for o in langs::LANGS {
            v.push(format!("{}{}", l.name, o.name));
            v.push(format!("{} {}", l.name, o.code));
            v.push(format!("{}-{}", l.code, o.code));
        }
    }
    v.retain(|s| langs::LANGS.iter().all(|l| l.name != *s));
    v.sort();
    v.dedup();
    v
}

impl Check for C23 {
    fn explore(&self, cx: &Cx) {
        let run = |f: &str, p: &str| {
            cx.run(self, f, p);
        };
        hist::alphabet(cx, "all", "en", &["t", "b"], "id", &["", "cat", "cat cat dog", "the ca"], &["1", "2"], 2, cx.tier(2, 3), &run);
        hist::alphabet(cx, "all", "en", &["b"], "id", &["", "cat dog", "dogs dog dog", "ca"], &["1", "2"], 1, cx.tier(4, 5), &run);
        for (f, r) in [(["id", "b"], "id"), (["docs", "lang"], "ref"), (["b", "a"], ""), (["x", ""], "z"), (["root", "id"], "id")] {
            hist::alphabet(cx, "all", "en", &f, r, &["", "cat dog"], &["1", "id"], 2, cx.tier(2, 3), &run);
        }
        hist::alphabet(cx, "nosave", "en", &["t", "b"], "id", &["", "cat", "cat dog dog"], &["1", "2"], 2, 2, &run);
        for l in langs::LANGS {
            let t = data::texts(l.code);
            if l.ws {
                hist::alphabet(cx, "all", l.code, &["b"], "id", t, &["1", "2"], 1, cx.tier(2, 3), &run);
            } else {
                // Loading one of these takes a good part of a second.
                let mut ps = vec![];
                for a in t {
                    for b in &t[..cx.tier(2, 5)] {
                        ps.push(hist::payload(l.code, &["b"], "id", true, &[("1", vec![a]), ("2", vec![b]), ("1", vec![b])]));
                    }
                }
                cx.par(ps.len(), |i| run("last", &ps[i]));
            }
        }
        let names = not_names();
        cx.par(names.len(), |i| run("refuse", &names[i]));
        crate::engine::par_scalars(cx, |c| {
            if !cx.quick() || (c as u32) < 0x3000 {
                run("refuse", &format!("English{}", c))
            }
        });
        let mut gens: Vec<(&str, usize)> = vec![];
        for n in 0..=cx.tier(100, 400) {
            for g in ["count", "docs", "terms", "readd", "words", "fields", "crowd"] {
                gens.push((g, n));
            }
        }
        for g in ["docs", "terms", "words", "crowd"] {
            for n in [10001, 40001, 65537] {
                gens.push((g, n));
            }
        }
        for n in 0..=100 {
            for g in ["lens", "long", "longu"] {
                gens.push((g, n));
            }
        }
        for n in [255, 256, 257, 1000, 1024, 4096] {
            for g in ["count", "docs", "terms", "words"] {
                gens.push((g, n));
            }
        }
        for n in [65535, 65536, 65537] {
            gens.push(("count", n));
        }
        gens.sort_by_key(|g| std::cmp::Reverse(g.1));
        cx.par(gens.len(), |i| run("last", &Hist::gen_payload(gens[i].0, gens[i].1)));
        for g in ["char-text", "char-ref", "char-field"] {
            par_scalars(cx, |c| {
                if !cx.quick() || g == "char-text" || (c as u32) < 0x3000 {
                    run("last", &Hist::gen_payload(g, c as usize));
                }
            });
        }
        // Every frequency's square root.
        let d = cx.tier(1000, 4000);
        cx.par(d, |n| run("last", &Hist::gen_payload("count", n)));
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, p.chars().take(200).collect::<String>()));
        if fam == "refuse" {
            let mut ix = Index::new(["t"]);
            ix.add_doc("1", ["cat"]);
            for v in [Value::String(p.into()), json!(1), Value::Null, json!(["English"])] {
                for text in [ix.to_json(), ix.to_json_pretty()] {
                    let mut j: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
                    j["lang"] = v.clone();
                    let t = j.to_string();
                    cx.count("transitions", 1);
                    if serde_json::from_str::<Index>(&t).is_ok() || serde_json::from_reader::<_, Index>(t.as_bytes()).is_ok() {
                        return Err(format!("an export with the language {} is loaded", v));
                    }
                    j.as_object_mut().unwrap().remove("lang");
                    if serde_json::from_str::<Index>(&j.to_string()).is_ok() {
                        return Err("an export without language is loaded".into());
                    }
                }
            }
            cx.outcome(p);
            return Ok(());
        }
        let mut h = Hist::parse(p)?;
        if fam == "nosave" {
            h.save = false;
        }
        let n = h.ops.len();
        let mut want = vec![String::new(); n + 1];
        let mut ix = h.make();
        for k in 0..=n {
            if fam != "last" || k + 1 >= n || k == 0 {
                want[k] = ix.to_json();
            }
            if k < n {
                ix.add_doc(&h.ops[k].0, &h.ops[k].1);
            }
        }
        cx.outcome(&want[n]);
        if fam == "last" {
            let masks: &[usize] = if n == 0 { &[1] } else { &[1 << (n.min(20) - 1), 1 << n.min(20)] };
            if n > 20 {
                // Loading before the last addition, and after it.
                let mut ix = h.make();
                for o in &h.ops[..n - 1] {
                    ix.add_doc(&o.0, &o.1);
                }
                for how in 0..2 {
                    let mut l = load(&ix, how)?;
                    if l.to_json() != want[n - 1] {
                        return Err("a loaded index exports differently".into());
                    }
                    l.add_doc(&h.ops[n - 1].0, &h.ops[n - 1].1);
                    let l = load(&l, how + 2)?;
                    cx.count("transitions", 2);
                    if l.to_json() != want[n] {
                        return Err("after loading a further addition has another result".into());
                    }
                }
                return Ok(());
            }
            let slow = h.lang == "ja" || h.lang == "zh";
            for m in if slow { &masks[..1] } else { masks } {
                self.with_loads(cx, &h, *m, &want)?;
            }
            return Ok(());
        }
        for m in 1..1usize << (n + 1) {
            self.with_loads(cx, &h, m, &want)?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all short histories with an export and load at every subset of points (four ways of loading), in all languages; sweeps of sizes and every Unicode character with a load before and after the last addition; names that are none; a state is an export"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["numbers are read exactly (serde_json's feature float_roundtrip), nesting is below serde_json's limit of 128 levels"]
    }
}
