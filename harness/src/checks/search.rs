//! C31: what elasticlunr.js finds in an export. Its search (0.9.5) is written out here over the parsed JSON;
//! the oracle works on the texts alone and shares nothing with it.

use crate::data;
use crate::engine::{Check, Cx};
use crate::hist::{self, Export, Hist, Model, Verbatim};
use crate::json::{self, J};
use crate::langs::{self, LANGS};
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::Language;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

type Scores = BTreeMap<String, f64>;

// ------------------------------------------------------------------------------- elasticlunr.js 0.9.5

/// InvertedIndex.getNode
fn node<'a>(root: &'a J, token: &str) -> Option<&'a J> {
    let mut n = root;
    for c in token.chars() {
        n = n.get(c.encode_utf8(&mut [0; 4])).ok()?;
    }
    Some(n)
}

/// InvertedIndex.expandToken
fn expand(n: &J, token: String, memo: &mut Vec<String>) -> Result<(), String> {
    if n.get("df")?.num()? > 0.0 {
        memo.push(token.clone());
    }
    for (k, c) in n.obj()? {
        if k != "docs" && k != "df" {
            expand(c, format!("{}{}", token, k), memo)?;
        }
    }
    Ok(())
}

fn js_len(s: &str) -> f64 {
    s.encode_utf16().count() as f64
}

/// Lengths of the fields of the documents that are in the store, by reference.
struct Lengths<'a>(BTreeMap<&'a str, Option<&'a J>>);
impl<'a> Lengths<'a> {
    fn of(x: &'a Export) -> Result<Self, String> {
        let mut m: BTreeMap<&str, Option<&J>> = x.store()?.get("docs")?.obj()?.iter().map(|(r, _)| (r.as_str(), None)).collect();
        for (r, d) in x.store()?.get("docInfo")?.obj()? {
            if let Some(e) = m.get_mut(r.as_str()) {
                *e = Some(d);
            }
        }
        Ok(Lengths(m))
    }
    /// DocumentStore.getFieldLength
    fn get(&self, r: &str, field: &str) -> f64 {
        self.0.get(r).copied().flatten().and_then(|d| d.get(field).ok()).and_then(|l| l.num().ok()).unwrap_or(0.0)
    }
}

/// Index.fieldSearch; `None` stands for undefined and for null.
fn field_search(x: &Export, lens: &Lengths, tokens: &[String], field: &str, boost: f64, and: bool, exp: bool) -> Result<Option<Scores>, String> {
    if boost == 0.0 {
        return Ok(None);
    }
    let root = x.j.get("index")?.get(field)?.get("root")?;
    let total = x.store()?.get("length")?.num()?;
    let mut scores: Option<Scores> = None;
    let mut doc_tokens: BTreeMap<String, usize> = BTreeMap::new();
    for token in tokens {
        let mut keys = vec![token.clone()];
        if exp {
            keys = vec![];
            if let Some(n) = node(root, token) {
                expand(n, token.clone(), &mut keys)?;
            }
        }
        let mut of_token = Scores::new();
        for key in &keys {
            let n = node(root, key);
            let df = n.map_or(Ok(0.0), |n| n.get("df")?.num())?;
            let idf = 1.0 + (total / (df + 1.0)).ln();
            let docs: Vec<(&String, f64)> = match n {
                None => vec![],
                Some(n) => n.get("docs")?.obj()?.iter().map(|(r, d)| Ok((r, d.get("tf")?.num()?))).collect::<Result<_, String>>()?,
            };
            for (r, tf) in docs {
                if and && scores.as_ref().is_some_and(|s| !s.contains_key(r)) {
                    continue;
                }
                if key == token {
                    *doc_tokens.entry(r.clone()).or_insert(0) += 1;
                }
                let len = lens.get(r, field);
                let norm = if len != 0.0 { 1.0 / len.sqrt() } else { 1.0 };
                let penalty = if key == token { 1.0 } else { (1.0 - (js_len(key) - js_len(token)) / js_len(key)) * 0.15 };
                *of_token.entry(r.clone()).or_insert(0.0) += tf * idf * norm * penalty;
            }
        }
        scores = Some(match scores {
            None => of_token,
            Some(s) if and => of_token.iter().filter_map(|(r, v)| s.get(r).map(|a| (r.clone(), a + v))).collect(),
            Some(mut s) => {
                for (r, v) in of_token {
                    *s.entry(r).or_insert(0.0) += v;
                }
                s
            }
        });
    }
    if let Some(s) = &mut scores {
        for (r, v) in s {
            if let Some(n) = doc_tokens.get(r) {
                *v = *v * *n as f64 / tokens.len() as f64;
            }
        }
    }
    Ok(scores)
}

/// Index.search, with the configuration as it is exported.
fn search(x: &Export, lens: &Lengths, tokens: &[String], config: &J) -> Result<Scores, String> {
    let fields: Vec<&str> = x.j.get("fields")?.arr()?.iter().map(|f| f.str()).collect::<Result<_, _>>()?;
    let (gb, ge) = (config.get("bool")?.str()?, config.get("expand")?.bool()?);
    let mut out = Scores::new();
    for (f, c) in config.get("fields")?.obj()? {
        if !fields.contains(&f.as_str()) {
            continue;
        }
        let set = |k: &str| c.get(k).ok().filter(|v| !matches!(v, J::Null));
        let e = set("expand").map_or(Ok(ge), |v| v.bool())?;
        let b = set("bool").map_or(Ok(gb), |v| v.str())?;
        let boost = set("boost").map_or(Ok(1.0), |v| v.num())?;
        for (r, v) in field_search(x, lens, tokens, f, boost, b == "AND", e)?.unwrap_or_default() {
            *out.entry(r).or_insert(0.0) += v * boost;
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------- the oracle

/// Settings of one field, for the oracle.
#[derive(Clone, Debug)]
struct Set {
    boost: f64,
    and: bool,
    exp: bool,
}

/// The scores by the texts: what each document has of each word, how rare the word is, how long the field.
fn by_texts(m: &Model, fields: &[String], words: &[String], sets: &BTreeMap<usize, Set>) -> Scores {
    let n = m.docs.len() as f64;
    let mut out = Scores::new();
    for (&i, s) in sets {
        if s.boost == 0.0 {
            continue;
        }
        let matching = |w: &String| m.index[i].iter().filter(|(t, _)| *t == w || s.exp && t.starts_with(w.as_str())).collect::<Vec<_>>();
        let terms: Vec<_> = words.iter().map(|w| (w, matching(w))).collect();
        for r in m.docs.keys() {
            let (mut sum, mut exact, mut found) = (0.0, 0usize, 0usize);
            for (w, terms) in &terms {
                let mut any = false;
                for (term, docs) in terms {
                    let same = term == w;
                    let Some(k) = docs.get(r) else { continue };
                    any = true;
                    exact += same as usize;
                    let len = m.lens.get(r).and_then(|l| l.get(&fields[i])).copied().unwrap_or(0) as f64;
                    let rare = 1.0 + (n / (docs.len() as f64 + 1.0)).ln();
                    let part = if same { 1.0 } else { 0.15 * js_len(w) / js_len(term) };
                    sum += (*k as f64).sqrt() * rare * part / if len > 0.0 { len.sqrt() } else { 1.0 };
                }
                found += any as usize;
            }
            if found == 0 || s.and && found < words.len() {
                continue;
            }
            if exact > 0 {
                sum = sum * exact as f64 / words.len() as f64;
            }
            *out.entry(r.clone()).or_insert(0.0) += sum * s.boost;
        }
    }
    out
}

// -------------------------------------------------------------------------------------------------- C31

pub struct C31;

fn tokens(lang: &str, q: &str) -> Vec<String> {
    match lang {
        "verbatim" => Verbatim.tokenize(q),
        c => {
            let i = langs::inst(langs::by_code(c));
            i.pipe.run(i.lang.tokenize(q))
        }
    }
}

/// All settings of searches: conjunction, expansion, boosts, fields left out, fields with settings of their own.
fn settings(fields: &[String], few: bool) -> Vec<(SearchOptions, BTreeMap<usize, Set>)> {
    let mut v = vec![];
    for (k, (and, exp)) in [(false, false), (true, true), (false, true), (true, false)].into_iter().enumerate() {
        for own in 0..4u8 {
            if few && (own as usize != k || own == 3) {
                continue;
            }
            let mut o = SearchOptions { bool: if and { SearchBool::And } else { SearchBool::Or }, expand: exp, ..Default::default() };
            let mut sets = BTreeMap::new();
            for (i, f) in fields.iter().enumerate() {
                let mut s = Set { boost: 1.0, and, exp };
                let mut c = SearchOptionsField::default();
                match (own, i) {
                    (1, 0) => {
                        c.boost = Some(0);
                        s.boost = 0.0;
                    }
                    (1, 1) => {
                        c.boost = Some(7);
                        s.boost = 7.0;
                    }
                    (2, 0) => continue,
                    (3, 0) => {
                        c.bool = Some(if and { SearchBool::Or } else { SearchBool::And });
                        c.expand = Some(!exp);
                        c.boost = Some(2);
                        s = Set { boost: 2.0, and: !and, exp: !exp };
                    }
                    _ => (),
                }
                o.fields.insert(f.clone(), c);
                sets.insert(i, s);
            }
            v.push((o, sets));
        }
    }
    v
}

impl Check for C31 {
    fn explore(&self, cx: &Cx) {
        let run = |fam: &'static str, qs: Value| {
            move |_: &str, p: &str| {
                cx.run(self, fam, &format!("{{\"h\":{},\"q\":{}}}", p, qs));
            }
        };
        // All histories over colliding texts, all queries of up to two words.
        let words = ["cat", "dogs", "ca", "the", "zebra", "d"];
        let mut q = vec![String::new()];
        for a in words {
            q.push(a.into());
            q.extend(words.iter().map(|b| format!("{} {}", a, b)));
        }
        q.push("cat dog ca".into());
        let texts = ["", "cat", "cat cat dog", "the ca", "dogs"];
        hist::alphabet(cx, "H1", "en", &["t", "b"], "id", &texts, &["1", "2", "10"], 2, 2, &run("all", json!(q)));
        hist::alphabet(cx, "H2", "en", &["b"], "id", &["", "cat", "cat cats carts", "ca dog", "dog dog cart"], &["1", "2", "3"], 1, cx.tier(3, 4), &run("all", json!(q)));
        hist::alphabet(cx, "H4", "en", &["id", "b"], "id", &["", "cat", "cat dog"], &["1", "2"], 2, 2, &run("all", json!(["cat", "dog cat"])));
        let texts5 = ["", "a", "ab", "abc", "b ab", "a a b", "docs df", "é éa"];
        let q5 = ["a", "ab", "b a", "abc ab", "d", "docs", "é", "x", "a a", "éa b a"];
        hist::alphabet(cx, "H5", "verbatim", &["b"], "id", &texts5, &["1", "2"], 1, cx.tier(3, 4), &run("all", json!(q5)));
        // Every language: its texts, searched for by themselves and by their words.
        for l in LANGS {
            let t = data::texts(l.code);
            hist::alphabet(cx, "HL", l.code, &["b"], "id", t, &["1", "2", "3"], 1, if l.ws { cx.tier(2, 3) } else { cx.tier(1, 2) }, &run("own", json!([])));
        }
        // Many documents, fields, terms, occurrences.
        let mut g: Vec<(&str, usize)> = vec![];
        for n in (0..cx.tier(80, 300)).chain([100, 127, 128, 129, 255, 256, 257, 1000, 4097]) {
            for k in ["count", "docs", "terms", "readd", "lens", "words", "twice", "fall", "odd", "wide", "run", "crowd"] {
                g.push((k, n));
            }
            if n < 30 {
                g.push(("fields", n));
                g.push(("equal", n));
                g.push(("alike", n));
            }
        }
        g.push(("docs", 10001));
        g.push(("docs", 65537));
        g.push(("terms", 65537));
        g.push(("crowd", 40001));
        g.push(("count", 65536));
        g.sort_by_key(|x| std::cmp::Reverse(x.1));
        cx.par(g.len(), |i| {
            let p = Hist::gen_payload(g[i].0, g[i].1);
            run("own", json!([]))("", &p);
        });
        // Every character of one UTF-16 unit (the others are a finding of C06).
        let go = run("own", json!([]));
        crate::engine::par_scalars(cx, |c| {
            if (c as u32) < 0x10000 {
                go("", &Hist::gen_payload("char-text", c as usize));
                go("", &Hist::gen_payload("char-term", c as usize));
            }
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: {}", e))?;
        let h = Hist::parse(&v["h"].to_string())?;
        let m = h.model();
        let x = Export::of(&h.run())?;
        let lens = Lengths::of(&x)?;
        let mut qs: BTreeSet<String> = v["q"].as_array().unwrap().iter().map(|q| q.as_str().unwrap().to_string()).collect();
        if fam == "own" {
            // The texts, their words, the words' beginnings: of the first and the last document.
            let mut texts: Vec<&String> = vec![];
            for o in h.ops.first().into_iter().chain(h.ops.last()) {
                texts.extend(o.1.first().into_iter().chain(o.1.last()));
            }
            for t in texts {
                let w: Vec<&str> = t.split(' ').filter(|w| !w.is_empty()).collect();
                qs.insert(w[..w.len().min(12)].join(" "));
                for w in w.iter().take(4).chain(w.last()) {
                    qs.insert(w.to_string());
                    let c: Vec<char> = w.chars().collect();
                    qs.insert(c[..c.len().div_ceil(2)].iter().collect());
                }
            }
        }
        let all = settings(&h.fields, fam == "own");
        let configs: Vec<J> = all
            .iter()
            .map(|(o, _)| serde_json::to_string(o).map_err(|e| e.to_string()).and_then(|s| json::parse(&s)))
            .collect::<Result<_, _>>()?;
        cx.count("transitions", h.ops.len() as u64);
        cx.sample(|| p.chars().take(300).collect());
        for q in &qs {
            let (t, w) = (tokens(&h.lang, q), h.terms(q));
            for ((_, sets), config) in all.iter().zip(&configs) {
                let got = search(&x, &lens, &t, config)?;
                let want = by_texts(&m, &h.fields, &w, sets);
                cx.count("traces", 1);
                cx.outcome(&want.iter().map(|(r, s)| (r, (s * 1e6) as i64)).collect::<Vec<_>>());
                if !got.keys().eq(want.keys()) {
                    return Err(format!("{:?} with {} finds {:?} instead of {:?}", q, config.text(), got.keys().take(8).collect::<Vec<_>>(), want.keys().take(8).collect::<Vec<_>>()));
                }
                for (r, s) in &want {
                    if (got[r] - s).abs() > 1e-9 * s.abs().max(1e-3) {
                        return Err(format!("{:?} with {} finds document {:?} with score {} instead of {}", q, config.text(), r, got[r], s));
                    }
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all histories over small alphabets with all queries of up to two words and sixteen search settings, the texts of every language searched for by themselves, sweeps of sizes; a state is a result with its scores"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the search is elasticlunr.js 0.9.5 written out from memory: there is no copy of it here to compare with",
            "characters beyond U+FFFF are left out (finding C06 astral-key)",
        ]
    }
}
