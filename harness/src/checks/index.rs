//! C01, C04, C05, C20, C24: histories of an index.

use crate::engine::{hash, par_scalars, seq_at, seq_total, Check, Cx};
use crate::hist::{self, sqrt_ok, Export, Hist};
use crate::json::{self, J};
use elasticlunr::Index;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn tally(cx: &Cx, h: &Hist, m: &hist::Model) {
    cx.count("transitions", h.ops.len() as u64);
    cx.count("traces", 1);
    cx.outcome(&hash(m));
    cx.sample(|| {
        let s = format!("{:?}", h);
        s.chars().take(300).collect()
    });
}

pub struct C01;
impl Check for C01 {
    fn explore(&self, cx: &Cx) {
        hist::explore(cx, true, &["char-text", "char-term"], &|f, p| {
            cx.run(self, f, p);
        });
    }
    fn eval(&self, cx: &Cx, _fam: &str, p: &str) -> Result<(), String> {
        let h = Hist::parse(p)?;
        let m = h.model();
        tally(cx, &h, &m);
        let x = Export::of(&h.run())?;
        for (i, f) in h.fields.iter().enumerate() {
            let t = x.trie(f)?;
            for (term, (_, docs)) in &t {
                let want = m.index[i].get(term);
                for r in docs.keys() {
                    if !want.is_some_and(|w| w.contains_key(r)) {
                        return Err(format!("field {:?}: term {:?} leads to document {:?}, which does not contain it", f, term, r));
                    }
                }
            }
            for (term, want) in &m.index[i] {
                for r in want.keys() {
                    if !t.get(term).is_some_and(|n| n.1.contains_key(r)) {
                        return Err(format!("field {:?}: term {:?} does not lead to document {:?}, which contains it", f, term, r));
                    }
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all histories of add_doc over small alphabets of texts, references and fields, sweeps of sizes, every Unicode character, all languages; a state is the model of one history, distinct if its postings, lengths or documents differ"
    }
}

pub struct C04;
impl Check for C04 {
    fn explore(&self, cx: &Cx) {
        hist::explore(cx, true, &["char-text"], &|f, p| {
            cx.run(self, f, p);
        });
    }
    fn eval(&self, cx: &Cx, _fam: &str, p: &str) -> Result<(), String> {
        let h = Hist::parse(p)?;
        let m = h.model();
        tally(cx, &h, &m);
        let x = Export::of(&h.run())?;
        for (i, f) in h.fields.iter().enumerate() {
            let t = x.trie(f)?;
            for (term, (df, docs)) in &t {
                if *df != docs.len() as f64 {
                    return Err(format!("field {:?}: document frequency {} of {:?}, which lists {} documents", f, df, term, docs.len()));
                }
            }
            for (term, want) in &m.index[i] {
                for (r, n) in want {
                    if m.times[r] != 1 {
                        continue;
                    }
                    if let Some(tf) = t.get(term).and_then(|x| x.1.get(r)) {
                        if !sqrt_ok(*tf, *n) {
                            return Err(format!("field {:?}: term {:?} occurs {} times in document {:?} but its term frequency is {}", f, term, n, r, tf));
                        }
                    } else {
                        return Err(format!("field {:?}: term {:?} of document {:?} has no term frequency", f, term, r));
                    }
                }
            }
        }
        let lens = x.lens()?;
        for (r, want) in &m.lens {
            if m.times[r] != 1 {
                continue;
            }
            for (f, n) in want {
                let got = lens.get(r).and_then(|d| d.get(f));
                if got != Some(n) {
                    return Err(format!("document {:?}: length of field {:?} is {:?}, its text has {} terms", r, f, got, n));
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "the histories of C01; a state is the model of one history (counts of every term, lengths of every field)"
    }
}

pub struct C20;
impl Check for C20 {
    fn explore(&self, cx: &Cx) {
        hist::explore(cx, false, &["char-field"], &|f, p| {
            cx.run(self, f, p);
        });
        // Texts are kept as they are: every character alone, doubled, at both ends; untrimmed and long texts.
        par_scalars(cx, |c| {
            let t = format!("{}a{}{}", c, c, c);
            let p = hist::payload("en", &["t"], "id", true, &[("1", vec![&t]), (&t, vec![""])]);
            cx.run(self, "text", &p);
        });
        let parts = [" ", "\n", "a", "A", "é", "\u{301}", "\r\n", "\0", "\\", "\"", "<b>", "\u{feff}"];
        let d = cx.tier(3, 4);
        cx.par(seq_total(parts.len(), d), |i| {
            let mut v = vec![];
            seq_at(parts.len(), i, &mut v);
            let t: String = v.iter().map(|&k| parts[k]).collect();
            let p = hist::payload("en", &["t", "u"], "id", true, &[("1", vec![&t, &t]), (&t, vec!["a", &t])]);
            cx.run(self, "text", &p);
        });
    }
    fn eval(&self, cx: &Cx, _fam: &str, p: &str) -> Result<(), String> {
        let mut h = Hist::parse(p)?;
        let m = h.model();
        tally(cx, &h, &m);
        let on = Export::of(&h.run())?;
        h.save = false;
        let off = Export::of(&h.run())?;
        if !on.store()?.get("save")?.bool()? || off.store()?.get("save")?.bool()? {
            return Err("the save setting is exported wrongly".into());
        }
        let d = on.docs()?;
        if d != m.docs {
            for (r, want) in &m.docs {
                if d.get(r) != Some(want) {
                    return Err(format!("stored document {:?} is {:?}, its last addition gave {:?}", r, d.get(r), want));
                }
            }
            return Err(format!("documents are stored that were not added: {:?}", d.keys().filter(|k| !m.docs.contains_key(*k)).collect::<Vec<_>>()));
        }
        let e = off.docs()?;
        if let Some((r, x)) = e.iter().find(|x| !x.1.is_empty()) {
            return Err(format!("saving is off but document {:?} is stored as {:?}", r, x));
        }
        if !e.keys().eq(m.docs.keys()) {
            return Err(format!("saving is off and the documents are {:?} instead of {:?}", e.keys(), m.docs.keys()));
        }
        let n = m.docs.len() as u64;
        if on.length()? != n || off.length()? != n {
            return Err(format!("{} documents are counted as {} with saving on, {} with saving off", n, on.length()?, off.length()?));
        }
        if !on.j.get("index")?.same(off.j.get("index")?) {
            return Err("the terms depend on whether documents are saved".into());
        }
        if !on.store()?.get("docInfo")?.same(off.store()?.get("docInfo")?) {
            return Err("the field lengths depend on whether documents are saved".into());
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "the histories of C01, each with saving on and off, and all texts over an alphabet of awkward pieces; a state is the model of one history"
    }
}

pub struct C24;
impl Check for C24 {
    fn explore(&self, cx: &Cx) {
        hist::explore(cx, true, &["char-readd"], &|f, p| {
            cx.run(self, f, p);
        });
        // More additions of the same references with all changes between few texts.
        hist::alphabet(cx, "H6", "en", &["t", "b"], "id", &["", "cat", "dog dog"], &["1"], 2, cx.tier(4, 6), &|f, p| {
            cx.run(self, f, p);
        });
        // Texts of the same length, of the same words, of the same characters.
        hist::alphabet(cx, "H8", "en", &["t", "b"], "id", &["cat dog", "rat pig", "dog cat", "tac god"], &["1", "2"], 2, cx.tier(3, 4), &|f, p| {
            cx.run(self, f, p);
        });
        hist::alphabet(cx, "H9", "en", &["t", "id", "b"], "id", &["cat", "rat", "é"], &["1"], 3, cx.tier(3, 4), &|f, p| {
            cx.run(self, f, p);
        });
        hist::alphabet(cx, "H7", "verbatim", &["b"], "id", &["", "a", "ab a", "ab ab b"], &["1", "2", "3"], 1, cx.tier(4, 6), &|f, p| {
            cx.run(self, f, p);
        });
    }
    fn eval(&self, cx: &Cx, _fam: &str, p: &str) -> Result<(), String> {
        let h = Hist::parse(p)?;
        let mut seen = BTreeSet::new();
        if h.ops.iter().all(|o| seen.insert(&o.0)) {
            return Ok(());
        }
        let m = h.model();
        tally(cx, &h, &m);
        let x = Export::of(&h.run())?;
        let docs = x.docs()?;
        if x.length()? != m.docs.len() as u64 {
            return Err(format!("{} documents are counted as {}", m.docs.len(), x.length()?));
        }
        for (r, want) in &m.docs {
            if docs.get(r) != Some(want) {
                return Err(format!("stored document {:?} is {:?}, its last addition gave {:?}", r, docs.get(r), want));
            }
        }
        let lens = x.lens()?;
        for (i, f) in h.fields.iter().enumerate() {
            let t = x.trie(f)?;
            for (r, last) in &m.last {
                let Some(c) = &last[i] else { continue };
                let n: u64 = c.values().sum();
                let got = lens.get(r).and_then(|d| d.get(f)).copied();
                if got != Some(n) {
                    return Err(format!("document {:?}: length of field {:?} is {:?}, its last text has {} terms", r, f, got, n));
                }
                for (term, n) in c {
                    let tf = t.get(term).and_then(|x| x.1.get(r)).copied();
                    if !tf.is_some_and(|tf| sqrt_ok(tf, *n)) {
                        return Err(format!("field {:?}: term {:?} occurs {} times in the last text of document {:?}, its frequency is {:?}", f, term, n, r, tf));
                    }
                }
            }
            for (term, (df, docs)) in &t {
                if *df != docs.len() as f64 {
                    return Err(format!("field {:?}: document frequency {} of {:?}, which lists {} documents", f, df, term, docs.len()));
                }
                let want = m.index[i].get(term).map_or(0, |w| w.len());
                if docs.len() != want {
                    return Err(format!("field {:?}: term {:?} lists {} documents instead of {}", f, term, docs.len(), want));
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "the histories of C01 that add a reference more than once, and further ones; a state is the model of one history"
    }
}

/// C05: orders, contexts and interleavings. The oracle is the code itself.
pub struct C05;

/// The parts of an export that concern one document: its text, its lengths, its postings.
fn part(x: &Export, fields: &[String], r: &str) -> Result<(String, BTreeMap<String, Vec<(String, f64)>>), String> {
    let mut terms = BTreeMap::new();
    for f in fields {
        let mut v = vec![];
        for (t, (_, docs)) in x.trie(f)? {
            if let Some(tf) = docs.get(r) {
                v.push((t, *tf));
            }
        }
        terms.insert(f.clone(), v);
    }
    let get = |k: &str| -> Result<String, String> {
        Ok(match x.store()?.get(k)?.obj()?.iter().find(|e| e.0 == r) {
            Some(e) => format!("{:?}", flat(&e.1)),
            None => "none".into(),
        })
    };
    Ok((format!("{} {}", get("docs")?, get("docInfo")?), terms))
}
fn flat(j: &J) -> BTreeMap<String, String> {
    j.obj().map(|o| o.iter().map(|e| (e.0.clone(), format!("{:?}", e.1))).collect()).unwrap_or_default()
}

fn base(h: &Hist) -> Index {
    h.make()
}

impl C05 {
    /// Indexes of one document with k occurrences of a term, for k in steps through 1..n, wrapping around (or
    /// for the few k next to multiples of a large step): each is as it is alone.
    fn counts(&self, cx: &Cx, p: &str) -> Result<(), String> {
        let v: Value = serde_json::from_str(p).map_err(|e| e.to_string())?;
        let (n, step) = (v["n"].as_u64().unwrap(), v["step"].as_u64().unwrap());
        let mut ks: Vec<u64> = if n > 20000 {
            (0..=n / step + 1).flat_map(|k| [(k * step).saturating_sub(1), k * step, k * step + 1, k + 1]).filter(|&k| k > 0 && k <= n + 1).collect()
        } else {
            (0..step).flat_map(|a| (a..n).step_by(step as usize)).map(|k| k + 1).collect()
        };
        if v["up"] == false {
            ks.reverse();
        }
        let mut held = elasticlunr::IndexBuilder::new().add_field("t").build();
        for &k in &ks {
            let t = "cat ".repeat(k as usize);
            let mut ix = elasticlunr::IndexBuilder::new().add_field("t").build();
            ix.add_doc("1", [&t]);
            cx.count("transitions", 1);
            let x = Export::of(&ix)?;
            let tf = x.trie("t")?.get("cat").and_then(|e| e.1.get("1")).copied();
            if !tf.is_some_and(|f| sqrt_ok(f, k)) || x.lens()?["1"]["t"] != k {
                return Err(format!("after others an index with {} occurrences of a term gives it the frequency {:?}", k, tf));
            }
            if k % 16 == 0 {
                held.add_doc(&k.to_string(), [&t]);
            }
        }
        let t = Export::of(&held)?.trie("t")?;
        for (r, f) in t.get("cat").map(|e| &e.1).into_iter().flatten() {
            if !sqrt_ok(*f, r.parse().unwrap()) {
                return Err(format!("document {} of an index has the frequency {} for as many occurrences", r, f));
            }
        }
        cx.count("traces", ks.len() as u64);
        cx.outcome(p);
        Ok(())
    }
    fn perms(&self, h: &Hist) -> Result<(), String> {
        let n = h.ops.len();
        let first = h.run();
        let (a, b) = (first.to_json(), first.to_json_pretty());
        let again = h.run();
        if again.to_json() != a || first.to_json() != a || again.to_json_pretty() != b {
            return Err("doing the same twice gives different bytes".into());
        }
        let mut idx: Vec<usize> = (0..n).collect();
        // Heap's algorithm.
        let mut c = vec![0; n];
        let mut i = 0;
        while i < n {
            if c[i] < i {
                if i % 2 == 0 {
                    idx.swap(0, i);
                } else {
                    idx.swap(c[i], i);
                }
                let mut ix = base(h);
                for &k in &idx {
                    ix.add_doc(&h.ops[k].0, &h.ops[k].1);
                }
                if ix.to_json() != a || ix.to_json_pretty() != b {
                    return Err(format!("adding the documents in the order {:?} gives a different export", idx.iter().map(|&k| &h.ops[k].0).collect::<Vec<_>>()));
                }
                c[i] += 1;
                i = 0;
            } else {
                c[i] = 0;
                i += 1;
            }
        }
        Ok(())
    }

    /// Each document has the same part in the index of every subset it is in as alone.
    fn subsets(&self, h: &Hist) -> Result<(), String> {
        let n = h.ops.len();
        let mut alone = vec![];
        for o in &h.ops {
            let mut ix = base(h);
            ix.add_doc(&o.0, &o.1);
            alone.push(part(&Export::of(&ix)?, &h.fields, &o.0)?);
        }
        for set in 0..1usize << n {
            if set.count_ones() < 2 {
                continue;
            }
            let mut ix = base(h);
            for (k, o) in h.ops.iter().enumerate() {
                if set >> k & 1 == 1 {
                    ix.add_doc(&o.0, &o.1);
                }
            }
            let x = Export::of(&ix)?;
            for (k, o) in h.ops.iter().enumerate() {
                if set >> k & 1 == 1 && part(&x, &h.fields, &o.0)? != alone[k] {
                    return Err(format!("document {:?} is held differently beside others than alone", o.0));
                }
                if set >> k & 1 == 0 && part(&x, &h.fields, &o.0)?.0 != "none none" {
                    return Err(format!("document {:?} is held though it was not added", o.0));
                }
            }
        }
        Ok(())
    }

    /// A field's postings and lengths are those of an index that has only this field.
    fn fields(&self, h: &Hist) -> Result<(), String> {
        let x = Export::of(&h.run())?;
        for (i, f) in h.fields.iter().enumerate() {
            let mut ix = Hist { fields: vec![f.clone()], ops: vec![], ..h.clone() }.make();
            for (r, d) in &h.ops {
                ix.add_doc(r, &d[i..=i]);
            }
            let y = Export::of(&ix)?;
            if !x.j.get("index")?.get(f)?.same(y.j.get("index")?.get(f)?) {
                return Err(format!("the postings of field {:?} are others beside other fields than alone", f));
            }
            for r in h.ops.iter().map(|o| &o.0) {
                let get = |x: &Export| -> Result<(Option<u64>, Option<String>), String> {
                    Ok((
                        x.lens()?.get(r).and_then(|d| d.get(f)).copied(),
                        x.docs()?.get(r).and_then(|d| d.get(f)).cloned(),
                    ))
                };
                if get(&x)? != get(&y)? {
                    return Err(format!("field {:?} of document {:?} is {:?} beside other fields, {:?} alone", f, r, get(&x)?, get(&y)?));
                }
            }
        }
        Ok(())
    }

    /// Two indexes built in every interleaving are as if built one after the other.
    fn interleave(&self, a: &Hist, b: &Hist) -> Result<(), String> {
        let (x, y) = (a.run().to_json(), b.run().to_json());
        let (n, m) = (a.ops.len(), b.ops.len());
        for mask in 0..1usize << (n + m) {
            if mask.count_ones() as usize != n {
                continue;
            }
            let (mut ia, mut ib, mut i, mut j) = (a.make(), b.make(), 0, 0);
            for k in 0..n + m {
                if mask >> k & 1 == 1 {
                    ia.add_doc(&a.ops[i].0, &a.ops[i].1);
                    i += 1;
                } else {
                    ib.add_doc(&b.ops[j].0, &b.ops[j].1);
                    j += 1;
                }
            }
            if ia.to_json() != x || ib.to_json() != y {
                return Err("an index is different when another one is built in between".into());
            }
        }
        Ok(())
    }
}

impl Check for C05 {
    fn explore(&self, cx: &Cx) {
        let run = |f: &str, p: &str| {
            cx.run(self, f, p);
        };
        // All sets of documents over two fields, all orders of adding them, all subsets.
        let texts = ["", "cat", "dog cat", "ca cats"];
        let combos: Vec<Vec<&str>> = (0..16).map(|k| vec![texts[k % 4], texts[k / 4]]).collect();
        for (fam, refs) in [("order", ["1", "2", "10", "a"]), ("order", ["é", "", "1 ", "Z"])] {
            let d = cx.tier(3, 4);
            for n in 2..=4 {
                let k = if n == 4 && d == 3 { 5 } else { 16 };
                cx.par(usize::pow(k, n as u32), |mut i| {
                    let mut ops = vec![];
                    for r in refs.iter().take(n) {
                        ops.push((*r, combos[(i % k) * 16 / k].clone()));
                        i /= k;
                    }
                    run(fam, &hist::payload("en", &["t", "b"], "id", true, &ops));
                });
            }
        }
        // Texts that agree in much.
        let much = ["red cat sat", "red dog sat", "red tac sat", "red sat", "rad cat sat", "red cat sit", "cat red sat"];
        for (lang, refs) in [("en", ["1", "2", "3"]), ("verbatim", ["b", "a", "c"])] {
            cx.par(343, |i| {
                let ops: Vec<(&str, Vec<&str>)> = (0..3).map(|k| (refs[k], vec![much[i / 7usize.pow(k as u32) % 7], much[(i + k) % 7]])).collect();
                run("order", &hist::payload(lang, &["t", "b"], "id", true, &ops));
                let one: Vec<(&str, Vec<&str>)> = ops.iter().map(|o| (o.0, vec![o.1[0]])).collect();
                run("order", &hist::payload(lang, &["b"], "id", true, &one));
            });
        }
        // Field contexts: all histories over three fields.
        let t3 = ["", "cat", "dog cat", "ca the"];
        hist::alphabet(cx, "fields", "en", &["b", "a", "c"], "id", &t3, &["1", "2"], 3, 2, &run);
        hist::alphabet(cx, "fields", "verbatim", &["b", "ba"], "id", &["", "x", "xy x", "y xy"], &["1", "2"], 2, cx.tier(2, 3), &run);
        // Two indexes with the same and with different settings, interleaved.
        let t = [vec!["cat", "dog"], vec!["", "cat cat"], vec!["ca", ""]];
        let mut pairs = vec![];
        for la in ["en", "verbatim"] {
            for i in 0..27 {
                for j in 0..27 {
                    let mk = |lang: &str, f: &[&str], k: usize| {
                        hist::payload(lang, f, "id", true, &[
                            ("1", t[k % 3].clone()),
                            ("2", t[k / 3 % 3].clone()),
                            (if k / 9 == 1 { "1" } else { "3" }, t[k / 9].clone()),
                        ])
                    };
                    pairs.push(format!("[{},{}]", mk("en", &["t", "b"], i), mk(la, &["b", "t"], j)));
                }
            }
        }
        cx.par(pairs.len(), |i| run("pair", &pairs[i]));
        // All languages: order, subsets, and interleaving with every other language.
        let ls = crate::langs::LANGS;
        let mut jobs = vec![];
        for l in ls {
            let t = crate::data::texts(l.code);
            // Loading the dictionaries of Chinese and Japanese takes long.
            let k = if l.ws || !cx.quick() { t.len() } else { 2 };
            for i in 0..k * k * k {
                let ops = [("1", vec![t[i % k + t.len() - k]]), ("2", vec![t[i / k % k + t.len() - k]]), ("3", vec![t[i / k / k + t.len() - k]])];
                jobs.push(("order", hist::payload(l.code, &["b"], "id", true, &ops)));
            }
            for o in ls {
                if cx.quick() && !(l.ws && o.ws) && !matches!((l.code, o.code), ("en", "ja") | ("zh", "en") | ("ja", "zh")) {
                    continue;
                }
                let u = crate::data::texts(o.code);
                let mk = |c: &str, t: &[&str]| hist::payload(c, &["b"], "id", true, &[("1", vec![t[1]]), ("2", vec![t[2]]), ("3", vec![t[3]])]);
                jobs.push(("pair", format!("[{},{}]", mk(l.code, t), mk(o.code, u))));
            }
        }
        cx.par(jobs.len(), |i| run(jobs[i].0, &jobs[i].1));
        // Larger ones: rotations and the reverse of many documents.
        let mut gens = vec![];
        for n in 0..=cx.tier(120, 400) {
            gens.push(json!({"gen": "docs", "n": n}).to_string());
        }
        for n in [255, 256, 257, 513, 1025, 3000, 4097, 10001, 40001] {
            gens.push(json!({"gen": "docs", "n": n}).to_string());
        }
        cx.par(gens.len(), |i| run("rotate", &gens[gens.len() - 1 - i]));
        // The same twice, for histories of many kinds.
        let mut gens = vec![];
        for n in (0..=cx.tier(120, 400)).chain([255, 256, 257, 600]) {
            for g in ["count", "terms", "fields", "readd", "lens", "words", "twice", "fall", "odd", "wide", "equal", "long", "longu", "alike", "crowd"] {
                gens.push(json!({"gen": g, "n": n}).to_string());
            }
        }
        cx.par(gens.len(), |i| run("twice", &gens[gens.len() - 1 - i]));
        // Numbers: indexes with all counts up to a bound, one after another in one thread, in several orders.
        let mut orders = vec![];
        for step in [1, 2, 3, 7, 255, 256, 257, 1021] {
            for up in [true, false] {
                orders.push(json!({"n": cx.tier(1200, 6000), "step": step, "up": up}).to_string());
            }
        }
        for n in [65536, 65537] {
            for step in [65535, 32768, 65536] {
                orders.push(json!({"n": n + 2, "step": step, "up": true}).to_string());
            }
        }
        cx.par(orders.len(), |i| run("counts", &orders[i]));
    }

    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        if fam == "pair" {
            let v: Value = serde_json::from_str(p).map_err(|e| e.to_string())?;
            let (a, b) = (Hist::parse(&v[0].to_string())?, Hist::parse(&v[1].to_string())?);
            cx.count("transitions", (20 * (a.ops.len() + b.ops.len())) as u64);
            cx.count("traces", 21);
            cx.outcome(&hash(&(a.model(), b.model())));
            return self.interleave(&a, &b);
        }
        if fam == "counts" {
            return self.counts(cx, p);
        }
        let h = Hist::parse(p)?;
        let m = h.model();
        tally(cx, &h, &m);
        match fam {
            "order" => {
                let n = h.ops.len() as u64;
                let f: u64 = (1..=n).product();
                cx.count("traces", f + (1 << n));
                cx.count("transitions", n * (f + (1 << (n - 1))));
                self.perms(&h)?;
                self.subsets(&h)
            }
            "fields" => self.fields(&h),
            "twice" => {
                let a = h.run();
                let (x, y) = (a.to_json(), a.to_json_pretty());
                for _ in 0..2 {
                    let b = h.run();
                    if b.to_json() != x || b.to_json_pretty() != y || a.to_json() != x {
                        return Err("doing the same twice gives different bytes".into());
                    }
                }
                Ok(())
            }
            "rotate" => {
                let want = h.run().to_json();
                let n = h.ops.len();
                for k in [n / 2, n / 3, n.saturating_sub(1)] {
                    let mut ix = h.make();
                    for (r, d) in h.ops[k..].iter().chain(&h.ops[..k]) {
                        ix.add_doc(r, d);
                    }
                    if ix.to_json() != want {
                        return Err(format!("adding the documents starting with number {} gives a different export", k));
                    }
                }
                let mut ix = h.make();
                for (r, d) in h.ops.iter().rev() {
                    ix.add_doc(r, d);
                }
                if ix.to_json() != want {
                    return Err("adding the documents in reverse order gives a different export".into());
                }
                // The first, the middle and the last documents by themselves.
                let few: BTreeSet<usize> = [0, 1, 2, 3, n / 2, n / 2 + 1, n.saturating_sub(2), n.saturating_sub(1)].into_iter().filter(|&k| k < n).collect();
                let mut ix = h.make();
                for &k in &few {
                    ix.add_doc(&h.ops[k].0, &h.ops[k].1);
                }
                let (x, all) = (Export::of(&ix)?, Export { j: json::parse(&want)? });
                for &k in &few {
                    let r = &h.ops[k].0;
                    if part(&x, &h.fields, r)? != part(&all, &h.fields, r)? {
                        return Err(format!("document {:?} among {} others is not held as among few", r, n - 1));
                    }
                }
                Ok(())
            }
            _ => Err(format!("harness: no family {}", fam)),
        }
    }
    fn rule(&self) -> &'static str {
        "all sets of up to four documents in all orders and subsets, all histories of three fields against one-field indexes, all interleavings of two indexes, all languages; a state is the model of one history"
    }
}
