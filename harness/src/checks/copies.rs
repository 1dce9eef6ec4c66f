//! C32: copies, parsed copies and comparisons of the two stores.

use crate::engine::{hash, seq_at, seq_total, Check, Cx};
use crate::json::{self, quote};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct C32;

fn js<T: serde::Serialize>(t: &T) -> Result<String, String> {
    serde_json::to_string(t).map_err(|e| format!("an export fails: {}", e))
}
/// All ways to parse an export.
fn parsed<T: serde::de::DeserializeOwned>(s: &str) -> Result<Vec<T>, String> {
    let v: Value = serde_json::from_str(s).map_err(|e| format!("an export is not JSON: {}", e))?;
    let e = |e: serde_json::Error| format!("an export is refused: {}: {}", e, s.chars().take(300).collect::<String>());
    Ok(vec![
        serde_json::from_str(s).map_err(e)?,
        serde_json::from_slice(s.as_bytes()).map_err(e)?,
        serde_json::from_reader(s.as_bytes()).map_err(e)?,
        serde_json::from_str(&serde_json::to_string_pretty(&v).unwrap()).map_err(e)?,
        serde_json::from_value(v).map_err(e)?,
    ])
}

// Operations, as JSON: ["add",doc,term,freq], ["rm",doc,term]; ["doc",ref,{..}], ["del",ref], ["len",ref,field,n].

fn on_index(ix: &mut InvertedIndex, op: &Value) {
    let s = |i: usize| op[i].as_str().unwrap();
    match s(0) {
        "add" => ix.add_token(s(1), s(2), op[3].as_f64().unwrap()),
        _ => ix.remove_token(s(1), s(2)),
    }
}
fn index(ops: &[Value]) -> InvertedIndex {
    let mut ix = InvertedIndex::new();
    ops.iter().for_each(|o| on_index(&mut ix, o));
    ix
}
fn on_store(st: &mut DocumentStore, op: &Value) {
    let s = |i: usize| op[i].as_str().unwrap();
    match s(0) {
        "doc" => st.add_doc(s(1), op[2].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()),
        "del" => st.remove_doc(s(1)),
        _ => st.add_field_length(s(1), s(2), op[3].as_u64().unwrap() as usize),
    }
}
fn store(save: bool, ops: &[Value]) -> DocumentStore {
    let mut st = DocumentStore::new(save);
    ops.iter().for_each(|o| on_store(&mut st, o));
    st
}

/// Everything the functions of an inverted index tell.
fn told(ix: &InvertedIndex, ops: &[Value]) -> Vec<String> {
    let mut v = vec![];
    // Of many operations, the first and the last ones.
    for o in ops.iter().take(40).chain(ops.iter().skip(40.max(ops.len().saturating_sub(40)))) {
        let (d, t) = (o[1].as_str().unwrap(), o[2].as_str().unwrap());
        for t in [t.to_string(), format!("{}b", t), t.chars().take(1).collect()] {
            v.push(format!("{:?}: {} {} {:?} {:?}", t, ix.has_token(&t), ix.get_doc_frequency(&t), ix.get_docs(&t), ix.get_term_frequency(d, &t)));
        }
    }
    v
}
/// Everything the functions and the public fields of a document store tell.
fn held(st: &DocumentStore, ops: &[Value]) -> Result<Vec<String>, String> {
    let mut v = vec![format!("{} {} {}", st.len(), st.is_empty(), st.is_stored())];
    let refs: BTreeSet<&str> = ops.iter().map(|o| o[1].as_str().unwrap()).chain(["none"]).collect();
    let fields: BTreeSet<&str> = ops.iter().filter(|o| o[0] == "len").map(|o| o[2].as_str().unwrap()).chain(["none"]).collect();
    for r in refs {
        v.push(format!("{:?}: {} {:?}", r, st.has_doc(r), st.get_doc(r)));
        for &f in &fields {
            v.push(format!("{:?}", st.get_field_length(r, f)));
        }
        if st.docs.get(r) != st.get_doc(r).as_ref() {
            return Err(format!("document {:?} is {:?} in the field docs, {:?} otherwise", r, st.docs.get(r), st.get_doc(r)));
        }
        if st.has_doc(r) {
            for (f, n) in st.doc_info.get(r).into_iter().flatten() {
                if *n != st.get_field_length(r, f) {
                    return Err(format!("the length of {:?} of {:?} is {} in the field doc_info, {} otherwise", f, r, n, st.get_field_length(r, f)));
                }
            }
        }
    }
    if st.length != st.len() || st.docs.len() != st.len() || st.save != st.is_stored() {
        return Err(format!("the field length is {}, save is {}, but there are {} documents", st.length, st.save, st.len()));
    }
    Ok(v)
}

impl C32 {
    fn index(&self, cx: &Cx, h: &[Value], then: &[Value]) -> Result<(), String> {
        let a = index(h);
        let ja = js(&a)?;
        let whole: Vec<Value> = h.iter().chain(then).cloned().collect();
        let all = index(&whole);
        let (jall, tall, ta) = (js(&all)?, told(&all, &whole), told(&a, &whole));
        for (k, mut b) in parsed::<InvertedIndex>(&ja)?.into_iter().enumerate() {
            if b != a || a != b {
                return Err(format!("what way {} of parsing makes of an inverted index does not equal it: {}", k, ja));
            }
            if js(&b)? != ja || told(&b, &whole) != ta {
                return Err(format!("what way {} of parsing makes of an inverted index differs from it: {}", k, ja));
            }
            then.iter().for_each(|o| on_index(&mut b, o));
            if b != all || js(&b)? != jall || told(&b, &whole) != tall {
                return Err(format!("a parsed inverted index goes on to {} instead of {}", js(&b)?, jall));
            }
            if (a == b) != (ja == jall) {
                return Err(format!("{} and {} are compared as {}", ja, jall, a == b));
            }
        }
        if js(&a)? != ja {
            return Err("an inverted index was changed through what was parsed from its export".into());
        }
        cx.outcome(&hash(&jall));
        Ok(())
    }

    fn store(&self, cx: &Cx, save: bool, h: &[Value], then: &[Value]) -> Result<(), String> {
        let mut a = store(save, h);
        let ja = js(&a)?;
        let whole: Vec<Value> = h.iter().chain(then).cloned().collect();
        let all = store(save, &whole);
        let (jall, tall, ta) = (js(&all)?, held(&all, &whole)?, held(&a, &whole)?);
        let mut copies = parsed::<DocumentStore>(&ja)?;
        copies.push(a.clone());
        copies.push(a.clone().clone());
        let mut over = all.clone();
        over.clone_from(&a);
        copies.push(over);
        for (k, b) in copies.iter_mut().enumerate() {
            if js(b)? != ja || held(b, &whole)? != ta {
                return Err(format!("copy {} of a document store is {} instead of {}", k, js(b)?, ja));
            }
            then.iter().for_each(|o| on_store(b, o));
            if js(b)? != jall || held(b, &whole)? != tall {
                return Err(format!("copy {} of a document store goes on to {} instead of {}", k, js(b)?, jall));
            }
        }
        if js(&a)? != ja || held(&a, &whole)? != ta {
            return Err(format!("a document store was changed through its copies: {} instead of {}", js(&a)?, ja));
        }
        // And the other way round: the original goes on, the copy stays.
        let b = a.clone();
        then.iter().for_each(|o| on_store(&mut a, o));
        if js(&a)? != jall || js(&b)? != ja || held(&a, &whole)? != tall || held(&b, &whole)? != ta {
            return Err(format!("a document store that was copied goes on to {} instead of {}", js(&a)?, jall));
        }
        cx.outcome(&hash(&(save, jall)));
        Ok(())
    }
}

impl Check for C32 {
    fn explore(&self, cx: &Cx) {
        let mut ops: Vec<String> = vec![];
        for d in ["1", "2"] {
            for t in ["a", "ab", "é", ""] {
                for f in ["1", "2.5"] {
                    ops.push(format!("[\"add\",{},{},{}]", quote(d), quote(t), f));
                }
                ops.push(format!("[\"rm\",{},{}]", quote(d), quote(t)));
            }
        }
        let pick = |n: usize, i: usize, ops: &[String]| -> String {
            let mut v = vec![];
            seq_at(n, i, &mut v);
            v.iter().map(|&k| ops[k].as_str()).collect::<Vec<_>>().join(",")
        };
        let n = ops.len();
        // A history, a copy, and what comes after it.
        for (before, after) in [(2, 1), (1, 2)].into_iter().chain((!cx.quick()).then_some((3, 1))).chain((!cx.quick()).then_some((2, 2))) {
            cx.par(seq_total(n, before), |i| {
                let h = pick(n, i, &ops);
                for j in 0..seq_total(n, after) {
                    cx.run(self, "index", &format!("{{\"h\":[{}],\"then\":[{}]}}", h, pick(n, j, &ops)));
                }
            });
        }
        // Comparison: all pairs of short histories.
        let few: Vec<String> = ops.iter().step_by(cx.tier(2, 1)).cloned().collect();
        let m = seq_total(few.len(), 2);
        cx.par(m, |i| {
            let h = pick(few.len(), i, &few);
            for j in 0..m {
                cx.run(self, "pair", &format!("{{\"h\":[{}],\"then\":[{}]}}", h, pick(few.len(), j, &few)));
            }
        });
        let mut sops: Vec<String> = vec![];
        for r in ["1", "2"] {
            for d in ["{}", "{\"t\":\"cat\"}", "{\"b\":\"\",\"t\":\"é\"}"] {
                sops.push(format!("[\"doc\",{},{}]", quote(r), d));
            }
            sops.push(format!("[\"del\",{}]", quote(r)));
            for (f, n) in [("t", 0), ("t", 3), ("b", 1)] {
                sops.push(format!("[\"len\",{},{},{}]", quote(r), quote(f), n));
            }
        }
        let n = sops.len();
        for (before, after) in [(3, 1), (2, 2)].into_iter().chain((!cx.quick()).then_some((3, 2))).chain((!cx.quick()).then_some((4, 1))) {
            cx.par(seq_total(n, before), |i| {
                let h = pick(n, i, &sops);
                for j in 0..seq_total(n, after) {
                    for save in [true, false] {
                        cx.run(self, "store", &format!("{{\"save\":{},\"h\":[{}],\"then\":[{}]}}", save, h, pick(n, j, &sops)));
                    }
                }
            });
        }
        // Sizes.
        let mut p: Vec<(&str, String)> = vec![];
        for n in (0..cx.tier(70, 300)).chain([255, 256, 257, 1000, 5000]) {
            let w = crate::hist::word;
            let terms: Vec<Value> = (0..n).map(|i| json!(["add", "1", w(i), 1.5])).collect();
            let docs: Vec<Value> = (0..n).map(|i| json!(["add", format!("d{}", i), "ab", 0.1 + i as f64])).collect();
            for h in [&terms, &docs] {
                p.push(("index", json!({"h": h, "then": [["add", "x", "ab", 3.25], ["rm", "d0", "ab"], ["rm", "1", w(n / 2)]]}).to_string()));
                p.push(("pair", json!({"h": h, "then": h.iter().rev().collect::<Vec<_>>()}).to_string()));
                p.push(("pair", json!({"h": h, "then": &h[..h.len().saturating_sub(1)]}).to_string()));
            }
            let mut s: Vec<Value> = (0..n).map(|i| json!(["doc", format!("d{}", i), {"t": w(i)}])).collect();
            s.extend((0..n).map(|i| json!(["len", format!("d{}", i / 2), format!("f{}", i % 7), i])));
            let long: BTreeMap<String, String> = (0..n).map(|i| (format!("f{}", i), "é ".repeat(i))).collect();
            p.push(("store", json!({"save": true, "h": s, "then": [["del", "d1"], ["doc", "x", {"t": "y"}], ["len", "d0", "t", 1]]}).to_string()));
            if n < 300 {
                p.push(("store", json!({"save": true, "h": [["doc", "1", long]], "then": [["doc", "2", {}], ["del", "1"]]}).to_string()));
            }
            if n <= 50 {
                p.push(("index", json!({"h": [["add", "1", "é".repeat(n), 2]], "then": [["add", "2", "é".repeat(n + 1), 2], ["rm", "1", "é".repeat(n)]]}).to_string()));
            }
        }
        // Terms of n characters, and others that differ from them in one place, whichever, or have one more.
        for n in (1..cx.tier(140, 400)).chain([255, 256, 257, 511, 512, 513, 1000, 1024, 1025]) {
            let with = |k: usize| (0..n).map(|i| if i == k { 'q' } else { ['a', 'é'][i % 2] }).collect::<String>();
            let a = json!([["add", "1", with(n), 1]]);
            for t in [with(0), with(n / 2), with(n - 1), with(n), with(n) + "a"] {
                p.push(("pair", json!({"h": a, "then": [["add", "1", t, 1]]}).to_string()));
                p.push(("pair", json!({"h": a, "then": [["add", "1", with(n), 1], ["add", "1", t, 1]]}).to_string()));
            }
            p.push(("pair", json!({"h": a, "then": [["add", "1", with(n), 2]]}).to_string()));
            p.push(("pair", json!({"h": a, "then": [["add", "2", with(n), 1]]}).to_string()));
            p.push(("pair", json!({"h": a, "then": [["add", "1", with(n), 1], ["rm", "1", with(n)]]}).to_string()));
        }
        for n in [20001, 65537] {
            let docs: Vec<Value> = (0..n).map(|i| json!(["add", format!("d{}", i), (["a", "ab"][i % 2]), 1])).collect();
            p.push(("pair", json!({"h": docs, "then": docs[..n - 1]}).to_string()));
            p.push(("pair", json!({"h": docs, "then": docs}).to_string()));
        }
        // Frequencies of all sizes.
        for f in [0.0, 0.1, 1.0 / 3.0, 2.0f64.sqrt(), 1e-300, 5e-324, 1e300, 123456789.123456789, -1.0, 4503599627370497.5, 9007199254740993.0] {
            for g in [0.1, 1.0, 0.30000000000000004] {
                p.push(("index", json!({"h": [["add", "1", "a", f]], "then": [["add", "2", "a", g]]}).to_string()));
                p.push(("pair", json!({"h": [["add", "1", "a", f]], "then": [["add", "1", "a", g]]}).to_string()));
                p.push(("pair", json!({"h": [["add", "1", "a", f]], "then": [["add", "1", "a", f * (1.0 + f64::EPSILON)]]}).to_string()));
            }
        }
        cx.par(p.len(), |i| {
            cx.run(self, p[i].0, &p[i].1);
        });
        // Every character of one UTF-16 unit, in terms, references, fields and texts.
        crate::engine::par_scalars(cx, |c| {
            let s = c.to_string();
            let t = format!("a{}b", c);
            cx.run(self, "index", &json!({"h": [["add", s, s, 1], ["add", "1", t, 2]], "then": [["rm", s, s], ["add", t, t, 1]]}).to_string());
            cx.run(self, "store", &json!({"save": true, "h": [["doc", s, {s.clone(): s}], ["len", s, s, 3]], "then": [["doc", t, {t.clone(): t}], ["del", s]]}).to_string());
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: {}", e))?;
        let (h, then) = (v["h"].as_array().unwrap(), v["then"].as_array().unwrap());
        cx.count("traces", 1);
        cx.count("transitions", (h.len() + then.len()) as u64);
        cx.sample(|| format!("{} {}", fam, p.chars().take(300).collect::<String>()));
        match fam {
            "index" => self.index(cx, h, then),
            "store" => self.store(cx, v["save"].as_bool().unwrap(), h, then),
            _ => {
                let (a, b) = (index(h), index(then));
                let (ja, jb) = (js(&a)?, js(&b)?);
                cx.outcome(&hash(&(&ja, &jb)));
                let same = json::parse(&ja)?.same(&json::parse(&jb)?);
                if (a == b) != same || (b == a) != same || (a != b) == same {
                    return Err(format!("two inverted indexes are compared as {}, {}; they export {} and {}", a == b, b == a, ja, jb));
                }
                Ok(())
            }
        }
    }
    fn rule(&self) -> &'static str {
        "all histories of up to two or three operations, copied or parsed in five ways, followed by all of up to one or two more; all pairs of short histories compared; sweeps of sizes; every Unicode character; a state is the export at the end"
    }
}
