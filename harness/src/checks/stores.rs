//! C02, C03: the inverted index and the document store, driven directly.

use crate::engine::{hash, par_scalars, seq_at, seq_total, Check, Cx};
use crate::hist::trie;
use crate::json::{self, quote};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;

/// Breadth-first search: every operation in every state, states told apart by a key that determines
/// everything the implementation can do next. Returns (states, transitions, depth).
fn bfs(
    cx: &Cx,
    check: &dyn Check,
    fam: &str,
    ops: &[String],
    enabled: &(dyn Fn(&[String], &str) -> bool + Sync),
    key: &(dyn Fn(&[String]) -> u64 + Sync),
    max_depth: usize,
) -> (usize, usize, usize) {
    let seen = Mutex::new(HashSet::new());
    let mut frontier: Vec<Vec<u16>> = vec![vec![]];
    seen.lock().unwrap().insert(key(&[]));
    let (mut trans, mut depth) = (0, 0);
    cx.run(check, fam, "[]");
    while !frontier.is_empty() && depth < max_depth && !cx.stopped() {
        let next = Mutex::new(vec![]);
        let done = std::sync::atomic::AtomicUsize::new(0);
        cx.par(frontier.len(), |i| {
            let mut h: Vec<String> = frontier[i].iter().map(|&k| ops[k as usize].clone()).collect();
            for (k, o) in ops.iter().enumerate() {
                if !enabled(&h, o) {
                    continue;
                }
                h.push(o.clone());
                let p = format!("[{}]", h.join(","));
                if !cx.run(check, fam, &p) {
                    return;
                }
                done.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let q = key(&h);
                if seen.lock().unwrap().insert(q) {
                    let mut x = frontier[i].clone();
                    x.push(k as u16);
                    next.lock().unwrap().push(x);
                }
                h.pop();
            }
        });
        trans += done.into_inner();
        frontier = next.into_inner().unwrap();
        frontier.sort();
        depth += 1;
    }
    let n = seen.into_inner().unwrap().len();
    cx.note(
        &format!("search {}", fam),
        format!(
            "{} states, {} transitions, depth {}{}",
            n,
            trans,
            depth,
            if frontier.is_empty() { ", closed" } else { ", cut off at this depth" }
        ),
    );
    (n, trans, depth)
}

fn sequences(cx: &Cx, check: &dyn Check, fam: &str, ops: &[String], depth: usize, enabled: &(dyn Fn(&[String], &str) -> bool + Sync)) {
    cx.par(seq_total(ops.len(), depth), |i| {
        let mut v = vec![];
        seq_at(ops.len(), i, &mut v);
        let h: Vec<String> = v.iter().map(|&k| ops[k].clone()).collect();
        if (0..h.len()).all(|k| enabled(&h[..k], &h[k])) {
            cx.run(check, fam, &format!("[{}]", h.join(",")));
        }
    });
}

// ---------------------------------------------------------------------------------------------- C02

pub struct C02;

fn add(d: &str, t: &str, f: f64) -> String {
    format!("[\"add\",{},{},{:?}]", quote(d), quote(t), f)
}
fn rm(d: &str, t: &str) -> String {
    format!("[\"rm\",{},{}]", quote(d), quote(t))
}

#[derive(Default)]
struct M2 {
    post: BTreeMap<String, BTreeMap<String, f64>>,
    prefixes: BTreeSet<String>,
    terms: BTreeSet<String>,
    docs: BTreeSet<String>,
}

fn ops2(p: &str) -> Result<Vec<(bool, String, String, f64)>, String> {
    let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: {}", e))?;
    if let Some(g) = v.get("gen") {
        return Ok(gen2(g.as_str().unwrap(), v["n"].as_u64().unwrap() as usize));
    }
    Ok(v.as_array()
        .unwrap()
        .iter()
        .map(|o| {
            let s = |k: usize| o[k].as_str().unwrap().to_string();
            (s(0) == "add", s(1), s(2), o[3].as_f64().unwrap_or(0.0))
        })
        .collect())
}

fn gen2(g: &str, n: usize) -> Vec<(bool, String, String, f64)> {
    let mut v = vec![];
    let mut a = |d: &str, t: &str, f: f64| v.push((true, d.to_string(), t.to_string(), f));
    match g {
        "len" => {
            let t: String = (0..n).map(|i| b"abcaacb"[i % 7] as char).collect();
            a("1", &t, 1.0);
            a("2", &format!("{}a", t), 2.0);
            a("1", &format!("{}b", t), 3.0);
            a("2", &t, 4.0);
            v.push((false, "1".into(), format!("{}a", t), 0.0));
            v.push((false, "1".into(), t.clone(), 0.0));
        }
        "docs" => {
            for i in 0..n {
                a(&i.to_string(), "ab", i as f64);
                if i % 2 == 0 {
                    a(&i.to_string(), "a", 1.0);
                }
            }
            for i in (0..n).step_by(3) {
                v.push((false, i.to_string(), "ab".into(), 0.0));
            }
            v.push((false, n.to_string(), "ab".into(), 0.0));
        }
        "terms" => {
            for i in 0..n {
                a("1", &crate::hist::word(i), i as f64);
            }
            for i in (0..n).step_by(3) {
                v.push((false, "1".into(), crate::hist::word(i), 0.0));
            }
        }
        "again" => {
            for i in 0..n {
                a("1", "ab", i as f64);
                a("2", "a", 1.0);
            }
            v.push((false, "1".into(), "ab".into(), 0.0));
            v.push((false, "1".into(), "ab".into(), 0.0));
        }
        // terms and references of n characters that differ in one place
        "alike" => {
            let at: Vec<usize> = (0..n).filter(|&p| p < 12 || p + 12 >= n || p == n / 2).collect();
            let with = |p: usize| (0..n).map(|i| if i == p { 'b' } else { 'a' }).collect::<String>();
            for (k, &p) in at.iter().enumerate() {
                for (l, &q) in at.iter().enumerate() {
                    a(&with(p), &with(q), (k * 50 + l) as f64);
                }
            }
            for (k, &p) in at.iter().enumerate() {
                v.push((true, with(p), with(at[(k + 1) % at.len()]), 0.5));
                v.push((false, with(p), with(p), 0.0));
                v.push((true, with(p), with(n), 1.5));
            }
        }
        "wide" => {
            // n children of one node
            let c = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap();
            for i in 0..n {
                v.push((true, "1".into(), format!("a{}", c(i)), 1.0));
            }
            for i in (0..n).step_by(2) {
                v.push((false, "1".into(), format!("a{}", c(i)), 1.0));
            }
        }
        "char" => {
            let c = char::from_u32(n as u32).unwrap();
            a("1", &format!("{}", c), 1.0);
            a("1", &format!("a{}", c), 2.0);
            a("2", &format!("{}a", c), 3.0);
            a("2", &format!("a{}{}b", c, c), 4.0);
            a(&format!("{}", c), &format!("{}", c), 5.0);
            v.push((false, "1".into(), format!("a{}", c), 0.0));
            v.push((false, "2".into(), format!("{}ab", c), 0.0));
            v.push((false, "2".into(), format!("{}a", c), 0.0));
        }
        "char-rm" => {
            let c = char::from_u32(n as u32).unwrap();
            a("1", &format!("b{}", c), 1.0);
            a("2", &format!("b{}", c), 2.0);
            a("1", &format!("b{}x", c), 3.0);
            v.push((false, "1".into(), format!("b{}", c), 0.0));
            v.push((false, format!("{}", c), format!("b{}", c), 0.0));
            v.push((false, "2".into(), format!("b{}y", c), 0.0));
            v.push((true, "1".into(), format!("b{}", c), 7.0));
            v.push((false, "1".into(), format!("b{}x", c), 0.0));
        }
        _ => panic!("harness: no generator {}", g),
    }
    v
}

impl C02 {
    fn drive(ops: &[(bool, String, String, f64)]) -> (InvertedIndex, M2) {
        let mut ix = InvertedIndex::new();
        let mut m = M2::default();
        for (is_add, d, t, f) in ops {
            m.terms.insert(t.clone());
            m.docs.insert(d.clone());
            if *is_add {
                ix.add_token(d, t, *f);
                if !t.is_empty() {
                    m.post.entry(t.clone()).or_default().insert(d.clone(), *f);
                    let mut p = String::new();
                    for c in t.chars() {
                        p.push(c);
                        m.prefixes.insert(p.clone());
                    }
                }
            } else {
                ix.remove_token(d, t);
                if let Some(x) = m.post.get_mut(t) {
                    x.remove(d);
                }
            }
        }
        (ix, m)
    }
    fn parse(h: &[String]) -> Vec<(bool, String, String, f64)> {
        ops2(&format!("[{}]", h.join(","))).unwrap()
    }
}

impl Check for C02 {
    fn explore(&self, cx: &Cx) {
        let all = |_: &[String], _: &str| true;
        let key = |h: &[String]| {
            let (ix, m) = C02::drive(&C02::parse(h));
            hash(&(serde_json::to_string(&ix).unwrap(), m.prefixes))
        };
        let alpha = |terms: &[&str], docs: &[&str], tfs: &[f64]| -> Vec<String> {
            let mut v = vec![];
            for d in docs {
                for t in terms {
                    for f in tfs {
                        v.push(add(d, t, *f));
                    }
                    v.push(rm(d, t));
                }
            }
            v
        };
        // Terms nested in one another, two documents, two frequencies.
        let a1 = alpha(&["a", "ab", "abc", ""], &["1", "2"], &[1.0, 2.0]);
        bfs(cx, self, "nested", &a1, &all, &key, cx.tier(9, 64));
        let a2 = alpha(&["a", "aa", "b", "ba"], &["1", "2"], &[1.0]);
        bfs(cx, self, "branching", &a2, &all, &key, 64);
        let a3 = alpha(&["é", "éa", "日", "日本", "😀é", "a😀"], &["1"], &[1.5]);
        bfs(cx, self, "unicode", &a3, &all, &key, 64);
        let a4 = alpha(&["x", "xy"], &["1", "2", "10", ""], &[1.0]);
        bfs(cx, self, "docs", &a4, &all, &key, 64);
        let a5 = alpha(&["d", "df", "docs", "tf"], &["docs", "df"], &[1.0]);
        bfs(cx, self, "names", &a5, &all, &key, 64);
        let a6 = alpha(&["a", "ab"], &["1", "2"], &[-1.5, 0.0, 1e300, 5e-324]);
        bfs(cx, self, "numbers", &a6, &all, &key, cx.tier(4, 64));
        // All sequences, without telling states apart.
        let s1 = alpha(&["a", "ab", "b"], &["1", "2"], &[1.0]);
        sequences(cx, self, "sequences", &s1, cx.tier(5, 6), &all);
        let s2 = alpha(&["é", "aé"], &["1"], &[1.0, 3.0]);
        sequences(cx, self, "sequences", &s2, cx.tier(6, 8), &all);
        let mut gens = vec![];
        for n in 0..=cx.tier(200, 1100) {
            for g in ["len", "docs", "terms", "again", "wide"] {
                gens.push((g, n));
            }
            if n <= 150 {
                gens.push(("alike", n));
            }
        }
        for n in [255, 256, 257, 1000, 1024, 2048] {
            gens.push(("len", n));
        }
        for n in [255, 256, 257, 1023, 1024, 1025, 4096, 10000] {
            for g in ["docs", "terms", "again", "wide"] {
                gens.push((g, n));
            }
        }
        for n in [65535, 65536, 65537, 70000] {
            gens.push(("docs", n));
            gens.push(("terms", n));
            gens.push(("again", n));
        }
        gens.sort_by_key(|g| std::cmp::Reverse(g.1));
        cx.par(gens.len(), |i| {
            cx.run(self, "sweep", &format!("{{\"gen\":\"{}\",\"n\":{}}}", gens[i].0, gens[i].1));
        });
        for g in ["char", "char-rm"] {
            par_scalars(cx, |c| {
                cx.run(self, "char", &format!("{{\"gen\":\"{}\",\"n\":{}}}", g, c as u32));
            });
        }
    }

    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        let ops = ops2(p)?;
        let (ix, m) = C02::drive(&ops);
        cx.count("transitions", if fam == "sweep" || fam == "char" { ops.len() as u64 } else { 1 });
        cx.count("traces", 1);
        let js = serde_json::to_string(&ix).map_err(|e| e.to_string())?;
        cx.outcome(&js);
        cx.sample(|| p.chars().take(200).collect());
        let mut probes: BTreeSet<String> = m.prefixes.clone();
        if ops.len() < 50 {
            for t in &m.terms {
                for x in ["a", "b", "é", " "] {
                    probes.insert(format!("{}{}", t, x));
                    probes.insert(format!("{}{}", x, t));
                }
                let mut q = t.clone();
                q.pop();
                probes.insert(q);
            }
        }
        probes.extend(m.terms.iter().cloned());
        let empty = BTreeMap::new();
        let mut docs: Vec<&str> = m.docs.iter().map(|s| s.as_str()).collect();
        docs.push("never");
        for t in &probes {
            let want = m.post.get(t).unwrap_or(&empty);
            let got = ix.get_docs(t).unwrap_or_default();
            if &got != want {
                return Err(format!("term {:?} is reported for {:?} instead of {:?}", t, clip(&got), clip(want)));
            }
            let df = ix.get_doc_frequency(t);
            if df != want.len() as i64 {
                return Err(format!("term {:?} has document frequency {} instead of {}", t, df, want.len()));
            }
            if !t.is_empty() && ix.has_token(t) != m.prefixes.contains(t) {
                return Err(format!("has_token({:?}) is {} but it is {} a prefix of an added term", t, ix.has_token(t), if m.prefixes.contains(t) { "" } else { "not" }));
            }
            if ops.len() < 50 {
                for d in &docs {
                    let f = ix.get_term_frequency(d, t);
                    if f != want.get(*d).copied().unwrap_or(0.0) {
                        return Err(format!("term {:?} has frequency {} in document {:?} instead of {:?}", t, f, d, want.get(*d)));
                    }
                }
            } else {
                for (d, w) in want {
                    if ix.get_term_frequency(d, t) != *w {
                        return Err(format!("term {:?} has frequency {} in document {:?} instead of {:?}", t, ix.get_term_frequency(d, t), d, w));
                    }
                }
            }
        }
        // The serialized form holds the same.
        let t = trie(&json::parse(&js)?)?;
        for (term, (df, docs)) in &t {
            let want = m.post.get(term).unwrap_or(&empty);
            if docs != want || *df != want.len() as f64 {
                return Err(format!("term {:?} is exported with df {} for {:?} instead of {:?}", term, df, clip(docs), clip(want)));
            }
        }
        for (term, want) in &m.post {
            if !want.is_empty() && !t.contains_key(term) {
                return Err(format!("term {:?} of documents {:?} is not exported", term, clip(want)));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "breadth-first search over all operations on several alphabets, all operation sequences to a depth, sweeps, every Unicode character; a state is the serialized implementation, compared with the model by all queries"
    }
}

fn clip(m: &BTreeMap<String, f64>) -> BTreeMap<&String, &f64> {
    m.iter().take(8).collect()
}

// ---------------------------------------------------------------------------------------------- C03

pub struct C03;

type Doc = BTreeMap<String, String>;

#[derive(Default)]
struct M3 {
    docs: BTreeMap<String, Doc>,
    lens: BTreeMap<String, BTreeMap<String, u64>>,
    refs: BTreeSet<String>,
    fields: BTreeSet<String>,
}

#[derive(Clone)]
enum Op3 {
    Add(String, Doc),
    Rm(String),
    Len(String, String, u64),
}

fn doc(i: usize) -> Doc {
    match i {
        0 => Doc::new(),
        1 => [("t".to_string(), "eggs".to_string())].into(),
        _ => [("t".to_string(), "".to_string()), ("b".to_string(), "bread é".to_string())].into(),
    }
}

fn ops3(p: &str) -> Result<(Option<bool>, Vec<Op3>), String> {
    let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: {}", e))?;
    if let Some(g) = v.get("gen") {
        return Ok((None, gen3(g.as_str().unwrap(), v["n"].as_u64().unwrap() as usize)));
    }
    let ops = v
        .as_array()
        .unwrap()
        .iter()
        .map(|o| {
            let s = |k: usize| o[k].as_str().unwrap().to_string();
            match s(0).as_str() {
                "add" => Op3::Add(s(1), doc(o[2].as_u64().unwrap() as usize)),
                "rm" => Op3::Rm(s(1)),
                _ => Op3::Len(s(1), s(2), o[3].as_u64().unwrap()),
            }
        })
        .collect();
    Ok((None, ops))
}

fn gen3(g: &str, n: usize) -> Vec<Op3> {
    let mut v = vec![];
    let s = |i: usize| i.to_string();
    match g {
        "docs" => {
            for i in 0..n {
                v.push(Op3::Len(s(i), "t".into(), i as u64));
                v.push(Op3::Add(s(i), doc(i % 3)));
            }
            for i in (0..n).step_by(3) {
                v.push(Op3::Rm(s(i)));
            }
            for i in (0..n).step_by(6) {
                v.push(Op3::Add(s(i), doc(1)));
            }
            v.push(Op3::Rm(s(n + 1)));
        }
        "again" => {
            v.push(Op3::Add("2".into(), doc(2)));
            for i in 0..n {
                v.push(Op3::Len("1".into(), "t".into(), i as u64));
                v.push(Op3::Add("1".into(), doc(i % 3)));
            }
            v.push(Op3::Rm("1".into()));
            v.push(Op3::Rm("1".into()));
        }
        "cycle" => {
            for i in 0..n {
                v.push(Op3::Add("1".into(), doc(i % 3)));
                v.push(Op3::Len("1".into(), if i % 2 == 0 { "t" } else { "b" }.into(), i as u64));
                v.push(Op3::Rm("1".into()));
            }
            v.push(Op3::Add("1".into(), doc(1)));
        }
        "fields" => {
            v.push(Op3::Add("1".into(), (0..n).map(|i| (format!("f{}", i), s(i))).collect()));
            for i in 0..n {
                v.push(Op3::Len("1".into(), format!("f{}", i), (i * i) as u64));
            }
            v.push(Op3::Add("2".into(), doc(1)));
        }
        "len" => {
            v.push(Op3::Add("1".into(), doc(1)));
            v.push(Op3::Len("1".into(), "t".into(), n as u64));
            v.push(Op3::Add("2".into(), doc(1)));
        }
        // references, fields and contents of n characters that differ in one place, put in each other's place
        "alike" => {
            let at: Vec<usize> = (0..n).filter(|&p| p < 40 || p + 40 >= n || p == n / 2).collect();
            let with = |p: usize| (0..n).map(|i| if i == p { 'b' } else { 'a' }).collect::<String>();
            let text = |p: usize| -> Doc { [("id".to_string(), with(n)), ("t".to_string(), with(p))].into() };
            for (k, &p) in at.iter().enumerate() {
                v.push(Op3::Len(with(p), "t".into(), 1));
                v.push(Op3::Add(with(p), text(n)));
                v.push(Op3::Add(format!("k{}", k), [(with(p), "x".to_string())].into()));
                v.push(Op3::Len(format!("k{}", k), with(p), 1));
            }
            for (k, &p) in at.iter().enumerate() {
                let q = at[(k + 1) % at.len()];
                v.push(Op3::Add(with(p), text(if k % 3 == 0 { q } else { p })));
                v.push(Op3::Len(with(p), "t".into(), 2 + k as u64));
                v.push(Op3::Add(format!("k{}", k), [(with(q), "x".to_string())].into()));
                v.push(Op3::Len(format!("k{}", k), with(q), 3 + k as u64));
            }
        }
        "char" => {
            let c = char::from_u32(n as u32).unwrap().to_string();
            v.push(Op3::Add(c.clone(), [(c.clone(), format!("a{}b", c))].into()));
            v.push(Op3::Len(c.clone(), c.clone(), 3));
            v.push(Op3::Add(format!("{}{}", c, c), doc(1)));
            v.push(Op3::Len(format!("{}{}", c, c), "t".into(), 2));
            v.push(Op3::Rm(c.clone()));
            v.push(Op3::Add(format!("a{}", c), [(format!("{}a", c), c.clone())].into()));
            v.push(Op3::Add(c.clone(), [("x".to_string(), c)].into()));
        }
        _ => panic!("harness: no generator {}", g),
    }
    v
}

impl C03 {
    fn drive(save: bool, ops: &[Op3]) -> (DocumentStore, M3) {
        let mut st = DocumentStore::new(save);
        let mut m = M3::default();
        for o in ops {
            match o {
                Op3::Add(r, d) => {
                    st.add_doc(r, d.clone());
                    m.docs.insert(r.clone(), if save { d.clone() } else { Doc::new() });
                    m.refs.insert(r.clone());
                }
                Op3::Rm(r) => {
                    st.remove_doc(r);
                    m.docs.remove(r);
                    m.lens.remove(r);
                    m.refs.insert(r.clone());
                }
                Op3::Len(r, f, n) => {
                    st.add_field_length(r, f, *n as usize);
                    m.lens.entry(r.clone()).or_default().insert(f.clone(), *n);
                    m.refs.insert(r.clone());
                    m.fields.insert(f.clone());
                }
            }
        }
        (st, m)
    }

    fn compare(&self, cx: &Cx, save: bool, ops: &[Op3]) -> Result<(), String> {
        let (st, m) = C03::drive(save, ops);
        cx.count("traces", 1);
        let n = m.docs.len();
        if st.len() != n || st.is_empty() != (n == 0) || st.is_stored() != save {
            return Err(format!("save {}: {} documents are stored but len is {}, is_empty {}, is_stored {}", save, n, st.len(), st.is_empty(), st.is_stored()));
        }
        let mut fields: Vec<&str> = m.fields.iter().map(|s| s.as_str()).collect();
        fields.push("none");
        for r in m.refs.iter().map(|s| s.as_str()).chain(["none", ""]) {
            let want = m.docs.get(r);
            if st.has_doc(r) != want.is_some() {
                return Err(format!("save {}: has_doc({:?}) is {}", save, r, st.has_doc(r)));
            }
            if st.get_doc(r).as_ref() != want {
                return Err(format!("save {}: document {:?} is {:?} instead of {:?}", save, r, st.get_doc(r), want));
            }
            let few = m.lens.get(r).filter(|_| fields.len() > 40);
            let check = |f: &str| {
                let got = st.get_field_length(r, f) as u64;
                let w = match want {
                    Some(_) => m.lens.get(r).and_then(|l| l.get(f)).copied().unwrap_or(0),
                    None => 0,
                };
                if got != w {
                    return Err(format!("save {}: length of field {:?} of document {:?} is {} instead of {}", save, f, r, got, w));
                }
                Ok(())
            };
            match few {
                Some(l) => l.keys().try_for_each(|f| check(f))?,
                None => fields.iter().try_for_each(|f| check(f))?,
            }
        }
        let js = serde_json::to_string(&st).map_err(|e| e.to_string())?;
        cx.outcome(&js);
        let j = json::parse(&js)?;
        if j.get("length")?.uint()? != n as u64 || j.get("save")?.bool()? != save {
            return Err(format!("save {}: {} documents are exported with length {:?}, save {:?}", save, n, j.get("length")?, j.get("save")?));
        }
        let mut docs: BTreeMap<String, Doc> = BTreeMap::new();
        for (r, d) in j.get("docs")?.obj()? {
            let mut x = Doc::new();
            for (f, t) in d.obj()? {
                x.insert(f.clone(), t.str()?.into());
            }
            docs.insert(r.clone(), x);
        }
        if docs != m.docs {
            return Err(format!("save {}: documents {:?} are exported instead of {:?}", save, docs.iter().take(5).collect::<Vec<_>>(), m.docs.iter().take(5).collect::<Vec<_>>()));
        }
        let mut lens: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
        for (r, d) in j.get("docInfo")?.obj()? {
            for (f, t) in d.obj()? {
                lens.entry(r.clone()).or_default().insert(f.clone(), t.uint()?);
            }
        }
        for r in m.docs.keys() {
            if lens.get(r) != m.lens.get(r) {
                return Err(format!("save {}: lengths of document {:?} are exported as {:?} instead of {:?}", save, r, lens.get(r), m.lens.get(r)));
            }
        }
        if let Some(r) = lens.keys().find(|r| !m.lens.contains_key(*r)) {
            return Err(format!("save {}: lengths are exported for {:?}, which was removed", save, r));
        }
        Ok(())
    }
}

/// Removing a reference that has lengths but no document is left open by the property.
fn enabled3(h: &[String], o: &str) -> bool {
    if !o.starts_with("[\"rm\"") {
        return true;
    }
    let (_, ops) = ops3(&format!("[{}]", h.join(","))).unwrap();
    let (_, last) = ops3(&format!("[{}]", o)).unwrap();
    let Op3::Rm(r) = &last[0] else { return true };
    let (mut doc, mut len) = (false, false);
    for o in &ops {
        match o {
            Op3::Add(x, _) if x == r => doc = true,
            Op3::Rm(x) if x == r => {
                doc = false;
                len = false
            }
            Op3::Len(x, _, _) if x == r => len = true,
            _ => {}
        }
    }
    doc || !len
}

impl Check for C03 {
    fn explore(&self, cx: &Cx) {
        let alpha = |refs: &[&str], docs: &[usize], fields: &[&str], lens: &[u64]| -> Vec<String> {
            let mut v = vec![];
            for r in refs {
                for d in docs {
                    v.push(format!("[\"add\",{},{}]", quote(r), d));
                }
                v.push(format!("[\"rm\",{}]", quote(r)));
                for f in fields {
                    for n in lens {
                        v.push(format!("[\"len\",{},{},{}]", quote(r), quote(f), n));
                    }
                }
            }
            v
        };
        let key = |h: &[String]| {
            let (_, ops) = ops3(&format!("[{}]", h.join(","))).unwrap();
            let (a, m) = C03::drive(true, &ops);
            let (b, _) = C03::drive(false, &ops);
            hash(&(format!("{:?}{:?}", a, b), m.lens))
        };
        let a1 = alpha(&["1", "2"], &[1, 2], &["t", "b"], &[0, 3]);
        bfs(cx, self, "two documents", &a1, &enabled3, &key, 64);
        let a2 = alpha(&["1", "10", ""], &[0, 1], &["t"], &[1]);
        bfs(cx, self, "three documents", &a2, &enabled3, &key, 64);
        let a3 = alpha(&["docs", "length"], &[1], &["docs", ""], &[1, 2]);
        bfs(cx, self, "names", &a3, &enabled3, &key, 64);
        let s1 = alpha(&["1", "2"], &[1], &["t"], &[2]);
        sequences(cx, self, "sequences", &s1, cx.tier(6, 8), &enabled3);
        let s2 = alpha(&["1"], &[0, 2], &["t", "b"], &[1]);
        sequences(cx, self, "sequences", &s2, cx.tier(6, 8), &enabled3);
        let mut gens = vec![];
        for n in 0..=cx.tier(200, 1100) {
            for g in ["docs", "again", "cycle", "fields", "len", "alike"] {
                gens.push((g, n));
            }
        }
        for n in [1000, 4097] {
            gens.push(("alike", n));
        }
        for n in [255, 256, 257, 1024, 4096, 10000, 65535, 65536, 65537] {
            for g in ["docs", "again", "cycle", "fields", "len"] {
                gens.push((g, n));
            }
        }
        for n in [i32::MAX as usize, u32::MAX as usize, u32::MAX as usize + 1, 1 << 53, (1 << 53) + 1] {
            gens.push(("len", n));
        }
        gens.sort_by_key(|g| std::cmp::Reverse(g.1));
        cx.par(gens.len(), |i| {
            cx.run(self, "sweep", &format!("{{\"gen\":\"{}\",\"n\":{}}}", gens[i].0, gens[i].1));
        });
        par_scalars(cx, |c| {
            cx.run(self, "char", &format!("{{\"gen\":\"char\",\"n\":{}}}", c as u32));
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        let (_, ops) = ops3(p)?;
        cx.count("transitions", if fam == "sweep" || fam == "char" { 2 * ops.len() as u64 } else { 2 });
        cx.sample(|| p.chars().take(200).collect());
        self.compare(cx, true, &ops)?;
        self.compare(cx, false, &ops)
    }
    fn rule(&self) -> &'static str {
        "breadth-first search over all operations on several alphabets, all operation sequences to a depth, sweeps, every Unicode character, saving on and off; a state is the serialized implementation, compared with the model by all queries"
    }
}
