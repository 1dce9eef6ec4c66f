//! C07, C17, C18, C19: pipelines, builders, tokenizers, search options.

use crate::engine::{guarded, par_scalars, seq_at, seq_total, Check, Cx};
use crate::hist::{sqrt_ok, Export, Verbatim};
use crate::json::{self, quote, J};
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::lang::English;
use elasticlunr::pipeline::{FnWrapper, PipelineFn};
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn val(p: &str) -> Result<Value, String> {
    serde_json::from_str(p).map_err(|e| format!("harness: bad payload: {}", e))
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

// ---------------------------------------------------------------------------------------------- C07

pub struct C07;

/// What the stages do. The last two are told apart from the others by keeping a count.
const ACTS: &[&str] = &["keep", "append", "drop", "drop-a", "empty", "drop-empty", "first", "number", "alternate"];

fn act(a: &str, t: String, n: usize) -> Option<String> {
    match a {
        "keep" => Some(t),
        "append" => Some(t + "x"),
        "drop" => None,
        "drop-a" => (!t.starts_with('a')).then_some(t),
        "empty" => Some(String::new()),
        "drop-empty" => (!t.is_empty()).then_some(t),
        "first" => Some(t.chars().take(1).collect()),
        "number" => Some(format!("{}{}", t, n)),
        "alternate" => (n % 2 == 0).then_some(t),
        _ => panic!("harness: no action {}", a),
    }
}

struct Stage {
    name: String,
    act: String,
    calls: Cell<usize>,
    log: Rc<RefCell<Vec<String>>>,
}
impl PipelineFn for Stage {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn filter(&self, token: String) -> Option<String> {
        self.log.borrow_mut().push(token.clone());
        let n = self.calls.get();
        self.calls.set(n + 1);
        act(&self.act, token, n)
    }
}

fn keep(t: String) -> Option<String> {
    Some(t)
}
fn append(t: String) -> Option<String> {
    Some(t + "x")
}
fn drop_all(_: String) -> Option<String> {
    None
}
fn drop_a(t: String) -> Option<String> {
    act("drop-a", t, 0)
}

impl Check for C07 {
    fn explore(&self, cx: &Cx) {
        let toks = ["a", "", "b", "ab"];
        let (ns, nt) = (cx.tier(4, 5), cx.tier(3, 4));
        let tokens = seq_total(toks.len(), nt);
        cx.par(seq_total(ACTS.len(), ns), |i| {
            let mut v = vec![];
            seq_at(ACTS.len(), i, &mut v);
            let a: Vec<&str> = v.iter().map(|&k| ACTS[k]).collect();
            let names: Vec<String> = (0..a.len()).map(|k| format!("s{}", k % 3)).collect();
            for j in 0..tokens {
                let mut w = vec![];
                seq_at(toks.len(), j, &mut w);
                let t: Vec<&str> = w.iter().map(|&k| toks[k]).collect();
                cx.run(self, "run", &json!({"acts": a, "names": names, "tokens": [t]}).to_string());
            }
        });
        // The same pipeline run several times.
        let lists: Vec<Vec<&str>> = vec![vec![], vec!["a"], vec!["b", "a"], vec!["b", "ab", "b"]];
        cx.par(seq_total(ACTS.len(), 3), |i| {
            let mut v = vec![];
            seq_at(ACTS.len(), i, &mut v);
            let a: Vec<&str> = v.iter().map(|&k| ACTS[k]).collect();
            for j in 0..seq_total(lists.len(), 3) {
                let mut w = vec![];
                seq_at(lists.len(), j, &mut w);
                let t: Vec<&Vec<&str>> = w.iter().map(|&k| &lists[k]).collect();
                cx.run(self, "run", &json!({"acts": a, "names": a, "tokens": t}).to_string());
            }
        });
        // Many stages, many tokens, long tokens.
        let mut p = vec![];
        let mut sizes: Vec<usize> = (0..=cx.tier(150, 600)).collect();
        sizes.extend([255, 256, 257, 1023, 1024, 1025, 4096]);
        for n in sizes {
            let many: Vec<String> = (0..n).map(|i| ["b", "a", "ab", "", "c"][i % 5].to_string() + &"q".repeat(i % 3)).collect();
            for a in [vec!["keep"], vec!["drop-a", "append"], vec!["alternate", "number", "drop-empty"], vec![]] {
                p.push(json!({"acts": a, "names": a, "tokens": [many]}).to_string());
            }
            p.push(json!({"acts": vec!["append"; n], "names": vec!["n"; n], "tokens": [["a", "b"]]}).to_string());
            let mut x = vec!["keep"; n];
            x.push("drop-a");
            x.push("append");
            p.push(json!({"acts": x, "names": x, "tokens": [["a", "b"]]}).to_string());
            p.push(json!({"acts": ["append", "first", "keep"], "names": ["", "", "x"], "tokens": [["b".repeat(n), "a"]]}).to_string());
        }
        let many: Vec<String> = (0..70000).map(|i| format!("{}b", i)).collect();
        p.push(json!({"acts": ["drop-a", "alternate", "append"], "names": ["1", "2", "3"], "tokens": [many]}).to_string());
        // Many tokens, with long ones, empty ones, repeated ones at every kind of place.
        for n in [4096, 4097, 10001, 32769, 65537, 131073] {
            for long in [1, 9, 65, 257, 1025] {
                let many: Vec<String> = (0..n)
                    .map(|i| match i {
                        _ if i < 2 || i + 2 >= n || i == n / 2 => "bé".repeat(long),
                        _ if i < 6 || i + 6 >= n || i % 1000 == 3 => String::new(),
                        _ => ["b", "c", "b", "bb", "a"][i % 5].to_string(),
                    })
                    .collect();
                let a = if long % 2 == 0 { vec![] } else { vec!["keep", "append"] };
                p.push(json!({"acts": a, "names": a, "tokens": [many, ["a", "b"]]}).to_string());
            }
        }
        cx.par(p.len(), |i| {
            cx.run(self, "run", &p[i]);
        });
        // Every character in tokens and in names.
        par_scalars(cx, |c| {
            let s = c.to_string();
            let t = json!({"acts": ["append", "drop-a", "first"], "names": [s, format!("a{}", s), "\""], "tokens": [[s, format!("a{}", s), format!("{}a", s)]]});
            cx.run(self, "run", &t.to_string());
        });
    }
    fn eval(&self, cx: &Cx, _fam: &str, p: &str) -> Result<(), String> {
        let v = val(p)?;
        let (acts, names) = (strs(&v["acts"]), strs(&v["names"]));
        let logs: Vec<Rc<RefCell<Vec<String>>>> = acts.iter().map(|_| Rc::new(RefCell::new(vec![]))).collect();
        let pipe = Pipeline {
            queue: acts
                .iter()
                .enumerate()
                .map(|(i, a)| {
                    Box::new(Stage { name: names[i].clone(), act: a.clone(), calls: Cell::new(0), log: logs[i].clone() }) as Box<dyn PipelineFn>
                })
                .collect(),
        };
        let mut count = vec![0; acts.len()];
        let mut expect_log: Vec<Vec<String>> = vec![vec![]; acts.len()];
        for list in v["tokens"].as_array().unwrap() {
            let list = strs(list);
            let mut want = vec![];
            for t in &list {
                let mut cur = Some(t.clone());
                for (i, a) in acts.iter().enumerate() {
                    let Some(t) = cur else { break };
                    expect_log[i].push(t.clone());
                    cur = act(a, t, count[i]);
                    count[i] += 1;
                }
                want.extend(cur);
            }
            let got = pipe.run(list.clone());
            if got != want {
                return Err(format!("stages {:?} made {:?} of {:?} instead of {:?}", head(&acts), head(&got), head(&list), head(&want)));
            }
            cx.count("traces", 1);
            cx.outcome(&(&got, &expect_log));
        }
        cx.count("transitions", count.iter().sum::<usize>() as u64);
        cx.sample(|| p.chars().take(200).collect());
        for (i, l) in logs.iter().enumerate() {
            let (mut a, mut b) = (l.borrow().clone(), expect_log[i].clone());
            a.sort();
            b.sort();
            if a != b {
                return Err(format!("stage {} of {:?} was applied to {:?} instead of {:?}", i, head(&acts), head(&a), head(&b)));
            }
        }
        let js = serde_json::to_string(&pipe).map_err(|e| e.to_string())?;
        let j = json::parse(&js)?;
        let got: Result<Vec<&str>, String> = j.arr()?.iter().map(|s| s.str()).collect();
        if got? != names {
            return Err(format!("stages named {:?} are exported as {}", head(&names), js.chars().take(200).collect::<String>()));
        }
        // The same with the crate's own wrapper of functions, where it can express the stages.
        if acts.len() <= 4 && acts.iter().all(|a| matches!(a.as_str(), "keep" | "append" | "drop" | "drop-a")) {
            let pipe = Pipeline {
                queue: acts
                    .iter()
                    .zip(&names)
                    .map(|(a, n)| {
                        let f = match a.as_str() {
                            "keep" => keep,
                            "append" => append,
                            "drop" => drop_all,
                            _ => drop_a as fn(String) -> Option<String>,
                        };
                        Box::new(FnWrapper(n.clone(), f)) as Box<dyn PipelineFn>
                    })
                    .collect(),
            };
            for list in v["tokens"].as_array().unwrap() {
                let list = strs(list);
                let want: Vec<String> = list
                    .iter()
                    .filter_map(|t| acts.iter().try_fold(t.clone(), |t, a| act(a, t, 0)))
                    .collect();
                let got = pipe.run(list.clone());
                if got != want {
                    return Err(format!("functions {:?} made {:?} of {:?} instead of {:?}", acts, got, list, want));
                }
            }
            if serde_json::to_string(&pipe).map_err(|e| e.to_string())? != js {
                return Err(format!("functions named {:?} are not exported as such", names));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all pipelines of up to four (five) stages out of nine behaviours with all token lists up to three (four), repeated runs, sweeps, every Unicode character; a state is a result with the calls each stage received"
    }
}

fn head<T: Clone>(v: &[T]) -> Vec<T> {
    v.iter().take(12).cloned().collect()
}

// ---------------------------------------------------------------------------------------------- C17

pub struct C17;

const BUILD_OPS: &[&str] = &[
    r#"["field","a"]"#,
    r#"["field","b"]"#,
    r#"["tok","a"]"#,
    r#"["tok","c"]"#,
    r#"["fields",[]]"#,
    r#"["fields",["b","a"]]"#,
    r#"["fields",["c"]]"#,
    r#"["fields",["d","d"]]"#,
    r#"["save",true]"#,
    r#"["save",false]"#,
    r#"["ref","id"]"#,
    r#"["ref","a"]"#,
    r#"["ref",""]"#,
    r#"["field","id"]"#,
];

fn char_tokens(t: &str) -> Vec<String> {
    t.chars().map(|c| c.to_string()).collect()
}

#[derive(Clone)]
struct Custom;
impl Language for Custom {
    fn name(&self) -> String {
        "Cust\"om".into()
    }
    fn code(&self) -> String {
        "xc".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        char_tokens(text)
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline { queue: vec![Box::new(FnWrapper("one".into(), keep)), Box::new(FnWrapper("tw\"o".into(), append))] }
    }
}

impl Check for C17 {
    fn explore(&self, cx: &Cx) {
        let d = cx.tier(4, 5);
        for lang in ["en", "custom", "verbatim"] {
            let d = if lang == "en" { d } else { 3 };
            cx.par(seq_total(BUILD_OPS.len(), d), |i| {
                let mut v = vec![];
                seq_at(BUILD_OPS.len(), i, &mut v);
                let ops: Vec<&str> = v.iter().map(|&k| BUILD_OPS[k]).collect();
                cx.run(self, "build", &format!("{{\"lang\":\"{}\",\"ops\":[{}]}}", lang, ops.join(",")));
            });
        }
        // n fields by different methods, then one of them again by each method.
        let mut p = vec![];
        let sizes: Vec<usize> = (0..=cx.tier(24, 60)).chain([100, 255, 256, 257, 1000]).collect();
        for n in sizes {
            let names: Vec<String> = (0..n).map(|i| format!("f{}", i)).collect();
            let one = |i: usize| match i % 3 {
                0 => format!("[\"field\",\"f{}\"]", i),
                1 => format!("[\"tok\",\"f{}\"]", i),
                _ => format!("[\"fields\",[\"f{}\"]]", i),
            };
            let by_one: Vec<String> = (0..n).map(one).collect();
            let all = format!("[\"fields\",{}]", json!(names));
            for base in [by_one.join(","), all] {
                p.push(format!("{{\"lang\":\"en\",\"ops\":[{}]}}", base));
                let again: Vec<usize> = if n <= 60 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
                for k in again {
                    for o in [format!("[\"field\",\"f{}\"]", k), format!("[\"tok\",\"f{}\"]", k), format!("[\"fields\",[\"g\",\"f{}\"]]", k)] {
                        p.push(format!("{{\"lang\":\"en\",\"ops\":[{},{}]}}", base, o));
                    }
                }
            }
        }
        // Names of n characters, of fields and of the reference, and names that differ from them in one place.
        for n in (0..cx.tier(140, 600)).chain([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537]) {
            for base in ["a", "é", "😀"] {
                let with = |k: usize| (0..n).map(|i| if i == k { "b" } else { base }).collect::<String>();
                let w = with(n);
                let mut names = vec![w.clone(), with(0), with(n / 2), with(n.saturating_sub(1)), format!("{}{}", w, base)];
                names.sort();
                names.dedup();
                for o in [
                    json!([["ref", w]]),
                    json!([["field", w], ["ref", format!("{}b", w)]]),
                    json!([["tok", w], ["ref", w], ["field", format!("{}b", w)]]),
                    json!([["fields", names], ["ref", w]]),
                    json!([["tok", w], ["field", w]]),
                    json!([["fields", names], ["tok", with(n / 2)]]),
                ] {
                    p.push(json!({"lang": "en", "ops": o}).to_string());
                }
            }
        }
        cx.par(p.len(), |i| {
            cx.run(self, "build", &p[i]);
        });
        // Every character in names; names that differ by case, white space or composition only.
        par_scalars(cx, |c| {
            let s = c.to_string();
            let mut names = vec![s.clone()];
            for x in [s.to_lowercase(), s.to_uppercase(), format!("{} ", s), format!(" {}", s), format!("{}\u{301}", s), format!("{}{}", s, s)] {
                if !names.contains(&x) {
                    names.push(x);
                }
            }
            let ops = json!([["fields", names], ["ref", s]]);
            cx.run(self, "build", &json!({"lang": "en", "ops": ops}).to_string());
            if (c as u32) < cx.tier(0x3000, 0x110000) {
                cx.run(self, "build", &json!({"lang": "en", "ops": [["tok", s], ["field", s]]}).to_string());
            }
        });
    }
    fn eval(&self, cx: &Cx, _fam: &str, p: &str) -> Result<(), String> {
        let v = val(p)?;
        let lang = v["lang"].as_str().unwrap();
        let ops = v["ops"].as_array().unwrap();
        // The text of a field: its name, up to what a term may have (see the finding on long tokens).
        let said = |f: &String| format!("cat {}", f.chars().take(1000).collect::<String>());
        let mk = || -> Box<dyn Language> {
            match lang {
                "custom" => Box::new(Custom),
                "verbatim" => Box::new(Verbatim),
                _ => Box::new(English::new()),
            }
        };
        let (lang_name, stages): (&str, &[&str]) = match lang {
            "custom" => ("Cust\"om", &["one", "tw\"o"]),
            "verbatim" => ("Verbatim", &[]),
            _ => ("English", &["trimmer", "stopWordFilter", "stemmer"]),
        };
        // The model.
        let (mut fields, mut reff, mut save, mut dup) = (Vec::<String>::new(), "id".to_string(), true, false);
        let mut own = vec![];
        for o in ops {
            let mut add = |f: &str, tok: bool| {
                if fields.iter().any(|x| x == f) {
                    dup = true;
                }
                fields.push(f.to_string());
                own.push(tok);
            };
            match o[0].as_str().unwrap() {
                "field" => add(o[1].as_str().unwrap(), false),
                "tok" => add(o[1].as_str().unwrap(), true),
                "fields" => strs(&o[1]).iter().for_each(|f| add(f, false)),
                "save" => save = o[1].as_bool().unwrap(),
                _ => reff = o[1].as_str().unwrap().into(),
            }
            if dup {
                break;
            }
        }
        cx.count("transitions", ops.len() as u64 + 1);
        cx.count("traces", 1);
        cx.outcome(&(lang, dup, if dup { vec![] } else { fields.clone() }, &reff, save));
        cx.sample(|| p.chars().take(200).collect());
        let built = |mut b: IndexBuilder| {
            for o in ops {
                b = match o[0].as_str().unwrap() {
                    "field" => b.add_field(o[1].as_str().unwrap()),
                    "tok" => b.add_field_with_tokenizer(o[1].as_str().unwrap(), Box::new(char_tokens)),
                    "fields" => b.add_fields(strs(&o[1])),
                    "save" => b.save_docs(o[1].as_bool().unwrap()),
                    _ => b.set_ref(o[1].as_str().unwrap()),
                };
            }
            b.build()
        };
        let mut all = vec![guarded(|| built(IndexBuilder::with_language(mk())))];
        if lang == "en" && ops.len() <= 4 {
            all.push(guarded(|| built(IndexBuilder::new())));
            all.push(guarded(|| built(IndexBuilder::default())));
        }
        if ops.len() == 1 && ops[0][0] == "fields" {
            let f = strs(&ops[0][1]);
            all.push(guarded(|| Index::with_language(mk(), &f)));
            if lang == "en" {
                all.push(guarded(|| Index::new(&f)));
            }
        }
        for ix in all {
            let mut ix = match (ix, dup) {
                (Ok(_), true) => return Err("a field was added twice without panic".into()),
                (Err(m), false) => return Err(format!("panic although no field was added twice: {}", m)),
                (Err(_), true) => continue,
                (Ok(ix), false) => ix,
            };
            if ix.get_fields() != fields {
                return Err(format!("get_fields gives {:?} instead of {:?}", head(ix.get_fields()), head(&fields)));
            }
            for step in 0..2 {
                let x = Export::of(&ix)?;
                let j = &x.j;
                let l = |k: &str| -> Result<Vec<String>, String> { j.get(k)?.arr()?.iter().map(|s| Ok(s.str()?.to_string())).collect() };
                if l("fields")? != fields {
                    return Err(format!("fields are exported as {:?} instead of {:?}", head(&l("fields")?), head(&fields)));
                }
                if j.get("ref")?.str()? != reff {
                    return Err(format!("the reference name is {:?} instead of {:?}", j.get("ref")?.str()?, reff));
                }
                if x.store()?.get("save")?.bool()? != save {
                    return Err(format!("saving is not {}", save));
                }
                if j.get("lang")?.str()? != lang_name || l("pipeline")? != stages {
                    return Err(format!("the language is {:?} with {:?} instead of {:?} with {:?}", j.get("lang")?.str()?, l("pipeline")?, lang_name, stages));
                }
                let keys: BTreeSet<&str> = j.get("index")?.obj()?.iter().map(|e| e.0.as_str()).collect();
                if keys != fields.iter().map(|f| f.as_str()).collect() {
                    return Err(format!("there are inverted indexes for {:?}", keys.iter().take(12).collect::<Vec<_>>()));
                }
                if step == 0 {
                    for f in &fields {
                        let t = x.trie(f)?;
                        if t.len() != 1 || !t[""].1.is_empty() || t[""].0 != 0.0 {
                            return Err(format!("the inverted index of field {:?} is not empty", f));
                        }
                    }
                    if !x.docs()?.is_empty() || !x.lens()?.is_empty() || x.length()? != 0 {
                        return Err("the document store is not empty".into());
                    }
                    ix.add_doc("r1", fields.iter().map(|f| said(f)));
                } else {
                    // The settings are in effect.
                    let mut d = BTreeMap::new();
                    if save {
                        d.insert(reff.clone(), "r1".to_string());
                        for f in &fields {
                            d.insert(f.clone(), said(f));
                        }
                    }
                    let (lens, l) = (x.lens()?, mk());
                    let pipe = l.make_pipeline();
                    for (i, f) in fields.iter().enumerate().filter(|f| *f.1 != reff) {
                        let t = said(f);
                        let t = if own[i] { char_tokens(&t) } else { l.tokenize(&t) };
                        let want: Vec<String> = pipe.run(t);
                        if lens.get("r1").and_then(|d| d.get(f)) != Some(&(want.len() as u64)) {
                            return Err(format!("field {:?} does not have {} tokenizer: its text has {:?} terms", f, if own[i] { "its own" } else { "the language's" }, lens.get("r1").and_then(|d| d.get(f))));
                        }
                        let t = x.trie(f)?;
                        if let Some(w) = want.iter().find(|w| !t.contains_key(*w)) {
                            return Err(format!("field {:?} does not have {} tokenizer: its text has no term {:?}", f, if own[i] { "its own" } else { "the language's" }, w));
                        }
                    }
                    if x.docs()?.get("r1") != Some(&d) {
                        return Err(format!("with reference {:?} and saving {} a document is stored as {:?}", reff, save, x.docs()?.get("r1").map(|d| d.iter().take(4).collect::<Vec<_>>())));
                    }
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all sequences of up to four (five) builder calls out of fourteen, three languages, sweeps over field counts with each field added again, every Unicode character in names; a state is the resulting settings"
    }
}

// ---------------------------------------------------------------------------------------------- C18

pub struct C18;

type Log = Rc<RefCell<Vec<(usize, String)>>>;

/// A language that records its calls; its pipeline drops "the" and marks every token.
struct Recording {
    log: Log,
}
const BY_LANGUAGE: usize = 99;
impl Language for Recording {
    fn name(&self) -> String {
        "Recording".into()
    }
    fn code(&self) -> String {
        "xr".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        self.log.borrow_mut().push((BY_LANGUAGE, text.to_string()));
        cut(BY_LANGUAGE, text)
    }
    fn make_pipeline(&self) -> Pipeline {
        fn stop(t: String) -> Option<String> {
            (t != "the").then_some(t)
        }
        fn mark(t: String) -> Option<String> {
            Some(t + "z")
        }
        Pipeline { queue: vec![Box::new(FnWrapper("stop".into(), stop)), Box::new(FnWrapper("mark".into(), mark))] }
    }
}

/// Tokens of a text by tokenizer number `k`: they show who made them.
fn cut(k: usize, text: &str) -> Vec<String> {
    match k {
        BY_LANGUAGE => text.split(' ').filter(|t| !t.is_empty()).map(|t| t.to_string()).collect(),
        _ => {
            let mut v: Vec<String> = text.split(' ').map(|t| if t == "the" { t.to_string() } else { format!("{}K{}", t, k) }).collect();
            v.push("the".into());
            v.push(format!("A b{}", k));
            v
        }
    }
}

/// The texts of a document for n fields.
fn shape(k: usize, n: usize, doc_ref: &str, names: &[(String, usize)]) -> Vec<String> {
    (0..n)
        .map(|i| match k {
            0 => format!("cat{} dog", i),
            1 => "cat the  dog cat".into(),
            2 => String::new(),
            3 => format!(" T\u{e9}xt-{} ", i),
            // The reference, the name of the field, the name of the next one.
            5 => doc_ref.to_string(),
            6 => names[i].0.clone(),
            7 => names[(i + 1) % n].0.clone() + " the",
            _ if k >= 100 => "w the q ".repeat(k / 3),
            _ => if i % 2 == 0 { "cat".to_string() } else { format!("x{}", i) },
        })
        .take(if k == 4 { n.div_ceil(2) } else { n })
        .collect()
}

impl Check for C18 {
    fn explore(&self, cx: &Cx) {
        // All orders of the fields' names, all assignments, all methods, all short histories.
        let names = ["d", "a", "c", "b", "e"];
        let mut jobs = vec![];
        for n in 0..=cx.tier(4, 5) {
            let mut perms: Vec<Vec<usize>> = vec![vec![]];
            for _ in 0..n {
                perms = perms
                    .into_iter()
                    .flat_map(|p| (0..n).filter(|k| !p.contains(k)).map(|k| [p.clone(), vec![k]].concat()).collect::<Vec<_>>())
                    .collect();
            }
            for p in perms {
                for mask in 0..3usize.pow(n as u32) {
                    jobs.push((p.clone(), mask));
                }
            }
        }
        let hists = [vec![0], vec![1], vec![2], vec![3], vec![4], vec![0, 1], vec![1, 0], vec![1, 1], vec![2, 0], vec![4, 0], vec![0, 4], vec![3, 1, 0], vec![5], vec![6, 7], vec![5, 5]];
        cx.par(jobs.len(), |i| {
            let (p, mut mask) = (jobs[i].0.clone(), jobs[i].1);
            let mut f = vec![];
            for k in &p {
                f.push(json!([names[*k], (["lang", "tok", "many"][mask % 3])]));
                mask /= 3;
            }
            let nh = if p.len() == 5 { 5 } else { hists.len() };
            for h in &hists[..nh] {
                for reff in [None, p.first()].into_iter().take(if p.len() > 3 { 1 } else { 2 }) {
                    let r = reff.map_or("id", |k| names[*k]);
                    for same in [false, true] {
                        if same && h.len() == 1 {
                            continue;
                        }
                        cx.run(self, "fields", &json!({"f": f, "h": h, "r": r, "same": same}).to_string());
                    }
                }
            }
        });
        // Many fields, with tokenizers at every k-th.
        let mut p = vec![];
        for n in (1..=cx.tier(40, 100)).chain([200, 255, 256, 257, 300]) {
            for k in 1..=6 {
                for off in 0..2 {
                    let f: Vec<Value> = (0..n)
                        .map(|i| json!([format!("f{}", (i * 7919) % 10007), if (i + off) % k == 0 { "tok" } else { "lang" }]))
                        .collect();
                    p.push(json!({"f": f, "h": [0, 1], "r": "id", "same": false}).to_string());
                }
            }
        }
        // Texts of many tokens.
        for n in (100..cx.tier(160, 400)).chain([255, 256, 257, 600, 1024, 1025, 2048, 4096, 4097, 5000, 10000, 32768, 65536, 70000]) {
            for f in [json!([["a", "tok"], ["b", "lang"]]), json!([["b", "many"], ["a", "tok"]])] {
                p.push(json!({"f": f, "h": [n], "r": "id", "same": false}).to_string());
                p.push(json!({"f": f, "h": [0, n, 1], "r": "id", "same": true}).to_string());
            }
        }
        cx.par(p.len(), |i| {
            cx.run(self, "fields", &p[i]);
        });
        // Every character in the text; long texts; the English pipeline.
        par_scalars(cx, |c| {
            cx.run(self, "text", &format!("{}{}a {}", c, c, c));
        });
        let parts = [" ", "a", "the", "\n", "Cats", "é"];
        cx.par(seq_total(parts.len(), cx.tier(4, 6)), |i| {
            let mut v = vec![];
            seq_at(parts.len(), i, &mut v);
            let t: String = v.iter().map(|&k| parts[k]).collect();
            cx.run(self, "text", &t);
        });
        cx.par(cx.tier(400, 2000), |i| {
            cx.run(self, "text", &"ab ".repeat(i));
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| p.chars().take(200).collect());
        if fam == "text" {
            return self.text(cx, p);
        }
        let v = val(p)?;
        let log: Log = Default::default();
        let reff = v["r"].as_str().unwrap();
        let same = v["same"].as_bool().unwrap();
        let mut b = IndexBuilder::with_language(Box::new(Recording { log: log.clone() })).set_ref(reff);
        let mut fields: Vec<(String, usize)> = vec![];
        for (i, f) in v["f"].as_array().unwrap().iter().enumerate() {
            let name = f[0].as_str().unwrap();
            b = match f[1].as_str().unwrap() {
                "tok" => {
                    let log = log.clone();
                    fields.push((name.into(), i));
                    b.add_field_with_tokenizer(
                        name,
                        Box::new(move |t| {
                            log.borrow_mut().push((i, t.to_string()));
                            cut(i, t)
                        }),
                    )
                }
                "many" => {
                    fields.push((name.into(), BY_LANGUAGE));
                    b.add_fields([name])
                }
                _ => {
                    fields.push((name.into(), BY_LANGUAGE));
                    b.add_field(name)
                }
            };
        }
        let mut ix = b.build();
        let mut terms: Vec<BTreeMap<String, BTreeMap<String, u64>>> = vec![BTreeMap::new(); fields.len()];
        let mut lens: BTreeMap<(String, String), u64> = BTreeMap::new();
        let mut once: BTreeMap<String, u64> = BTreeMap::new();
        for (n, k) in v["h"].as_array().unwrap().iter().enumerate() {
            let r = if same { "1 x".to_string() } else { format!("{} the", n) };
            let texts = shape(k.as_u64().unwrap() as usize, fields.len(), &r, &fields);
            *once.entry(r.clone()).or_insert(0) += 1;
            log.borrow_mut().clear();
            ix.add_doc(&r, &texts);
            let mut want: Vec<(usize, String)> = vec![];
            for (i, t) in texts.iter().enumerate() {
                if fields[i].0 == reff {
                    continue;
                }
                want.push((fields[i].1, t.clone()));
                let toks: Vec<String> = cut(fields[i].1, t).into_iter().filter(|t| t != "the").map(|t| t + "z").collect();
                lens.insert((r.clone(), fields[i].0.clone()), toks.len() as u64);
                let mut c: BTreeMap<String, u64> = BTreeMap::new();
                for t in toks {
                    *c.entry(t).or_insert(0) += 1;
                }
                for (t, n) in c {
                    terms[i].entry(t).or_default().insert(r.clone(), n);
                }
            }
            let mut got = log.borrow().clone();
            got.sort();
            want.sort();
            cx.count("transitions", want.len() as u64);
            cx.outcome(&(&got, n));
            if got != want {
                return Err(format!(
                    "addition {}: the calls of tokenizers were {:?} instead of {:?} ({} is the language's)",
                    n + 1, head(&got), head(&want), BY_LANGUAGE
                ));
            }
        }
        let x = Export::of(&ix)?;
        let got_lens = x.lens()?;
        for (i, (f, _)) in fields.iter().enumerate() {
            let t = x.trie(f)?;
            for (term, docs) in &terms[i] {
                for (r, n) in docs {
                    let tf = t.get(term).and_then(|e| e.1.get(r)).copied();
                    if once[r] == 1 && !tf.is_some_and(|tf| sqrt_ok(tf, *n)) || tf.is_none() {
                        return Err(format!("field {:?}: term {:?}, {} times in document {:?}, has frequency {:?}", f, term, n, r, tf));
                    }
                }
            }
            for (term, (_, docs)) in &t {
                for r in docs.keys() {
                    if !terms[i].get(term).is_some_and(|d| d.contains_key(r)) {
                        return Err(format!("field {:?}: term {:?} is not in document {:?}", f, term, r));
                    }
                }
            }
        }
        for ((r, f), n) in &lens {
            if got_lens.get(r).and_then(|d| d.get(f)) != Some(n) {
                return Err(format!("field {:?} of document {:?} has length {:?} instead of {}", f, r, got_lens.get(r).and_then(|d| d.get(f)), n));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all orders of up to four (five) fields with all assignments of tokenizers and builder methods and fifteen short histories, many fields, every Unicode character in the text; a state is the calls an addition made"
    }
}

impl C18 {
    /// The exact text arrives, and the tokens go through the English pipeline.
    fn text(&self, cx: &Cx, p: &str) -> Result<(), String> {
        let log: Log = Default::default();
        let l2 = log.clone();
        let mut ix = IndexBuilder::new()
            .add_field("x")
            .add_field_with_tokenizer(
                "t",
                Box::new(move |t| {
                    l2.borrow_mut().push((1, t.to_string()));
                    vec!["dog".into(), "the".into(), "cats,".into(), "running".into(), "-".into(), "cats".into()]
                }),
            )
            .build();
        ix.add_doc("1", [p, p]);
        let got = log.borrow().clone();
        cx.count("transitions", got.len() as u64);
        cx.outcome(&(&got, 7));
        if got != [(1, p.to_string())] {
            return Err(format!("the tokenizer of a field with text {:?} was called with {:?}", p.chars().take(50).collect::<String>(), head(&got)));
        }
        let x = Export::of(&ix)?;
        let t = x.trie("t")?;
        let terms: Vec<(&str, f64)> = t.iter().filter_map(|(t, e)| e.1.get("1").map(|f| (t.as_str(), *f))).collect();
        if terms.iter().map(|t| t.0).collect::<Vec<_>>() != ["cat", "dog", "run"] || !sqrt_ok(terms[0].1, 2) {
            return Err(format!("the tokens of a custom tokenizer became the terms {:?}", terms));
        }
        if x.lens()?["1"]["t"] != 4 {
            return Err(format!("the field with a custom tokenizer has length {}", x.lens()?["1"]["t"]));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------- C19

pub struct C19;

impl Check for C19 {
    fn explore(&self, cx: &Cx) {
        let boosts: Vec<Value> = std::iter::once(Value::Null).chain([0, 1, 2, 127, 128, 200, 255].map(|n| json!(n))).collect();
        let mut combos = vec![];
        for b in &boosts {
            for o in [json!(null), json!("OR"), json!("AND")] {
                for e in [json!(null), json!(true), json!(false)] {
                    combos.push(json!([b, o, e]));
                }
            }
        }
        let tops: Vec<(&str, bool)> = vec![("OR", false), ("OR", true), ("AND", false), ("AND", true)];
        let n = combos.len();
        cx.par(tops.len() * (1 + n + n * n), |i| {
            let (b, e) = tops[i % 4];
            let mut k = i / 4;
            let f = if k == 0 {
                json!([])
            } else if k <= n {
                json!([["title", combos[k - 1]]])
            } else {
                k -= n + 1;
                json!([["title", combos[k / n]], ["body", combos[k % n]]])
            };
            cx.run(self, "options", &json!([b, e, f]).to_string());
        });
        if !cx.quick() {
            cx.par(n * n * n, |i| {
                let f = json!([["c", combos[i % n]], ["a", combos[i / n % n]], ["b", combos[i / n / n]]]);
                cx.run(self, "options", &json!(["AND", false, f]).to_string());
            });
        }
        // Every boost, and many fields.
        cx.par(256 * 9 * 4, |i| {
            let o = [json!(null), json!("OR"), json!("AND")][i / 256 % 3].clone();
            let e = [json!(null), json!(true), json!(false)][i / 768 % 3].clone();
            let (b, x) = tops[i / 2304];
            cx.run(self, "options", &json!([b, x, [["f", [i % 256, o, e]]]]).to_string());
        });
        let sizes: Vec<usize> = (0..cx.tier(120, 600)).chain([255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097, 10001, 32769, 65537]).collect();
        cx.par(sizes.len(), |i| {
            let n = sizes[i];
            let f: Vec<Value> = (0..n).map(|i| json!([format!("f{}", i), combos[i % combos.len()]])).collect();
            cx.run(self, "options", &json!(["OR", true, f]).to_string());
        });
        // Names: every character, and names of keys.
        par_scalars(cx, |c| {
            let f = json!([[c.to_string(), [1, null, null]], [format!("a{}b", c), [null, "AND", true]]]);
            cx.run(self, "options", &json!(["OR", false, f]).to_string());
        });
        let names = ["", "bool", "expand", "fields", "boost", "__proto__", "0", "a b", "\"", "\\"];
        cx.par(names.len() * names.len(), |i| {
            let (a, b) = (names[i / names.len()], names[i % names.len()]);
            if a != b {
                for c in &combos {
                    cx.run(self, "options", &json!(["AND", true, [[a, c], [b, [3, null, false]]]]).to_string());
                }
            }
        });
    }
    fn eval(&self, cx: &Cx, _fam: &str, p: &str) -> Result<(), String> {
        let v = val(p)?;
        let b = |s: &Value| match s.as_str() {
            Some("OR") => Some(SearchBool::Or),
            Some("AND") => Some(SearchBool::And),
            _ => None,
        };
        let mut o = SearchOptions::default();
        let d = SearchOptionsField::default();
        if o.bool != SearchBool::Or || o.expand || !o.fields.is_empty() || d.boost.is_some() || d.bool.is_some() || d.expand.is_some() {
            return Err("the defaults are not OR, false and no fields, or a field's settings are set by default".into());
        }
        o.bool = b(&v[0]).unwrap();
        o.expand = v[1].as_bool().unwrap();
        let mut want_fields = vec![];
        for f in v[2].as_array().unwrap() {
            let s = &f[1];
            let x = SearchOptionsField {
                boost: s[0].as_u64().map(|n| n as u8),
                bool: b(&s[1]),
                expand: s[2].as_bool(),
            };
            let mut w = vec![];
            if let Some(n) = s[0].as_u64() {
                w.push(format!("\"boost\":{}", n));
            }
            if let Some(n) = s[1].as_str() {
                w.push(format!("\"bool\":{}", quote(n)));
            }
            if let Some(n) = s[2].as_bool() {
                w.push(format!("\"expand\":{}", n));
            }
            let w = format!("{{{}}}", w.join(","));
            let alone = serde_json::to_string(&x).map_err(|e| e.to_string())?;
            same(&alone, &w)?;
            match serde_json::from_str::<SearchOptionsField>(&alone) {
                Ok(y) if y == x => {}
                r => return Err(format!("{} parses back as {:?}", alone, r)),
            }
            o.fields.insert(f[0].as_str().unwrap().into(), x);
            want_fields.push(format!("{}:{}", quote(f[0].as_str().unwrap()), w));
        }
        let want = format!("{{\"bool\":{},\"expand\":{},\"fields\":{{{}}}}}", quote(v[0].as_str().unwrap()), o.expand, want_fields.join(","));
        cx.count("traces", 1);
        cx.count("transitions", 2 + want_fields.len() as u64);
        cx.sample(|| want.chars().take(200).collect());
        for s in [serde_json::to_string(&o), serde_json::to_string_pretty(&o)] {
            let s = s.map_err(|e| e.to_string())?;
            cx.outcome(&s);
            same(&s, &want)?;
            match serde_json::from_str::<SearchOptions>(&s) {
                Ok(y) if y == o => {}
                Ok(_) => return Err(format!("{} parses back as other options", s.chars().take(300).collect::<String>())),
                Err(e) => return Err(format!("{} does not parse back: {}", s.chars().take(300).collect::<String>(), e)),
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all combinations of the settings of the options and of up to two (three) fields, all boosts, every Unicode character in field names; a state is an exported text"
    }
}

fn same(got: &str, want: &str) -> Result<(), String> {
    let (a, b): (J, J) = (json::parse(got)?, json::parse(want)?);
    if !a.same(&b) {
        return Err(format!("exported as {} instead of {}", got.chars().take(300).collect::<String>(), want.chars().take(300).collect::<String>()));
    }
    Ok(())
}

