//! C15, C16, C21, C22: languages, features, processing without memory, Chinese and Japanese.

use crate::engine::{par_scalars, par_strings, seq_at, seq_total, Check, Cx};
use crate::hist::{self, Export};
use crate::langs::{by_code, inst, Inst, Lang, LANGS};
use crate::{voc, data, probe};
use elasticlunr::{lang, IndexBuilder, Language};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::process::{Command, Stdio};
use std::sync::{Mutex, OnceLock};

fn clip<T: std::fmt::Debug>(t: &T) -> String {
    format!("{:?}", t).chars().take(400).collect()
}

// ---------------------------------------------------------------------------------------------- C15

pub struct C15;

impl C15 {
    /// The lookups of one string, given what the properties say about it.
    fn look(&self, cx: &Cx, s: &str) -> Result<(), String> {
        let lower: String = s.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect();
        let by_c = LANGS.iter().find(|l| l.code == lower);
        let by_n = LANGS.iter().find(|l| l.name == s);
        cx.count("transitions", 2);
        for (how, got, want) in [("code", lang::from_code(s), by_c), ("name", lang::from_name(s), by_n)] {
            match (got, want) {
                (None, None) => {}
                (Some(g), None) => return Err(format!("the {} {:?} gives {}", how, s, g.name())),
                (None, Some(w)) => return Err(format!("the {} {:?} gives nothing instead of {}", how, s, w.name)),
                (Some(g), Some(w)) => {
                    self.is(&*g, w, &format!("the {} {:?}", how, s))?;
                    cx.outcome(&(how, s.to_string()));
                }
            }
        }
        Ok(())
    }

    /// `g` is the language `w`, with its own code, name, tokenizer and pipeline.
    fn is(&self, g: &dyn Language, w: &'static Lang, what: &str) -> Result<(), String> {
        if g.name() != w.name || g.code() != w.code {
            return Err(format!("{} gives {} ({}) instead of {}", what, g.name(), g.code(), w.name));
        }
        let p = g.make_pipeline();
        let names: Vec<String> = p.queue.iter().map(|s| s.name()).collect();
        if names != w.stages {
            return Err(format!("{} gives a language with the stages {:?} instead of {:?}", what, names, w.stages));
        }
        let own = inst(w);
        for t in data::texts(w.code) {
            let (a, b) = (g.tokenize(t), own.lang.tokenize(t));
            if a != b {
                return Err(format!("{} gives a language that tokenizes {:?} to {:?} instead of {:?}", what, t, a, b));
            }
            let (a, b) = (p.run(a), own.pipe.run(b));
            if a != b {
                return Err(format!("{} gives a language that processes {:?} to {:?} instead of {:?}", what, t, a, b));
            }
        }
        let toks: Vec<String> = data::tokens(w.code).iter().map(|s| s.to_string()).collect();
        if p.run(toks.clone()) != own.pipe.run(toks) {
            return Err(format!("{} gives a language with another pipeline", what));
        }
        Ok(())
    }

    fn listing(&self, cx: &Cx) -> Result<(), String> {
        let list = lang::languages();
        let codes: BTreeSet<String> = list.iter().map(|l| l.code()).collect();
        let names: BTreeSet<String> = list.iter().map(|l| l.name()).collect();
        if codes.len() != list.len() || names.len() != list.len() {
            return Err(format!("two languages share a code or a name: {:?} {:?}", codes, names));
        }
        if codes != LANGS.iter().map(|l| l.code.to_string()).collect() {
            return Err(format!("the listed codes are {:?}", codes));
        }
        for l in &list {
            let w = LANGS.iter().find(|w| w.code == l.code()).unwrap();
            self.is(&**l, w, "the list")?;
            for (how, g) in [("code", lang::from_code(&l.code())), ("name", lang::from_name(&l.name()))] {
                match g {
                    None => return Err(format!("{} is listed but its {} gives nothing", l.name(), how)),
                    Some(g) => self.is(&*g, w, &format!("the {} of {}", how, l.name()))?,
                }
            }
            cx.count("transitions", 3);
        }
        Ok(())
    }
}

impl Check for C15 {
    fn explore(&self, cx: &Cx) {
        cx.run(self, "list", "");
        let look = |s: &str| {
            cx.run(self, "look", s);
        };
        // In every combination of cases.
        let mut v: Vec<String> = vec!["".into(), "nl".into(), "nb".into(), "nn".into(), "en-US".into(), "en_US".into(), "zh-CN".into(), "eng".into(), "vi".into(), "th".into(), "hi".into(), "gr".into(), "el".into(), "jp".into(), "kr".into(), "cn".into(), "se".into(), "dk".into(), "multi".into()];
        for l in LANGS {
            for s in [l.code, l.name] {
                let n = s.len();
                for m in 0..1usize << n.min(10) {
                    v.push(
                        s.bytes()
                            .enumerate()
                            .map(|(i, b)| {
                                let c = b.to_ascii_lowercase() as char;
                                if m >> i & 1 == 1 {
                                    c.to_ascii_uppercase()
                                } else {
                                    c
                                }
                            })
                            .collect(),
                    );
                }
                for i in 0..n {
                    v.push(format!("{}{}", &s[..i], &s[i + 1..]));
                    v.push(s[..i].into());
                    v.push(s[i..].into());
                    v.push(format!("{}{}{}", &s[..i], &s[i..i + 1], &s[i..]));
                    for j in i + 1..n {
                        let mut b = s.as_bytes().to_vec();
                        b.swap(i, j);
                        v.push(String::from_utf8(b).unwrap());
                    }
                }
                for o in LANGS {
                    for (a, b) in [(s, o.code), (s, o.name)] {
                        v.push(format!("{}{}", a, b));
                        for sep in [" ", "-", "_", ",", "/", "\0"] {
                            v.push(format!("{}{}{}", a, sep, b));
                        }
                    }
                    // One language's first letter with another's second.
                    v.push(format!("{}{}", &l.code[..1], &o.code[1..]));
                }
            }
        }
        v.sort();
        v.dedup();
        // The two whose construction takes a while last, spread over the cores.
        cx.par(v.len(), |i| look(&v[i]));
        // All short strings.
        let abc: Vec<String> = ('a'..='z').map(|c| c.to_string()).collect();
        let abc: Vec<&str> = abc.iter().map(|s| s.as_str()).collect();
        par_strings(cx, &abc, 3, cx.tier(4, 5), look);
        let both: Vec<String> = ('\0'..='\u{ff}').map(|c| c.to_string()).collect();
        let both: Vec<&str> = both.iter().map(|s| s.as_str()).collect();
        let slow = |s: &str| s.eq_ignore_ascii_case("zh") || s.eq_ignore_ascii_case("ja");
        par_strings(cx, &both, 1, 2, |s| {
            if !slow(s) {
                look(s)
            }
        });
        // Every character in place of, before and after every letter.
        for l in LANGS {
            for s in [l.code, l.name] {
                let top = if s == l.code || !cx.quick() { 0x110000 } else { 0x2200 };
                par_scalars(cx, |c| {
                    if (c as u32) >= top {
                        return;
                    }
                    let mut t = String::new();
                    for i in 0..=s.len() {
                        for cut in [i, i + 1] {
                            if cut <= s.len() {
                                t.clear();
                                t.push_str(&s[..i]);
                                t.push(c);
                                t.push_str(&s[cut..]);
                                if !slow(&t) && t != "Japanese" && t != "Chinese" {
                                    look(&t);
                                }
                            }
                        }
                    }
                });
            }
        }
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{:?}", p));
        if fam == "list" {
            self.listing(cx)
        } else {
            self.look(cx, p)
        }
    }
    fn rule(&self) -> &'static str {
        "the listing; all strings of up to 4 lowercase letters, of up to 2 characters below 256, all case combinations and edits of codes and names, every Unicode character at every place in them; a state is a lookup that succeeds"
    }
}

// ---------------------------------------------------------------------------------------------- C16

pub struct C16;

struct Deps {
    rlib: HashMap<String, String>,
    features: BTreeMap<String, Vec<String>>,
    edition: String,
    version: String,
    dir: String,
}

const REPO: &str = "/repo";

fn deps() -> Result<&'static Deps, String> {
    static D: OnceLock<Result<Deps, String>> = OnceLock::new();
    D.get_or_init(|| {
        let dir = format!("{}/../target/all", env!("CARGO_MANIFEST_DIR"));
        let text = std::fs::read_to_string(format!("{}/artifacts.json", dir)).map_err(|e| format!("harness: artifacts.json: {}", e))?;
        let mut rlib = HashMap::new();
        for l in text.lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            let host = v["target"]["kind"].as_array().is_some_and(|k| k.iter().any(|k| k == "proc-macro"));
            if !host && v["profile"]["opt_level"] != "2" {
                continue;
            }
            for f in v["filenames"].as_array().into_iter().flatten() {
                let f = f.as_str().unwrap_or("");
                if f.ends_with(".rlib") || f.ends_with(".so") {
                    rlib.insert(name.clone(), f.to_string());
                }
            }
        }
        let o = Command::new("cargo")
            .args(["metadata", "--offline", "--no-deps", "--format-version", "1", "--manifest-path"])
            .arg(format!("{}/Cargo.toml", REPO))
            .output()
            .map_err(|e| format!("harness: cargo metadata: {}", e))?;
        let v: Value = serde_json::from_slice(&o.stdout).map_err(|e| format!("harness: cargo metadata: {}", e))?;
        let p = v["packages"].as_array().and_then(|a| a.iter().find(|p| p["name"] == "elasticlunr-rs")).ok_or("harness: no package")?;
        let features = p["features"]
            .as_object()
            .ok_or("harness: no features")?
            .iter()
            .map(|(k, v)| (k.clone(), v.as_array().into_iter().flatten().map(|x| x.as_str().unwrap().to_string()).collect()))
            .collect();
        Ok(Deps {
            rlib,
            features,
            edition: p["edition"].as_str().unwrap_or("2018").into(),
            version: p["version"].as_str().unwrap_or("").into(),
            dir,
        })
    })
    .as_ref()
    .map_err(|e| e.clone())
}

/// The report of this build, which has all languages: (kind, code) -> rest of the line.
fn full() -> &'static BTreeMap<(String, String), String> {
    static F: OnceLock<BTreeMap<(String, String), String>> = OnceLock::new();
    F.get_or_init(|| lines(&probe::report()).unwrap())
}

fn lines(s: &str) -> Result<BTreeMap<(String, String), String>, String> {
    let mut m = BTreeMap::new();
    for l in s.lines() {
        let mut w = l.splitn(3, ' ');
        let (k, c, r) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
        if m.insert((k.to_string(), c.to_string()), r.to_string()).is_some() {
            return Err(format!("{} {} appears twice", k, c));
        }
    }
    Ok(m)
}

impl C16 {
    fn build(&self, set: &[&str]) -> Result<String, String> {
        let d = deps()?;
        // The closure of the features, and the optional dependencies they name.
        let mut on: BTreeSet<String> = set.iter().map(|s| s.to_string()).collect();
        if d.features.contains_key("default") {
            on.insert("default".into());
        }
        let mut libs: BTreeSet<String> = ["regex", "serde", "serde_derive", "serde_json"].iter().map(|s| s.to_string()).collect();
        let mut todo: Vec<String> = on.iter().cloned().collect();
        while let Some(f) = todo.pop() {
            for g in d.features.get(&f).into_iter().flatten() {
                if let Some(dep) = g.strip_prefix("dep:") {
                    libs.insert(dep.replace('-', "_"));
                } else if on.insert(g.clone()) {
                    todo.push(g.clone());
                }
            }
        }
        let tmp = format!("{}/probe-{}-{:?}", d.dir, std::process::id(), std::thread::current().id()).replace(['(', ')'], "");
        std::fs::create_dir_all(&tmp).map_err(|e| format!("harness: {}", e))?;
        let r = self.compile(d, &on, &libs, &tmp);
        let _ = std::fs::remove_dir_all(&tmp);
        r
    }

    fn compile(&self, d: &Deps, on: &BTreeSet<String>, libs: &BTreeSet<String>, tmp: &str) -> Result<String, String> {
        let rustc = |args: &mut Command| -> Result<(), String> {
            let o = args.stdin(Stdio::null()).output().map_err(|e| format!("harness: rustc: {}", e))?;
            if !o.status.success() {
                let e = String::from_utf8_lossy(&o.stderr);
                let e: String = e.lines().filter(|l| l.starts_with("error") || l.contains("-->")).take(6).collect::<Vec<_>>().join(" ");
                return Err(format!("the crate does not compile: {}", e));
            }
            Ok(())
        };
        let mut c = Command::new("rustc");
        c.current_dir(REPO)
            .env("CARGO_MANIFEST_DIR", REPO)
            .env("CARGO_PKG_NAME", "elasticlunr-rs")
            .env("CARGO_PKG_VERSION", &d.version)
            .args(["--crate-name", "elasticlunr", "--crate-type", "rlib", "--cap-lints", "allow", "-C", "codegen-units=4", "--edition", &d.edition, "src/lib.rs"])
            .arg("--out-dir")
            .arg(tmp)
            .arg("-L")
            .arg(format!("dependency={}/release/deps", d.dir));
        for f in on {
            c.arg("--cfg").arg(format!("feature=\"{}\"", f));
        }
        for l in libs {
            let p = d.rlib.get(l).ok_or_else(|| format!("harness: no library {}", l))?;
            c.arg("--extern").arg(format!("{}={}", l, p));
        }
        rustc(&mut c)?;
        let mut c = Command::new("rustc");
        c.args(["--crate-name", "probe", "--edition", "2021", "--cap-lints", "allow"])
            .arg(format!("{}/probe_main.rs", env!("CARGO_MANIFEST_DIR")))
            .arg("-L")
            .arg(format!("dependency={}/release/deps", d.dir))
            .arg("--extern")
            .arg(format!("elasticlunr={}/libelasticlunr.rlib", tmp))
            .arg("-o")
            .arg(format!("{}/probe", tmp));
        let r = rustc(&mut c);
        r.map_err(|e| format!("harness: probe: {}", e))?;
        let o = Command::new(format!("{}/probe", tmp)).output().map_err(|e| format!("harness: {}", e))?;
        if !o.status.success() {
            return Err(format!("with these features the crate fails: {} {}", o.status, String::from_utf8_lossy(&o.stderr).lines().take(3).collect::<Vec<_>>().join(" ")));
        }
        String::from_utf8(o.stdout).map_err(|_| "harness: output".into())
    }
}

impl Check for C16 {
    fn explore(&self, cx: &Cx) {
        let fs: Vec<&str> = probe::ALL.iter().map(|e| e.0).filter(|c| *c != "en").collect();
        let n = fs.len();
        let mut sets: Vec<Vec<&str>> = vec![vec![], fs.clone(), vec!["languages"]];
        for i in 0..n {
            sets.push(vec![fs[i]]);
            sets.push(fs.iter().copied().filter(|f| *f != fs[i]).collect());
        }
        // Every pair once: as a pair, and (thorough) every pair left out and every triple.
        for i in 0..n {
            for j in 0..i {
                sets.push(vec![fs[i], fs[j]]);
            }
        }
        if !cx.quick() {
            for i in 0..n {
                for j in 0..i {
                    sets.push(fs.iter().copied().filter(|f| *f != fs[i] && *f != fs[j]).collect());
                    for k in 0..j {
                        sets.push(vec![fs[i], fs[j], fs[k]]);
                    }
                }
            }
        }
        full();
        // Sets with the two big dictionaries take longest.
        sets.sort_by_key(|s| !(s.contains(&"ja") || s.contains(&"zh")));
        let next = std::sync::atomic::AtomicUsize::new(0);
        cx.par(sets.len().min(cx.threads), |_| loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if i >= sets.len() || cx.stopped() {
                break;
            }
            cx.run(self, "set", &sets[i].join(","));
        });
        cx.note("feature_sets", sets.len());
    }
    fn eval(&self, cx: &Cx, _fam: &str, p: &str) -> Result<(), String> {
        let set: Vec<&str> = p.split(',').filter(|s| !s.is_empty()).collect();
        cx.count("traces", 1);
        cx.sample(|| p.to_string());
        let got = self.build(&set)?;
        let got = lines(&got)?;
        cx.count("transitions", got.len() as u64);
        let has = |c: &str| c == "en" || set.contains(&c) || set.contains(&"languages");
        let full = full();
        for ((kind, code), rest) in full {
            let g = got.get(&(kind.clone(), code.clone())).map(|s| s.as_str());
            let want = match (has(code), kind.as_str()) {
                (true, _) => Some(rest.as_str()),
                (false, "list" | "export") => None,
                (false, k) if k.contains('-') => None,
                (false, _) => Some("-"),
            };
            if g != want {
                return Err(format!("with the features {:?}, \"{} {}\" gives {} instead of {}", set, kind, code, clip(&g), clip(&want)));
            }
            if want.is_some() {
                cx.outcome(&(kind, code, g));
            }
        }
        if let Some(k) = got.keys().find(|k| !full.contains_key(k)) {
            return Err(format!("with the features {:?} there is a language {} that is not there with all of them", set, k.1));
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "builds of the crate with no, each one, each two, all but each one and all features (thorough: each three, all but each two); each lists its languages, looks all up and indexes the same texts in all its languages; a state is one of these answers"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the crate is compiled by rustc with the features and optional dependencies its manifest gives, the dependencies are those of the build with all features"]
    }
}

// ---------------------------------------------------------------------------------------------- C21

pub struct C21;

fn run_child(args: &[&str]) -> Result<String, String> {
    let o = Command::new(std::env::current_exe().unwrap())
        .arg("child")
        .args(args)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("harness: {}", e))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        return Err(format!("{}: {}", o.status, e.chars().take(300).collect::<String>()));
    }
    String::from_utf8(o.stdout).map_err(|_| "harness: output".into())
}

/// In a process of its own: what a language makes of its n-th token or text.
pub fn fresh(code: &str, what: &str, n: usize) -> i32 {
    let i = Inst::new(by_code(code));
    let v = match what {
        "token" => i.pipe.run(vec![data::tokens(code)[n].to_string()]),
        "tokenize" => i.lang.tokenize(data::texts(code)[n]),
        _ => {
            let mut ix = IndexBuilder::with_language((by_code(code).make)()).add_field("t").build();
            ix.add_doc("1", [data::texts(code)[n]]);
            vec![ix.to_json()]
        }
    };
    println!("{}", json!(v));
    0
}

type Refs = (Vec<Vec<String>>, Vec<Vec<String>>, Vec<String>);

/// What each token and text of a language gives in a process in which nothing else was processed.
fn refs(code: &'static str) -> Result<std::sync::Arc<Refs>, String> {
    static R: Mutex<BTreeMap<&'static str, std::sync::Arc<Refs>>> = Mutex::new(BTreeMap::new());
    if let Some(r) = R.lock().unwrap().get(code) {
        return Ok(r.clone());
    }
    let get = |what: &str, n: usize| -> Result<Vec<String>, String> {
        let o = run_child(&["fresh", code, what, &n.to_string()])?;
        serde_json::from_str(o.trim()).map_err(|e| format!("harness: {}", e))
    };
    let mut r: Refs = (vec![], vec![], vec![]);
    for n in 0..data::tokens(code).len() {
        r.0.push(get("token", n)?);
    }
    for n in 0..data::texts(code).len() {
        r.1.push(get("tokenize", n)?);
        r.2.push(get("index", n)?.remove(0));
    }
    let r = std::sync::Arc::new(r);
    R.lock().unwrap().insert(code, r.clone());
    Ok(r)
}

/// A sequence in which every string of three of n symbols appears.
fn de_bruijn(n: usize) -> Vec<usize> {
    // Greedy: prefer the largest symbol.
    let mut seen = vec![false; n * n * n];
    let mut s = vec![0, 0];
    'l: loop {
        let (a, b) = (s[s.len() - 2], s[s.len() - 1]);
        for c in (0..n).rev() {
            let k = (a * n + b) * n + c;
            if !seen[k] {
                seen[k] = true;
                s.push(c);
                continue 'l;
            }
        }
        return s;
    }
}

impl C21 {
    /// Tokens in a row through one pipeline, one call each and in one call.
    fn seq(&self, cx: &Cx, l: &'static Lang, seq: &[usize]) -> Result<(), String> {
        let r = refs(l.code)?;
        let toks = data::tokens(l.code);
        let lang_inst = inst(l);
        let p = lang_inst.lang.make_pipeline();
        for (i, &k) in seq.iter().enumerate() {
            let got = p.run(vec![toks[k].to_string()]);
            cx.count("transitions", 1);
            if got != r.0[k] {
                return Err(format!("{}: after {:?} the terms of {:?} are {:?}; on their own they are {:?}", l.name, seq[..i].iter().map(|&k| toks[k]).collect::<Vec<_>>(), toks[k], got, r.0[k]));
            }
        }
        let p = lang_inst.lang.make_pipeline();
        let got = p.run(seq.iter().map(|&k| toks[k].to_string()).collect());
        let want: Vec<String> = seq.iter().flat_map(|&k| r.0[k].iter().cloned()).collect();
        cx.count("transitions", 1);
        cx.outcome(&(l.code, &got));
        if got != want {
            return Err(format!("{}: the terms of the list {:?} are {:?}; one by one they are {:?}", l.name, seq.iter().map(|&k| toks[k]).collect::<Vec<_>>(), got, want));
        }
        Ok(())
    }

    /// Texts in a row through one language, and through one index after other indexes.
    fn texts(&self, cx: &Cx, l: &'static Lang, seq: &[usize]) -> Result<(), String> {
        let r = refs(l.code)?;
        let ts = data::texts(l.code);
        let own;
        let shared;
        let g: &dyn Language = if l.ws {
            own = (l.make)();
            &*own
        } else {
            shared = inst(l);
            &*shared.lang
        };
        for (i, &k) in seq.iter().enumerate() {
            let got = g.tokenize(ts[k]);
            cx.count("transitions", 1);
            if got != r.1[k] {
                return Err(format!("{}: after {:?} the tokens of {:?} are {:?}; on their own they are {:?}", l.name, seq[..i].iter().map(|&k| ts[k]).collect::<Vec<_>>(), ts[k], got, r.1[k]));
            }
        }
        if !l.ws {
            return Ok(());
        }
        // An index that takes the texts before the last one into another field, and then the last.
        let mut ix = IndexBuilder::with_language((l.make)()).add_field("a").add_field("t").build();
        for (i, &k) in seq.iter().enumerate() {
            ix.add_doc(&format!("a{}", i), [ts[k], ""]);
        }
        if let Some(&k) = seq.last() {
            ix.add_doc("1", ["", ts[k]]);
            cx.count("transitions", seq.len() as u64 + 1);
            let (x, w) = (Export::of(&ix)?, crate::json::parse(&r.2[k])?);
            let mut got = x.trie("t")?;
            got.retain(|_, n| n.1.remove("1").is_some() || !n.1.is_empty());
            let got: BTreeSet<&String> = got.keys().collect();
            let mut want = hist::trie(w.get("index")?.get("t")?)?;
            want.retain(|_, n| !n.1.is_empty());
            let want: BTreeSet<&String> = want.keys().collect();
            if got != want {
                return Err(format!("{}: after {:?} the text {:?} is indexed under {:?}; on its own under {:?}", l.name, seq.iter().map(|&k| ts[k]).collect::<Vec<_>>(), ts[k], got, want));
            }
        }
        Ok(())
    }
}

/// Many different words of a language.
fn many(l: &Lang, n: usize) -> Vec<String> {
    let a = data::letters(l.code);
    let mut v = vec![];
    let mut seq = vec![];
    let e = data::endings(l.code);
    for i in 0..n {
        // Steps through long words in an order that mixes lengths.
        seq_at(a.len(), i * 37 + 11, &mut seq);
        let mut s: String = seq.iter().map(|&k| a[k]).collect();
        s.push_str(e[i % e.len()]);
        v.push(s);
    }
    v.extend(l.stops().iter().map(|s| s.to_string()).collect::<BTreeSet<_>>());
    v
}

/// In a process of its own: a long history of one pipeline against fresh ones.
pub fn long_history(code: &str, n: usize) -> i32 {
    let l = by_code(code);
    let i = Inst::new(l);
    let r = match refs(l.code) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let toks = data::tokens(code);
    let ts = data::texts(code);
    let fail = |m: String| -> i32 {
        println!("{}", m);
        0
    };
    // Every three tokens in a row, all in one history.
    let s = de_bruijn(toks.len());
    for (j, &k) in s.iter().enumerate() {
        let got = i.pipe.run(vec![toks[k].to_string()]);
        if got != r.0[k] {
            return fail(format!("after {} tokens, the last ones {:?}, the terms of {:?} are {:?}; on their own they are {:?}", j, s[j.saturating_sub(4)..j].iter().map(|&k| toks[k]).collect::<Vec<_>>(), toks[k], got, r.0[k]));
        }
        let k = j % ts.len();
        if j % 7 == 0 && i.lang.tokenize(ts[k]) != r.1[k] {
            return fail(format!("after {} tokens the tokens of {:?} are {:?}; on their own they are {:?}", j, ts[k], i.lang.tokenize(ts[k]), r.1[k]));
        }
    }
    // Many words: forwards on one pipeline, backwards on a second, by sevens on the first again, and each
    // hundredth on one that is new.
    let words = many(l, n);
    let first: Vec<Vec<String>> = words.iter().map(|w| i.pipe.run(vec![w.clone()])).collect();
    let p2 = i.lang.make_pipeline();
    let n = words.len();
    for j in (0..n).rev() {
        let g = p2.run(vec![words[j].clone()]);
        if g != first[j] {
            return fail(format!("the terms of {:?} are {:?} or {:?}, depending on the words before", words[j], first[j], g));
        }
    }
    let step = (7..).step_by(2).find(|s| n % s != 0 && gcd(n, *s) == 1).unwrap();
    for k in 0..n {
        let j = k * step % n;
        let g = i.pipe.run(vec![words[j].clone()]);
        if g != first[j] {
            return fail(format!("the terms of {:?} are {:?} at first and {:?} later", words[j], first[j], g));
        }
    }
    for j in (0..n).step_by(100) {
        let g = i.lang.make_pipeline().run(vec![words[j].clone()]);
        if g != first[j] {
            return fail(format!("the terms of {:?} are {:?} in a history and {:?} on a new pipeline", words[j], first[j], g));
        }
    }
    // All in one list.
    let all: Vec<String> = first.iter().flatten().cloned().collect();
    if i.pipe.run(words.clone()) != all {
        return fail("the terms of a long list of tokens are not those of its tokens one by one".into());
    }
    // Texts of growing length, twice.
    let mut text = String::new();
    for (j, w) in words.iter().enumerate().take(if l.ws { 4000 } else { 300 }) {
        text.push_str(w);
        text.push(' ');
        if j % 50 == 0 || j < 30 {
            let a = i.lang.tokenize(&text);
            let b = i.lang.tokenize(&text);
            if a != b || i.pipe.run(a) != i.pipe.run(b) {
                return fail(format!("a text of {} words gives other terms the second time", j + 1));
            }
        }
    }
    // Millions of tokens, and thousands of texts.
    let mut run = 0;
    while run < n * 150 {
        run += words.len();
        if i.pipe.run(words.clone()) != all {
            return fail(format!("the terms of a list of {} tokens change after some {} tokens", words.len(), run));
        }
    }
    for j in 0..n * 2 {
        let k = j % ts.len();
        if i.lang.tokenize(ts[k]) != r.1[k] {
            return fail(format!("after {} texts the tokens of {:?} are {:?}; on their own they are {:?}", j, ts[k], i.lang.tokenize(ts[k]), r.1[k]));
        }
    }
    for (k, t) in ts.iter().enumerate() {
        if i.lang.tokenize(t) != r.1[k] {
            return fail(format!("in the end the tokens of {:?} are {:?}; on their own they are {:?}", t, i.lang.tokenize(t), r.1[k]));
        }
    }
    println!("ok {}", s.len() + 6 * n + run);
    0
}

/// Tokens of which every one is run after every other: like one another in letters, length, case or ends.
fn universe(l: &Lang) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    let a = data::letters(l.code);
    for t in data::tokens(l.code) {
        v.extend([t.to_string(), t.to_uppercase(), format!("{}!", t), format!("!{}", t), format!("{}s", t), t.chars().rev().collect(), t.repeat(2)]);
    }
    for x in &a[..5] {
        for y in &a[..5] {
            v.extend([format!("{}{}", x, y), format!("{}{}{}", x, y, x), format!("{}{}", x, y.to_uppercase())]);
        }
    }
    for e in data::endings(l.code).iter().take(25) {
        v.extend([format!("{}{}", a[..4].concat(), e), format!("{}{}.", a[..4].concat(), e), format!("{}{}", a[1..5].concat(), e)]);
    }
    for n in (1..20).chain([31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257]) {
        let m = a[2].repeat(n);
        for e in ["", data::endings(l.code)[1]] {
            v.extend([format!("{}{}{}{}", a[0], m, a[1], e), format!("{}{}{}{}", a[1], m, a[0], e)]);
        }
    }
    let mut st: Vec<&str> = l.stops().iter().copied().collect();
    st.sort_unstable();
    for w in st.iter().step_by(1 + st.len() / 12) {
        v.extend([w.to_string(), format!("{}.", w), w.to_uppercase()]);
    }
    v.into_iter().collect()
}

/// Texts of which every one is tokenized after every other.
fn text_universe(code: &str) -> Vec<String> {
    let t = data::texts(code);
    let mut v: BTreeSet<String> = BTreeSet::new();
    for x in t {
        v.extend([x.to_string(), x.to_uppercase(), format!("{} ", x), format!("{}!", x), x.chars().rev().collect(), x.replace(' ', ""), x.repeat(3)]);
        for y in t {
            v.insert(format!("{}{}", x, y));
        }
    }
    v.into_iter().collect()
}

type Own = (Vec<Vec<String>>, Vec<Vec<String>>);

/// In a process of its own: what each member of the universes gives on a new pipeline, in one of two orders.
pub fn own(code: &str, rev: bool) -> i32 {
    let l = by_code(code);
    let (u, t) = (universe(l), text_universe(code));
    let g = (l.make)();
    let mut o: Own = (vec![vec![]; u.len()], vec![vec![]; t.len()]);
    let order = |n: usize| (0..n).map(move |k| if rev { n - 1 - k } else { k });
    for k in order(u.len()) {
        o.0[k] = g.make_pipeline().run(vec![u[k].clone()]);
    }
    for k in order(t.len()) {
        o.1[k] = if l.ws { (l.make)().tokenize(&t[k]) } else { g.tokenize(&t[k]) };
    }
    println!("{}", json!(o));
    0
}

impl C21 {
    fn owns(&self, l: &Lang) -> Result<Own, String> {
        let get = |d: &str| -> Result<Own, String> {
            serde_json::from_str(run_child(&["own", l.code, d])?.trim()).map_err(|e| format!("harness: {}", e))
        };
        let (a, b) = (get("fwd")?, get("rev")?);
        let (u, t) = (universe(l), text_universe(l.code));
        for (k, w) in u.iter().enumerate() {
            if a.0[k] != b.0[k] {
                return Err(format!("{}: on a new pipeline the terms of {:?} are {:?} or {:?}, depending on what other pipelines did", l.name, clip(w), a.0[k], b.0[k]));
            }
        }
        for (k, w) in t.iter().enumerate() {
            if a.1[k] != b.1[k] {
                return Err(format!("{}: the tokens of {:?} are {:?} or {:?}, depending on what was tokenized before", l.name, clip(w), a.1[k], b.1[k]));
            }
        }
        Ok(a)
    }

    /// Every ordered pair of the universes, in a row on one pipeline, and on two alternately.
    fn pairs(&self, cx: &Cx, l: &'static Lang) -> Result<(), String> {
        let o = self.owns(l)?;
        let (u, t) = (universe(l), text_universe(l.code));
        let i = Inst::new(l);
        let p2 = i.lang.make_pipeline();
        let walk = all_pairs(u.len());
        for (j, &k) in walk.iter().enumerate() {
            let p = if j > walk.len() / 2 && j % 3 == 0 { &p2 } else { &i.pipe };
            let got = p.run(vec![u[k].clone()]);
            if got != o.0[k] {
                return Err(format!("{}: after {:?} the terms of {:?} are {:?}; on their own they are {:?}", l.name, clip(&u[walk[j.saturating_sub(1)]]), clip(&u[k]), got, o.0[k]));
            }
        }
        // In lists: every pair in one call.
        for a in 0..u.len() {
            let list: Vec<String> = (0..u.len()).flat_map(|b| [u[a].clone(), u[b].clone()]).collect();
            let want: Vec<&String> = (0..u.len()).flat_map(|b| o.0[a].iter().chain(&o.0[b])).collect();
            let got = i.pipe.run(list);
            if !got.iter().eq(want.iter().copied()) {
                return Err(format!("{}: a list with {:?} at every other place gives other terms than its tokens one by one", l.name, clip(&u[a])));
            }
        }
        let tw = all_pairs(t.len());
        for (j, &k) in tw.iter().enumerate() {
            let got = i.lang.tokenize(&t[k]);
            if got != o.1[k] {
                return Err(format!("{}: after {:?} the tokens of {:?} are {:?}; on their own they are {:?}", l.name, clip(&t[tw[j.saturating_sub(1)]]), clip(&t[k]), got, o.1[k]));
            }
        }
        cx.count("transitions", (walk.len() + u.len() * u.len() * 2 + tw.len()) as u64);
        cx.outcome(&(l.code, &o));
        Ok(())
    }

    /// The same tokens through every language after every other.
    fn cross(&self, cx: &Cx, code: &str) -> Result<(), String> {
        let words: Vec<String> = LANGS.iter().flat_map(|l| data::tokens(l.code)).map(|s| s.to_string()).collect::<BTreeSet<_>>().into_iter().collect();
        let with: Vec<&'static Lang> = LANGS.iter().filter(|l| l.code == code).chain(LANGS.iter().filter(|l| l.code != code)).collect();
        let args: Vec<&str> = with.iter().map(|l| l.code).collect();
        // First the given language and then the others, in one process each.
        let o = run_child(&["cross", &args.join(",")])?;
        let got: Vec<Vec<Vec<String>>> = serde_json::from_str(o.trim()).map_err(|e| format!("harness: {}", e))?;
        for (k, l) in with.iter().enumerate() {
            let i = Inst::new(l);
            for (j, w) in words.iter().enumerate() {
                let here = i.pipe.run(vec![w.clone()]);
                cx.count("transitions", 2);
                if here != got[k][j] {
                    return Err(format!("{}: the terms of {:?} are {:?} after {} and {:?} after others", l.name, w, got[k][j], with[0].name, here));
                }
                if l.ws {
                    // An account that has no state at all.
                    let want: Vec<String> = l.ref_term(w).into_iter().collect();
                    let lower = w.to_lowercase() == *w;
                    if lower && l.code != "ar" && here != want {
                        return Err(format!("{}: among other languages the terms of {:?} are {:?} instead of {:?}", l.name, w, here, want));
                    }
                }
            }
        }
        Ok(())
    }
}

/// In a process of its own: the tokens of all languages through the given ones in turn.
pub fn cross(codes: &str) -> i32 {
    let words: Vec<String> = LANGS.iter().flat_map(|l| data::tokens(l.code)).map(|s| s.to_string()).collect::<BTreeSet<_>>().into_iter().collect();
    let v: Vec<Vec<Vec<String>>> = codes
        .split(',')
        .map(|c| {
            let i = Inst::new(by_code(c));
            words.iter().map(|w| i.pipe.run(vec![w.clone()])).collect()
        })
        .collect();
    println!("{}", json!(v));
    0
}

/// A walk over n symbols in which every ordered pair appears in a row.
fn all_pairs(n: usize) -> Vec<usize> {
    let mut s = vec![];
    for i in 0..n {
        s.push(i);
        for j in i + 1..n {
            s.extend([i, j]);
        }
    }
    s.push(0);
    s
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

impl Check for C21 {
    fn explore(&self, cx: &Cx) {
        cx.par(LANGS.len(), |i| {
            let l = &LANGS[LANGS.len() - 1 - i];
            cx.run(self, "long", &format!("{} {}", l.code, cx.tier(10_000, 60_000)));
        });
        cx.par(2 * LANGS.len(), |i| {
            let l = &LANGS[LANGS.len() - 1 - i / 2];
            cx.run(self, if i % 2 == 0 { "pairs" } else { "cross" }, l.code);
        });
        cx.par(LANGS.len(), |i| {
            cx.case("refs", LANGS[i].code, || refs(LANGS[i].code).map(|_| ()));
        });
        for (l, d) in LANGS.iter().map(|l| (l, cx.tier(3, 4))) {
            let n = data::tokens(l.code).len();
            // Pipelines of languages with big classes take a millisecond to make.
            let d = if d == 4 && l.code != "en" && l.code != "ar" { 3 } else { d };
            cx.par(seq_total(n, d), |i| {
                let mut s = vec![];
                seq_at(n, i, &mut s);
                cx.run(self, "tokens", &format!("{} {}", l.code, s.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" ")));
            });
            let n = data::texts(l.code).len();
            cx.par(seq_total(n, cx.tier(3, 4)), |i| {
                let mut s = vec![];
                seq_at(n, i, &mut s);
                cx.run(self, "texts", &format!("{} {}", l.code, s.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(" ")));
            });
        }
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, p));
        let (code, rest) = p.split_once(' ').unwrap_or((p, ""));
        let l = by_code(code);
        if fam == "refs" {
            return refs(l.code).map(|_| ());
        }
        if fam == "pairs" {
            return self.pairs(cx, l);
        }
        if fam == "cross" {
            return self.cross(cx, l.code);
        }
        if fam == "long" {
            let o = run_child(&["long-history", code, rest])?;
            return match o.trim().strip_prefix("ok ") {
                Some(n) => {
                    cx.count("transitions", n.parse().unwrap_or(0));
                    Ok(())
                }
                None => Err(format!("{}: {}", l.name, o.trim())),
            };
        }
        let seq: Vec<usize> = rest.split(' ').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        if fam == "tokens" {
            self.seq(cx, l, &seq)
        } else {
            self.texts(cx, l, &seq)
        }
    }
    fn rule(&self) -> &'static str {
        "all sequences of up to 3 tokens and of up to 3 texts in all languages, on new pipelines, against what each gives in a process of its own; all ordered pairs of some hundred tokens and texts in each language and of languages; one long history per language with all triples of tokens and thousands of words in three orders; a state is a list of terms"
    }
}

// ---------------------------------------------------------------------------------------------- C22

pub struct C22;

fn jieba() -> &'static jieba_rs::Jieba {
    static J: OnceLock<jieba_rs::Jieba> = OnceLock::new();
    J.get_or_init(jieba_rs::Jieba::new)
}

thread_local!(static LINDERA: lindera::tokenizer::Tokenizer = {
    lindera::tokenizer::Tokenizer::with_config(lindera::tokenizer::TokenizerConfig {
        mode: lindera_core::viterbi::Mode::Decompose(Default::default()),
        ..Default::default()
    }).unwrap()
});

impl C22 {
    fn chinese(&self, cx: &Cx, text: &str, whole: bool) -> Result<(), String> {
        let l = by_code("zh");
        let i = inst(l);
        let toks = i.lang.tokenize(text);
        let want: Vec<String> = jieba().cut_for_search(text, false).iter().map(|s| s.to_string()).collect();
        cx.outcome(&toks);
        if toks != want {
            return Err(format!("Chinese: the tokens of {:?} are {:?} instead of {:?}", text, clip(&toks), clip(&want)));
        }
        // Every word character in a token, every token a piece.
        if text.len() < 400 {
            let mut covered = vec![false; text.len()];
            for t in &toks {
                if !text.contains(t.as_str()) {
                    return Err(format!("Chinese: the token {:?} is not in the text {:?}", t, text));
                }
                for (a, _) in text.char_indices() {
                    if text[a..].starts_with(t.as_str()) {
                        covered[a..a + t.len()].fill(true);
                    }
                }
            }
            if let Some((a, c)) = text.char_indices().find(|(a, c)| l.is_word_char(*c) && !covered[*a]) {
                return Err(format!("Chinese: {:?} at byte {} of {:?} is in no token of {:?}", c, a, text, toks));
            }
        }
        self.terms(cx, l, text, toks, whole)
    }

    fn japanese(&self, cx: &Cx, text: &str, whole: bool) -> Result<(), String> {
        let l = by_code("ja");
        let i = inst(l);
        let toks = i.lang.tokenize(text);
        cx.outcome(&toks);
        let want: Vec<String> = LINDERA.with(|t| {
            t.tokenize(text)
                .unwrap()
                .iter()
                .filter(|t| !t.detail.first().is_some_and(|d| ["助詞", "助動詞", "記号", "UNK"].contains(&d.as_str())))
                .map(|t| t.text.to_string())
                .collect()
        });
        if toks != want {
            return Err(format!("Japanese: the tokens of {:?} are {:?} instead of {:?}", text, clip(&toks), clip(&want)));
        }
        // In their order, each an unchanged piece.
        let mut at = 0;
        for t in &toks {
            match text[at..].find(t.as_str()) {
                Some(p) => at += p + t.len(),
                None => return Err(format!("Japanese: the token {:?} is not in its place in the text {:?}", t, text)),
            }
        }
        self.terms(cx, l, text, toks, whole)
    }

    fn terms(&self, cx: &Cx, l: &'static Lang, text: &str, toks: Vec<String>, whole: bool) -> Result<(), String> {
        let want: Vec<String> = toks.iter().filter_map(|t| l.ref_term(t)).collect();
        let got = inst(l).pipe.run(toks);
        cx.count("transitions", 2);
        if got != want {
            return Err(format!("{}: the terms of {:?} are {} instead of {}", l.name, clip(&text), clip(&got), clip(&want)));
        }
        if whole {
            // And on the way into an index, from which everything is read back.
            let mut ix = IndexBuilder::with_language((l.make)()).add_fields(["t", "u"]).build();
            ix.add_doc("1", [text, ""]);
            ix.add_doc("2", ["", text]);
            cx.count("transitions", 2);
            let x = Export::of(&ix)?;
            let lens = x.lens()?;
            for (f, r) in [("t", "1"), ("u", "2")] {
                let mut t = x.trie(f)?;
                t.retain(|_, n| !n.1.is_empty());
                let g: BTreeSet<&String> = t.keys().collect();
                if g != want.iter().collect() {
                    return Err(format!("{}: {:?} is indexed under {:?} instead of {:?}", l.name, text, g, want));
                }
                if lens.get(r).and_then(|d| d.get(f)) != Some(&(want.len() as u64)) {
                    return Err(format!("{}: the length of {:?} is {:?} instead of {}", l.name, text, lens.get(r), want.len()));
                }
            }
        }
        Ok(())
    }
}

impl Check for C22 {
    fn explore(&self, cx: &Cx) {
        let zh = ["中", "国", "人", "北", "京", "大", "学", "的", "了", "，", "A", "é", " ", "1", "-", "。", "b"];
        par_strings(cx, &zh, 0, cx.tier(5, 6), |s| {
            cx.run(self, "zh", s);
        });
        // The dictionaries: every entry, and every two neighbours.
        for (l, o) in [("zh", "ja"), ("ja", "zh")] {
            let (v, o) = (voc::words(l), voc::words(o));
            let step = cx.tier(3, 1);
            cx.par(v.len().div_ceil(step), |i| {
                cx.run(self, l, &v[i * step]);
                if i % 4 == 0 || !cx.quick() {
                    cx.run(self, l, &format!("{}{}", v[i * step], v[(i * step + 1) % v.len()]));
                }
            });
            let step = cx.tier(10, 1);
            cx.par(o.len().div_ceil(step), |i| {
                cx.run(self, l, &o[i * step]);
            });
        }
        let zp = ["中华人民共和国", "北京大学", "我", "来到", "了", "的", "科学院", "，", "hello", "Rust World", "C++", "3.14", "\n", "台灣", "結婚的和尚未結婚的"];
        par_strings(cx, &zp, 0, cx.tier(3, 5), |s| {
            cx.run(self, "zh", s);
        });
        let ja = ["日", "本", "語", "は", "す", "る", "東", "京", "ア", "ー", "A", "1", "。", " ", "人", "を", "行"];
        par_strings(cx, &ja, 0, cx.tier(5, 6), |s| {
            cx.run(self, "ja", s);
        });
        let jp = ["関西国際空港", "すもも", "も", "もものうち", "株式会社", "走っ", "た", "、", "東京都", "Rust", "１２３", "x", "ﾊﾝｶｸ", "\n", "ございます"];
        par_strings(cx, &jp, 0, cx.tier(3, 5), |s| {
            cx.run(self, "ja", s);
        });
        for ctx in ["{}", "中国{}的人", "日本{}は行く", "a{}{}b"] {
            par_scalars(cx, |c| {
                let t = ctx.replace("{}", c.encode_utf8(&mut [0; 4]));
                if !ctx.contains('は') && (!cx.quick() || (c as u32) < 0x11000 || ctx == "{}") {
                    cx.run(self, "zh", &t);
                }
                if !ctx.contains('的') && (!cx.quick() || (c as u32) < 0x11000) {
                    cx.run(self, "ja", &t);
                }
            });
        }
        let sizes: Vec<usize> = (0..cx.tier(150, 800)).chain([1000, 4096, 10_000]).collect();
        cx.par(sizes.len(), |i| {
            let n = sizes[sizes.len() - 1 - i];
            for (l, t) in [("zh", "中国人的"), ("zh", "中"), ("zh", "a，"), ("zh", "x"), ("ja", "日本語を勉強する。"), ("ja", "す"), ("ja", "ア"), ("ja", "a1 ")] {
                cx.run(self, l, &t.repeat(n));
            }
        });
        // All the way through an index; making one takes a while.
        let mut w: Vec<(&str, String)> = vec![];
        for (l, parts) in [("whole-zh", &zp), ("whole-ja", &jp)] {
            for a in parts.iter() {
                w.push((l, a.to_string()));
                if !cx.quick() {
                    for b in parts.iter() {
                        w.push((l, format!("{}{}{}", a, b, a)));
                    }
                }
            }
            w.push((l, parts.concat()));
            w.push((l, parts.concat().repeat(3)));
        }
        cx.par(w.len(), |i| {
            cx.run(self, w[i].0, &w[i].1);
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, clip(&p)));
        match fam {
            "zh" => self.chinese(cx, p, false),
            "ja" => self.japanese(cx, p, false),
            "whole-zh" => self.chinese(cx, p, true),
            _ => self.japanese(cx, p, true),
        }
    }
    fn rule(&self) -> &'static str {
        "all texts of up to 5 of 17 characters and of up to 3 of 15 phrases of each language, every Unicode character alone and inside texts, sweeps of lengths, whole indexes; a state is a list of tokens"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the words of a Chinese text are those of jieba's segmentation for search engines without new-word discovery",
            "the words of a Japanese text and their parts of speech are those of lindera with IPADIC, decomposing compounds",
        ]
    }
}
