//! Histories of an index: a small language for describing them, their execution on the real code, a model
//! of what must come out, and the reading of an export.

use crate::engine::Cx;
use crate::json::{self, J};
use crate::langs;
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// A language whose terms are the words of the text between single spaces, as they are.
#[derive(Clone)]
pub struct Verbatim;
impl Language for Verbatim {
    fn name(&self) -> String {
        "Verbatim".into()
    }
    fn code(&self) -> String {
        "xv".into()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        text.split(' ').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline { queue: vec![] }
    }
}

#[derive(Clone, Debug)]
pub struct Hist {
    pub lang: String,
    pub fields: Vec<String>,
    pub reff: String,
    pub save: bool,
    pub ops: Vec<(String, Vec<String>)>,
}

pub fn payload(lang: &str, fields: &[&str], reff: &str, save: bool, ops: &[(&str, Vec<&str>)]) -> String {
    let mut s = String::with_capacity(128);
    s.push_str("{\"lang\":");
    s.push_str(&json::quote(lang));
    s.push_str(",\"f\":");
    list(&mut s, fields);
    s.push_str(",\"r\":");
    s.push_str(&json::quote(reff));
    s.push_str(if save { ",\"s\":true,\"ops\":[" } else { ",\"s\":false,\"ops\":[" });
    for (i, (r, d)) in ops.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push('[');
        s.push_str(&json::quote(r));
        s.push(',');
        list(&mut s, d);
        s.push(']');
    }
    s.push_str("]}");
    s
}
fn list(s: &mut String, v: &[&str]) {
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&json::quote(x));
    }
    s.push(']');
}

/// A number written with letters: distinct words for distinct numbers, none a prefix rule of the stemmer.
pub fn word(mut n: usize) -> String {
    let mut s = String::from("q");
    loop {
        s.push(b"bcdfghjkmnp"[n % 11] as char);
        n /= 11;
        if n == 0 {
            return s + "k";
        }
    }
}

impl Hist {
    pub fn parse(p: &str) -> Result<Hist, String> {
        let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: bad payload: {}", e))?;
        let strs = |v: &Value| -> Vec<String> {
            v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
        };
        if let Some(g) = v.get("gen") {
            let n = v["n"].as_u64().unwrap() as usize;
            return Ok(Hist::gen(g.as_str().unwrap(), n));
        }
        Ok(Hist {
            lang: v["lang"].as_str().unwrap().into(),
            fields: strs(&v["f"]),
            reff: v["r"].as_str().unwrap().into(),
            save: v["s"].as_bool().unwrap(),
            ops: v["ops"]
                .as_array()
                .unwrap()
                .iter()
                .map(|o| (o[0].as_str().unwrap().to_string(), strs(&o[1])))
                .collect(),
        })
    }

    pub fn gen_payload(gen: &str, n: usize) -> String {
        json!({"gen": gen, "n": n}).to_string()
    }

    fn gen(g: &str, n: usize) -> Hist {
        let mut h = Hist {
            lang: "en".into(),
            fields: vec!["title".into(), "body".into()],
            reff: "id".into(),
            save: true,
            ops: vec![],
        };
        let s = |x: &str| x.to_string();
        let ch = || char::from_u32(n as u32).unwrap_or('?');
        match g {
            // n occurrences of a term, n+1 of another, and other documents before and after
            "count" => {
                h.ops.push((s("1"), vec![s("dog cat"), s("cat")]));
                let mut t = String::new();
                for _ in 0..n {
                    t.push_str("cat dog ");
                }
                t.push_str("dog");
                h.ops.push((s("2"), vec![t, s("cat")]));
                h.ops.push((s("3"), vec![s("dog dog"), s("")]));
            }
            // references, texts and terms of n characters or words that differ in one place, whichever
            "alike" => {
                let at: Vec<usize> = (0..n).filter(|&p| p < 24 || p + 24 >= n || p == n / 2).collect();
                let with = |p: usize, base: &str, other: &str| (0..n).map(|i| if i == p { other } else { base }).collect::<String>();
                let text = |p: usize| (0..n).map(|i| if i == p { s("zz") } else { word(i) }).collect::<Vec<_>>().join(" ");
                for &p in &at {
                    h.ops.push((with(p, "a", "b"), vec![text(p), with(p, "x", "q")]));
                }
                for (k, &p) in at.iter().enumerate().filter(|e| e.0 % 3 == 0) {
                    let q = at[(k + 1) % at.len()];
                    h.ops.push((with(p, "a", "b"), vec![text(q), with(q, "x", "q")]));
                }
            }
            // n documents that share a term, some share another, each has its own
            "docs" => {
                for i in 0..n {
                    let t = format!("cat {}{}", word(i), if i % 3 == 0 { " dog dog" } else { "" });
                    h.ops.push((format!("{}", i), vec![t, if i % 2 == 0 { s("cat") } else { s("") }]));
                }
            }
            // n documents, of which some are added again afterwards, with other texts and with the same, and then new ones
            "crowd" => {
                let t = |i: usize| vec![["cat", "cat dog", "", "cat cat bird"][i % 4].to_string(), if i % 5 == 0 { s("") } else { s("cat") }];
                for i in 0..n {
                    h.ops.push((format!("{}", i), t(i)));
                }
                for k in (0..9).map(|k| k * n.saturating_sub(1) / 8) {
                    h.ops.push((format!("{}", k), t(k)));
                    h.ops.push((format!("{}", k), t(k + 3)));
                }
                h.ops.push((s("new"), t(1)));
                h.ops.push((s("0"), t(3)));
            }
            // one document with n different terms, a second with every other one
            "terms" => {
                let t: Vec<String> = (0..n).map(word).collect();
                let u: Vec<String> = (0..n).step_by(2).map(word).collect();
                h.ops.push((s("1"), vec![t.join(" "), u.join(" ")]));
                h.ops.push((s("2"), vec![u.join(" "), s("cat")]));
            }
            // n fields
            "fields" => {
                h.fields = (0..n).map(|i| if n % 2 == 0 { format!("f{}", i) } else { format!("{}{}", ["z", "", "longer ", "é", "A"][i % 5], n - i) }).collect();
                h.ops.push((s("1"), (0..n).map(|i| format!("cat {}", word(i))).collect()));
                h.ops.push((s("2"), (0..n).map(|i| if i % 2 == 0 { word(i) } else { s("") }).collect()));
            }
            // terms of n characters, one the prefix of another
            "long" => {
                let t: String = (0..n).map(|i| b"qxzjvk"[i % 6] as char).collect();
                h.ops.push((s("1"), vec![t.clone(), format!("{}w", t)]));
                h.ops.push((s("2"), vec![format!("{}w", t), format!("{} cat", t)]));
            }
            // long terms of other scripts, not whole characters per byte
            "longu" => {
                let t: String = (0..n).map(|i| ['é', 'ж', '中', '😀'][i % 4]).collect();
                h.ops.push((s("1"), vec![format!("q{}q", t), t.clone()]));
                h.ops.push((s("2"), vec![format!("q{}k", t), s("cat")]));
            }
            // a document added n times with changing texts, among others
            "readd" => {
                h.ops.push((s("9"), vec![s("cat dog"), s("bird")]));
                for i in 0..n {
                    let t = match i % 4 {
                        0 => "cat cat",
                        1 => "dog",
                        2 => "",
                        _ => "cat dog bird bird bird",
                    };
                    h.ops.push((s("1"), vec![s(t), s("cat")]));
                }
                h.ops.push((s("2"), vec![s("cat"), s("dog")]));
            }
            // long references, field names and texts
            "lens" => {
                let x: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                h.fields = vec![format!("f{}", x), s("g")];
                // Terms of this length as well, up to what "long" has (see the finding on long tokens).
                let y = if n <= 1100 { x.clone() } else { x.replace('a', " a") };
                h.ops.push((format!("r{}", x), vec![format!("cat {}", y), format!("{} dog", y)]));
                h.ops.push((format!("r{}x", x), vec![s("cat"), s("dog")]));
                h.ops.push((format!("r{}", x), vec![s("dog"), format!("{} dog", y)]));
            }
            // n words in a field: kept words, stop words and words of which nothing remains
            "words" => {
                let w = ["cat", "the", "dog", "!!", "cats", "Bird"];
                let t: Vec<&str> = (0..n).map(|i| w[i % w.len()]).collect();
                h.ops.push((s("1"), vec![t.join(" "), t.join("-")]));
                h.ops.push((s("2"), vec![s("bird"), t.join("  ")]));
            }
            // terms of length n several times in a field, side by side and apart
            "twice" => {
                let w: String = (0..n).map(|i| (b'b' + (i * 7 % 24) as u8) as char).collect();
                let v = format!("{}q", w);
                h.lang = "verbatim".into();
                h.ops.push((s("1"), vec![format!("{} {}", w, w), format!("{} {} {} {} {}", w, v, w, v, w)]));
                h.ops.push((s("2"), vec![format!("{} x {}", v, v), format!("x {} {} x {}", w, w, w)]));
                h.ops.push((s("3"), vec![w.clone(), v]));
            }
            // documents of words of a vocabulary, many of them sharing stems
            "voc" => {
                let l = &langs::LANGS[n % 100];
                h.lang = l.code.into();
                let v: Vec<&String> = crate::voc::near(l.code).iter().skip(n / 100 * 1500).take(1500).collect();
                let sep = if l.ws { " " } else { "" };
                for (i, c) in v.chunks(40).enumerate() {
                    let b: Vec<&str> = c.iter().map(|w| w.as_str()).collect();
                    h.ops.push((format!("{}", i * 7 % 40), vec![c[0].clone(), b.join(sep)]));
                }
            }
            // counts that fall from n and rise to n when a document is added again
            "fall" => {
                let t = "cat ".repeat(n);
                h.ops.push((s("1"), vec![format!("{}dog", t), s("cat")]));
                h.ops.push((s("2"), vec![s("cat"), t.clone()]));
                h.ops.push((s("1"), vec![s("cat"), s("cat dog")]));
                h.ops.push((s("2"), vec![t.clone(), s("cat")]));
                h.ops.push((s("3"), vec!["cat ".repeat(n / 2), t.clone()]));
                h.ops.push((s("3"), vec![t.clone(), "cat ".repeat(n / 2)]));
                h.ops.push((s("1"), vec![format!("{}cat dog dog", t), format!("{}dog", t)]));
            }
            // n documents with a term, and documents with unusual references among them and after them
            "odd" => {
                let odd = ["", " ", "0", "docs", "df", "é", "root", "\0", "id", "-1", "a/b", "😀"];
                for i in 0..n {
                    if n % 2 == 0 && i % 17 == 5 {
                        h.ops.push((s(odd[i / 17 % odd.len()]), vec![s("cat"), word(i)]));
                    }
                    h.ops.push((format!("{}", i), vec![s("cat dog"), word(i)]));
                }
                for r in odd {
                    h.ops.push((s(r), vec![s("cat bird"), s("cat cat")]));
                }
                h.ops.push((s("z"), vec![s("cat"), s("")]));
            }
            // n different characters at the first place of a term, and at the second
            "wide" => {
                h.lang = "verbatim".into();
                let c = |i: usize| char::from_u32([0x61, 0x4e00, 0x1f300, 0xe0][i % 4] + (i / 4 * 7 % 500) as u32).unwrap();
                let a: Vec<String> = (0..n).map(|i| c(i).to_string()).collect();
                let b: Vec<String> = (0..n).map(|i| format!("q{}{}", c(i), c(n - i))).collect();
                h.ops.push((s("1"), vec![a.join(" "), b.join(" ")]));
                h.ops.push((s("2"), vec![b.join(" "), a[n / 2..].join(" ")]));
                for i in 0..n.min(40) {
                    h.ops.push((c(i).to_string(), vec![a[i].clone(), b[n - 1 - i].clone()]));
                }
            }
            // terms that repeat a character, or two, n times, next to shorter and longer ones
            "run" => {
                h.lang = s("verbatim");
                let k = n / 2;
                for (r, t) in [
                    ("1", format!("z{} {}", "o".repeat(n), "é".repeat(n))),
                    ("2", format!("z{} a{}z", "o".repeat(k), "o".repeat(n))),
                    ("3", format!("{} b{}", "ab".repeat(k), "xxy".repeat(n / 3))),
                    ("4", format!("z{}b {}", "o".repeat(n), "é".repeat(n + 1))),
                ] {
                    h.ops.push((s(r), vec![t, s("zo")]));
                }
            }
            // n fields with the same text, which is the reference as well and the name of a field
            "equal" => {
                h.fields = (0..n).map(|i| if i == n / 2 { s("cat") } else { format!("f{}", i) }).collect();
                for r in ["cat", "cat dog and some more", "f1", "cat", ""] {
                    h.ops.push((s(r), vec![s(r); n]));
                }
                h.ops.push((s("dog"), (0..n).map(|i| if i % 3 == 0 { s("cat") } else { s("cat dog and some more") }).collect()));
            }
            // one Unicode character in texts, in references and in field names
            "char-text" => {
                let c = ch();
                h.ops.push((s("1"), vec![format!("qa{}qb z{}", c, c), format!("{}", c)]));
                h.ops.push((s("2"), vec![format!("{}q", c), format!("qaqb {}{}", c, c)]));
            }
            "char-ref" => {
                let c = ch();
                h.ops.push((format!("{}", c), vec![s("cat"), s("dog")]));
                h.ops.push((format!("a{}b", c), vec![s("cat dog"), s("")]));
                h.ops.push((s("ab"), vec![s("cat"), s("dog cat")]));
            }
            "char-field" => {
                let c = ch();
                h.fields = vec![format!("{}", c), format!("a{}", c), format!("zz{}z", c)];
                h.ops.push((s("1"), vec![s("cat"), s("dog"), s("bird cat")]));
                h.ops.push((s("2"), vec![s("cat"), s(""), s("fish")]));
            }
            // the character in terms, without any processing
            "char-term" => {
                let c = ch();
                h.lang = "verbatim".into();
                h.ops.push((s("1"), vec![format!("{} a{} {}b", c, c, c), format!("e e{} {}e {}{} e{}{}", c, c, c, c, c, c)]));
                h.ops.push((s("2"), vec![format!("{} a{}b", c, c), format!("{} a{} {}a a", c, c, c)]));
            }
            "char-readd" => {
                let c = ch();
                h.lang = "verbatim".into();
                let r = format!("{}r", c);
                h.ops.push((r.clone(), vec![format!("a{} {}", c, c), format!("{} {}", c, c)]));
                h.ops.push((s("r"), vec![format!("a{}", c), s("a")]));
                h.ops.push((r, vec![format!("{} {} {}", c, c, c), s("a")]));
            }
            _ => panic!("harness: no generator {}", g),
        }
        h
    }

    pub fn make(&self) -> Index {
        let b = match self.lang.as_str() {
            "en" => IndexBuilder::new(),
            "verbatim" => IndexBuilder::with_language(Box::new(Verbatim)),
            c => IndexBuilder::with_language((langs::by_code(c).make)()),
        };
        b.save_docs(self.save).add_fields(&self.fields).set_ref(&self.reff).build()
    }

    pub fn run(&self) -> Index {
        let mut ix = self.make();
        for (r, d) in &self.ops {
            ix.add_doc(r, d);
        }
        ix
    }

    pub fn terms(&self, text: &str) -> Vec<String> {
        match self.lang.as_str() {
            "verbatim" => Verbatim.tokenize(text),
            c => {
                let l = langs::by_code(c);
                if l.ws {
                    l.ref_terms(text)
                } else {
                    let i = langs::inst(l);
                    i.lang.tokenize(text).iter().filter_map(|t| l.ref_term(t)).collect()
                }
            }
        }
    }

    pub fn model(&self) -> Model {
        let mut m = Model {
            index: self.fields.iter().map(|_| BTreeMap::new()).collect(),
            ..Default::default()
        };
        for (r, d) in &self.ops {
            let mut doc = BTreeMap::new();
            doc.insert(self.reff.clone(), r.clone());
            let mut last = vec![None; self.fields.len()];
            for (i, t) in d.iter().enumerate() {
                doc.insert(self.fields[i].clone(), t.clone());
                if self.fields[i] == self.reff {
                    continue;
                }
                let terms = self.terms(t);
                m.lens.entry(r.clone()).or_default().insert(self.fields[i].clone(), terms.len() as u64);
                let mut c: BTreeMap<String, u64> = BTreeMap::new();
                for t in terms {
                    *c.entry(t).or_insert(0) += 1;
                }
                for (t, n) in &c {
                    m.index[i].entry(t.clone()).or_default().insert(r.clone(), *n);
                }
                last[i] = Some(c);
            }
            m.docs.insert(r.clone(), doc);
            m.last.insert(r.clone(), last);
            *m.times.entry(r.clone()).or_insert(0) += 1;
        }
        m
    }
}

#[derive(Default, Debug, Hash)]
pub struct Model {
    /// per field: term -> document -> number of occurrences in the last addition that had the term
    pub index: Vec<BTreeMap<String, BTreeMap<String, u64>>>,
    /// document -> field -> number of terms
    pub lens: BTreeMap<String, BTreeMap<String, u64>>,
    pub docs: BTreeMap<String, BTreeMap<String, String>>,
    pub times: BTreeMap<String, u64>,
    /// document -> per field the counts of the last addition, if the field was given
    pub last: BTreeMap<String, Vec<Option<BTreeMap<String, u64>>>>,
}

/// All nodes of an exported trie: term -> (df, document -> tf).
pub type Trie = BTreeMap<String, (f64, BTreeMap<String, f64>)>;

pub fn trie(j: &J) -> Result<Trie, String> {
    let mut t = Trie::new();
    let mut pre = String::new();
    fn go(j: &J, pre: &mut String, t: &mut Trie) -> Result<(), String> {
        let mut docs = BTreeMap::new();
        for (r, e) in j.get("docs")?.obj()? {
            docs.insert(r.clone(), e.get("tf")?.num()?);
        }
        let df = j.get("df")?.num()?;
        t.insert(pre.clone(), (df, docs));
        for (k, e) in j.obj()? {
            let mut cs = k.chars();
            match (cs.next(), cs.next()) {
                (Some(c), None) => {
                    pre.push(c);
                    go(e, pre, t)?;
                    pre.pop();
                }
                _ if k == "docs" || k == "df" => {}
                _ => return Err(format!("unexpected key {:?} in a node of the index", k)),
            }
        }
        Ok(())
    }
    go(j.get("root")?, &mut pre, &mut t)?;
    Ok(t)
}

pub struct Export {
    pub j: J,
}

impl Export {
    pub fn of(ix: &Index) -> Result<Export, String> {
        Ok(Export { j: json::parse(&ix.to_json())? })
    }
    pub fn trie(&self, field: &str) -> Result<Trie, String> {
        trie(self.j.get("index")?.get(field)?)
    }
    pub fn store(&self) -> Result<&J, String> {
        self.j.get("documentStore")
    }
    pub fn docs(&self) -> Result<BTreeMap<String, BTreeMap<String, String>>, String> {
        let mut m = BTreeMap::new();
        for (r, d) in self.store()?.get("docs")?.obj()? {
            let mut x = BTreeMap::new();
            for (f, t) in d.obj()? {
                x.insert(f.clone(), t.str()?.to_string());
            }
            m.insert(r.clone(), x);
        }
        Ok(m)
    }
    pub fn lens(&self) -> Result<BTreeMap<String, BTreeMap<String, u64>>, String> {
        let mut m = BTreeMap::new();
        for (r, d) in self.store()?.get("docInfo")?.obj()? {
            let mut x = BTreeMap::new();
            for (f, t) in d.obj()? {
                x.insert(f.clone(), t.uint()?);
            }
            m.insert(r.clone(), x);
        }
        Ok(m)
    }
    pub fn length(&self) -> Result<u64, String> {
        self.store()?.get("length")?.uint()
    }
}

pub fn sqrt_ok(tf: f64, n: u64) -> bool {
    let s = (n as f64).sqrt();
    (tf - s).abs() <= s * 1e-12
}

pub fn capital(w: &str) -> String {
    let mut c = w.chars();
    c.next().map_or(String::new(), |x| x.to_uppercase().chain(c).collect())
}

/// The alphabets of histories that C01, C04, C20 and C24 share.
pub fn explore(cx: &Cx, langs_too: bool, chars: &[&str], run: &(dyn Fn(&str, &str) + Sync)) {
    // H1: two fields, colliding texts and references.
    let texts = ["", "cat", "cat cat dog", "the ca", "dogs"];
    let refs = ["1", "2", "10"];
    alphabet(cx, "H1", "en", &["t", "b"], "id", &texts, &refs, 2, cx.tier(3, 4), run);
    // H2: one field, more texts, longer histories.
    let texts2 = ["", "!", "cat", "cat cat", "ca", "cat the cart", "dog-Cat", "dogs  dog", "carts", "é ée"];
    alphabet(cx, "H2", "en", &["b"], "id", &texts2, &["1", "2"], 1, cx.tier(4, 5), run);
    // H3: three fields, fewer values than fields.
    let texts3 = ["", "cat", "cat dog dog"];
    alphabet_partial(cx, "H3", "en", &["a", "b", "c"], "id", &texts3, &["1", "2"], cx.tier(2, 3), run);
    // H4: field names like the reference's, like keys of the export, prefixes of one another.
    for (i, (f, r)) in [
        (["id", "b"], "id"),
        (["b", "id"], "id"),
        (["docs", "df"], "tf"),
        (["root", "length"], "docs"),
        (["", "f"], "id"),
        (["a", "ab"], "abc"),
        (["x", "y"], ""),
    ]
    .iter()
    .enumerate()
    {
        let _ = i;
        alphabet(cx, "H4", "en", f, r, &["", "cat", "dog cat"], &["1", "", "id"], 2, 2, run);
    }
    // H5: arbitrary terms that are prefixes of one another, or look like keys.
    let terms5 = ["", "a", "ab", "abc", "b ab", "a a b", "docs df", "é éa", "A a"];
    alphabet(cx, "H5", "verbatim", &["b"], "id", &terms5, &["1", "2"], 1, cx.tier(4, 5), run);
    // H8: references that look alike. H9: field names that look alike.
    let refs8 = ["1", "01", "1 ", " 1", "a", "A", "é", "e\u{301}", "１"];
    alphabet(cx, "H8", "en", &["b"], "id", &["", "cat", "dog cat dog"], &refs8, 1, cx.tier(3, 4), run);
    for f in [["t", "T"], ["é", "e\u{301}"], ["a", "a "], ["a", "a.b"], ["1", "01"], ["t", "t_"]] {
        alphabet(cx, "H9", "en", &f, "id", &["", "cat", "dog cat dog"], &["1", "2"], 2, 2, run);
    }
    // H10: texts that agree in number, first, last or all but one of the tokens, in length or in sum.
    let texts10 = ["red cat sat", "red dog sat", "red tac sat", "red sat", "rad cat sat", "red cat sit", "cat red sat"];
    alphabet(cx, "H10", "en", &["b"], "id", &texts10, &["1", "2", "3"], 1, cx.tier(3, 4), run);
    alphabet(cx, "H10", "verbatim", &["t", "b"], "id", &texts10, &["1", "2"], 2, 2, run);
    // Sweeps.
    let mut gens: Vec<(&str, usize)> = vec![];
    for n in 0..=cx.tier(130, 600) {
        for g in ["count", "docs", "terms", "long", "longu", "readd", "lens", "words", "twice", "fall", "odd", "wide", "crowd"] {
            gens.push((g, n));
        }
        if n <= 70 {
            gens.push(("run", n));
            gens.push(("fields", n));
            gens.push(("equal", n));
            gens.push(("alike", n));
        }
    }
    for n in [254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025] {
        for g in ["count", "docs", "terms", "readd", "lens", "words", "long", "fields", "twice", "fall", "odd", "wide", "equal", "alike", "crowd"] {
            gens.push((g, n));
        }
    }
    for n in [4095, 4096, 4097, 10000, 65534, 65535, 65536, 65537] {
        for g in ["count", "words", "fall"] {
            gens.push((g, n));
        }
    }
    for g in ["docs", "terms", "lens", "readd", "crowd"] {
        for n in [4096, 10000, 65536] {
            gens.push((g, n + 1));
        }
    }
    // Which alefs are replaced is C11's matter (see the finding there).
    let vl: Vec<usize> = (0..langs::LANGS.len()).filter(|i| langs::LANGS[*i].code != "ar" && (langs_too || langs::LANGS[*i].code == "en")).collect();
    for b in 0..cx.tier(2, 12) {
        gens.extend(vl.iter().map(|i| ("voc", b * 100 + i)));
    }
    gens.sort_by_key(|g| std::cmp::Reverse(if g.0 == "voc" { 3000 } else { g.1 }));
    cx.par(gens.len(), |i| run("sweep", &Hist::gen_payload(gens[i].0, gens[i].1)));
    // Every character.
    for g in ["char-text", "char-term", "char-ref", "char-field", "char-readd"] {
        if chars.contains(&g) || !cx.quick() {
            crate::engine::par_scalars(cx, |c| run("char", &Hist::gen_payload(g, c as usize)));
        } else {
            // In the quick tier the rest of the characters are left to the other checks.
            crate::engine::par_scalars(cx, |c| {
                if (c as u32) < 0x600 {
                    run("char", &Hist::gen_payload(g, c as usize))
                }
            });
        }
    }
    if langs_too {
        for l in langs::LANGS {
            let t = crate::data::texts(l.code);
            let texts: Vec<&str> = t.to_vec();
            alphabet(cx, "HL", l.code, &["b"], "id", &texts, &["1", "2"], 1, cx.tier(2, 3), run);
        }
    }
}

/// All histories of up to `depth` additions of all combinations of texts.
#[allow(clippy::too_many_arguments)]
pub fn alphabet(
    cx: &Cx,
    fam: &str,
    lang: &str,
    fields: &[&str],
    reff: &str,
    texts: &[&str],
    refs: &[&str],
    width: usize,
    depth: usize,
    run: &(dyn Fn(&str, &str) + Sync),
) {
    let combos = texts.len().pow(width as u32);
    let n = combos * refs.len();
    let mk = |k: usize| {
        let (r, mut c) = (refs[k % refs.len()], k / refs.len());
        let mut d = vec![];
        for _ in 0..width {
            d.push(texts[c % texts.len()]);
            c /= texts.len();
        }
        (r, d)
    };
    sequences(cx, fam, lang, fields, reff, n, depth, &mk, run);
}

#[allow(clippy::too_many_arguments)]
fn alphabet_partial(
    cx: &Cx,
    fam: &str,
    lang: &str,
    fields: &[&str],
    reff: &str,
    texts: &[&str],
    refs: &[&str],
    depth: usize,
    run: &(dyn Fn(&str, &str) + Sync),
) {
    let per = crate::engine::seq_total(texts.len(), fields.len());
    let mk = |k: usize| {
        let mut v = vec![];
        crate::engine::seq_at(texts.len(), k / refs.len(), &mut v);
        (refs[k % refs.len()], v.iter().map(|&i| texts[i]).collect())
    };
    sequences(cx, fam, lang, fields, reff, per * refs.len(), depth, &mk, run);
}

#[allow(clippy::too_many_arguments)]
fn sequences<'a>(
    cx: &Cx,
    fam: &str,
    lang: &str,
    fields: &[&str],
    reff: &str,
    n: usize,
    depth: usize,
    mk: &(dyn Fn(usize) -> (&'a str, Vec<&'a str>) + Sync),
    run: &(dyn Fn(&str, &str) + Sync),
) {
    cx.par(crate::engine::seq_total(n, depth), |i| {
        let mut seq = vec![];
        crate::engine::seq_at(n, i, &mut seq);
        let ops: Vec<(&str, Vec<&str>)> = seq.iter().map(|&k| mk(k)).collect();
        // Saving is switched off in every history once more, in a family of its own.
        run(fam, &payload(lang, fields, reff, true, &ops));
    });
}
