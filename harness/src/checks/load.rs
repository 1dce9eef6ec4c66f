//! C28: loading other forms of an export, and what is not one.

use crate::data;
use crate::engine::{seq_at, seq_total, Check, Cx};
use crate::hist::{self, Hist};
use crate::json::{self, quote, J};
use crate::langs;
use crate::node;
use elasticlunr::Index;
use serde_json::{json, Value};

pub struct C28;

/// How a JSON value is written down.
#[derive(Clone, Copy)]
struct Style {
    /// 0: as it is, 1: reversed, 2: sorted, otherwise rotated by this less two
    order: usize,
    space: &'static str,
    /// 0: as little as possible, 1: everything as \u, 2: / escaped and capitals in hex
    escape: usize,
    extra: bool,
}

fn string(s: &str, escape: usize, out: &mut String) {
    if escape == 0 {
        out.push_str(&quote(s));
        return;
    }
    out.push('"');
    for u in s.encode_utf16() {
        match (escape, u) {
            (2, 0x2f) => out.push_str("\\/"),
            (2, 0x20..=0x7e) if u != 0x22 && u != 0x5c => out.push(u as u8 as char),
            (2, _) => out.push_str(&format!("\\u{:04X}", u)),
            _ => out.push_str(&format!("\\u{:04x}", u)),
        }
    }
    out.push('"');
}

fn write(j: &J, st: Style, depth: usize, out: &mut String) {
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::Num(_, t) => out.push_str(t),
        J::Str(s) => string(s, st.escape, out),
        J::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(st.space);
                write(x, st, depth + 1, out);
                out.push_str(st.space);
            }
            out.push(']');
        }
        J::Obj(v) => {
            let mut o: Vec<usize> = (0..v.len()).collect();
            match st.order {
                0 => {}
                1 => o.reverse(),
                2 => o.sort_by_key(|&i| std::cmp::Reverse(&v[i].0)),
                n => {
                    if !o.is_empty() {
                        let l = o.len();
                        o.rotate_left((n - 2) % l);
                    }
                }
            }
            out.push('{');
            let mut first = true;
            if st.extra && depth == 0 {
                out.push_str("\"futureKey\":{\"a\":[1,null,{\"docs\":{}}]}");
                first = false;
            }
            for i in o {
                if !first {
                    out.push(',');
                }
                first = false;
                out.push_str(st.space);
                string(&v[i].0, st.escape, out);
                out.push_str(st.space);
                out.push(':');
                out.push_str(st.space);
                write(&v[i].1, st, depth + 1, out);
                out.push_str(st.space);
            }
            out.push('}');
        }
    }
}

fn all_ways(text: &str) -> [Result<Index, String>; 4] {
    let e = |e: serde_json::Error| e.to_string();
    [
        serde_json::from_str(text).map_err(e),
        serde_json::from_slice(text.as_bytes()).map_err(e),
        serde_json::from_reader(text.as_bytes()).map_err(e),
        serde_json::from_str::<Value>(text).and_then(serde_json::from_value).map_err(e),
    ]
}

/// The histories whose exports are changed.
fn bases() -> Vec<String> {
    let mut v = vec![
        hist::payload("en", &["t", "b"], "id", true, &[("1", vec!["cat cart dogs", "a"]), ("10", vec!["cat cat", "dog é"]), ("2", vec!["", "x 1 10"])]),
        hist::payload("en", &["t"], "id", false, &[("b", vec!["cat"]), ("a", vec!["dog cat cat"])]),
        hist::payload("en", &["t"], "id", true, &[]),
        hist::payload("en", &[], "id", true, &[("1", vec![])]),
        hist::payload("en", &["id", "b"], "id", true, &[("x/\"\\\u{1}é😀", vec!["kept", "</b> cat"])]),
        hist::payload("en", &["docs", "df", "root"], "ref", true, &[("docs", vec!["d", "docs", "df"]), ("__proto__", vec!["a", "b", "c"])]),
    ];
    for l in langs::LANGS {
        let t = data::texts(l.code);
        v.push(hist::payload(l.code, &["t"], "id", true, &[("1", vec![t[t.len() - 1]]), ("2", vec![t[1]])]));
    }
    v
}

impl C28 {
    fn same(&self, ix: &Index, text: &str, ways: usize) -> Result<(), String> {
        let want = ix.to_json();
        for (k, l) in all_ways(text).into_iter().enumerate().take(ways) {
            let l = l.map_err(|e| format!("another form of an export is refused: {}\n{}", e, text.chars().take(600).collect::<String>()))?;
            if l.to_json() != want {
                return Err(format!("another form of an export (way {}) loads to something else:\n{}\n{}", k, text.chars().take(600).collect::<String>(), l.to_json().chars().take(600).collect::<String>()));
            }
            if l.get_fields() != ix.get_fields() {
                return Err(format!("another form of an export loads with the fields {:?}", l.get_fields()));
            }
        }
        Ok(())
    }
    fn refused(&self, text: &str, what: &str) -> Result<(), String> {
        for l in all_ways(text).into_iter() {
            if l.is_ok() {
                return Err(format!("{} is loaded: {}", what, text.chars().take(600).collect::<String>()));
            }
        }
        Ok(())
    }

    /// Loading must end, with an error or with an index that can be exported.
    fn ends(&self, text: &[u8]) -> Result<(), String> {
        let a = serde_json::from_slice::<Index>(text);
        let b = serde_json::from_reader::<_, Index>(text);
        if a.is_ok() != b.is_ok() {
            return Err(format!("loaded from memory and from a reader there are different answers for {:?}", String::from_utf8_lossy(text)));
        }
        if let (Ok(a), Ok(b)) = (a, b) {
            let x = a.to_json();
            if x != b.to_json() {
                return Err(format!("loaded from memory and from a reader there are different indexes for {:?}", String::from_utf8_lossy(text)));
            }
            let c: Index = serde_json::from_str(&x).map_err(|e| format!("what was loaded from {:?} is exported as {:?}, which is refused: {}", String::from_utf8_lossy(text), x, e))?;
            if c.to_json() != x {
                return Err(format!("what was loaded from {:?} changes when exported and loaded again", String::from_utf8_lossy(text)));
            }
        }
        Ok(())
    }
}

/// The places of a value: a path of numbers, for the children in order.
fn places(j: &J, pre: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(pre.clone());
    let n = match j {
        J::Arr(v) => v.len(),
        J::Obj(v) => v.len(),
        _ => 0,
    };
    for i in 0..n {
        pre.push(i);
        match j {
            J::Arr(v) => places(&v[i], pre, out),
            J::Obj(v) => places(&v[i].1, pre, out),
            _ => {}
        }
        pre.pop();
    }
}
fn at<'a>(j: &'a mut J, path: &[usize]) -> &'a mut J {
    match path.split_first() {
        None => j,
        Some((&i, rest)) => match j {
            J::Arr(v) => at(&mut v[i], rest),
            J::Obj(v) => at(&mut v[i].1, rest),
            x => x,
        },
    }
}
fn keys(j: &J, path: &[usize]) -> Vec<String> {
    match path.split_first() {
        None => vec![],
        Some((&i, rest)) => match j {
            J::Arr(v) => [vec![String::new()], keys(&v[i], rest)].concat(),
            J::Obj(v) => [vec![v[i].0.clone()], keys(&v[i].1, rest)].concat(),
            _ => vec![],
        },
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Kind {
    Any,
    Record,
    Map,
    List,
    Text,
    Name,
    Flag,
    Count,
    Int,
    Number,
}

/// What must be at a place, and whether it may be left out.
fn kind(k: &[String]) -> (Kind, bool) {
    let s: Vec<&str> = k.iter().map(|s| s.as_str()).collect();
    match &s[..] {
        [] => (Kind::Record, false),
        ["pipeline" | "version", ..] => (Kind::Any, true),
        ["fields"] => (Kind::List, false),
        ["fields", _] => (Kind::Text, true),
        ["ref"] => (Kind::Text, false),
        ["lang"] => (Kind::Name, false),
        ["index"] => (Kind::Map, false),
        ["index", _] => (Kind::Record, true),
        ["index", _, "root"] => (Kind::Map, false),
        ["index", _, "root", rest @ ..] => {
            // Every other step is the name of a child, down to docs, df or a node.
            let mut r = rest;
            loop {
                match r {
                    [] => return (Kind::Map, true),
                    ["df"] => return (Kind::Int, false),
                    ["docs"] => return (Kind::Map, false),
                    ["docs", _] => return (Kind::Record, true),
                    ["docs", _, _] => return (Kind::Number, false),
                    [_, x @ ..] => r = x,
                }
            }
        }
        ["documentStore"] => (Kind::Record, false),
        ["documentStore", "save"] => (Kind::Flag, false),
        ["documentStore", "length"] => (Kind::Count, false),
        ["documentStore", "docs" | "docInfo"] => (Kind::Map, false),
        ["documentStore", "docs" | "docInfo", _] => (Kind::Map, true),
        ["documentStore", "docs", _, _] => (Kind::Text, true),
        ["documentStore", "docInfo", _, _] => (Kind::Count, true),
        _ => (Kind::Any, true),
    }
}

fn fits(k: Kind, v: &str) -> bool {
    match k {
        Kind::Any => true,
        Kind::Record | Kind::Name => false,
        Kind::Map => v == "{}",
        Kind::List => v == "[]",
        Kind::Text => v.starts_with('"'),
        Kind::Flag => v == "true",
        Kind::Count => v == "1",
        Kind::Int => v == "1" || v == "-1",
        Kind::Number => v == "1" || v == "-1" || v == "1.5",
    }
}
const VALUES: &[&str] = &["null", "true", "1", "-1", "1.5", "\"x\"", "\"1\"", "[]", "[1]", "[null]", "{}"];

/// Names that are like that of a part, or could be another one for it.
fn other_names(name: &str) -> Vec<String> {
    let words = "docs df tf root ref refs fields field index lang language pipeline version documentStore docInfo length save \
        documents doc document store documentstore terms term trie tree idx indexes indices invertedIndex locale code reference \
        refField ref_field id key name names count size len n freq frequency docFreq doc_freq termFreq term_freq info lengths \
        docLengths fieldLengths saveDocs saved stored columns postings children d t f r l v i s";
    let mut v: Vec<String> = words.split_whitespace().map(|w| w.to_string()).collect();
    v.extend([name.to_uppercase(), name.to_lowercase(), crate::hist::capital(name)]);
    for sep in ["_", "-", " "] {
        v.push(name.chars().flat_map(|c| if c.is_uppercase() { format!("{}{}", sep, c.to_lowercase()).chars().collect::<Vec<_>>() } else { vec![c] }).collect());
    }
    for (i, c) in name.char_indices() {
        v.push(format!("{}{}", &name[..i], &name[i + c.len_utf8()..]));
        v.push(format!("{}{}{}", &name[..i], c.to_uppercase(), &name[i + c.len_utf8()..]));
    }
    for i in name.char_indices().map(|e| e.0).chain([name.len()]) {
        for c in " _$s1".chars() {
            v.push(format!("{}{}{}", &name[..i], c, &name[i..]));
        }
    }
    v.sort();
    v.dedup();
    v.retain(|w| w != name);
    v
}

impl Check for C28 {
    fn explore(&self, cx: &Cx) {
        let bs = bases();
        let fast: Vec<&String> = bs.iter().filter(|b| !b.contains("\"zh\"") && !b.contains("\"ja\"")).collect();
        // Other forms of the same: key orders, white space, escapes, further keys.
        let mut jobs = vec![];
        for (i, b) in bs.iter().enumerate() {
            let slow = b.contains("\"zh\"") || b.contains("\"ja\"");
            for order in 0..if slow { 3 } else { 12 } {
                for space in 0..4 {
                    for escape in 0..3 {
                        for extra in [false, true] {
                            if !slow || (space + escape + extra as usize + order) % cx.tier(18, 3) == 1 {
                                jobs.push(json!({"b": i, "o": order, "s": space, "e": escape, "x": extra}).to_string());
                            }
                        }
                    }
                }
            }
        }
        cx.par(jobs.len(), |i| {
            cx.run(self, "form", &jobs[i]);
        });
        // All orders of the eight keys.
        let f: usize = (1..=8).product();
        for b in 0..cx.tier(1, 6) {
            cx.par(f.div_ceil(64), |i| {
                for k in i * 64..((i + 1) * 64).min(f) {
                    cx.run(self, "perm", &json!({"b": b, "k": k}).to_string());
                }
            });
        }
        // What JavaScript makes of an export, in one process for all.
        let mut hs: Vec<String> = fast.iter().map(|s| s.to_string()).collect();
        for n in 0..cx.tier(60, 300) {
            for g in ["count", "docs", "terms", "readd", "lens", "fields"] {
                hs.push(Hist::gen_payload(g, n));
            }
        }
        for n in 0..0x3000 {
            if char::from_u32(n).is_some() {
                for g in ["char-ref", "char-field", "char-term"] {
                    if (g != "char-term") && (cx.tier(n < 0x300, true)) {
                        hs.push(Hist::gen_payload(g, n as usize));
                    }
                }
            }
        }
        let exports = std::sync::Mutex::new(vec![String::new(); hs.len()]);
        cx.par(hs.len(), |i| {
            if let Ok(s) = crate::engine::guarded(|| Hist::parse(&hs[i]).unwrap().run().to_json()) {
                exports.lock().unwrap()[i] = s;
            }
        });
        let exports = exports.into_inner().unwrap();
        match node::run("reorder.js", &[], serde_json::to_string(&exports.iter().map(|s| if s.is_empty() { "0" } else { s }).collect::<Vec<_>>()).unwrap()) {
            Err(e) => cx.report("node", "", e),
            Ok(o) => {
                let o: Vec<String> = serde_json::from_str(&o).unwrap_or_default();
                cx.par(hs.len(), |i| {
                    cx.case("node", &hs[i], || {
                        cx.count("traces", 1);
                        cx.count("transitions", 1);
                        cx.outcome(&o[i]);
                        self.same(&Hist::parse(&hs[i])?.run(), &o[i], 4)
                    });
                });
            }
        }
        // Every prefix; every part left out; every part replaced.
        cx.par(fast.len(), |i| {
            let n = Hist::parse(fast[i]).unwrap().run().to_json().len();
            let m = Hist::parse(fast[i]).unwrap().run().to_json_pretty().len();
            for k in 0..n {
                cx.run(self, "cut", &json!({"h": fast[i], "at": k}).to_string());
            }
            for k in (0..m).step_by(cx.tier(7, 1)) {
                cx.run(self, "cut", &json!({"h": fast[i], "at": k, "pretty": true}).to_string());
            }
            let j = json::parse(&Hist::parse(fast[i]).unwrap().run().to_json()).unwrap();
            let mut pl = vec![];
            places(&j, &mut vec![], &mut pl);
            for (p, _) in pl.iter().enumerate() {
                cx.run(self, "part", &json!({"h": fast[i], "p": p}).to_string());
            }
        });
        // Every byte changed, taken out, doubled; pairs of neighbours exchanged. Loading ends.
        cx.par(fast.len(), |i| {
            let n = Hist::parse(fast[i]).unwrap().run().to_json().len();
            for k in 0..n {
                cx.run(self, "byte", &json!({"h": fast[i], "at": k}).to_string());
            }
        });
        // All short texts of the pieces of JSON.
        let pieces = ["{", "}", "[", "]", "\"fields\"", ":", ",", "null", "1", "\"x\"", " "];
        cx.par(seq_total(pieces.len(), cx.tier(5, 6)), |i| {
            let mut v = vec![];
            seq_at(pieces.len(), i, &mut v);
            let t: String = v.iter().map(|&k| pieces[k]).collect();
            cx.case("text", &t, || {
                cx.count("traces", 1);
                cx.count("transitions", 1);
                cx.outcome(&t);
                self.refused(&t, "what is not an export")
            });
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, p.chars().take(200).collect::<String>()));
        if fam == "text" {
            return self.refused(p, "what is not an export");
        }
        let v: Value = serde_json::from_str(p).map_err(|e| e.to_string())?;
        let n = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
        match fam {
            "form" => {
                let ix = Hist::parse(&bases()[n("b")])?.run();
                let st = Style { order: n("o"), space: ["", " ", "\n\t", " \r\n  "][n("s")], escape: n("e"), extra: v["x"] == true };
                let mut t = String::new();
                write(&json::parse(&ix.to_json())?, st, 0, &mut t);
                cx.count("transitions", 4);
                cx.outcome(&t);
                let slow = bases()[n("b")].contains("\"zh\"") || bases()[n("b")].contains("\"ja\"");
                self.same(&ix, &t, if slow { 1 } else { 4 })
            }
            "perm" => {
                let ix = Hist::parse(&bases()[n("b")])?.run();
                let J::Obj(mut o) = json::parse(&ix.to_json())? else { return Err("harness: not an object".into()) };
                let mut k = n("k");
                let mut q = vec![];
                while !o.is_empty() {
                    let l = o.len();
                    q.push(o.remove(k % l));
                    k /= l;
                }
                let mut t = String::new();
                write(&J::Obj(q), Style { order: 0, space: "", escape: 0, extra: false }, 0, &mut t);
                cx.count("transitions", 2);
                cx.outcome(&t);
                self.same(&ix, &t, 2)
            }
            "node" => {
                let ix = Hist::parse(p)?.run();
                let o = node::run("reorder.js", &[], serde_json::to_string(&[ix.to_json()]).unwrap())?;
                let o: Vec<String> = serde_json::from_str(&o).map_err(|e| e.to_string())?;
                self.same(&ix, &o[0], 4)
            }
            "cut" => {
                let ix = Hist::parse(v["h"].as_str().unwrap())?.run();
                let t = if v["pretty"] == true { ix.to_json_pretty() } else { ix.to_json() };
                let b = &t.as_bytes()[..n("at")];
                cx.count("transitions", 3);
                cx.outcome(b);
                if serde_json::from_slice::<Index>(b).is_ok() || serde_json::from_reader::<_, Index>(b).is_ok() {
                    return Err(format!("an export cut off after {} of {} bytes is loaded", n("at"), t.len()));
                }
                match std::str::from_utf8(b) {
                    Ok(s) => self.refused(s, "an export cut off"),
                    Err(_) => Ok(()),
                }
            }
            "part" => {
                let ix = Hist::parse(v["h"].as_str().unwrap())?.run();
                let j = json::parse(&ix.to_json())?;
                let mut pl = vec![];
                places(&j, &mut vec![], &mut pl);
                let path = &pl[n("p")];
                let k = keys(&j, path);
                let (kd, optional) = kind(&k);
                let plain = Style { order: 0, space: "", escape: 0, extra: false };
                let text = |j: &J| {
                    let mut t = String::new();
                    write(j, plain, 0, &mut t);
                    t
                };
                if let Some((last, up)) = path.split_last() {
                    let mut c = j.clone();
                    match at(&mut c, up) {
                        J::Obj(o) => {
                            o.remove(*last);
                        }
                        J::Arr(a) => {
                            a.remove(*last);
                        }
                        _ => {}
                    }
                    let t = text(&c);
                    cx.count("transitions", 1);
                    cx.outcome(&t);
                    if kd == Kind::Any {
                        self.same(&ix, &t, 4)?;
                    } else if optional {
                        self.ends(t.as_bytes())?;
                    } else {
                        self.refused(&t, &format!("an export without {}", k.join(".")))?;
                        // The part under another name.
                        let name = k.last().unwrap();
                        for other in other_names(name) {
                            let mut c = j.clone();
                            if let (J::Obj(o), Some((last, _))) = (at(&mut c, &path[..path.len() - 1]), path.split_last()) {
                                o[*last].0 = other.clone();
                            }
                            let t = text(&c);
                            cx.count("transitions", 1);
                            self.refused(&t, &format!("an export with {:?} instead of {}", other, k.join(".")))?;
                        }
                    }
                }
                for val in VALUES {
                    let mut c = j.clone();
                    *at(&mut c, path) = json::parse(val)?;
                    let t = text(&c);
                    cx.count("transitions", 1);
                    cx.outcome(&t);
                    if kd == Kind::Any {
                        self.same(&ix, &t, 4)?;
                    } else if fits(kd, val) || (kd == Kind::Record && *val == "[1]") {
                        // serde takes a list of its values for a record.
                        self.ends(t.as_bytes())?;
                    } else {
                        self.refused(&t, &format!("an export with {} for {}", val, k.join(".")))?;
                    }
                }
                Ok(())
            }
            "byte" => {
                let t = Hist::parse(v["h"].as_str().unwrap())?.run().to_json().into_bytes();
                let k = n("at");
                let mut seen = 0;
                let mut go = |b: &[u8]| {
                    seen += 1;
                    cx.outcome(b);
                    self.ends(b)
                };
                for c in b"\"{}[],:0-.eEn\\u /a\x00\x7f\x80\xc3\xed\xf4\xff" {
                    let mut b = t.clone();
                    b[k] = *c;
                    go(&b)?;
                    let mut b = t.clone();
                    b.insert(k, *c);
                    go(&b)?;
                }
                let mut b = t.clone();
                b.remove(k);
                go(&b)?;
                let mut b = t.clone();
                b.insert(k, t[k]);
                go(&b)?;
                if k + 1 < t.len() {
                    let mut b = t.clone();
                    b.swap(k, k + 1);
                    go(&b)?;
                }
                cx.count("transitions", seen);
                Ok(())
            }
            _ => Err(format!("harness: no family {}", fam)),
        }
    }
    fn rule(&self) -> &'static str {
        "exports of all languages written with other key orders (all orders of the top level), white space, escapes and further keys, and as JavaScript writes them; cut off at every byte, every part left out or replaced by eleven other values, every byte changed; all short texts of the pieces of JSON; a state is a text"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["serde_json reads the text; numbers are read exactly, nesting is below its limit of 128 levels"]
    }
}
