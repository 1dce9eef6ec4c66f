//! C29: a language behaves the same however it was obtained. C30: Japanese with settings of the user's own.

use crate::data;
use crate::engine::{seq_at, seq_total, Check, Cx};
use crate::hist::Export;
use crate::langs::{by_code, Lang, LANGS};
use crate::voc;
use elasticlunr::{lang, Index, IndexBuilder, Language, Pipeline};
use lindera::tokenizer::{DictionaryKind, DictionarySourceType, Tokenizer, TokenizerConfig, UserDictionaryConfig};
use lindera_core::viterbi::{Mode, Penalty};
use serde_json::{json, Value};
use std::path::PathBuf;

pub struct C29;
pub struct C30;

type Make = Box<dyn Fn() -> Box<dyn Language>>;

/// Something was done with it before.
fn use_it(l: &dyn Language) {
    for t in ["the cats", "日本語を中国", "а  Бé-1", ""] {
        let v = l.tokenize(t);
        l.make_pipeline().run(v);
    }
}

macro_rules! plain {
    ($v:ident, $T:ident) => {{
        $v.push(("new", Box::new(|| Box::new(lang::$T::new()) as Box<dyn Language>) as Make));
        $v.push(("default", Box::new(|| Box::new(lang::$T::default()) as Box<dyn Language>) as Make));
    }};
}
macro_rules! copies {
    ($v:ident, $T:ident) => {{
        plain!($v, $T);
        $v.push((
            "copy",
            Box::new(|| {
                let a = lang::$T::new();
                let b = a.clone();
                drop(a);
                Box::new(b) as Box<dyn Language>
            }) as Make,
        ));
        $v.push((
            "copy-of-copy",
            Box::new(|| {
                let a = lang::$T::default();
                use_it(&a);
                let b = a.clone();
                use_it(&b);
                drop(a);
                let c = b.clone();
                drop(b);
                Box::new(c) as Box<dyn Language>
            }) as Make,
        ));
        $v.push((
            "original",
            Box::new(|| {
                let a = lang::$T::new();
                let b = a.clone();
                use_it(&b);
                drop(b);
                Box::new(a) as Box<dyn Language>
            }) as Make,
        ));
    }};
}

/// The ways to come by a language. The first is `new`.
fn ways(l: &'static Lang) -> Vec<(&'static str, Make)> {
    let mut v: Vec<(&'static str, Make)> = vec![];
    match l.code {
        "en" => copies!(v, English),
        "ar" => plain!(v, Arabic),
        "da" => copies!(v, Danish),
        "de" => copies!(v, German),
        "du" => copies!(v, Dutch),
        "es" => copies!(v, Spanish),
        "fi" => copies!(v, Finnish),
        "fr" => copies!(v, French),
        "hu" => copies!(v, Hungarian),
        "it" => copies!(v, Italian),
        "ja" => copies!(v, Japanese),
        "ko" => copies!(v, Korean),
        "no" => copies!(v, Norwegian),
        "pt" => copies!(v, Portuguese),
        "ro" => copies!(v, Romanian),
        "ru" => copies!(v, Russian),
        "sv" => copies!(v, Swedish),
        "tr" => copies!(v, Turkish),
        "zh" => copies!(v, Chinese),
        c => panic!("harness: no language {}", c),
    }
    let (code, name) = (l.code, l.name);
    v.push(("code", Box::new(move || lang::from_code(code).unwrap_or_else(|| panic!("no language has the code {:?}", code)))));
    v.push(("CODE", Box::new(move || lang::from_code(&code.to_uppercase()).unwrap_or_else(|| panic!("no language has the code {:?}", code.to_uppercase())))));
    v.push(("name", Box::new(move || lang::from_name(name).unwrap_or_else(|| panic!("no language has the name {:?}", name)))));
    v.push((
        "list",
        Box::new(move || {
            let all = lang::languages();
            all.into_iter().find(|x| x.code() == code).unwrap_or_else(|| panic!("{:?} is not in the list", code))
        }),
    ));
    v
}

/// A language with two pipelines, one made from it before anything was done with it and one after.
struct Got {
    lang: Box<dyn Language>,
    early: Pipeline,
    late: Pipeline,
}
impl Got {
    fn of(m: &Make) -> Got {
        let lang = m();
        let early = lang.make_pipeline();
        use_it(&*lang);
        let late = lang.make_pipeline();
        Got { lang, early, late }
    }
}

fn stages(p: &Pipeline) -> Vec<String> {
    p.queue.iter().map(|s| s.name()).collect()
}

fn clip<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "..."
    } else {
        s
    }
}

/// What a text becomes: as a whole text and as one token.
fn look(g: &Got, text: &str) -> (Vec<String>, Vec<String>, Vec<String>) {
    let t = g.lang.tokenize(text);
    let mut one = t.clone();
    one.push(text.to_string());
    (t, g.early.run(one.clone()), g.late.run(one))
}

fn same(way: &str, l: &Lang, a: &Got, b: &Got, text: &str) -> Result<(), String> {
    let (x, y) = (look(a, text), look(b, text));
    if x.1 != x.2 {
        return Err(format!("{}: two pipelines of one make {} and {} of {}", l.name, clip(&x.1), clip(&x.2), clip(&text)));
    }
    if y.1 != y.2 {
        return Err(format!("{} by {}: two pipelines of one make {} and {} of {}", l.name, way, clip(&y.1), clip(&y.2), clip(&text)));
    }
    if x.0 != y.0 {
        return Err(format!("{} by {}: the tokens of {} are {}, by new {}", l.name, way, clip(&text), clip(&y.0), clip(&x.0)));
    }
    if x.1 != y.1 {
        return Err(format!("{} by {}: the terms of {} are {}, by new {}", l.name, way, clip(&text), clip(&y.1), clip(&x.1)));
    }
    Ok(())
}

fn who(way: &str, a: &Got, b: &Got) -> Result<(), String> {
    let f = |g: &Got| (g.lang.name(), g.lang.code(), stages(&g.early), stages(&g.late));
    let (x, y) = (f(a), f(b));
    if x != y {
        return Err(format!("by {} it is {:?}, by new {:?}", way, y, x));
    }
    if x.2 != x.3 {
        return Err(format!("two pipelines of one have the stages {:?} and {:?}", x.2, x.3));
    }
    Ok(())
}

const OPS: usize = 6;

impl C29 {
    /// An index over some documents, in each of the ways an index can be given the language.
    fn index(&self, l: &'static Lang, m: &Make) -> Result<Vec<String>, String> {
        let docs = |ix: &mut Index| {
            for (i, t) in data::texts(l.code).iter().enumerate() {
                ix.add_doc(&i.to_string(), [*t, "and more 日本 их"]);
            }
        };
        let mut out = vec![];
        let mut a = Index::with_language(m(), ["a", "b"]);
        docs(&mut a);
        out.push(a.to_json());
        let mut b = IndexBuilder::with_language(m()).add_field("a").add_field("b").build();
        docs(&mut b);
        out.push(b.to_json());
        if l.code == "en" {
            let mut c = Index::new(["a", "b"]);
            docs(&mut c);
            out.push(c.to_json());
            let mut d = IndexBuilder::new().add_fields(["a", "b"]).build();
            docs(&mut d);
            out.push(d.to_json());
            let mut e = IndexBuilder::default().add_fields(["a", "b"]).build();
            docs(&mut e);
            out.push(e.to_json());
        }
        // An index goes on from what was loaded.
        let mut f: Index = serde_json::from_str(&Index::with_language(m(), ["a", "b"]).to_json()).map_err(|e| format!("{}: the export cannot be loaded: {}", l.name, e))?;
        docs(&mut f);
        out.push(f.to_json());
        // Another index of the same language in between, with the same language value, is of no consequence.
        let mut g = Index::with_language(m(), ["a", "b"]);
        let mut h = Index::with_language(m(), ["a", "b"]);
        docs(&mut h);
        drop(h);
        docs(&mut g);
        out.push(g.to_json());
        Ok(out)
    }

    /// Original and copy used in turns.
    fn turns(&self, l: &'static Lang, ops: &[usize], new: &Got) -> Result<(), String> {
        macro_rules! both {
            ($T:ident) => {{
                let a = lang::$T::new();
                let b = a.clone();
                self.turn(l, Some(Box::new(a)), Box::new(b), ops, new)
            }};
        }
        match l.code {
            "en" => both!(English),
            "da" => both!(Danish),
            "de" => both!(German),
            "du" => both!(Dutch),
            "es" => both!(Spanish),
            "fi" => both!(Finnish),
            "fr" => both!(French),
            "hu" => both!(Hungarian),
            "it" => both!(Italian),
            "ja" => both!(Japanese),
            "ko" => both!(Korean),
            "no" => both!(Norwegian),
            "pt" => both!(Portuguese),
            "ro" => both!(Romanian),
            "ru" => both!(Russian),
            "sv" => both!(Swedish),
            "tr" => both!(Turkish),
            "zh" => both!(Chinese),
            _ => Ok(()),
        }
    }
    fn turn(&self, l: &'static Lang, mut a: Option<Box<dyn Language>>, b: Box<dyn Language>, ops: &[usize], new: &Got) -> Result<(), String> {
        let texts = data::texts(l.code);
        let (mut pa, mut pb): (Option<Pipeline>, Option<Pipeline>) = (None, None);
        for (i, op) in ops.iter().enumerate() {
            let t = texts[1 + (i + op) % (texts.len() - 1)];
            let say = |what: &str, got: Vec<String>, want: Vec<String>| {
                if got == want {
                    return Ok(());
                }
                Err(format!("{}: after {:?}, {} makes {} of {:?} instead of {}", l.name, &ops[..i], what, clip(&got), t, clip(&want)))
            };
            let want = new.lang.tokenize(t);
            match op {
                0 | 1 => {
                    let x = if *op == 0 { a.as_ref() } else { Some(&b) };
                    if let Some(x) = x {
                        say("tokenize", x.tokenize(t), want)?;
                    }
                }
                2 | 3 => {
                    let x = if *op == 2 { a.as_ref() } else { Some(&b) };
                    if let Some(x) = x {
                        let p = x.make_pipeline();
                        say("a new pipeline", p.run(want.clone()), new.early.run(want))?;
                        if *op == 2 {
                            pa = Some(p);
                        } else {
                            pb = Some(p);
                        }
                    }
                }
                4 => a = None,
                _ => {
                    for p in [&pa, &pb].into_iter().flatten() {
                        say("a pipeline made earlier", p.run(want.clone()), new.early.run(want.clone()))?;
                    }
                }
            }
        }
        Ok(())
    }
}

impl Check for C29 {
    fn explore(&self, cx: &Cx) {
        // The languages with dictionaries first, in one piece each.
        let mut jobs: Vec<(&'static Lang, usize, usize)> = vec![];
        for l in LANGS.iter().filter(|l| !l.ws) {
            jobs.push((l, 0, 1));
        }
        let parts = cx.tier(2, 8);
        for l in LANGS.iter().filter(|l| l.ws) {
            jobs.extend((0..parts).map(|p| (l, p, parts)));
        }
        cx.par(jobs.len(), |j| {
            let (l, part, parts) = jobs[j];
            let ways = ways(l);
            let got: Vec<Got> = ways.iter().map(|w| Got::of(&w.1)).collect();
            let mut i = 0;
            let mut each = |all: bool, text: &str| {
                i += 1;
                if i % parts != part {
                    return;
                }
                for k in 1..got.len() {
                    if all || ["default", "copy", "name"].contains(&ways[k].0) {
                        cx.count("traces", 1);
                        cx.count("transitions", 2);
                        let p = json!([l.code, ways[k].0, text]).to_string();
                        cx.case("text", &p, || same(ways[k].0, l, &got[0], &got[k], text));
                    }
                }
                cx.outcome(&look(&got[0], text).1);
            };
            let letters = data::letters(l.code);
            let d = cx.tier(3, if l.ws { 4 } else { 3 });
            let mut s = vec![];
            for i in 0..seq_total(letters.len(), d) {
                seq_at(letters.len(), i, &mut s);
                each(true, &s.iter().map(|x| letters[*x]).collect::<String>());
            }
            for t in data::texts(l.code) {
                each(true, t);
            }
            for t in data::tokens(l.code) {
                each(true, t);
            }
            let mut stops: Vec<_> = l.stops().iter().collect();
            stops.sort();
            for t in stops {
                each(true, t);
                each(true, &format!("({}),", t));
            }
            let v = voc::near(l.code);
            for (i, w) in v.iter().enumerate() {
                each(!cx.quick() || i % 8 == 0, w);
            }
            for w in v.chunks(50) {
                each(true, &w.join(" "));
            }
            for e in data::endings(l.code) {
                for w in letters {
                    each(true, &format!("{}{}{}", letters[0], w, e));
                }
            }
            // Every Unicode character, 64 at a time.
            let mut t = String::new();
            for c in (0..0x110000).filter_map(char::from_u32) {
                t.push(c);
                t.push_str(if c as u32 % 2 == 0 { " " } else { " a" });
                if c as u32 % 64 == 63 {
                    each(!cx.quick(), &t);
                    t.clear();
                }
            }
            each(true, &t);
        });
        // Who they are, and indexes.
        let mut w = vec![];
        for l in LANGS {
            for k in ways(l) {
                w.push((l.code, k.0));
            }
        }
        w.sort_by_key(|x| by_code(x.0).ws);
        cx.par(w.len(), |i| {
            cx.run(self, "index", &json!([w[i].0, w[i].1]).to_string());
        });
        // Original and copy in turns.
        let d = |l: &Lang| match (l.ws, cx.quick()) {
            (true, true) => 4,
            (true, false) => 5,
            (false, true) => 2,
            (false, false) => 3,
        };
        cx.par(LANGS.len(), |i| {
            let l = &LANGS[LANGS.len() - 1 - i];
            let new = Got::of(&ways(l)[0].1);
            let mut s = vec![];
            for i in 0..seq_total(OPS, d(l)) {
                seq_at(OPS, i, &mut s);
                cx.count("traces", 1);
                cx.count("transitions", s.len() as u64);
                cx.case("turns", &json!([l.code, s]).to_string(), || self.turns(l, &s, &new));
            }
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: {}", e))?;
        let l = by_code(v[0].as_str().unwrap());
        let ways = ways(l);
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, clip(&p)));
        let way = |n: &str| ways.iter().position(|w| w.0 == n).unwrap_or_else(|| panic!("harness: no way {}", n));
        match fam {
            "text" => {
                let w = v[1].as_str().unwrap();
                same(w, l, &Got::of(&ways[0].1), &Got::of(&ways[way(w)].1), v[2].as_str().unwrap())
            }
            "index" => {
                let w = v[1].as_str().unwrap();
                let m = &ways[way(w)].1;
                who(w, &Got::of(&ways[0].1), &Got::of(m))?;
                let want = self.index(l, &ways[0].1)?;
                let got = self.index(l, m)?;
                cx.count("transitions", 20);
                for (i, g) in got.iter().chain(&want).enumerate() {
                    cx.outcome(g);
                    if g != &want[0] {
                        return Err(format!("{} by {}: index {} is exported as {} instead of {}", l.name, w, i, clip(g), clip(&want[0])));
                    }
                }
                Ok(())
            }
            _ => {
                let ops: Vec<usize> = v[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                self.turns(l, &ops, &Got::of(&ways[0].1))
            }
        }
    }
    fn rule(&self) -> &'static str {
        "each language by new, default, copies (before and after use, the other one dropped), code, name and list: all strings of up to 3 (thorough 4) letters, vocabularies, endings, stop words, every Unicode character; indexes made in every way; original and copy used in turns, all sequences of up to 4 (thorough 5) uses; a state is a list of terms or an export"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["what `new` gives is right (C08 to C14, C22)"]
    }
}

/// The settings of C30, by name.
fn modes() -> Vec<(&'static str, Mode)> {
    let p = |a, b, c, d| {
        Mode::Decompose(Penalty {
            kanji_penalty_length_threshold: a,
            kanji_penalty_length_penalty: b,
            other_penalty_length_threshold: c,
            other_penalty_length_penalty: d,
        })
    };
    vec![
        ("normal", Mode::Normal),
        ("decompose", Mode::Decompose(Penalty::default())),
        ("free", p(0, 0, 0, 0)),
        ("costly", p(1, 20_000, 1, 20_000)),
        ("kanji", p(1, 5_000, 9, 0)),
        ("others", p(9, 0, 2, 8_000)),
    ]
}

fn config(mode: &str, user: &str) -> TokenizerConfig {
    let mode = modes().into_iter().find(|m| m.0 == mode).unwrap_or_else(|| panic!("harness: no mode {}", mode)).1;
    let user_dictionary = (!user.is_empty()).then(|| UserDictionaryConfig {
        kind: DictionaryKind::IPADIC,
        source_type: DictionarySourceType::Csv,
        path: PathBuf::from(format!("{}/../ref/{}.csv", env!("CARGO_MANIFEST_DIR"), user)),
    });
    TokenizerConfig { mode, user_dictionary, ..Default::default() }
}

/// What both sides make of a configuration.
struct Pair {
    mode: String,
    user: String,
    ours: lang::Japanese,
    copy: lang::Japanese,
    pipe: Pipeline,
    theirs: Tokenizer,
}

impl Pair {
    fn of(mode: &str, user: &str) -> Pair {
        let ours = lang::Japanese::with_config(config(mode, user));
        let first = lang::Japanese::with_config(config(mode, user));
        let copy = first.clone();
        drop(first);
        let pipe = ours.make_pipeline();
        let theirs = Tokenizer::with_config(config(mode, user)).expect("harness: no tokenizer");
        Pair { mode: mode.into(), user: user.into(), ours, copy, pipe, theirs }
    }
    fn payload(&self, text: &str) -> String {
        json!([self.mode, self.user, text]).to_string()
    }
    fn want(&self, text: &str) -> Vec<String> {
        let toks = self.theirs.tokenize(text).unwrap();
        let left_out = ["助詞", "助動詞", "記号", "UNK"];
        toks.into_iter().filter(|t| !t.detail.first().is_some_and(|d| left_out.contains(&d.as_str()))).map(|t| t.text.to_string()).collect()
    }
    fn text(&self, cx: &Cx, text: &str) -> Result<(), String> {
        let want = self.want(text);
        cx.count("traces", 1);
        cx.count("transitions", 3);
        cx.outcome(&want);
        let how = || format!("Japanese, mode {}, user dictionary {:?}", self.mode, self.user);
        for (who, l) in [("", &self.ours), ("the copy of ", &self.copy)] {
            let got = l.tokenize(text);
            if got != want {
                return Err(format!("{}{}: the tokens of {} are {} instead of {}", who, how(), clip(&text), clip(&got), clip(&want)));
            }
        }
        let terms: Vec<String> = want.iter().filter_map(|t| by_code("ja").ref_term(t)).collect();
        let got = self.pipe.run(want);
        if got != terms {
            return Err(format!("{}: the terms of {} are {} instead of {}", how(), clip(&text), clip(&got), clip(&terms)));
        }
        Ok(())
    }
    /// All the way into an index.
    fn index(&self, text: &str) -> Result<(), String> {
        let mut ix = IndexBuilder::with_language(Box::new(self.copy.clone())).add_fields(["t", "u"]).build();
        ix.add_doc("1", [text, ""]);
        ix.add_doc("2", ["", text]);
        let mut terms: Vec<String> = self.want(text).iter().filter_map(|t| by_code("ja").ref_term(t)).collect();
        let n = terms.len() as u64;
        terms.sort();
        terms.dedup();
        let x = Export::of(&ix)?;
        let lens = x.lens()?;
        for (f, r) in [("t", "1"), ("u", "2")] {
            let mut t = x.trie(f)?;
            t.retain(|_, p| !p.1.is_empty());
            let mut g: Vec<String> = t.keys().cloned().collect();
            g.sort();
            if g != terms {
                return Err(format!("Japanese, mode {}, user dictionary {:?}: {} is indexed under {} instead of {}", self.mode, self.user, clip(&text), clip(&g), clip(&terms)));
            }
            if lens.get(r).and_then(|d| d.get(f)) != Some(&n) {
                return Err(format!("Japanese, mode {}: the length of {} is {:?} instead of {}", self.mode, clip(&text), lens.get(r), n));
            }
        }
        Ok(())
    }
}

const JA: &[&str] = &["日", "本", "語", "は", "す", "る", "東", "京", "ア", "ー", "A", "1", "。", " ", "人", "を", "行"];
const PHRASES: &[&str] = &["東京スカイツリー", "関西国際空港", "もものうち", "株式会社", "走っ", "た", "、", "の巻", "Rust", "１２３", "ヴヴヴ", "ございます", "限定販売"];

impl Check for C30 {
    fn explore(&self, cx: &Cx) {
        let mut jobs: Vec<(&str, &str)> = vec![];
        for (m, _) in modes() {
            jobs.push((m, ""));
            if !cx.quick() || m == "normal" || m == "decompose" {
                jobs.push((m, "userdict"));
            }
        }
        cx.par(jobs.len(), |j| {
            let (m, u) = jobs[j];
            let pair = Pair::of(m, u);
            let each = |text: &str| {
                cx.case("text", &pair.payload(text), || pair.text(cx, text));
            };
            let mut s = vec![];
            for (alphabet, d) in [(JA, cx.tier(4, 5)), (PHRASES, cx.tier(3, 4))] {
                for i in 0..seq_total(alphabet.len(), d) {
                    seq_at(alphabet.len(), i, &mut s);
                    each(&s.iter().map(|x| alphabet[*x]).collect::<String>());
                }
            }
            let v = voc::words("ja");
            for (i, w) in v.iter().enumerate() {
                each(w);
                each(&format!("{}{}", w, v[(i + 1) % v.len()]));
            }
            for w in v.chunks(30) {
                each(&w.concat());
                each(&w.join("、"));
            }
            for c in (0..0x110000).filter_map(char::from_u32) {
                let buf = &mut [0; 4];
                if (c as u32) < 0x3100 || (c as u32) > 0x4e00 && (c as u32) < 0x9fff && (!cx.quick() || c as u32 % 4 == 0) || (0xff00..0x10100).contains(&(c as u32)) || !cx.quick() {
                    each(&format!("日本{}は東京", c.encode_utf8(buf)));
                }
            }
            for n in (0..cx.tier(60, 300)).chain([1000, 5000]) {
                for t in ["東京スカイツリー", "日本語を勉強する。", "関西国際空港", "ア", "a1 "] {
                    each(&t.repeat(n));
                }
            }
            for t in PHRASES.iter().map(|t| t.to_string()).chain([PHRASES.concat(), PHRASES.concat().repeat(3)]) {
                cx.count("traces", 1);
                cx.case("index", &pair.payload(&t), || pair.index(&t));
            }
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: {}", e))?;
        let pair = Pair::of(v[0].as_str().unwrap(), v[1].as_str().unwrap());
        cx.sample(|| format!("{} {}", fam, clip(&p)));
        let t = v[2].as_str().unwrap();
        match fam {
            "text" => pair.text(cx, t),
            _ => pair.index(t),
        }
    }
    fn rule(&self) -> &'static str {
        "six modes of segmentation with and without a user dictionary: all texts of up to 4 (thorough 5) of 17 characters and of up to 3 (thorough 4) of 13 phrases, the vocabulary, characters inside a text, sweeps of lengths, whole indexes; a state is a list of tokens"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the words of a text and their parts of speech under given settings are those of lindera called directly with these settings"]
    }
}
