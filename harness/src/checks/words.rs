//! C08 to C14: tokens, trimming, stop words, stems. The family of a case is the language, its payload the
//! text, token or word.

use crate::engine::{par_scalars, par_strings, seq_at, seq_total, Check, Cx};
use crate::hist::Export;
use crate::data::{endings, letters, SUFFIXES};
use crate::langs::{self, by_code, class_set, inst, trim_to, CharSet, Lang, Stem, LANGS};
use crate::{node, porter, voc};
use elasticlunr::lang::common::{RegexTrimmer, StopWordFilter};
use elasticlunr::pipeline::PipelineFn;
use elasticlunr::IndexBuilder;
use std::collections::BTreeSet;

/// A word character of the language and one that is not.
fn letter(l: &Lang) -> &'static str {
    match l.code {
        "ru" => "д",
        "ko" => "한",
        "zh" => "中",
        "ja" => "か",
        "ar" => "ب",
        _ => "a",
    }
}

fn short(s: &str) -> String {
    if s.chars().count() > 60 {
        format!("{:?}... ({} characters)", s.chars().take(60).collect::<String>(), s.chars().count())
    } else {
        format!("{:?}", s)
    }
}

// ---------------------------------------------------------------------------------------------- C08

pub struct C08;
impl C08 {
    fn one(&self, cx: &Cx, l: &'static Lang, text: &str) -> Result<(), String> {
        let got = inst(l).lang.tokenize(text);
        let want = langs::ref_tokenize(text);
        cx.count("transitions", 1);
        cx.outcome(&got);
        if got != want {
            return Err(format!("{}: {} is split into {:?} instead of {:?}", l.name, short(text), &got[..got.len().min(9)], &want[..want.len().min(9)]));
        }
        Ok(())
    }
}
impl Check for C08 {
    fn explore(&self, cx: &Cx) {
        for ctx in ["{}", "a{}b", "{}{}", "A{}-{}É", "x {}y{} z"] {
            par_scalars(cx, |c| {
                cx.run(self, "ws", &ctx.replace("{}", c.encode_utf8(&mut [0; 4])));
            });
        }
        let a = ["a", "A", " ", "-", "\n", "\u{a0}", "\u{2028}", "É", "_", "\u{200b}", "Σ", "\u{130}"];
        par_strings(cx, &a, 0, cx.tier(5, 6), |s| {
            cx.run(self, "ws", s);
        });
        let b = ["b", "-", " ", "\u{85}", "\u{3000}", "\u{2014}"];
        par_strings(cx, &b, 0, cx.tier(7, 8), |s| {
            cx.run(self, "ws", s);
        });
        // Long texts, long tokens, many separators.
        let sizes: Vec<usize> = (0..cx.tier(300, 1500)).chain([4095, 4096, 4097, 65535, 65536, 100_000]).collect();
        cx.par(sizes.len(), |i| {
            let n = sizes[i];
            for p in ["a", " ", "-", "ab ", "É-b", "\u{3000}x", "a\u{a0}", "É", "Ab", "AΣ", "Я中😀", "İ", "a\u{301}B"] {
                cx.run(self, "ws", &p.repeat(n));
                cx.run(self, "ws", &format!("{}x", p.repeat(n)));
                cx.run(self, "ws", &format!("x{0}É\u{a0}É{0}Σ \u{1680}", p.repeat(n)));
            }
        });
    }
    fn eval(&self, cx: &Cx, _fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| short(p));
        for l in LANGS.iter().filter(|l| l.ws) {
            self.one(cx, l, p)?;
        }
        let got = elasticlunr::lang::tokenize_whitespace(p);
        if got != langs::ref_tokenize(p) {
            return Err(format!("tokenize_whitespace splits {} into {:?}", short(p), &got[..got.len().min(9)]));
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "every Unicode character in five contexts, all strings over representatives of the classes, sweeps of lengths, in all 17 languages that tokenize by white space; a state is a list of tokens"
    }
}

// ---------------------------------------------------------------------------------------------- C09

pub struct C09;
impl C09 {
    fn terms(&self, cx: &Cx, l: &'static Lang, text: &str) -> Result<(), String> {
        let i = inst(l);
        let toks = i.lang.tokenize(text);
        cx.count("transitions", 1);
        let terms = i.pipe.run(toks);
        for t in &terms {
            if t.is_empty() {
                return Err(format!("{}: an empty term comes out of {}", l.name, short(text)));
            }
            if std::str::from_utf8(t.as_bytes()).is_err() {
                return Err(format!("{}: an invalid term {:?} comes out of {}", l.name, t.as_bytes(), short(text)));
            }
        }
        cx.outcome(&terms);
        Ok(())
    }
    fn index(&self, cx: &Cx, l: &'static Lang, text: &str) -> Result<(), String> {
        self.terms(cx, l, text)?;
        let mut ix = IndexBuilder::with_language((l.make)()).add_fields(["t", "u"]).build();
        ix.add_doc("1", [text, text]);
        ix.add_doc("2", [text, ""]);
        cx.count("transitions", 2);
        let x = Export::of(&ix)?;
        let t = x.trie("t")?;
        if let Some(e) = t.get("") {
            if !e.1.is_empty() {
                return Err(format!("{}: an empty term of {} is in the index", l.name, short(text)));
            }
        }
        ix.to_json_pretty();
        Ok(())
    }
}

impl Check for C09 {
    fn explore(&self, cx: &Cx) {
        // Every character between, before and after what the stemmers' rules look at.
        let ctx: &[&str] = cx.tier(
            &["{} {}{}", "a{} {}ing {}{}ed b{}{}ing {}ion", "é{}y b{}es {}eed {}ies"][..],
            &[
                "{}", "{}{}", "a{} {}ing {}{}ed b{}{}ing {}ion", "é{}y b{}es {}eed {}ies", "{}{}{}{}", "ab{}cd", "{}ational {}ness {}ll",
                "{}\u{301}", "\u{301}{}", "{}-{}", "日{}本 は{}", "А{}ться {}ов",
            ][..],
        );
        for c in ctx {
            let heavy = !cx.quick() || *c != ctx[0];
            par_scalars(cx, |ch| {
                let t = c.replace("{}", ch.encode_utf8(&mut [0; 4]));
                for l in LANGS {
                    if l.ws || heavy || (ch as u32) < 0x10000 {
                        cx.run(self, l.code, &t);
                    }
                }
            });
        }
        // All strings over letters of each language; those of English in every language.
        for l in LANGS {
            let n = match (l.ws, cx.quick()) {
                (true, true) => 5,
                (true, false) => 6,
                (false, true) => 4,
                (false, false) => 5,
            };
            par_strings(cx, letters(l.code), 0, n, |s| {
                cx.run(self, l.code, s);
            });
        }
        par_strings(cx, letters("en"), 0, cx.tier(3, 4), |s| {
            for l in LANGS {
                cx.run(self, l.code, s);
            }
        });
        let odd = ["\0", "\u{feff}", "\u{301}", "'", "-", " ", "a", "\u{200d}", "👩", "İ", "ß", "\u{10ffff}", "!"];
        par_strings(cx, &odd, 0, cx.tier(3, 5), |s| {
            for l in LANGS {
                if l.ws || s.chars().count() <= 4 {
                    cx.run(self, l.code, s);
                }
            }
        });
        // The whole way, with an export.
        let mut jobs: Vec<(String, String)> = vec![];
        for l in LANGS {
            let n = if l.ws { cx.tier(3, 4) } else { 1 };
            let a = letters(l.code);
            let mut v = vec![];
            for i in 0..seq_total(a.len(), n) {
                seq_at(a.len(), i, &mut v);
                jobs.push((format!("index-{}", l.code), v.iter().map(|&k| a[k]).collect()));
            }
        }
        for u in 0..cx.tier(0x3100, 0x110000u32) {
            if let Some(c) = char::from_u32(u) {
                jobs.push(("index-en".into(), format!("{} a{}ing {}{}ed", c, c, c, c)));
            }
        }
        // Lengths of tokens and of texts.
        let top = cx.tier(260, 1200);
        for l in LANGS {
            for n in (0..top).chain([1500, 2000, 2048, 2049, 4000, 4096]) {
                for t in [letter(l), "y", "é", "!"] {
                    jobs.push((l.code.into(), t.repeat(n)));
                    jobs.push((l.code.into(), t.repeat(n) + "ing"));
                }
                // Characters of two to four bytes at all offsets.
                if n <= 300 {
                    for (t, k) in [("é", 2), ("日", 3), ("😀", 4), (letter(l), letter(l).len())] {
                        for o in 0..k {
                            for a in ["a", "é", letter(l)] {
                                jobs.push((l.code.into(), format!("{}{}{}{}", a, "b".repeat(o), t.repeat(n), a)));
                            }
                        }
                    }
                }
            }
            for t in [letter(l), "e ", "a-b ", "😀", "the ", "。"] {
                jobs.push((l.code.into(), t.repeat(if t.contains(' ') || t == "。" { 20_000 } else { 3000 })));
            }
        }
        // Texts that end at, just before or just after a power of two, with a character across it.
        for k in 5..=cx.tier(17, 20) {
            for back in 0..4usize {
                for c in ["b", "é", "日", "😀"] {
                    for tail in ["", "a", " é", "日", "😀😀"] {
                        for fill in ["ab cd ", "é ", "日本。", "😀 "] {
                            let n = (1usize << k) - back;
                            let t = format!("{}{}{}{}", fill.repeat(n / fill.len()), &"ab abc defghi"[..n % fill.len()], c, tail);
                            if k <= 16 || fill == "ab cd " {
                                jobs.push(("index-en".into(), t.clone()));
                            }
                            if k <= 12 && fill != "é " {
                                for l in LANGS {
                                    if l.ws && (k < 10 || l.code == "fr") || k % 3 == 0 && back < 2 {
                                        jobs.push((format!("index-{}", l.code), t.clone()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        for n in (0..top).chain([1000, 2048, 4096]) {
            for t in ["q", "é", "y", "a b ", "s"] {
                jobs.push(("index-en".into(), t.repeat(n)));
            }
        }
        jobs.push(("index-en".into(), (0..30_000).map(|i| crate::hist::word(i) + " ").collect()));
        cx.par(jobs.len(), |i| {
            cx.run(self, &jobs[i].0, &jobs[i].1);
        });
        // One very long token, in a process of its own: see the findings.
        cx.run(self, "long-token", "80000");
        // Shorter ones are exported and dropped, and adding takes no stack to speak of.
        cx.run(self, "long-token-export", "8192");
        cx.run(self, "long-token-add", "20000");
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, short(p)));
        if fam == "long-token" {
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["child", "long-token", p])
                .stderr(std::process::Stdio::null())
                .status()
                .map_err(|e| format!("harness: {}", e))?;
            cx.count("transitions", 1);
            if !st.success() && !cx.known("long-token-stack", || format!("a token of {} characters: {}", p, st)) {
                return Err(format!("indexing and exporting a token of {} characters ends with {}", p, st));
            }
            return Ok(());
        }
        if fam.starts_with("long-token-") {
            let st = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["child", fam, p])
                .stderr(std::process::Stdio::null())
                .status()
                .map_err(|e| format!("harness: {}", e))?;
            cx.count("transitions", 1);
            if !st.success() {
                return Err(format!("a process that indexes a token of {} characters ({}) ends with {}", p, fam, st));
            }
            return Ok(());
        }
        match fam.strip_prefix("index-") {
            Some(c) => self.index(cx, by_code(c), p),
            None => self.terms(cx, by_code(fam), p),
        }
    }
    fn rule(&self) -> &'static str {
        "every Unicode character in contexts of the stemmers' rules in all 19 languages, all strings over awkward alphabets, sweeps of lengths, additions with export; a state is a list of terms"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a text that takes more than 90 s is taken for one that does not end", "texts of up to 80000 characters, tokens of up to 4096 characters; longer tokens exhaust the stack (known finding)"]
    }
}

/// In a process of its own: one long token on a stack of 8 MB.
pub fn long_token(n: usize, export: bool) -> i32 {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut ix = elasticlunr::Index::new(["t"]);
            ix.add_doc("1", ["q".repeat(n)]);
            if !export {
                ix.add_doc("2", ["q".repeat(n - 1) + "é"]);
                std::mem::forget(ix);
                return 100;
            }
            let n = ix.to_json().len();
            drop(ix);
            n
        })
        .unwrap()
        .join()
        .map_or(1, |n| (n < 100) as i32)
}

// ---------------------------------------------------------------------------------------------- C10

pub struct C10;

fn en_word(c: char) -> bool {
    !langs::is_white(c) && c != '-' && c.to_lowercase().eq(std::iter::once(c))
}

impl Check for C10 {
    fn explore(&self, cx: &Cx) {
        let word = |s: &str| {
            cx.run(self, "word", s);
        };
        // First the model against the JavaScript itself.
        self.conformance(cx);
        let abc: Vec<String> = ('a'..='z').map(|c| c.to_string()).collect();
        let abc: Vec<&str> = abc.iter().map(|s| s.as_str()).collect();
        par_strings(cx, &abc, 0, cx.tier(5, 6), word);
        // Stems and two (three) suffixes.
        let pre = ["a", "e", "y", "b", "l", "s", "t"];
        let sf = SUFFIXES.len();
        par_strings(cx, &pre, 0, cx.tier(4, 5), |p| {
            let mut w = String::new();
            for a in 0..sf {
                for b in 0..sf {
                    if a == 0 && b > 0 {
                        continue;
                    }
                    w.clear();
                    w.push_str(p);
                    w.push_str(SUFFIXES[a]);
                    w.push_str(SUFFIXES[b]);
                    word(&w);
                }
            }
        });
        par_strings(cx, &pre, 0, cx.tier(1, 3), |p| {
            let mut w = String::new();
            for a in 1..sf {
                for b in 1..sf {
                    for c in 1..sf {
                        w.clear();
                        for x in [p, SUFFIXES[a], SUFFIXES[b], SUFFIXES[c]] {
                            w.push_str(x);
                        }
                        word(&w);
                    }
                }
            }
        });
        // Real words, with every suffix, and those of other languages.
        let v = voc::words("en");
        cx.par(v.len(), |i| {
            for s in SUFFIXES {
                word(&format!("{}{}", v[i], s));
            }
        });
        for c in voc::WITH {
            let v = voc::words(c);
            cx.par(v.len(), |i| {
                if v[i].chars().all(en_word) {
                    word(&v[i]);
                    word(&format!("{}ing", v[i]));
                    word(&format!("{}s", v[i]));
                }
            });
        }
        // Letters outside a-z, digits, apostrophes.
        let odd = ["a", "e", "y", "b", "l", "s", "é", "ç", "日", "😀", "'", "1", "d"];
        par_strings(cx, &odd, 0, cx.tier(5, 6), word);
        par_strings(cx, &odd, 1, cx.tier(3, 4), |p| {
            for s in SUFFIXES {
                word(&format!("{}{}", p, s));
            }
        });
        // Every character next to what the rules look at.
        par_scalars(cx, |c| {
            if !en_word(c) {
                return;
            }
            for p in ["", "b", "ba", "bab", "y"] {
                for s in ["", "ed", "ing", "y", "s", "e", "eed", "ied", "sses", "ational", "ion", "ll", "ement", "ness"] {
                    word(&format!("{}{}{}", p, c, s));
                    word(&format!("{}{}{}{}", p, c, c, s));
                }
            }
        });
        // Long words.
        cx.par(cx.tier(300, 3000), |n| {
            for p in ["b", "a", "y", "ab", "ba", "aab", "bba", "é", "ya", "😀b"] {
                for s in SUFFIXES {
                    word(&(p.repeat(n) + s));
                }
            }
        });
    }
    fn eval(&self, cx: &Cx, _fam: &str, w: &str) -> Result<(), String> {
        let want = porter::stem(w);
        cx.count("transitions", 1);
        cx.count("traces", 1);
        cx.sample(|| w.to_string());
        let i = inst(&LANGS[0]);
        let got = i.stage(i.pipe.queue.len() - 1).filter(w.to_string());
        cx.outcome(&got);
        if got.as_deref().unwrap_or("") != want {
            return Err(format!("the stem of {:?} is {:?}, elasticlunr.js has {:?}", w, got, want));
        }
        if cx.replaying {
            let js = node::run("en_stemmer.js", &[], format!("{}\n", w))?;
            if js.trim_end_matches('\n') != want {
                return Err(format!("harness: the model of the stemmer gives {:?} for {:?}, the JavaScript {:?}", want, w, js));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "all words of up to five (six) letters, all of short stems with two and three suffixes, all over alphabets with other characters, every Unicode character next to each rule; a state is a stem"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["ref/en_stemmer.js is the stemmer of elasticlunr.js 0.9.5 (there is no copy of it in the repository)"]
    }
}

impl C10 {
    /// The model in porter.rs gives the same as node on a large part of the words.
    fn conformance(&self, cx: &Cx) {
        let mut sets: Vec<Vec<String>> = vec![];
        let strings = |a: &[&str], n: usize| -> Vec<String> {
            let mut v = vec![];
            (0..seq_total(a.len(), n))
                .map(|i| {
                    seq_at(a.len(), i, &mut v);
                    v.iter().map(|&k| a[k]).collect()
                })
                .collect()
        };
        let abc: Vec<String> = ('a'..='z').map(|c| c.to_string()).collect();
        let abc: Vec<&str> = abc.iter().map(|s| s.as_str()).collect();
        sets.push(strings(&abc, 4));
        let pre = strings(&["a", "e", "y", "b", "l", "s"], cx.tier(3, 4));
        for chunk in pre.chunks(70) {
            let mut v = vec![];
            for p in chunk {
                for a in SUFFIXES {
                    for b in SUFFIXES {
                        v.push(format!("{}{}{}", p, a, b));
                    }
                }
            }
            sets.push(v);
        }
        let odd = strings(&["a", "e", "y", "b", "l", "s", "é", "ç", "日", "😀", "'", "1", "d"], cx.tier(4, 5));
        sets.push(odd);
        let contexts: &[(&str, &str)] = &[("ba", "ed"), ("y", "ing"), ("b", "y"), ("", "eed")];
        for (p, s) in &contexts[..cx.tier(2, 4)] {
            let mut v = vec![];
            for u in 0..0x110000 {
                if let Some(c) = char::from_u32(u).filter(|c| en_word(*c)) {
                    v.push(format!("{}{}{}{}", p, c, c, s));
                }
            }
            sets.push(v);
        }
        sets.push((0..200).flat_map(|n| SUFFIXES.iter().map(move |s| "yabé".repeat(n) + s)).collect());
        let bad = std::sync::Mutex::new(None);
        cx.par(sets.len(), |i| {
            let out = node::run("en_stemmer.js", &[], sets[i].join("\n") + "\n");
            let out = match out {
                Ok(o) => o,
                Err(e) => return *bad.lock().unwrap() = Some(e),
            };
            let mut n = 0;
            for (w, js) in sets[i].iter().zip(out.lines().chain(std::iter::repeat("<missing>"))) {
                let m = porter::stem(w);
                if m != js {
                    *bad.lock().unwrap() = Some(format!("harness: the model of the stemmer gives {:?} for {:?}, the JavaScript {:?}", m, w, js));
                    return;
                }
                n += 1;
            }
            cx.count("words on which the model was compared with the JavaScript", n);
        });
        if let Some(e) = bad.into_inner().unwrap() {
            cx.report("conformance", "", e);
        }
    }
}

// ---------------------------------------------------------------------------------------------- C11

pub struct C11;

impl C11 {
    fn one(&self, cx: &Cx, w: &str, js: &str) -> Result<(), String> {
        let l = by_code("ar");
        let i = inst(l);
        cx.count("transitions", 1);
        cx.count("traces", 1);
        cx.sample(|| w.to_string());
        let got = i.term(w)?;
        cx.outcome(&got);
        let got = got.unwrap_or_default();
        if got != js {
            let first = langs::arabic(w, false);
            if got == first && cx.known("ar-alef-first-only", || format!("{:?} gives {:?}, lunr.ar.js gives {:?}", w, got, js)) {
                return Ok(());
            }
            return Err(format!("{:?} ({}) becomes {:?} ({}), js/lunr.ar.js has {:?} ({})", w, hex(w), got, hex(&got), js, hex(js)));
        }
        Ok(())
    }
}
fn hex(s: &str) -> String {
    s.chars().map(|c| format!("{:x}", c as u32)).collect::<Vec<_>>().join(" ")
}
fn node_ar(words: &[String]) -> Result<Vec<String>, String> {
    let out = node::run("ar_stemmer.js", &["/repo/js/lunr.ar.js"], serde_json::to_string(words).unwrap())?;
    serde_json::from_str(&out).map_err(|e| format!("harness: {}", e))
}

impl Check for C11 {
    fn explore(&self, cx: &Cx) {
        let a = ["ا", "ب", "ـ", "آ", "أ", "ى", "\u{671}", "\u{64b}", "\u{651}", "\u{65b}", "\u{65c}", "x"];
        let b = ["إ", "ل", "\u{64e}", "\u{63f}", "\u{641}"];
        let mut sets: Vec<Vec<String>> = vec![];
        let mut strings = |a: &[&str], n: usize| {
            let mut v = vec![];
            let mut set = vec![];
            for i in 0..seq_total(a.len(), n) {
                seq_at(a.len(), i, &mut v);
                set.push(v.iter().map(|&k| a[k]).collect::<String>());
                if set.len() == 100_000 {
                    sets.push(std::mem::take(&mut set));
                }
            }
            sets.push(set);
        };
        strings(&a, cx.tier(5, 6));
        strings(&b, cx.tier(7, 9));
        for ctx in ["{}", "ب{}ت", "{}{}", "آ{}\u{64b}", "\u{64b}{}أ{}"] {
            let mut v = vec![];
            for u in 0..0x110000 {
                if let Some(c) = char::from_u32(u) {
                    v.push(ctx.replace("{}", c.encode_utf8(&mut [0; 4])));
                    if v.len() == 100_000 {
                        sets.push(std::mem::take(&mut v));
                    }
                }
            }
            sets.push(v);
        }
        let mut v = vec![];
        for n in 0..cx.tier(400, 2000) {
            for t in ["ب", "\u{64b}", "آ", "بـ", "ب\u{651}", "x"] {
                v.push(t.repeat(n));
                v.push(format!("ب{}ت", t.repeat(n)));
            }
        }
        sets.push(v);
        for c in voc::words("ar").chunks(cx.tier(20_000, 5000)) {
            sets.push(c.to_vec());
        }
        let bad = std::sync::Mutex::new(None);
        cx.par(sets.len(), |i| match node_ar(&sets[i]) {
            Err(e) => *bad.lock().unwrap() = Some(e),
            Ok(js) => {
                for (w, j) in sets[i].iter().zip(&js) {
                    if !cx.case("token", w, || self.one(cx, w, j)) {
                        return;
                    }
                }
            }
        });
        if let Some(e) = bad.into_inner().unwrap() {
            cx.report("node", "", e);
        }
    }
    fn eval(&self, cx: &Cx, _fam: &str, w: &str) -> Result<(), String> {
        let js = node_ar(&[w.to_string()])?;
        self.one(cx, w, &js[0])
    }
    fn rule(&self) -> &'static str {
        "all strings over alphabets of alefs, diacritics, letters and others, every Unicode character in five contexts, sweeps of lengths, each run through js/lunr.ar.js by node; a state is a result"
    }
}

// ---------------------------------------------------------------------------------------------- C12

pub struct C12;

const CLASSES: &[&str] = &["a-z", r"\d", r"\w", "abc", r"\p{Greek}\-", r"\.", r"\p{L}\p{N}", "é日😀"];

impl C12 {
    fn one(&self, cx: &Cx, what: &str, stage: &dyn PipelineFn, set: &CharSet, w: &str) -> Result<(), String> {
        let got = stage.filter(w.to_string());
        let want = trim_to(set, w);
        cx.count("transitions", 1);
        cx.outcome(&got);
        // A trimmer that leaves an empty token leaves it to the stop word filter to drop it (English).
        if got.as_deref().filter(|s| !s.is_empty()) != want {
            return Err(format!("{}: {:?} ({}) is trimmed to {:?} instead of {:?}", what, w, hex(w), got, want));
        }
        Ok(())
    }
}
impl Check for C12 {
    fn explore(&self, cx: &Cx) {
        let ctx = ["{}", "{}a", "a{}", "a{}a", "!{}!", "{}{}.a{}.{}"];
        for c in &ctx[..] {
            par_scalars(cx, |ch| {
                let s = ch.encode_utf8(&mut [0; 4]).to_string();
                for l in LANGS.iter().filter(|l| l.has_trimmer()) {
                    cx.run(self, l.code, &c.replace('a', letter(l)).replace("{}", &s));
                }
            });
        }
        let reps = ["a", "é", "д", "1", "_", "!", "한", "日", "か", "ア", "\u{301}", "ー", "々", "\u{20000}", " ", "Z"];
        par_strings(cx, &reps, 0, cx.tier(4, 5), |s| {
            for l in LANGS.iter().filter(|l| l.has_trimmer()) {
                cx.run(self, l.code, s);
            }
        });
        par_strings(cx, &["a", "!", "д", "日"], 5, cx.tier(7, 9), |s| {
            for l in LANGS.iter().filter(|l| l.has_trimmer()) {
                cx.run(self, l.code, s);
            }
        });
        cx.par(cx.tier(300, 1500), |n| {
            for l in LANGS.iter().filter(|l| l.has_trimmer()) {
                let a = letter(l);
                for s in [format!("{}{}{}", "!".repeat(n), a, ".".repeat(n)), format!("{}{}", a.repeat(n), "😀".repeat(n)), format!("!{}!{}!", a, a).repeat(n), "!".repeat(n)] {
                    cx.run(self, l.code, &s);
                }
            }
        });
        // Tokens need not come from a text: line ends inside them.
        par_strings(cx, &["a", "!", "\n", "\r", "é", "日", "д"], 0, cx.tier(4, 5), |s| {
            for l in LANGS.iter().filter(|l| l.has_trimmer()) {
                cx.run(self, l.code, s);
            }
        });
        par_strings(cx, &["a", "!", "\n", "\r\n", "é", " ", "\u{2028}", "1"], 0, cx.tier(4, 5), |s| {
            for c in CLASSES {
                cx.run(self, &format!("class {}", c), s);
            }
        });
        // The public trimmer with other classes.
        for c in CLASSES {
            par_scalars(cx, |ch| {
                let s = ch.to_string();
                let w = format!("{0}a{0}é-{0}", s);
                if !c.is_empty() && (cx.tier((ch as u32) < 0x3000 || *c == r"\w", true)) {
                    cx.run(self, &format!("class {}", c), &w);
                }
            });
        }
        par_strings(cx, &["a", "z", "1", "-", "é", "日", "😀", "."], 0, cx.tier(5, 6), |s| {
            for c in CLASSES {
                cx.run(self, &format!("class {}", c), s);
            }
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, w: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, short(w)));
        if let Some(c) = fam.strip_prefix("class ") {
            use std::cell::RefCell;
            thread_local!(static T: RefCell<Vec<(&'static str, RegexTrimmer, CharSet)>> = const { RefCell::new(vec![]) });
            return T.with(|t| {
                let mut t = t.borrow_mut();
                if !t.iter().any(|e| e.0 == c) {
                    let k = CLASSES.iter().find(|x| **x == c).unwrap();
                    t.push((k, RegexTrimmer::new("trimmer-x", k), CharSet::new(k)));
                }
                let e = t.iter().find(|e| e.0 == c).unwrap();
                if e.1.name() != "trimmer-x" {
                    return Err(format!("a trimmer made with the name trimmer-x is called {:?}", e.1.name()));
                }
                self.one(cx, fam, &e.1, &e.2, w)
            });
        }
        let l = by_code(fam);
        let i = inst(l);
        self.one(cx, l.name, i.stage(0), class_set(l.class), w)
    }
    fn rule(&self) -> &'static str {
        "every Unicode character in six contexts, all strings over representatives of the classes, sweeps of lengths, in all 18 languages with a trimmer, and custom classes; a state is a trimmed token"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the tables of scripts are those of the regex crate the library is built with; those of English are written out"]
    }
}

// ---------------------------------------------------------------------------------------------- C13

pub struct C13;

impl C13 {
    /// Everything at edit distance one from a word, over an alphabet.
    fn near(w: &str, abc: &[char], mut f: impl FnMut(&str)) {
        let c: Vec<char> = w.chars().collect();
        let mut put = |v: &[char]| f(&v.iter().collect::<String>());
        for i in 0..=c.len() {
            for &x in abc {
                let mut v = c.clone();
                v.insert(i, x);
                put(&v);
                if i < c.len() {
                    let mut v = c.clone();
                    v[i] = x;
                    put(&v);
                }
            }
            if i < c.len() {
                let mut v = c.clone();
                v.remove(i);
                put(&v);
                let mut v = c.clone();
                v[i..].iter_mut().for_each(|x| *x = x.to_uppercase().next().unwrap());
                put(&v);
            }
            if i + 1 < c.len() {
                let mut v = c.clone();
                v.swap(i, i + 1);
                put(&v);
            }
            put(&c[..i]);
            put(&c[i..]);
        }
    }
    fn alphabet(l: &Lang) -> Vec<char> {
        let mut s: BTreeSet<char> = l.stops().iter().flat_map(|w| w.chars()).collect();
        s.extend(letters(l.code).iter().flat_map(|s| s.chars()));
        s.extend("a!'.1".chars());
        s.into_iter().collect()
    }
}
impl Check for C13 {
    fn explore(&self, cx: &Cx) {
        let with: Vec<&'static Lang> = LANGS.iter().filter(|l| !l.stops().is_empty()).collect();
        for l in &with {
            let mut words: Vec<&str> = l.stops().iter().copied().collect();
            words.sort();
            let abc = C13::alphabet(l);
            cx.par(words.len(), |i| {
                let w = words[i];
                for s in [w.to_string(), format!("!{}", w), format!("{}.", w), format!("({}),", w), format!("«{}»", w), format!("!!{}?!…", w), format!("{}!{}", w, w), format!("{}'s", w), w.to_uppercase(), format!("{}{}", w, w)] {
                    cx.run(self, l.code, &s);
                }
                C13::near(w, &abc, |s| {
                    cx.run(self, l.code, s);
                });
                let n = if cx.quick() { words.len().min(150) } else { words.len() };
                for o in &words[..n] {
                    cx.run(self, l.code, &format!("{}{}", w, o));
                }
                // The stop words of one language in the others.
                for o in LANGS {
                    cx.run(self, o.code, w);
                }
            });
            // All short words.
            let abc: Vec<String> = if l.code == "ko" || l.code == "zh" {
                letters(l.code).iter().map(|s| s.to_string()).collect()
            } else {
                abc.iter().filter(|c| c.is_alphabetic()).map(|c| c.to_string()).collect()
            };
            let abc: Vec<&str> = abc.iter().map(|s| s.as_str()).collect();
            par_strings(cx, &abc, 0, cx.tier(3, 4), |s| {
                cx.run(self, l.code, s);
            });
        }
        // Real words.
        for l in LANGS {
            for c in voc::WITH {
                let v = voc::words(c);
                // Of vocabularies other than the nearest and the English one, every eighth word.
                let step = if !cx.quick() || *c == "en" || v.len() < 2000 || std::ptr::eq(v, voc::near(l.code)) { 1 } else { 8 };
                cx.par(v.len().div_ceil(step), |i| {
                    cx.run(self, l.code, &v[i * step]);
                });
            }
        }
        // Languages without stop words drop none; characters of all kinds.
        par_scalars(cx, |c| {
            for l in LANGS {
                cx.run(self, l.code, c.encode_utf8(&mut [0; 4]));
            }
        });
        // The stage of each language by itself, on tokens that were not trimmed.
        for l in &with {
            let mut words: Vec<&str> = l.stops().iter().copied().collect();
            words.sort();
            cx.par(words.len(), |i| {
                let w = words[i];
                cx.run(self, &format!("stage-{}", l.code), w);
                for c in [" ", "-", "_", "'", "\u{2019}", ".", "!", "s", "\u{301}", "\0", "\u{a0}", "\u{feff}"] {
                    for s in [format!("{}{}", w, c), format!("{}{}", c, w), format!("{0}{1}{0}", c, w), format!("{}{}a", w, c), format!("{}{}{}", w, c, w)] {
                        cx.run(self, &format!("stage-{}", l.code), &s);
                    }
                }
                for s in [w.to_uppercase(), w.to_lowercase(), crate::hist::capital(w)] {
                    cx.run(self, &format!("stage-{}", l.code), &s);
                }
            });
        }
        par_scalars(cx, |c| {
            for t in [format!("a{}", c), format!("{}a", c), format!("{}", c)] {
                cx.run(self, "filter", &serde_json::json!([["a", "b"], t]).to_string());
            }
        });
        // The public filter: all lists of up to three words and all tokens; long lists.
        let ws = ["", "a", "b", "ab", "A", "é"];
        cx.par(seq_total(ws.len(), 3), |i| {
            let mut v = vec![];
            seq_at(ws.len(), i, &mut v);
            let list: Vec<&str> = v.iter().map(|&k| ws[k]).collect();
            for t in ["", "a", "b", "ab", "A", "é", "ba", "aa", " a", "B", "e\u{301}"] {
                cx.run(self, "filter", &serde_json::json!([list, t]).to_string());
            }
        });
        cx.par(cx.tier(150, 1000), |n| {
            let list: Vec<String> = (0..n).map(crate::hist::word).collect();
            for t in [0, n / 2, n.saturating_sub(1), n, n + 1] {
                cx.run(self, "filter", &serde_json::json!([list, crate::hist::word(t)]).to_string());
            }
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, w: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, short(w)));
        if fam == "filter" {
            let v: (Vec<String>, String) = serde_json::from_str(w).map_err(|e| format!("harness: {}", e))?;
            let list: Vec<&str> = v.0.iter().map(|s| s.as_str()).collect();
            let f = StopWordFilter::new("f", &list);
            let got = f.filter(v.1.clone());
            cx.count("transitions", 1);
            cx.outcome(&got);
            let want = (!list.contains(&v.1.as_str())).then_some(v.1.clone());
            if got != want || f.name() != "f" {
                return Err(format!("a filter {:?} of {} words gives {:?} for {:?}", f.name(), list.len(), got, v.1));
            }
            return Ok(());
        }
        if let Some(c) = fam.strip_prefix("stage-") {
            let l = by_code(c);
            let k = l.stages.iter().position(|s| s.starts_with("stopWordFilter")).ok_or("harness: no such stage")?;
            let got = inst(l).stage(k).filter(w.to_string());
            cx.count("transitions", 1);
            cx.outcome(&got);
            if got != (!l.stops().contains(w)).then(|| w.to_string()) {
                return Err(format!("{}: the filter gives {:?} for {:?}", l.name, got, w));
            }
            return Ok(());
        }
        let l = by_code(fam);
        let got = inst(l).term(w)?;
        cx.count("transitions", 1);
        cx.outcome(&got);
        let t = l.ref_trim(w).filter(|t| !t.is_empty());
        match (t, got) {
            (None, Some(g)) => Err(format!("{}: of {:?} trimming leaves nothing, but it becomes the term {:?}", l.name, w, g)),
            (Some(t), Some(g)) if l.stops().contains(t) => Err(format!("{}: the stop word {:?} ({:?}) becomes the term {:?}", l.name, t, w, g)),
            (Some(t), None) if !l.stops().contains(t) && l.ref_stem(t).is_some() => {
                Err(format!("{}: {:?} ({:?}), which is no stop word, is dropped", l.name, t, w))
            }
            _ => Ok(()),
        }
    }
    fn rule(&self) -> &'static str {
        "every stop word of every language with decorations, all its prefixes, suffixes and edit-distance-1 neighbours and pairs, all short words, the stop words of one language in all others; all short lists for the public filter; a state is a resulting term"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the stop words are those of the lists in ref/stopwords, which were taken from the code"]
    }
}

// ---------------------------------------------------------------------------------------------- C14

pub struct C14;

impl Check for C14 {
    fn explore(&self, cx: &Cx) {
        for l in LANGS {
            cx.run(self, "stages", l.code);
        }
        for l in LANGS {
            // All short words over the language's letters.
            let mut abc: Vec<String> = if l.code == "ko" {
                vec![]
            } else {
                C13::alphabet(l).iter().filter(|c| c.is_alphabetic()).map(|c| c.to_string()).collect()
            };
            if abc.is_empty() {
                abc = letters(l.code).iter().map(|s| s.to_string()).collect();
            }
            let abc: Vec<&str> = abc.iter().map(|s| s.as_str()).collect();
            par_strings(cx, &abc, 0, cx.tier(3, 4), |s| {
                cx.run(self, l.code, s);
            });
            par_strings(cx, letters(l.code), 0, cx.tier(4, 6), |s| {
                cx.run(self, l.code, s);
            });
            // Stems with one and two endings.
            let (pre, end) = (&letters(l.code)[..6], endings(l.code));
            par_strings(cx, pre, 0, cx.tier(4, 5), |p| {
                let two = p.chars().count() <= 3;
                for a in end {
                    for b in if two { end } else { &end[..1] } {
                        cx.run(self, l.code, &format!("{}{}{}", p, a, b));
                    }
                }
            });
            for w in ["!{}.", "({}", "{}'s"] {
                par_strings(cx, pre, 0, 3, |p| {
                    for a in end {
                        cx.run(self, l.code, &w.replace("{}", &format!("{}{}", p, a)));
                    }
                });
            }
        }
        // Real words.
        for l in LANGS {
            for c in voc::WITH {
                let v = voc::words(c);
                let step = if !cx.quick() || *c == "en" || v.len() < 2000 || std::ptr::eq(v, voc::near(l.code)) { 1 } else { 8 };
                cx.par(v.len().div_ceil(step), |i| {
                    cx.run(self, l.code, &v[i * step].to_lowercase());
                });
            }
        }
        // Characters that are no letters of the language inside stems, before every ending.
        let marks = ["1", "42", "'", "’", ".", "_", "\u{301}", "@", "/", "é", "ß", "д", "中", "ア", "한", "😀", "\n", "\u{ad}", "ﬁ", "ı"];
        for l in LANGS {
            let (pre, end) = (&letters(l.code)[..6], endings(l.code));
            par_strings(cx, pre, 0, cx.tier(2, 3), |p| {
                for m in marks {
                    for q in std::iter::once(&"").chain(pre) {
                        for e in end {
                            cx.run(self, l.code, &format!("{}{}{}{}", p, m, q, e));
                            if q.is_empty() {
                                cx.run(self, l.code, &format!("{}{}{}", p, e, m));
                            }
                        }
                    }
                }
            });
        }
        // Every letter up to ten times in a word, alone and between others, before every ending.
        for l in LANGS {
            let (o, end) = (letters(l.code), endings(l.code));
            let abc: Vec<char> = (0..0x600).filter_map(char::from_u32).filter(|c| c.is_alphabetic() && l.is_word_char(*c)).chain(o.iter().flat_map(|s| s.chars())).collect();
            cx.par(abc.len(), |i| {
                let c = abc[i];
                for k in 1..=10 {
                    for t in [format!("{}", c), format!("{}{}", c, o[0]), format!("{}{}{}", o[1], c, o[0]), format!("{}{}{}", o[0], c, o[1])] {
                        for e in std::iter::once(&"").chain(end) {
                            cx.run(self, l.code, &format!("{}{}", t.repeat(k), e));
                        }
                    }
                }
            });
        }
        // Every character before every ending.
        for l in LANGS {
            let (a, end) = (letters(l.code)[..3].concat(), endings(l.code));
            par_scalars(cx, |c| {
                if cx.quick() && c as u32 >= 0x600 && !l.is_word_char(c) || l.stem == Stem::Identity {
                    return;
                }
                for e in if cx.quick() { &end[..end.len().min(12)] } else { end } {
                    cx.run(self, l.code, &format!("{}{}{}", a, c, e));
                }
            });
        }
        // Every character as a token, inside one, at its end.
        for ctx in ["{}", "b{}e", "bab{}"] {
            par_scalars(cx, |c| {
                let s = c.encode_utf8(&mut [0; 4]).to_string();
                for l in LANGS {
                    let t = ctx.replace("{}", &s);
                    cx.run(self, l.code, &t);
                }
            });
        }
        cx.par(cx.tier(200, 1000), |n| {
            for l in LANGS {
                for e in endings(l.code).iter().take(12) {
                    cx.run(self, l.code, &format!("{}{}", letters(l.code)[..4].concat().repeat(n), e));
                }
            }
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, w: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.count("transitions", 1);
        cx.sample(|| format!("{} {}", fam, short(w)));
        if fam == "stages" {
            let l = by_code(w);
            let i = langs::Inst::new(l);
            let names: Vec<String> = i.pipe.queue.iter().map(|s| s.name()).collect();
            let js = serde_json::to_string(&i.pipe).map_err(|e| e.to_string())?;
            if names != l.stages || js != serde_json::to_string(l.stages).unwrap() {
                return Err(format!("{}: the stages are {:?}, exported as {}, instead of {:?}", l.name, names, js, l.stages));
            }
            let ix = IndexBuilder::with_language((l.make)()).build();
            let x = Export::of(&ix)?;
            let got: Result<Vec<&str>, String> = x.j.get("pipeline")?.arr()?.iter().map(|s| s.str()).collect();
            if got? != l.stages || x.j.get("lang")?.str()? != l.name {
                return Err(format!("{}: an index exports other stages or language", l.name));
            }
            return Ok(());
        }
        let l = by_code(fam);
        if w.to_lowercase() != *w {
            // Tokens are lowercase.
            return Ok(());
        }
        let got = inst(l).term(w)?;
        let want = l.ref_term(w);
        cx.outcome(&got);
        if got != want {
            if l.code == "ar" && got.as_deref() == Some(langs::arabic(w, false).as_str()) {
                // Which alefs are replaced is C11's matter (see the finding there).
                return Ok(());
            }
            return Err(format!("{}: the term of {} ({}) is {:?} instead of {:?}", l.name, short(w), if w.len() < 80 { hex(w) } else { String::new() }, got, want));
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "in all 19 languages: the stages, all short words over the language's letters, all short stems with one and two endings, every Unicode character in three contexts; a state is a term"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the Snowball algorithms are those of the rust-stemmers crate, called directly", "the stop words are those of ref/stopwords"]
    }
}

