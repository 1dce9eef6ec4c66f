//! C27: the building blocks for languages (lang::common), with parameters of the user's own.

use crate::engine::{par_scalars, seq_at, seq_total, Check, Cx};
use elasticlunr::lang::common::{RegexTrimmer, RustStemmer, StopWordFilter};
use elasticlunr::pipeline::PipelineFn;
use rust_stemmers::{Algorithm, Stemmer};
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub struct C27;

/// A class as it is given to the trimmer, and the characters it stands for.
struct Class {
    src: &'static str,
    ranges: &'static [(char, char)],
}
const CLASSES: &[Class] = &[
    Class { src: "a", ranges: &[('a', 'a')] },
    Class { src: "a-c", ranges: &[('a', 'c')] },
    Class { src: "ac", ranges: &[('a', 'a'), ('c', 'c')] },
    Class { src: "a-z0-9", ranges: &[('a', 'z'), ('0', '9')] },
    Class { src: "A-Za-z", ranges: &[('A', 'Z'), ('a', 'z')] },
    Class { src: "A-Z", ranges: &[('A', 'Z')] },
    Class { src: "a-z_'", ranges: &[('a', 'z'), ('_', '_'), ('\'', '\'')] },
    Class { src: r"a\-b", ranges: &[('a', 'b'), ('-', '-')] },
    Class { src: r"\]b", ranges: &[(']', ']'), ('b', 'b')] },
    Class { src: r"\\a", ranges: &[('\\', '\\'), ('a', 'a')] },
    Class { src: r"a\^", ranges: &[('a', 'a'), ('^', '^')] },
    Class { src: "é", ranges: &[('é', 'é')] },
    Class { src: "а-яё", ranges: &[('а', 'я'), ('ё', 'ё')] },
    Class { src: "一-龥", ranges: &[('一', '龥')] },
    Class { src: "😀-😎", ranges: &[('😀', '😎')] },
    Class { src: r"\x{300}-\x{36f}a-z", ranges: &[('\u{300}', '\u{36f}'), ('a', 'z')] },
    Class { src: " a", ranges: &[(' ', ' '), ('a', 'a')] },
    Class { src: r"a\n", ranges: &[('a', 'a'), ('\n', '\n')] },
    Class { src: "!-/", ranges: &[('!', '/')] },
    Class { src: r"\x{0}-\x{10ffff}", ranges: &[('\0', '\u{d7ff}'), ('\u{e000}', '\u{10ffff}')] },
];
impl Class {
    fn has(&self, c: char) -> bool {
        self.ranges.iter().any(|r| r.0 <= c && c <= r.1)
    }
    fn trim<'a>(&self, t: &'a str) -> Option<&'a str> {
        let a = t.char_indices().find(|x| self.has(x.1))?.0;
        let (b, c) = t.char_indices().rfind(|x| self.has(x.1))?;
        Some(&t[a..b + c.len_utf8()])
    }
}

const ALGOS: &[(&str, Algorithm)] = &[
    ("Arabic", Algorithm::Arabic),
    ("Danish", Algorithm::Danish),
    ("Dutch", Algorithm::Dutch),
    ("English", Algorithm::English),
    ("Finnish", Algorithm::Finnish),
    ("French", Algorithm::French),
    ("German", Algorithm::German),
    ("Greek", Algorithm::Greek),
    ("Hungarian", Algorithm::Hungarian),
    ("Italian", Algorithm::Italian),
    ("Norwegian", Algorithm::Norwegian),
    ("Portuguese", Algorithm::Portuguese),
    ("Romanian", Algorithm::Romanian),
    ("Russian", Algorithm::Russian),
    ("Spanish", Algorithm::Spanish),
    ("Swedish", Algorithm::Swedish),
    ("Tamil", Algorithm::Tamil),
    ("Turkish", Algorithm::Turkish),
];

thread_local! {
    static TRIMMERS: Vec<RegexTrimmer> = CLASSES.iter().map(|c| RegexTrimmer::new("t", c.src)).collect();
    static STEMMERS: Vec<(RustStemmer, Stemmer)> = ALGOS.iter().map(|a| (RustStemmer::new("s", a.1), Stemmer::create(a.1))).collect();
}

const WORDS: &[&str] = &["", "a", "b", "A", "ab", "é", "e\u{301}", "É", "the", "The", "the ", "中", "a\0", "😀"];
const NAMES: &[&str] = &["", "x", "stopWordFilter-xx", "trimmer", "naïve \"name\"\n", "😀"];

impl C27 {
    fn trim(&self, k: usize, t: &str) -> Result<(), String> {
        TRIMMERS.with(|v| {
            let got = v[k].filter(t.to_string());
            let want = CLASSES[k].trim(t);
            if got.as_deref() != want {
                return Err(format!("a trimmer to [{}] makes {:?} of {:?} instead of {:?}", CLASSES[k].src, got, t, want));
            }
            Ok(())
        })
    }
    fn stem(&self, k: usize, t: &str) -> Result<(), String> {
        STEMMERS.with(|v| {
            let got = v[k].0.filter(t.to_string());
            let want = v[k].1.stem(t);
            let want = (!want.is_empty()).then_some(want);
            if got.as_deref() != want.as_deref() {
                return Err(format!("a stemmer for {} makes {:?} of {:?} instead of {:?}", ALGOS[k].0, got, t, want));
            }
            Ok(())
        })
    }
    /// A filter of the words: drops exactly them, and so does its copy, which outlives it.
    fn stop(&self, name: &str, words: &[&str], tokens: &[&str]) -> Result<(), String> {
        let f = StopWordFilter::new(name, words);
        let set: BTreeSet<&str> = words.iter().copied().collect();
        let look = |f: &StopWordFilter, what: &str| -> Result<(), String> {
            if f.name() != name {
                return Err(format!("{} named {:?} has the name {:?}", what, name, f.name()));
            }
            for t in tokens.iter().chain(words) {
                let got = f.filter(t.to_string());
                let want = if set.contains(t) { None } else { Some(*t) };
                if got.as_deref() != want {
                    return Err(format!("{} for {} words {:?} makes {:?} of {:?}", what, words.len(), &words[..words.len().min(8)], got, t));
                }
            }
            Ok(())
        };
        look(&f, "a stop word filter")?;
        let g = f.clone();
        look(&g, "the copy of a stop word filter")?;
        drop(f);
        look(&g, "the copy of a stop word filter")
    }
}

impl Check for C27 {
    fn explore(&self, cx: &Cx) {
        // Stop words: all lists of up to three (four) of the words, with repetitions, in all orders.
        let d = cx.tier(3, 4);
        cx.par(seq_total(WORDS.len(), d), |i| {
            let mut v = vec![];
            seq_at(WORDS.len(), i, &mut v);
            let w: Vec<&str> = v.iter().map(|&k| WORDS[k]).collect();
            cx.run(self, "stop", &json!([NAMES[i % NAMES.len()], w]).to_string());
        });
        cx.par(NAMES.len(), |i| {
            cx.run(self, "names", NAMES[i]);
        });
        par_scalars(cx, |c| {
            cx.run(self, "stop-char", &c.to_string());
        });
        let sizes: Vec<usize> = (0..=cx.tier(600, 3000)).chain([4095, 4096, 4097, 10000, 65535, 65536, 65537]).collect();
        cx.par(sizes.len(), |i| {
            cx.run(self, "stop-many", &sizes[sizes.len() - 1 - i].to_string());
        });
        cx.par(cx.tier(600, 3000), |i| {
            cx.run(self, "stop-long", &i.to_string());
        });
        // Trimmers: every character in contexts, all strings over the ends of each class and their neighbours.
        par_scalars(cx, |c| {
            for k in 0..CLASSES.len() {
                for t in [format!("{}", c), format!("{0}a{0}", c), format!("a{}b", c), format!("!{0}é{0}!", c), format!("{0}{0}中{0}{0}", c), format!("a{}", c)] {
                    let p = || format!("{} {}", k, t);
                    cx.case("trim", &p(), || {
                        cx.count("traces", 1);
                        cx.count("transitions", 1);
                        self.trim(k, &t)
                    });
                }
            }
        });
        cx.par(CLASSES.len() * 64, |i| {
            let (k, part) = (i / 64, i % 64);
            let mut reps: Vec<char> = vec!['-', ' ', '\n', '.'];
            for r in CLASSES[k].ranges.iter().take(3) {
                for u in [r.0 as u32, r.1 as u32, (r.0 as u32).wrapping_sub(1), r.1 as u32 + 1] {
                    reps.extend(char::from_u32(u));
                }
            }
            reps.sort();
            reps.dedup();
            reps.truncate(9);
            let n = seq_total(reps.len(), cx.tier(5, 6));
            let mut v = vec![];
            let mut j = part;
            while j < n && !cx.stopped() {
                seq_at(reps.len(), j, &mut v);
                let t: String = v.iter().map(|&x| reps[x]).collect();
                cx.case("trim", &format!("{} {}", k, t), || {
                    cx.count("traces", 1);
                    cx.count("transitions", 1);
                    cx.outcome(&(k, CLASSES[k].trim(&t)));
                    self.trim(k, &t)
                });
                j += 64;
            }
        });
        cx.par(cx.tier(300, 2000), |n| {
            for k in 0..CLASSES.len() {
                for (a, b, c) in [(n, 1, n), (0, n, n), (n, n, 0), (n, 0, 0)] {
                    let t = format!("{}{}{}", "!?".repeat(a), "a中b".repeat(b), "é.".repeat(c));
                    cx.run(self, "trim", &format!("{} {}", k, t));
                }
            }
        });
        // Stemmers: all algorithms on the words of all vocabularies, short words, every character.
        par_scalars(cx, |c| {
            for k in 0..ALGOS.len() {
                for t in [format!("{}", c), format!("kat{}", c), format!("{}eren", c)] {
                    cx.case("stem", &format!("{} {}", k, t), || {
                        cx.count("traces", 1);
                        cx.count("transitions", 1);
                        self.stem(k, &t)
                    });
                }
            }
        });
        let mut chunks: Vec<(&str, usize)> = vec![];
        for c in crate::voc::WITH {
            for b in 0..cx.tier(10, 60) {
                chunks.push((c, b));
            }
        }
        cx.par(chunks.len(), |i| {
            let (c, b) = chunks[i];
            for w in crate::voc::words(c).iter().skip(b * 400).take(400) {
                for k in 0..ALGOS.len() {
                    cx.case("stem", &format!("{} {}", k, w), || {
                        cx.count("traces", 1);
                        cx.count("transitions", 1);
                        cx.outcome(&(k, w));
                        self.stem(k, w)
                    });
                }
            }
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.count("transitions", 1);
        cx.sample(|| format!("{} {}", fam, p.chars().take(100).collect::<String>()));
        match fam {
            "stop" => {
                let v: Value = serde_json::from_str(p).map_err(|e| e.to_string())?;
                let w: Vec<&str> = v[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                cx.outcome(&w);
                self.stop(v[0].as_str().unwrap(), &w, WORDS)
            }
            "names" => {
                if RegexTrimmer::new(p, "a-z").name() != p || RustStemmer::new(p, Algorithm::French).name() != p {
                    return Err(format!("a stage named {:?} has another name", p));
                }
                let t = RegexTrimmer::new(p, "a-z").clone();
                if t.name() != p || t.filter("-ab.".into()).as_deref() != Some("ab") {
                    return Err("the copy of a trimmer differs".into());
                }
                self.stop(p, &["a"], WORDS)
            }
            "stop-char" => {
                let c = p.chars().next().ok_or("harness: empty")?;
                cx.outcome(p);
                let near: Vec<String> = [
                    format!("{}a", c),
                    format!("a{}", c),
                    format!("{0}{0}", c),
                    c.to_lowercase().to_string(),
                    c.to_uppercase().to_string(),
                    format!("{}\u{301}", c),
                    format!(" {}", c),
                    char::from_u32(c as u32 + 1).map_or("x".into(), |c| c.to_string()),
                ]
                .to_vec();
                let near: Vec<&str> = near.iter().map(|s| s.as_str()).collect();
                self.stop("n", &[p], &near)?;
                self.stop("n", &[&format!("q{}", p)], &[p, "q"])?;
                // The same character around, in and between longer stop words, and in one of them.
                let mut near: Vec<String> = vec![];
                for w in ["the", "theirs", "été", "это", "中国人"] {
                    let k = w.chars().next().unwrap().len_utf8();
                    for t in [
                        format!("{}{}", w, c),
                        format!("{}{}", c, w),
                        format!("{0}{1}{0}", c, w),
                        format!("{}{}{}", &w[..k], c, &w[k..]),
                        format!("{}{}", c, &w[k..]),
                        format!("{}{}s", w, c),
                        format!("l{}{}", c, w),
                        format!("{0}{1}{0}", w, c),
                        format!("{}{}{}", w, c, c),
                    ] {
                        near.push(t);
                    }
                }
                let near: Vec<&str> = near.iter().map(|s| s.as_str()).collect();
                self.stop("n", &["the", "theirs", "été", "это", "中国人"], &near)?;
                let own = [format!("don{}t", c), format!("{}tis", c), format!("isn{}", c)];
                let own: Vec<&str> = own.iter().map(|s| s.as_str()).collect();
                self.stop("n", &own, &["dont", "tis", "isn", "don", "don't", "don’t", "t", "don-t", "don t"])
            }
            "stop-many" => {
                let n: usize = p.parse().map_err(|_| "harness: number")?;
                let w: Vec<String> = (0..n).map(crate::hist::word).collect();
                let near: Vec<String> = (0..n.min(2000)).flat_map(|i| [w[i].clone() + "k", w[i][1..].to_string()]).collect();
                let near: Vec<String> = near.into_iter().filter(|x| !w.contains(x) || n > 5000).collect();
                let (w, near): (Vec<&str>, Vec<&str>) =
                    (w.iter().map(|s| s.as_str()).collect(), if n > 5000 { vec!["cat", "", "q"] } else { near.iter().map(|s| s.as_str()).collect() });
                cx.outcome(&n);
                self.stop("n", &w, &near)
            }
            "stop-long" => {
                let n: usize = p.parse().map_err(|_| "harness: number")?;
                let w: String = (0..n).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
                let mut near = vec![format!("{}a", w), format!("a{}", w), format!("{0}{0}", w), w.to_uppercase()];
                if n > 0 {
                    near.push(w[1..].to_string());
                    near.push(w[..n - 1].to_string());
                    near.push(format!("{}!", &w[..n - 1]));
                    near.push(format!("!{}", &w[1..]));
                    near.push(format!("{}!{}", &w[..n / 2], &w[n / 2 + 1..]));
                }
                cx.outcome(&(n, "long"));
                self.stop("n", &[&w], &near.iter().map(|s| s.as_str()).collect::<Vec<_>>())
            }
            "trim" | "stem" => {
                let (k, t) = p.split_once(' ').ok_or("harness: payload")?;
                let k: usize = k.parse().map_err(|_| "harness: number")?;
                if fam == "trim" {
                    self.trim(k, t)
                } else {
                    self.stem(k, t)
                }
            }
            _ => Err(format!("harness: no family {}", fam)),
        }
    }
    fn rule(&self) -> &'static str {
        "all lists of up to three (four) of fourteen stop words, every character as a stop word, lists of thousands; twenty classes of word characters with every character and all strings over the ends of the classes; eighteen stemmers with vocabularies and every character; a state is a list, a trimmed token or a word with its stemmer"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["rust-stemmers is trusted: that the stemmer stage calls it with the given algorithm is what is checked"]
    }
}
