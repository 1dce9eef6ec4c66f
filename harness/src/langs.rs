//! What the properties say about each language, written down independently of the crate: names, codes,
//! stages, word characters, stop words (ref/stopwords) and stemming algorithms.

use elasticlunr::pipeline::PipelineFn;
use elasticlunr::{lang, Language, Pipeline};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stem {
    English,
    Arabic,
    Identity,
    #[cfg(feature = "langs")]
    Snowball(rust_stemmers::Algorithm),
}

pub struct Lang {
    pub code: &'static str,
    pub name: &'static str,
    pub stages: &'static [&'static str],
    /// Word characters as a regex class; "" if the language has no trimmer.
    pub class: &'static str,
    /// Separates words by white space.
    pub ws: bool,
    pub stem: Stem,
    pub make: fn() -> Box<dyn Language>,
    stops: &'static str,
}

impl PartialEq for Lang {
    fn eq(&self, o: &Lang) -> bool {
        self.code == o.code
    }
}

macro_rules! stops {
    ($c:literal) => {
        include_str!(concat!("../../ref/stopwords/", $c, ".txt"))
    };
}

#[cfg(feature = "langs")]
macro_rules! snowball {
    ($code:literal, $name:ident, $class:literal, $algo:ident) => {
        Lang {
            code: $code,
            name: stringify!($name),
            stages: &[
                concat!("trimmer-", $code),
                concat!("stopWordFilter-", $code),
                concat!("stemmer-", $code),
            ],
            class: $class,
            ws: true,
            stem: Stem::Snowball(rust_stemmers::Algorithm::$algo),
            make: || Box::new(lang::$name::new()),
            stops: stops!($code),
        }
    };
}

pub const EN_CLASS: &str = "A-Za-z0-9_";

pub static LANGS: &[Lang] = &[
    Lang {
        code: "en",
        name: "English",
        stages: &["trimmer", "stopWordFilter", "stemmer"],
        class: EN_CLASS,
        ws: true,
        stem: Stem::English,
        make: || Box::new(lang::English::new()),
        stops: stops!("en"),
    },
    #[cfg(feature = "langs")]
    Lang {
        code: "ar",
        name: "Arabic",
        stages: &["stemmer-ar"],
        class: "",
        ws: true,
        stem: Stem::Arabic,
        make: || Box::new(lang::Arabic::new()),
        stops: "",
    },
    #[cfg(feature = "langs")]
    snowball!("da", Danish, r"\p{Latin}", Danish),
    #[cfg(feature = "langs")]
    snowball!("de", German, r"\p{Latin}", German),
    #[cfg(feature = "langs")]
    snowball!("du", Dutch, r"\p{Latin}", Dutch),
    #[cfg(feature = "langs")]
    snowball!("es", Spanish, r"\p{Latin}", Spanish),
    #[cfg(feature = "langs")]
    snowball!("fi", Finnish, r"\p{Latin}", Finnish),
    #[cfg(feature = "langs")]
    snowball!("fr", French, r"\p{Latin}", French),
    #[cfg(feature = "langs")]
    snowball!("hu", Hungarian, r"\p{Latin}", Hungarian),
    #[cfg(feature = "langs")]
    snowball!("it", Italian, r"\p{Latin}", Italian),
    #[cfg(feature = "langs")]
    Lang {
        code: "ja",
        name: "Japanese",
        stages: &["trimmer-ja", "stemmer-ja"],
        class: r"0-9A-Za-z\p{Hiragana}\p{Katakana}\p{Unified_Ideograph}",
        ws: false,
        stem: Stem::Identity,
        make: || Box::new(lang::Japanese::new()),
        stops: "",
    },
    #[cfg(feature = "langs")]
    Lang {
        code: "ko",
        name: "Korean",
        stages: &["trimmer-ko", "stopWordFilter-ko", "stemmer-ko"],
        class: r"\p{Latin}\p{Hangul}",
        ws: true,
        stem: Stem::Identity,
        make: || Box::new(lang::Korean::new()),
        stops: stops!("ko"),
    },
    #[cfg(feature = "langs")]
    snowball!("no", Norwegian, r"\p{Latin}", Norwegian),
    #[cfg(feature = "langs")]
    snowball!("pt", Portuguese, r"\p{Latin}", Portuguese),
    #[cfg(feature = "langs")]
    snowball!("ro", Romanian, r"\p{Latin}", Romanian),
    #[cfg(feature = "langs")]
    snowball!("ru", Russian, r"\p{Cyrillic}", Russian),
    #[cfg(feature = "langs")]
    snowball!("sv", Swedish, r"\p{Latin}", Swedish),
    #[cfg(feature = "langs")]
    snowball!("tr", Turkish, r"\p{Latin}", Turkish),
    #[cfg(feature = "langs")]
    Lang {
        code: "zh",
        name: "Chinese",
        stages: &["trimmer-zh", "stopWordFilter-zh", "stemmer-zh"],
        class: r"\p{Unified_Ideograph}\p{Latin}",
        ws: false,
        stem: Stem::Identity,
        make: || Box::new(lang::Chinese::new()),
        stops: stops!("zh"),
    },
];

pub fn by_code(code: &str) -> &'static Lang {
    LANGS.iter().find(|l| l.code == code).unwrap_or_else(|| panic!("harness: no language {}", code))
}

pub fn index_of(l: &Lang) -> usize {
    LANGS.iter().position(|x| x.code == l.code).unwrap()
}

/// A set of characters as a bitmap.
pub struct CharSet(Vec<u64>);

impl CharSet {
    pub fn new(class: &str) -> CharSet {
        let mut bits = vec![0u64; 0x110000 / 64];
        if class == EN_CLASS {
            // Without any library: this one is plain ASCII.
            for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_".chars() {
                bits[c as usize / 64] |= 1 << (c as usize % 64);
            }
        } else if !class.is_empty() {
            let re = regex::Regex::new(&format!("^[{}]$", class)).unwrap();
            let mut buf = [0u8; 4];
            for u in 0..0x110000u32 {
                if let Some(c) = char::from_u32(u) {
                    if re.is_match(c.encode_utf8(&mut buf)) {
                        bits[u as usize / 64] |= 1 << (u % 64);
                    }
                }
            }
        }
        CharSet(bits)
    }
    #[inline]
    pub fn has(&self, c: char) -> bool {
        self.0[c as usize / 64] >> (c as usize % 64) & 1 == 1
    }
}

pub fn class_set(class: &'static str) -> &'static CharSet {
    use std::sync::Mutex;
    static SETS: Mutex<Vec<(&'static str, &'static CharSet)>> = Mutex::new(vec![]);
    thread_local!(static NEAR: RefCell<Vec<(&'static str, &'static CharSet)>> = const { RefCell::new(vec![]) });
    if let Some(s) = NEAR.with(|n| n.borrow().iter().find(|e| e.0 == class).map(|e| e.1)) {
        return s;
    }
    let mut g = SETS.lock().unwrap();
    let s = match g.iter().find(|e| e.0 == class) {
        Some(e) => e.1,
        None => {
            let s: &'static CharSet = Box::leak(Box::new(CharSet::new(class)));
            g.push((class, s));
            s
        }
    };
    NEAR.with(|n| n.borrow_mut().push((class, s)));
    s
}

impl Lang {
    /// The stop words, without the empty one.
    pub fn stops(&self) -> &'static HashSet<&'static str> {
        static CELLS: [OnceLock<HashSet<&'static str>>; 32] = [const { OnceLock::new() }; 32];
        CELLS[index_of(self)].get_or_init(|| self.stops.lines().filter(|l| !l.is_empty()).collect())
    }
    pub fn is_word_char(&self, c: char) -> bool {
        class_set(self.class).has(c)
    }
    pub fn has_trimmer(&self) -> bool {
        !self.class.is_empty()
    }
    /// The trimmed token: from its first to its last word character; None if there is none.
    pub fn ref_trim<'a>(&self, token: &'a str) -> Option<&'a str> {
        if !self.has_trimmer() {
            return Some(token);
        }
        trim_to(class_set(self.class), token)
    }
    pub fn ref_stem(&self, token: &str) -> Option<String> {
        let s = match self.stem {
            Stem::English => crate::porter::stem(token),
            Stem::Identity => token.to_string(),
            Stem::Arabic => arabic(token, true),
            #[cfg(feature = "langs")]
            Stem::Snowball(a) => {
                thread_local!(static ST: RefCell<Vec<(rust_stemmers::Algorithm, rust_stemmers::Stemmer)>> = const { RefCell::new(vec![]) });
                ST.with(|st| {
                    let mut st = st.borrow_mut();
                    let i = match st.iter().position(|e| e.0 == a) {
                        Some(i) => i,
                        None => {
                            st.push((a, rust_stemmers::Stemmer::create(a)));
                            st.len() - 1
                        }
                    };
                    st[i].1.stem(token).into_owned()
                })
            }
        };
        if s.is_empty() {
            None
        } else {
            Some(s)
        }
    }
    /// What the whole pipeline makes of one token.
    pub fn ref_term(&self, token: &str) -> Option<String> {
        let t = self.ref_trim(token)?;
        if self.stops().contains(t) {
            return None;
        }
        self.ref_stem(t)
    }
    /// Tokens of a text in a language that separates words by white space.
    pub fn ref_terms(&self, text: &str) -> Vec<String> {
        assert!(self.ws);
        ref_tokenize(text).iter().filter_map(|t| self.ref_term(t)).collect()
    }
}

pub fn trim_to<'a>(set: &CharSet, token: &'a str) -> Option<&'a str> {
    let a = token.char_indices().find(|e| set.has(e.1))?.0;
    let (b, c) = token.char_indices().filter(|e| set.has(e.1)).last()?;
    Some(&token[a..b + c.len_utf8()])
}

/// js/lunr.ar.js; with `all` unset, only the first variant of alef is replaced.
pub fn arabic(w: &str, all: bool) -> String {
    let mut out = String::new();
    let mut done = false;
    for c in w.chars() {
        match c {
            '\u{640}' | '\u{64b}'..='\u{65b}' => {}
            '\u{622}' | '\u{623}' | '\u{625}' | '\u{671}' | '\u{649}' if all || !done => {
                out.push('\u{627}');
                done = true;
            }
            c => out.push(c),
        }
    }
    out
}

/// The 25 code points with the Unicode property White_Space.
pub fn is_white(c: char) -> bool {
    matches!(c as u32,
        0x9..=0xD | 0x20 | 0x85 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x2028 | 0x2029 | 0x202F | 0x205F | 0x3000)
}

pub fn ref_tokenize(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in text.chars() {
        if is_white(c) || c == '-' {
            if !cur.is_empty() {
                out.push(cur.to_lowercase());
                cur.clear();
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur.to_lowercase());
    }
    out
}

/// A language of the crate and a pipeline of it.
pub struct Inst {
    pub lang: Box<dyn Language>,
    pub pipe: Pipeline,
}

impl Inst {
    pub fn new(l: &Lang) -> Inst {
        let lang = (l.make)();
        let pipe = lang.make_pipeline();
        Inst { lang, pipe }
    }
    pub fn stage(&self, i: usize) -> &dyn PipelineFn {
        &*self.pipe.queue[i]
    }
    /// What the pipeline makes of one token.
    pub fn term(&self, token: &str) -> Result<Option<String>, String> {
        let mut v = self.pipe.run(vec![token.to_string()]);
        match v.len() {
            0 => Ok(None),
            1 => Ok(v.pop()),
            n => Err(format!("{} terms from the one token {:?}", n, token)),
        }
    }
}

thread_local!(static INST: RefCell<HashMap<&'static str, Rc<Inst>>> = RefCell::new(HashMap::new()));

/// This thread's instance of a language, made on first use.
pub fn inst(l: &'static Lang) -> Rc<Inst> {
    if let Some(i) = INST.with(|m| m.borrow().get(l.code).cloned()) {
        return i;
    }
    let i = Rc::new(Inst::new(l));
    INST.with(|m| m.borrow_mut().insert(l.code, i.clone()));
    i
}
