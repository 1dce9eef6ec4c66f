//! The stemmer of elasticlunr.js 0.9.5 (ref/en_stemmer.js) as a model in Rust: the same rules over the same
//! UTF-16 units, with its regular expressions turned into automata. Every run of C10 compares it with the
//! JavaScript itself.

const A: u16 = b'a' as u16;
const E: u16 = b'e' as u16;
const I: u16 = b'i' as u16;
const O: u16 = b'o' as u16;
const U: u16 = b'u' as u16;
const Y: u16 = b'y' as u16;

/// [^aeiou]
fn c(u: u16) -> bool {
    !matches!(u, A | E | I | O | U)
}
/// [^aeiouy]
fn n(u: u16) -> bool {
    c(u) && u != Y
}
/// [aeiouy]
fn v(u: u16) -> bool {
    !n(u)
}

/// States of ^(c n*)? v a* c n* v a* c n*: 0 start, 1 in the first n*, 2 in the first a*, 3 in the second n*,
/// 4 in the second a*, 5 after the second c (absorbing: the expression is not anchored at the end).
fn step(s: u8, u: u16) -> u8 {
    let mut t = s & 1 << 5;
    if s & 1 != 0 {
        t |= (c(u) as u8) << 1 | (v(u) as u8) << 2;
    }
    if s & 2 != 0 {
        t |= (n(u) as u8) << 1 | (v(u) as u8) << 2;
    }
    if s & 4 != 0 {
        t |= (!c(u) as u8) << 2 | (c(u) as u8) << 3;
    }
    if s & 8 != 0 {
        t |= (n(u) as u8) << 3 | (v(u) as u8) << 4;
    }
    if s & 16 != 0 {
        t |= (!c(u) as u8) << 4 | (c(u) as u8) << 5;
    }
    t
}

/// (matches mgr0, matches mgr1, matches meq1, matches s_v)
fn scan(w: &[u16]) -> (bool, bool, bool, bool) {
    let (mut s, mut m0, mut m1, mut sv) = (1u8, false, false, false);
    for &u in w {
        s = step(s, u);
        sv |= s & 4 != 0;
        m0 |= s & 8 != 0;
        m1 |= s & 32 != 0;
    }
    (m0, m1, s & (8 | 16) != 0, sv)
}
fn mgr0(w: &[u16]) -> bool {
    scan(w).0
}
fn mgr1(w: &[u16]) -> bool {
    scan(w).1
}

/// ^c[^aeiouy]*[aeiouy][^aeiouwxy]$
fn cvc(w: &[u16]) -> bool {
    let l = w.len();
    if l < 3 {
        return false;
    }
    let last = w[l - 1];
    c(w[0])
        && w[1..l - 2].iter().all(|&u| n(u))
        && v(w[l - 2])
        && c(last)
        && !matches!(last, 0x77 | 0x78 | Y)
}

fn ends(w: &[u16], s: &str) -> bool {
    let s = s.as_bytes();
    w.len() >= s.len() && w[w.len() - s.len()..].iter().zip(s).all(|(a, b)| *a == *b as u16)
}

/// The stem if `w` matches ^(.+?)s$.
fn cut<'a>(w: &'a [u16], s: &str) -> Option<&'a [u16]> {
    if w.len() > s.len() && ends(w, s) {
        Some(&w[..w.len() - s.len()])
    } else {
        None
    }
}

fn put(w: &mut Vec<u16>, keep: usize, s: &str) {
    w.truncate(keep);
    w.extend(s.bytes().map(|b| b as u16));
}

const STEP2: &[(&str, &str)] = &[
    ("ational", "ate"),
    ("tional", "tion"),
    ("enci", "ence"),
    ("anci", "ance"),
    ("izer", "ize"),
    ("bli", "ble"),
    ("alli", "al"),
    ("entli", "ent"),
    ("eli", "e"),
    ("ousli", "ous"),
    ("ization", "ize"),
    ("ation", "ate"),
    ("ator", "ate"),
    ("alism", "al"),
    ("iveness", "ive"),
    ("fulness", "ful"),
    ("ousness", "ous"),
    ("aliti", "al"),
    ("iviti", "ive"),
    ("biliti", "ble"),
    ("logi", "log"),
];
const STEP3: &[(&str, &str)] = &[
    ("icate", "ic"),
    ("ative", ""),
    ("alize", "al"),
    ("iciti", "ic"),
    ("ical", "ic"),
    ("ful", ""),
    ("ness", ""),
];
const STEP4: &[&str] = &[
    "al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ou", "ism", "ate", "iti",
    "ous", "ive", "ize",
];

/// `(.+?)(a|b|...)$` takes the shortest stem, that is, the longest suffix of the list.
fn longest<'a>(w: &[u16], list: impl Iterator<Item = &'a str>) -> Option<(usize, &'a str)> {
    list.filter(|s| cut(w, s).is_some())
        .max_by_key(|s| s.len())
        .map(|s| (w.len() - s.len(), s))
}

pub fn stem(word: &str) -> String {
    let mut w: Vec<u16> = word.encode_utf16().collect();
    stem16(&mut w);
    String::from_utf16_lossy(&w)
}

pub fn stem16(w: &mut Vec<u16>) {
    if w.len() < 3 {
        return;
    }
    let y = w[0] == Y;
    if y {
        w[0] = b'Y' as u16;
    }
    // 1a
    if cut(w, "sses").is_some() || cut(w, "ies").is_some() {
        w.truncate(w.len() - 2);
    } else if w.len() > 2 && ends(w, "s") && w[w.len() - 2] != 0x73 {
        w.pop();
    }
    // 1b
    if let Some(s) = cut(w, "eed") {
        if mgr0(s) {
            w.pop();
        }
    } else if let Some((k, _)) = longest(w, ["ed", "ing"].into_iter()) {
        if scan(&w[..k]).3 {
            w.truncate(k);
            let l = w.len();
            if ends(w, "at") || ends(w, "bl") || ends(w, "iz") {
                w.push(E);
            } else if l >= 2 && w[l - 1] == w[l - 2] && c(w[l - 1]) && !matches!(w[l - 1], Y | 0x6c | 0x73 | 0x7a) {
                w.pop();
            } else if cvc(w) {
                w.push(E);
            }
        }
    }
    // 1c
    if w.len() > 2 && ends(w, "y") && c(w[w.len() - 2]) {
        w.pop();
        w.push(I);
    }
    // 2
    if let Some((k, s)) = longest(w, STEP2.iter().map(|e| e.0)) {
        if mgr0(&w[..k]) {
            put(w, k, STEP2.iter().find(|e| e.0 == s).unwrap().1);
        }
    }
    // 3
    if let Some((k, s)) = longest(w, STEP3.iter().map(|e| e.0)) {
        if mgr0(&w[..k]) {
            put(w, k, STEP3.iter().find(|e| e.0 == s).unwrap().1);
        }
    }
    // 4
    if let Some((k, _)) = longest(w, STEP4.iter().copied()) {
        if mgr1(&w[..k]) {
            w.truncate(k);
        }
    } else if cut(w, "sion").is_some() || cut(w, "tion").is_some() {
        let k = w.len() - 3;
        if mgr1(&w[..k]) {
            w.truncate(k);
        }
    }
    // 5
    if let Some(s) = cut(w, "e") {
        let (_, m1, e1, _) = scan(s);
        if m1 || (e1 && !cvc(s)) {
            w.pop();
        }
    }
    if ends(w, "ll") && mgr1(w) {
        w.pop();
    }
    if y {
        w[0] = Y;
    }
}
