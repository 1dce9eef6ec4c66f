//! What C16 looks at in a build of the crate: part of the harness, and compiled once more for every
//! set of features (probe_main.rs).

use crate::data;
use elasticlunr::{lang, IndexBuilder, Language};
use std::fmt::Write;

/// (code, name) of all languages there are.
pub const ALL: [(&str, &str); 19] = [
    ("en", "English"), ("ar", "Arabic"), ("zh", "Chinese"), ("da", "Danish"), ("du", "Dutch"), ("fi", "Finnish"),
    ("fr", "French"), ("de", "German"), ("hu", "Hungarian"), ("it", "Italian"), ("ja", "Japanese"), ("ko", "Korean"),
    ("no", "Norwegian"), ("pt", "Portuguese"), ("ro", "Romanian"), ("ru", "Russian"), ("es", "Spanish"),
    ("sv", "Swedish"), ("tr", "Turkish"),
];

fn show(l: Option<Box<dyn Language>>) -> String {
    match l {
        None => "-".into(),
        Some(l) => {
            let stages: Vec<String> = l.make_pipeline().queue.iter().map(|s| s.name()).collect();
            format!("{} {} {:?}", l.code(), l.name(), stages)
        }
    }
}

/// Lines "list CODE", "code CODE RESULT", "name NAME RESULT", "export CODE JSON".
pub fn report() -> String {
    let mut o = String::new();
    for l in lang::languages() {
        writeln!(o, "list {} {}", l.code(), show(Some(l))).unwrap();
    }
    for (code, name) in ALL {
        writeln!(o, "code {} {}", code, show(lang::from_code(code))).unwrap();
        writeln!(o, "upper {} {}", code, show(lang::from_code(&code.to_uppercase()))).unwrap();
        writeln!(o, "name {} {}", code, show(lang::from_name(name))).unwrap();
    }
    for l in lang::languages() {
        let code = l.code();
        let mut ix = IndexBuilder::with_language(l).add_field("t").add_field("b").build();
        let own = data::texts(&code);
        for (c, _) in ALL {
            for (i, t) in data::texts(c).iter().enumerate() {
                ix.add_doc(&format!("{}{}", c, i), [t, &own[i % own.len()]]);
            }
            ix.add_doc(c, ["", &data::tokens(c).join(" ")[..]]);
        }
        writeln!(o, "export {} {}", code, ix.to_json()).unwrap();
    }
    // What becomes of many words and characters, as digests of blocks.
    for l in lang::languages() {
        let code = l.code();
        let p = l.make_pipeline();
        let mut block = |what: &str, text: &str| {
            let toks = if code == "ja" || code == "zh" { text.split(' ').map(|s| s.to_lowercase()).collect() } else { l.tokenize(text) };
            let mut h: u64 = 0xcbf29ce484222325;
            let mut n = 0;
            for t in toks.iter().chain(&p.run(toks.clone())) {
                for b in t.bytes().chain([0xff]) {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                }
                n += 1;
            }
            writeln!(o, "{} {} {} tokens and terms, digest {:x}", what, code, n, h).unwrap();
        };
        let (a, e) = (data::letters(&code), data::endings(&code));
        for x in a {
            let mut t = String::new();
            for y in a {
                for z in e {
                    t += &format!("{}{}{} {}{}. ", x, y, z, y.to_uppercase(), z);
                }
            }
            block(&format!("words-{}", x.escape_unicode()), &t);
        }
        let mut blocks: Vec<u32> = (0..0x60).chain(0x1e0..0x220).chain([0x300, 0x301, 0x309, 0x30f, 0x310, 0x4e0, 0xac0, 0xfb0, 0xff0, 0xff1, 0x1f60]).collect();
        if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
            blocks.extend(0x60..0x110);
            blocks.sort_unstable();
            blocks.dedup();
        }
        for b in blocks {

            let mut t = String::new();
            for c in (b * 16..b * 16 + 16).filter_map(char::from_u32) {
                t += &format!("{0} a{0} {0}b {1}{0} {0}{1} {1}{0}{2} D{0}X ", c, a[0], e[1]);
            }
            block(&format!("characters-{:x}", b * 16), &t);
        }
    }
    // And the one without any language given.
    let mut ix = IndexBuilder::new().add_field("t").build();
    ix.add_doc("1", [data::texts("en").join(" ")]);
    writeln!(o, "default en {}", ix.to_json()).unwrap();
    o
}
