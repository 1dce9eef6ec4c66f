//! Vocabularies (ref/voc), read on first use.

use std::collections::HashMap;
use std::sync::Mutex;

/// Languages that have one.
#[allow(dead_code)]
pub const WITH: &[&str] = &["ar", "da", "de", "du", "en", "es", "fi", "fr", "hu", "it", "ja", "ko", "no", "pt", "ro", "ru", "sv", "tr", "zh"];

pub fn words(code: &str) -> &'static [String] {
    static V: Mutex<Option<HashMap<String, &'static [String]>>> = Mutex::new(None);
    let mut g = V.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(v) = m.get(code) {
        return v;
    }
    let path = format!("{}/../ref/voc/{}.txt", env!("CARGO_MANIFEST_DIR"), code);
    let v: Vec<String> = match std::fs::read_to_string(&path) {
        Ok(t) => t.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect(),
        Err(e) => panic!("harness: {}: {}", path, e),
    };
    let v: &'static [String] = Box::leak(v.into_boxed_slice());
    m.insert(code.to_string(), v);
    v
}

/// The large vocabulary closest to a language.
pub fn near(code: &str) -> &'static [String] {
    words(match code {
        "da" | "sv" => "no",
        "du" => "de",
        "hu" | "tr" => "fi",
        "ko" => "en",
        c => c,
    })
}
