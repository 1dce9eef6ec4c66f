use crate::engine::Check;

#[cfg(feature = "langs")]
pub mod blocks;
pub mod build;
pub mod copies;
pub mod export;
#[cfg(feature = "langs")]
pub mod formats;
pub mod index;
#[cfg(feature = "langs")]
pub mod langs;
#[cfg(feature = "langs")]
pub mod load;
#[cfg(feature = "langs")]
pub mod origin;
#[cfg(feature = "langs")]
pub mod search;
pub mod stores;
pub mod together;
pub mod words;

pub fn get(id: &str) -> Option<(&'static str, Box<dyn Check>)> {
    Some(match id {
        "C01" => ("C01", Box::new(index::C01)),
        "C02" => ("C02", Box::new(stores::C02)),
        "C03" => ("C03", Box::new(stores::C03)),
        "C04" => ("C04", Box::new(index::C04)),
        "C05" => ("C05", Box::new(index::C05)),
        "C06" => ("C06", Box::new(export::C06)),
        "C07" => ("C07", Box::new(build::C07)),
        "C08" => ("C08", Box::new(words::C08)),
        "C09" => ("C09", Box::new(words::C09)),
        "C10" => ("C10", Box::new(words::C10)),
        "C11" => ("C11", Box::new(words::C11)),
        "C12" => ("C12", Box::new(words::C12)),
        "C13" => ("C13", Box::new(words::C13)),
        "C14" => ("C14", Box::new(words::C14)),
        #[cfg(feature = "langs")]
        "C15" => ("C15", Box::new(langs::C15)),
        #[cfg(feature = "langs")]
        "C16" => ("C16", Box::new(langs::C16)),
        "C17" => ("C17", Box::new(build::C17)),
        "C18" => ("C18", Box::new(build::C18)),
        "C19" => ("C19", Box::new(build::C19)),
        "C20" => ("C20", Box::new(index::C20)),
        #[cfg(feature = "langs")]
        "C21" => ("C21", Box::new(langs::C21)),
        #[cfg(feature = "langs")]
        "C22" => ("C22", Box::new(langs::C22)),
        "C23" => ("C23", Box::new(export::C23)),
        "C24" => ("C24", Box::new(index::C24)),
        "C25" => ("C25", Box::new(together::C25)),
        "C26" => ("C26", Box::new(together::C26)),
        #[cfg(feature = "langs")]
        "C27" => ("C27", Box::new(blocks::C27)),
        #[cfg(feature = "langs")]
        "C28" => ("C28", Box::new(load::C28)),
        #[cfg(feature = "langs")]
        "C29" => ("C29", Box::new(origin::C29)),
        #[cfg(feature = "langs")]
        "C30" => ("C30", Box::new(origin::C30)),
        #[cfg(feature = "langs")]
        "C31" => ("C31", Box::new(search::C31)),
        "C32" => ("C32", Box::new(copies::C32)),
        #[cfg(feature = "langs")]
        "C33" => ("C33", Box::new(formats::C33)),
        _ => return None,
    })
}

/// Small programs that checks run in processes of their own.
pub fn child(args: &[&str]) -> i32 {
    match args {
        ["long-token" | "long-token-export", n] => words::long_token(n.parse().unwrap(), true),
        ["long-token-add", n] => words::long_token(n.parse().unwrap(), false),
        #[cfg(feature = "langs")]
        ["fresh", code, what, n] => langs::fresh(code, what, n.parse().unwrap()),
        #[cfg(feature = "langs")]
        ["own", code, d] => langs::own(code, *d == "rev"),
        #[cfg(feature = "langs")]
        ["cross", codes] => langs::cross(codes),
        #[cfg(feature = "langs")]
        ["long-history", code, n] => langs::long_history(code, n.parse().unwrap()),
        _ => 2,
    }
}
