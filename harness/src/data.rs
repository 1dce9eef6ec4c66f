//! Small alphabets of texts and tokens per language.

/// Texts for histories: an empty one, stop words, inflected words, punctuation, repetition.
pub fn texts(code: &str) -> &'static [&'static str] {
    match code {
        "en" => &["", "the cats", "Running runner, run!", "cats dogs-cats", "of"],
        "ar" => &["", "مُحَمَّد", "أحمد والكتاب", "كـتاب كتاب", "آ"],
        "da" => &["", "og hunde", "Hundene, løber!", "løber løb-løber", "en"],
        "de" => &["", "der Häuser", "Die Häuser, laufen!", "laufen läuft-Haus", "und"],
        "du" => &["", "de lichamelijke", "Honden, lopen!", "lopen hond-honden", "het"],
        "es" => &["", "los gatos", "Corriendo, corrió!", "gatos gato-perros", "de"],
        "fi" => &["", "ja talossa", "Talossani, juoksee!", "talo talot-talon", "on"],
        "fr" => &["", "les chevaux", "Manger, mangeait!", "chats chat-chevaux", "de"],
        "hu" => &["", "a házak", "Házban, futott!", "ház házat-kutya", "és"],
        "it" => &["", "il gatti", "Mangiare, mangiato!", "gatti gatto-cani", "di"],
        "ja" => &["", "私は日本語を勉強します。", "東京都に行く", "日本 日本 世界", "は"],
        "ko" => &["", "가 학교", "학교, 갑니다!", "학교 학교-사람", "각각"],
        "no" => &["", "og hunder", "Hundene, løper!", "løper løp-hund", "en"],
        "pt" => &["", "os gatos", "Correndo, correu!", "gatos gato-cães", "de"],
        "ro" => &["", "și pisici", "Alergând, alerga!", "pisici pisică-câini", "de"],
        "ru" => &["", "и кошки", "Бегут, бежал!", "кошки кошка-собак", "в"],
        "sv" => &["", "och hundar", "Hundarna, springer!", "hund hundar-katt", "en"],
        "tr" => &["", "ve kediler", "Kediler, koşuyor!", "kedi kediler-köpek", "bir"],
        "zh" => &["", "我来到北京清华大学", "中国的科学院，了！", "北京 北京 ABC", "的"],
        _ => panic!("harness: no texts for {}", code),
    }
}

/// Tokens for sequences on a shared pipeline: kept, changed, dropped, short, shared prefixes, other scripts.
pub fn tokens(code: &str) -> Vec<&'static str> {
    let mut v = vec!["", "!", "a", "running", "42"];
    v.extend(match code {
        "en" => &["the", "cats", "cat", "cat's", "relational", "yes,", "é"][..],
        "ar" => &["أحمد", "مُحَمَّد", "ـ", "كتاب", "آأ", "والكتاب", "the"],
        "da" => &["og", "hundene", "hund", "løber!", "løb", "en", "é"],
        "de" => &["und", "häuser", "haus", "läuft!", "laufen", "die", "é"],
        "du" => &["de", "lichamelijke", "lichaam", "honden!", "hond", "het", "é"],
        "es" => &["de", "gatos", "gato", "corriendo!", "corrió", "los", "é"],
        "fi" => &["ja", "talossani", "talo", "juoksee!", "talot", "on", "é"],
        "fr" => &["de", "chevaux", "cheval", "mangeait!", "manger", "les", "é"],
        "hu" => &["és", "házban", "ház", "futott!", "házat", "az", "é"],
        "it" => &["di", "gatti", "gatto", "mangiato!", "mangiare", "il", "é"],
        "ja" => &["は", "日本", "日本語", "東京都!", "東京", "す", "ｱ"],
        "ko" => &["가", "학교", "학교를", "사람!", "사람", "각각", "é"],
        "no" => &["og", "hundene", "hund", "løper!", "løp", "en", "é"],
        "pt" => &["de", "gatos", "gato", "correndo!", "correu", "os", "é"],
        "ro" => &["de", "pisici", "pisică", "alergând!", "alerga", "și", "é"],
        "ru" => &["и", "кошки", "кошка", "бежал!", "бегут", "в", "é"],
        "sv" => &["och", "hundarna", "hund", "springer!", "hundar", "en", "é"],
        "tr" => &["ve", "kediler", "kedi", "koşuyor!", "koş", "bir", "é"],
        "zh" => &["的", "北京", "北京大学", "中国!", "中国", "了", "é"],
        _ => panic!("harness: no tokens for {}", code),
    });
    v
}

/// Letters with which a language's words are made, for strings.
pub fn letters(code: &str) -> &'static [&'static str] {
    match code {
        "en" => &["e", "d", "i", "n", "g", "o", "s", "t", "y", "l", "é", "日", "😀"],
        "ar" => &["ا", "آ", "أ", "ب", "ـ", "\u{64b}", "\u{651}", "\u{65b}", "ى", "a"],
        "da" | "no" | "sv" => &["e", "r", "n", "s", "t", "ø", "å", "d", "k", "g", "l", "ö"],
        "de" => &["e", "n", "r", "s", "t", "ß", "ä", "u", "y", "i", "g", "h"],
        "du" => &["e", "n", "i", "j", "y", "d", "s", "ë", "a", "k", "t", "g"],
        "es" | "pt" | "it" => &["a", "o", "s", "r", "e", "i", "n", "u", "m", "á", "í", "ã"],
        "fi" | "hu" => &["a", "ä", "k", "s", "t", "i", "n", "o", "ö", "l", "é", "ő"],
        "fr" => &["e", "é", "è", "s", "i", "u", "q", "r", "m", "n", "t", "y"],
        "ro" => &["a", "i", "u", "e", "r", "t", "ă", "ş", "ţ", "l", "î", "o"],
        "ru" => &["а", "и", "в", "ш", "с", "ь", "е", "н", "о", "ё", "т", "я"],
        "tr" => &["a", "ı", "i", "l", "r", "n", "d", "ü", "k", "ğ", "m", "s"],
        "ko" => &["가", "한", "a", "각", "ㄱ", "하", "다", "!", "은", "\u{1100}"],
        "zh" => &["中", "国", "的", "了", "北", "京", "A", "1", "，", " ", "人", "\u{20000}"],
        "ja" => &["日", "本", "は", "す", "る", "ア", "ー", "A", "1", "。", " ", "人", "\u{20000}"],
        _ => unreachable!(),
    }
}

pub const SUFFIXES: &[&str] = &[
    "", "s", "sses", "ies", "ss", "eed", "ed", "ing", "y", "e", "ll", "at", "bl", "iz", "ational", "tional", "enci", "anci", "izer",
    "bli", "alli", "entli", "eli", "ousli", "ization", "ation", "ator", "alism", "iveness", "fulness", "ousness", "aliti",
    "iviti", "biliti", "logi", "icate", "ative", "alize", "iciti", "ical", "ful", "ness", "al", "ance", "ence", "er", "ic",
    "able", "ible", "ant", "ement", "ment", "ent", "ou", "ism", "ate", "iti", "ous", "ive", "ize", "ion", "sion", "tion",
];

/// Endings that the stemming rules of a language look at.
pub fn endings(code: &str) -> &'static [&'static str] {
    match code {
        "en" => SUFFIXES,
        "da" => &["", "hed", "ethed", "ered", "e", "erede", "ende", "erende", "ene", "erne", "ere", "en", "er", "heder", "erer", "heds", "es", "endes", "ers", "ernes", "et", "eret", "ets", "s", "ig", "lig", "els", "løst", "igst", "gd", "dt", "gt", "kt"],
        "de" => &["", "em", "ern", "er", "e", "en", "es", "s", "st", "est", "end", "ung", "ig", "ik", "isch", "lich", "heit", "keit", "igkeit", "nisse", "ä", "ö", "ü", "ß", "ss", "eit", "erin"],
        "du" => &["", "heden", "ene", "en", "se", "s", "e", "heid", "end", "ing", "ig", "lijk", "baar", "bar", "ij", "ijk", "gem", "aa", "oo", "uu", "ee", "dd", "kk", "tt", "ë", "ï", "é"],
        "es" => &["", "me", "se", "selas", "la", "los", "nos", "ando", "iendo", "ar", "er", "ir", "anza", "ico", "ismo", "able", "ible", "ista", "oso", "amiento", "mente", "idad", "iva", "logía", "ución", "encia", "aban", "yeron", "aríamos", "ía", "á", "é", "gue", "s", "o", "a"],
        "fi" => &["", "kin", "kaan", "kään", "ko", "kö", "han", "pa", "sti", "ni", "nsa", "mme", "nne", "an", "en", "än", "ta", "lla", "ssa", "sta", "lta", "lle", "na", "ksi", "ine", "han", "hen", "siin", "seen", "den", "tten", "mpi", "mma", "impa", "eja", "i", "t", "j", "aa"],
        "fr" => &["", "ance", "ique", "isme", "able", "iste", "eux", "atrice", "logie", "usion", "ence", "issement", "ement", "ité", "if", "ive", "eaux", "aux", "amment", "ment", "îmes", "irait", "issant", "er", "ez", "é", "ée", "aient", "asse", "ier", "ière", "e", "ë", "s", "ll", "ett", "x"],
        "hu" => &["", "ban", "ben", "nak", "nek", "val", "vel", "ként", "ért", "ból", "ről", "hoz", "ig", "ul", "án", "én", "á", "é", "astul", "al", "el", "ok", "ek", "k", "ünk", "unk", "om", "em", "od", "ed", "am", "ja", "je", "ái", "ei", "aim", "itek", "tt", "bb"],
        "it" => &["", "ando", "endo", "are", "ere", "ire", "ci", "gli", "sene", "anza", "ico", "ismo", "abile", "ista", "oso", "mente", "atrice", "azione", "logia", "uzione", "enza", "amento", "ità", "ivo", "ammo", "assero", "iremo", "iva", "ava", "à", "o", "i", "a", "ch", "gh"],
        "no" => &["", "a", "e", "ede", "ande", "ende", "ane", "ene", "hetene", "erte", "en", "heten", "ar", "er", "heter", "s", "as", "es", "et", "het", "ets", "ert", "ast", "dt", "vt", "leg", "eleg", "ig", "eig", "lig", "els", "lov", "slov"],
        "pt" => &["", "eza", "ico", "ismo", "ável", "ível", "ista", "oso", "amento", "mente", "adora", "ação", "ações", "logia", "ência", "idade", "iva", "eira", "ada", "aria", "ei", "ou", "iu", "aram", "ássemos", "ç", "ão", "õe", "a", "o", "e", "os", "gue", "ci", "gi"],
        "ro" => &["", "ul", "ului", "lor", "ilor", "iile", "atei", "aţie", "icitate", "abilitate", "ivitate", "ator", "iune", "ism", "ist", "ant", "oasă", "ează", "esc", "ise", "ând", "ind", "ăm", "aţi", "seră", "are", "ere", "ire", "e", "i", "ie", "a", "ă", "uri", "le"],
        "ru" => &["", "в", "вши", "вшись", "ив", "ыв", "ившись", "ее", "ими", "ой", "ого", "ому", "ая", "яя", "ем", "нн", "вш", "ющ", "щ", "ся", "сь", "ла", "на", "ете", "ть", "ила", "ыла", "ена", "ить", "а", "ев", "ие", "иями", "ость", "ост", "ейше", "ейш", "ь", "и", "ё"],
        "sv" => &["", "a", "arna", "erna", "heterna", "orna", "ad", "e", "ade", "ande", "arne", "are", "aste", "en", "anden", "aren", "heten", "ern", "ar", "er", "heter", "or", "s", "as", "arnas", "ens", "es", "et", "het", "ast", "dd", "gd", "nn", "dt", "gt", "kt", "tt", "lig", "ig", "els", "löst", "fullt"],
        "tr" => &["", "lar", "ler", "ım", "imiz", "ın", "ınız", "ı", "sı", "ları", "ü", "nın", "a", "e", "na", "da", "de", "den", "ndan", "la", "ca", "yım", "sın", "dır", "casına", "dı", "sa", "ymış", "yken", "ki", "ğ", "b", "d", "c", "k", "soy", "ad"],
        "ar" => &["", "ون", "ات", "\u{64b}", "آ", "ى", "ـ"],
        "ko" => &["", "가", "은", "하다", "!", "abc"],
        "zh" | "ja" => &["", "的", "人", "。", "abc", "ア"],
        _ => unreachable!(),
    }
}
