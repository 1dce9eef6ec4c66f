#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "The exported index finds exactly the documents that contain a term",
  "After any sequence of document additions, following the characters of a term through the exported JSON of a field leads to exactly the documents whose text in that field, after the language's tokenizing, trimming, stop word removal and stemming, contained the term. Every such document is found and no other, whatever other terms, fields and documents were added before or after. A document that was added several times is found under the terms of all its texts. (A field named like the reference is stored but has no terms.)",
  ["histories", "inputs"], "every sequence of add_doc calls and every term",
  "tests/test-index.rs compares two fixed indexes with a fixture; the trie sharing between terms, documents and fields only shows on histories that collide in prefixes, references and fields",
  ["src/lib.rs", "src/inverted_index.rs", "src/pipeline.rs", "src/lang/en.rs"],
  [("add_doc tokenizes, runs the pipeline and adds each distinct term", "src/lib.rs Index::add_doc"),
   ("trie of characters", "src/inverted_index.rs IndexItem")],
  ["Index::to_json", "Index::to_json_pretty"])

p("C02", "Posting lists act as a map from term and document to frequency",
  "After any sequence of adding and removing terms of documents, a field's inverted index reports for each term exactly the documents it was last added and not since removed for, each with the frequency of the last addition, and a document frequency equal to their number. A term is reported as present exactly if it is a prefix of some term ever added; adding an empty term and removing what is not there change nothing.",
  ["histories"], "every sequence of add_token and remove_token with colliding, nested and non-ASCII terms",
  "the unit tests run about 20 histories of at most five operations, nearly all with the term \"foo\"",
  ["src/inverted_index.rs"],
  [("add_token counts a document once", "src/inverted_index.rs IndexItem::add_token"),
   ("remove_token walks by character and decrements only for a listed document", "src/inverted_index.rs IndexItem::remove_token")],
  ["InvertedIndex::get_docs", "InvertedIndex::get_term_frequency", "InvertedIndex::get_doc_frequency", "InvertedIndex::has_token", "its serialized form"],
  [{"name": "root", "meaning": "trie node: postings, document count, children", "where": "src/inverted_index.rs"}])

p("C03", "The document store acts as a map, and a removed document leaves no trace",
  "After any sequence of adding documents, removing documents and recording field lengths, the store reports exactly the documents added and not since removed, with the content last added for each (or empty content if saving is off), and their number, also in the exported length. A field length is the one last recorded for a stored document's field, otherwise 0. Removing a document removes its content and its field lengths, so that neither is reported or exported after it, even if the reference is used again; removing an unknown document changes no other document.",
  ["histories"], "every sequence of add_doc, remove_doc and add_field_length",
  "each unit test runs one short history; removal followed by re-use of a reference is never tested",
  ["src/document_store.rs"],
  [("length kept in step with the map", "src/document_store.rs add_doc, remove_doc"),
   ("field lengths kept per reference", "src/document_store.rs add_field_length, get_field_length")],
  ["DocumentStore methods", "its serialized form"],
  [{"name": "docs, doc_info, length", "meaning": "contents, field lengths, count", "where": "src/document_store.rs"}])

p("C04", "Term frequencies, document frequencies and field lengths are exact",
  "For every document added once, each term of each field is exported with term frequency equal to the square root of the number of times it occurs in that field after processing, and the field's length is the number of its terms after processing, counting repetitions. The document frequency of a term in a field is always the number of documents listed for it there. These numbers are exact for any number of repetitions, terms, fields and documents.",
  ["histories", "inputs"], "every text, number of repetitions, fields and documents",
  "tests cover counts of 1 and 3, in one or two fields",
  ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs"],
  [("per-field counting and square root", "src/lib.rs Index::add_doc"),
   ("document count", "src/inverted_index.rs IndexItem::add_token")],
  ["Index::to_json"])

p("C05", "Documents, fields and indexes do not influence one another",
  "Adding documents with different references in any order gives a byte-identical export, and doing the same twice gives the same bytes. What the index holds for a document is the same whatever other documents are in it; what it holds for a field is the same whatever the other fields contain; and building other indexes in between changes nothing.",
  ["histories"], "every order of additions, every set of other documents, fields and indexes, every interleaving of building two indexes",
  "an independence over all orders and contexts; version 3.0.3 leaked terms between fields unnoticed by the tests (CHANGELOG, #60)",
  ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs"],
  [("ordered maps", "src/lib.rs Index::index, src/inverted_index.rs, src/document_store.rs"),
   ("term counts are local to a field", "src/lib.rs Index::add_doc")],
  ["Index::to_json", "Index::to_json_pretty"])

p("C06", "The exported JSON is valid, complete and parses back to equal structures",
  "For any document references, field names, terms and contents, the export is valid JSON in the layout elasticlunr.js loads (fields in order, names of the pipeline stages, ref, version 0.9.5, one root per field with docs, df and one key per next character, documentStore with save, docs, docInfo and length, lang), and the pretty and the compact form have the same content. All strings come back unchanged, and an exported inverted index or document store deserializes to an equal one, given a parser that reads numbers exactly and as long as its nesting limit allows.",
  ["inputs", "histories"], "every string as reference, field name, term and content",
  "the fixtures hold two texts with ordinary characters; quotes, control characters and characters outside the BMP as keys are never exported",
  ["src/inverted_index.rs", "src/document_store.rs", "src/lib.rs", "src/pipeline.rs"],
  [("characters flattened into keys", "src/inverted_index.rs IndexItem::serialize"),
   ("derived and custom serialization", "src/lib.rs Index, src/pipeline.rs Pipeline")],
  ["Index::to_json", "Index::to_json_pretty", "serde_json::from_str"])

p("C07", "A pipeline runs every stage in order on every surviving token",
  "Running a pipeline gives, in input order, for each token the result of applying all stages in their order, each to the result of the one before; a token for which a stage returns nothing is left out and reaches no later stage. Each stage is applied exactly once to each token that reaches it, and a pipeline is exported as the names of its stages in order.",
  ["programs", "inputs"], "every pipeline of stages that keep, change, empty or drop tokens, and every list of tokens",
  "tests run the fixed pipelines of the languages on fixed texts; no test has a stage that drops in the middle of its own making",
  ["src/pipeline.rs"],
  [("run", "src/pipeline.rs Pipeline::run"), ("serialization as names", "src/pipeline.rs impl Serialize")],
  ["Pipeline::run", "serde_json::to_string(&Pipeline)"])

p("C08", "Tokenizing splits exactly at white space and hyphens and lowercases",
  "In every language that separates words by white space, the tokens of a text are, in order, the lowercase forms of its maximal runs of characters that are neither Unicode white space nor the hyphen-minus. No token is empty, no other character splits or is lost, and tokenizing two texts joined by a separator gives the tokens of the one followed by those of the other.",
  ["inputs"], "every text, every Unicode character in every position, all languages that tokenize by white space",
  "four unit tests on ASCII strings",
  ["src/lang/mod.rs", "src/lang/*.rs"],
  [("tokenize_whitespace", "src/lang/mod.rs"), ("Language::tokenize", "src/lang/*.rs")],
  ["Language::tokenize", "lang::tokenize_whitespace"])

p("C09", "No text can make indexing fail, in any language",
  "For every text, in every language, tokenizing, running the pipeline, adding the document and exporting the index completes without panic, crash or endless loop, and no term that comes out is empty or invalid.",
  ["inputs"], "every text: all Unicode characters in all contexts, all lengths, all languages",
  "version 3.0.3 was yanked because the stemmer panicked on \"ion\", \"eing\" and on some multi-byte characters (#57, #58, #63), each unnoticed by the tests; the tests still sample",
  ["src/lang/en.rs", "src/lang/*.rs", "src/lib.rs", "src/inverted_index.rs"],
  [("index arithmetic of the stemmer", "src/lang/en.rs PorterStemmer"), ("empty results become None", "src/lang/common.rs RegexTrimmer, RustStemmer")],
  ["Language::tokenize", "Pipeline::run", "Index::add_doc", "Index::to_json"])

p("C10", "English stems equal those of elasticlunr.js",
  "For every lowercase word, including words with digits, apostrophes and non-ASCII letters, the English stemmer returns exactly what the stemmer of elasticlunr.js 0.9.5 returns, so that a word in a query meets the term in the index. Words of fewer than three UTF-16 units are returned unchanged.",
  ["inputs"], "every lowercase word the English tokenizer and trimmer can produce",
  "about 200 words are pinned; the rewrite in 3.0.3 differed from the original on words like \"leeshyy\" that no list contains",
  ["src/lang/en.rs"],
  [("PorterStemmer", "src/lang/en.rs")],
  ["Pipeline::run of lang::English", "the pipeline stage \"stemmer\""])

p("C11", "Arabic normalization equals js/lunr.ar.js",
  "For every token, the Arabic pipeline returns what js/lunr.ar.js, the implementation shipped for the browser, returns: the elongating character and all diacritics removed and all variants of alef replaced by the plain one. A token of which nothing remains is dropped.",
  ["inputs"], "every string of letters, alef variants, diacritics and other characters",
  "the fixture text has no word with two diacritics",
  ["src/lang/ar.rs", "js/lunr.ar.js"],
  [("diacritics and alefs", "src/lang/ar.rs Stemmer::filter")],
  ["Pipeline::run of lang::Arabic"])

p("C12", "Trimming removes exactly the non-word characters at both ends of a token",
  "In every language with a trimmer, a token is cut down to the part from its first to its last word character, and dropped if it has none; nothing inside that part changes. The word characters are A-Z, a-z, 0-9 and underscore in English, and otherwise the letters of the language's script: Latin; Cyrillic for Russian; Latin and Hangul for Korean; Latin and unified ideographs for Chinese; ASCII letters and digits, kana and unified ideographs for Japanese.",
  ["inputs"], "every token, every Unicode character in every position, all languages",
  "a few punctuation marks around ASCII words are tested",
  ["src/lang/en.rs", "src/lang/common.rs", "src/lang/*.rs"],
  [("trimmer", "src/lang/en.rs"), ("RegexTrimmer", "src/lang/common.rs"), ("character classes", "src/lang/*.rs make_pipeline")],
  ["the first pipeline stage of each language", "RegexTrimmer::filter"])

p("C13", "Exactly the stop words of the language are dropped",
  "In every language with stop words, a token which after trimming is one of the language's stop words never becomes a term, and every other token of which trimming leaves something does, however similar it is to a stop word. The filter stage by itself drops exactly the tokens that equal a stop word.",
  ["inputs"], "every stop word, and every other word up to a length and in the neighbourhood of the stop words, all languages",
  "the fixture texts contain a fraction of the stop words; no test looks at words next to them",
  ["src/lang/common.rs", "src/lang/*.rs"],
  [("StopWordFilter", "src/lang/common.rs"), ("word lists", "src/lang/*.rs")],
  ["Pipeline::run of each language"])

p("C14", "Each language's terms are its trimmed, filtered and stemmed tokens",
  "The pipeline of every language consists of the stages that elasticlunr.js and lunr-languages register, under their names and in the order trimmer, stop word filter, stemmer (those the language has), and maps each lowercase token to the stem that the language's algorithm (the Snowball stemmer of that language where there is one, for Chinese, Japanese and Korean the token itself) gives for the trimmed token. A token whose stem is empty is dropped.",
  ["inputs", "configurations"], "all languages, every word up to a length and every word of stem and endings",
  "one text per language is compared with a fixture, and stops being compared at the first failing language",
  ["src/lang/*.rs", "src/lang/common.rs"],
  [("make_pipeline", "src/lang/*.rs"), ("RustStemmer", "src/lang/common.rs")],
  ["Language::make_pipeline", "Pipeline::run", "exported pipeline names"])

p("C15", "Looking languages up by code, by name and by list agrees",
  "Looking up the code or the name of any listed language gives that language, with its own code, name and pipeline; the code is accepted in any combination of upper and lower case, the name only as written. Any other string gives nothing. No two listed languages share a code or a name.",
  ["inputs", "configurations"], "every string up to four letters and every variation of the known codes and names",
  "from_code and from_name have no test at all",
  ["src/lang/mod.rs", "src/lang/*.rs"],
  [("impl_language!", "src/lang/mod.rs"), ("name and code", "src/lang/*.rs")],
  ["lang::languages", "lang::from_code", "lang::from_name"])

p("C16", "A feature flag enables exactly its language and changes nothing else",
  "With any set of language features enabled, the available languages are English and those of the enabled features, in the listing and in both lookups. An enabled language, and English, index a text to the same bytes whatever other features are enabled.",
  ["configurations"], "the sets of language features: none, every single one, every set without one, all",
  "the tests run with all features; CI only compiles the single ones",
  ["src/lang/mod.rs", "Cargo.toml", "src/lang/common.rs"],
  [("cfg attributes in impl_language!", "src/lang/mod.rs"), ("[features]", "Cargo.toml")],
  ["lang::languages", "lang::from_code", "lang::from_name", "Index::to_json"])

p("C17", "A built index has the settings of its builder, whatever the order of calls",
  "An index has exactly the fields added to its builder, in the order they were added, an empty inverted index for each, the last reference name and the last save setting given (id and on by default), and the language of the builder. The order in which different settings are made does not matter. Adding a field name twice panics, by whichever of the methods, and nothing else does.",
  ["histories", "configurations"], "every sequence of builder calls",
  "one test adds a duplicate by one method; orders and combinations of calls are not tested",
  ["src/lib.rs"],
  [("IndexBuilder", "src/lib.rs"), ("duplicate check in add_field and add_field_with_tokenizer", "src/lib.rs")],
  ["Index::get_fields", "Index::to_json"])

p("C18", "A custom tokenizer is applied to its own field only, once per document",
  "Each field is tokenized by the tokenizer given for it, or by the language's if none was given, called once with the exact text of that field for every document added, and never with another field's text. The tokens then pass through the language's pipeline like any others. This holds for any arrangement of fields with and without tokenizers and any order in which the fields were added, except that a field named like the reference is not tokenized at all.",
  ["configurations", "histories"], "every assignment of tokenizers to fields, every order of fields and every short history of additions",
  "custom tokenizers have no test",
  ["src/lib.rs"],
  [("field_tokenizers parallel to fields", "src/lib.rs IndexBuilder, Index::add_doc")],
  ["calls of the tokenizer", "Index::to_json"],
  [{"name": "field_tokenizers", "meaning": "tokenizer of each field, by position", "where": "src/lib.rs"}])

p("C19", "Search options export as elasticlunr.js configuration and parse back",
  "Search options export as an object with bool (\"OR\" or \"AND\"), expand and fields, and each field as an object with exactly those of boost, bool and expand that are set. Parsing an export gives equal options, for every combination of values and any field names; the defaults are OR, false and no fields.",
  ["inputs", "configurations"], "every combination of settings of the options and of one or two fields",
  "two fixed configurations are serialized; none is parsed",
  ["src/config.rs"],
  [("serde attributes", "src/config.rs")],
  ["serde_json::to_string", "serde_json::from_str"])

p("C20", "Documents are stored verbatim, or not at all when saving is off",
  "With saving on, the export holds for every document reference exactly the texts given in its last addition, unchanged, under their field names, and the reference under the reference name; with saving off it holds an empty document and no text. In both cases the documents are counted, and their terms and field lengths are the same.",
  ["histories", "inputs"], "every history of additions, every text and reference, saving on and off",
  "Index is only tested with saving on, with one document",
  ["src/lib.rs", "src/document_store.rs"],
  [("document assembled from fields", "src/lib.rs Index::add_doc"), ("save flag", "src/document_store.rs add_doc")],
  ["Index::to_json documentStore"])

p("C21", "Processing text does not depend on what was processed before",
  "The terms of a text are the same on a fresh language and pipeline as after any other texts were processed by the same language, pipeline or index, and a text processed twice gives the same terms twice. The terms of a list of tokens are those of its tokens one by one.",
  ["histories"], "every sequence of texts and tokens up to a length, all languages",
  "needs all short histories; the tests process each text once on a fresh pipeline",
  ["src/pipeline.rs", "src/lang/*.rs"],
  [("stages take &self and keep no state", "src/pipeline.rs PipelineFn::filter, src/lang/*.rs")],
  ["Language::tokenize", "Pipeline::run"])

p("C22", "Chinese and Japanese tokens are the words of the text in their order",
  "Chinese tokens are the words of jieba's segmentation for search (without new-word discovery), each a piece of the text, and every word character of the text is in at least one of them; the terms are those pieces that contain a word character, trimmed, except the stop words. Japanese tokens are the dictionary words of the text (IPADIC, compounds decomposed) in their order, each an unchanged piece of it, except exactly the particles, auxiliary verbs, symbols and unknown words.",
  ["inputs"], "every text up to a length over characters of all the scripts that meet in such texts",
  "one fixture text for each language, of which the Chinese input is a single line",
  ["src/lang/zh.rs", "src/lang/ja.rs"],
  [("jieba cut_for_search", "src/lang/zh.rs"), ("part of speech filter", "src/lang/ja.rs")],
  ["Language::tokenize", "Pipeline::run"])

p("C23", "An exported index can be loaded, and goes on as if it had not been exported",
  "Deserializing the export of an index of a built-in language without custom tokenizers gives an index with the same export, fields and language, and adding further documents to it has the same result as adding them to the original. This holds at every point of a history and for any number of exports and loads, given a parser that reads numbers exactly and as long as its nesting limit allows; an export with an unknown language is refused.",
  ["histories"], "every history of additions with exports and loads at every point, all languages",
  "no test deserializes an index, which in fact always failed",
  ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs"],
  [("deserialization of Index", "src/lib.rs"), ("flattened characters", "src/inverted_index.rs IndexItem")],
  ["serde_json::from_str::<Index>", "Index::to_json", "Index::add_doc"])

p("C24", "Adding a document again gives it its last numbers and counts it once",
  "When a document reference is added again, its stored text, its field lengths and the frequencies of the terms of its new text become those of the last addition, and it is counted once in the number of documents and in the document frequency of each term, however often and however interleaved with other documents it is added. No other document's content, lengths or frequencies change.",
  ["histories"], "every history of additions with repeated references and changing texts",
  "no test adds the same reference to an index twice",
  ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs"],
  [("insert overwrites", "src/inverted_index.rs add_token, src/document_store.rs add_doc, add_field_length")],
  ["Index::to_json"])

p("C25", "Indexes used at the same time or inside one another do not mix",
  "Indexes that are used in different threads at the same time, or inside a custom tokenizer, language, pipeline stage or iterator of texts of another index, come out as if each had been used alone, and so does an index used after such code of another one panicked. A pipeline that is run again by one of its own stages gives the results it gives alone, inside and outside.",
  ["schedules", "fault_sequences"], "every schedule of two or three threads up to a number of preemptions at the points where code of the user runs, every such point with another use nested in it or with a panic at it",
  "every test uses one index in one thread at a time, and no custom code inside it",
  ["src/lib.rs", "src/pipeline.rs", "src/lang/"],
  [("add_doc calls tokenizers, stages and the iterator in the middle of its work", "src/lib.rs Index::add_doc"),
   ("run calls stages", "src/pipeline.rs Pipeline::run"),
   ("shared dictionaries", "src/lang/zh.rs, src/lang/ja.rs")],
  ["Index::to_json", "Pipeline::run"])

p("C26", "An addition cut off by a panic can be repeated",
  "If adding a document or exporting is cut off by a panic, of a custom tokenizer, language, pipeline stage or iterator of texts or because there are more values than fields, then everything the index holds for the other documents is as before, and the index can be used on; adding further documents does not change what it holds of the one that was cut off. When the addition is repeated, all exports are the same as if it had not been cut off.",
  ["crash_points", "fault_sequences", "histories"], "every history of additions, exports and loads with a panic at every point where code of the user runs, and at every two of them",
  "no test lets anything panic during an addition and goes on",
  ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/pipeline.rs"],
  [("the order in which an addition changes lengths, postings and documents", "src/lib.rs Index::add_doc")],
  ["Index::to_json", "Index::to_json_pretty"])

p("C27", "Stages made of the public building blocks do what their parameters say",
  "A stop word filter made of any list of words drops exactly the tokens that equal one of them; a trimmer made of any class of word characters cuts a token down to the part from its first to its last character of the class, or drops it if there is none; a stemmer stage gives exactly the stem of its algorithm, or drops a token whose stem is empty. Every such stage has the name it was given, and a copy of a filter or trimmer behaves like the original.",
  ["inputs", "configurations"], "every list of words, class, algorithm and token",
  "the tests only see the stages of the built-in languages, with their own lists and classes, on one text each",
  ["src/lang/common.rs"],
  [("set of words", "src/lang/common.rs StopWordFilter"), ("regular expression", "src/lang/common.rs RegexTrimmer"), ("empty stems", "src/lang/common.rs RustStemmer")],
  ["PipelineFn::filter", "PipelineFn::name"])

p("C28", "Any JSON form of an export loads alike, and anything else is refused",
  "An export written in another form (other order of keys, white space or string escapes, further keys at the top level, or rewritten by JavaScript) loads to the same index, from memory, a reader or a parsed value. A text that is cut off, lacks a part other than the pipeline and the version, or has a value of the wrong type in one, is refused with an error. No text makes loading panic, and whatever is loaded can be exported and loaded again without change.",
  ["inputs", "crash_points"], "every reordering, cut, omission, replacement and changed byte of exports, and every short text",
  "no test deserializes an index",
  ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs"],
  [("deserialization of Index", "src/lib.rs SavedIndex"), ("flattened characters", "src/inverted_index.rs IndexItem"), ("document store", "src/document_store.rs")],
  ["serde_json::from_str::<Index>", "serde_json::from_reader", "serde_json::from_value"])

p("C29", "A language behaves the same however it was obtained",
  "A language has the same name, code, tokens, pipeline stages and terms for every text whether it comes from new, default, a copy (whatever was done with the original before or after, and though it is gone), from_code in either case, from_name, the list of languages or a loaded export; all pipelines made from it are alike and independent; and indexes made in any of the ways the library offers for the language and the same fields have the same export after the same additions.",
  ["inputs", "histories", "configurations"], "every text in every language by every way, and every sequence of uses of an original and its copy",
  "tests only use new, and never a copy",
  ["src/lang/", "src/lib.rs"],
  [("default, copies", "src/lang/*.rs"), ("look-ups make new instances", "src/lang/mod.rs"), ("with_language, new, loading", "src/lib.rs")],
  ["Language::tokenize", "Language::make_pipeline", "Index::to_json"])

p("C30", "Japanese segmentation follows the settings it was made with",
  "Japanese::with_config segments every text as lindera does under the given mode, penalties and user dictionary, leaving out particles, auxiliary verbs, symbols and unknown words; copies of it, its pipeline and indexes made with it follow these settings too.",
  ["inputs", "configurations"], "every setting and every text",
  "no test uses with_config",
  ["src/lang/ja.rs"],
  [("the configuration is handed to the tokenizer", "src/lang/ja.rs Japanese::with_config"), ("parts of speech left out", "src/lang/ja.rs tokenize")],
  ["Japanese::with_config", "Language::tokenize"])
p("C31", "elasticlunr.js finds and ranks in an export what the texts say",
  "Read the way elasticlunr.js's search reads it (inverted index per field, docInfo lengths, number of documents, fields, pipeline names), the export gives for every query and every search option (or/and, boost, expansion) the documents whose texts contain the query's terms, with the scores computed from the texts: term frequency, inverse document frequency and field length of these texts.",
  ["inputs", "configurations", "histories"], "every history of additions, every query, every combination of search options",
  "no test searches an export",
  ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/config.rs"],
  [("postings and frequencies as the search walks them", "src/inverted_index.rs Serialize, TermFrequency"), ("field lengths and number of documents", "src/document_store.rs DocumentStore"), ("names and order of the pipeline the query runs through", "src/pipeline.rs Serialize"), ("options the search is given", "src/config.rs SearchConfig")],
  ["Index::to_json", "SearchOptions"])
p("C32", "Copies, parsed copies and comparisons of the stores are faithful",
  "A clone of a DocumentStore, and a DocumentStore or InvertedIndex parsed from its export by any reader of serde, exports the same text, answers every call alike and goes on alike under further additions and removals, without either one touching the other; two inverted indexes compare equal exactly if they export the same contents.",
  ["histories", "inputs"], "every history of operations, every point at which a copy is made",
  "no test clones a store, and the parsed ones are of one history each",
  ["src/document_store.rs", "src/inverted_index.rs"],
  [("Clone, Serialize and Deserialize of the store", "src/document_store.rs DocumentStore"), ("PartialEq, Serialize and Deserialize of the index", "src/inverted_index.rs IndexItem, InvertedIndex")],
  ["DocumentStore::clone", "serde_json::from_str", "PartialEq"])
p("C33", "Every way to serialize says the same, reports its failure and changes nothing",
  "An Index, DocumentStore, InvertedIndex or SearchOptions serialized through any serde serializer (compact, pretty or other formatter, to a string, bytes, value or writer, another format, as a part of other structures, flattened) says the same as to_json, with the lengths announced right; a serializer or writer that stops with an error or a panic at any point has its error reported and is given nothing wrong before; and exports, complete or broken off or made during another one, leave the index exactly as it was.",
  ["inputs", "histories", "crash_points"], "every history, every serializer, every point at which a serializer or writer fails",
  "the tests export to strings alone, and no writer fails",
  ["src/lib.rs", "src/inverted_index.rs", "src/document_store.rs", "src/pipeline.rs", "src/config.rs"],
  [("Serialize of the index and its language", "src/lib.rs Index, ser_lang"), ("Serialize of the trie with flattened children", "src/inverted_index.rs IndexItem::serialize"), ("length of the pipeline", "src/pipeline.rs Serialize for Pipeline"), ("strings of exports", "src/lib.rs to_json, to_json_pretty")],
  ["Serialize for Index", "Index::to_json", "Index::to_json_pretty"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
