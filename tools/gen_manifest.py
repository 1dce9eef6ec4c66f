#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": ("exhaustive enumeration of addition histories on the real code, against a model of the postings",
         "All histories within the bounds in DESIGN.md, plus size sweeps and every Unicode character. Trusts the harness's own JSON reader, tokenizer, trimmers, stop word lists and stemmer models (each bound to the code or to elasticlunr.js by C08 to C14)."),
 "C02": ("explicit-state search of the inverted index (breadth first, to closure) and all operation histories to a depth, on the real code against a map",
         "Complete for the given alphabets of documents, terms and frequencies."),
 "C03": ("explicit-state search of the document store (breadth first, to closure) and all operation histories to a depth, on the real code against two maps",
         "Complete for the given alphabets of references, contents and fields."),
 "C04": ("exhaustive enumeration of addition histories and size sweeps on the real code, against counting",
         "As C01. Square roots are compared within a relative error of 1e-12."),
 "C05": ("exhaustive enumeration of orders, subsets, contexts and interleavings of additions on the real code, against the code alone",
         "All orders and contexts within the bounds."),
 "C06": ("exhaustive enumeration of histories and characters; each export read by a strict parser, by serde and by node",
         "Every Unicode character in every role. Trusts the harness's JSON parser; node's JSON.parse for the layout as JavaScript sees it."),
 "C07": ("exhaustive enumeration of pipelines of abstract stages and token lists on the real code, against a fold with a call log",
         "Complete for up to the stated number of stages and tokens."),
 "C08": ("exhaustive enumeration of texts on the real code, against a splitter over a literal table",
         "Every Unicode character in five contexts, all strings over class representatives, size sweeps."),
 "C09": ("exhaustive enumeration of texts in all languages with crash, hang and memory supervision of the real code",
         "Every Unicode character in the contexts the stemmers look at, all strings over awkward alphabets, size sweeps."),
 "C10": ("exhaustive enumeration of words: the real stemmer against a model, the model against elasticlunr.js's own stemmer run by node",
         "All words of up to 5 (thorough 6) letters, stems with chains of suffixes, every Unicode character in the contexts of the rules."),
 "C11": ("exhaustive enumeration of tokens: the real pipeline against a model, the model against js/lunr.ar.js run by node",
         "All tokens over the Arabic alphabet and marks to a length, every Unicode character in contexts."),
 "C12": ("exhaustive enumeration of tokens on the real trimmers, against a scan over character sets",
         "Every Unicode character in every position of the contexts, in every language."),
 "C13": ("exhaustive enumeration of tokens around the stop words on the real filters, against reference lists",
         "Every stop word, its decorations and its complete neighbourhood at edit distance 1, all short words."),
 "C14": ("exhaustive enumeration of words on the real pipelines, against the composition of trimmer, list and algorithm called directly",
         "All short words and all short stems with endings in every language. Trusts rust-stemmers for Snowball."),
 "C15": ("exhaustive enumeration of codes and names on the real lookups, against a table",
         "All strings of up to 4 letters, all case variants and edits, every Unicode character at every place."),
 "C16": ("exhaustive enumeration of feature configurations: each is built and observed, against the build with all features",
         "No, each, each two, all but each one and all features (thorough: each three, all but each two)."),
 "C17": ("exhaustive enumeration of builder call sequences on the real code, against a record of settings",
         "All sequences of calls to the stated depth, over clashing names."),
 "C18": ("exhaustive enumeration of arrangements of fields, tokenizers and additions on the real code, with a log of every tokenizer call",
         "All arrangements to the stated numbers of fields and documents."),
 "C19": ("exhaustive enumeration of search options on the real code, against a reference encoder",
         "All combinations of values for up to the stated number of fields, every Unicode character in field names."),
 "C20": ("exhaustive enumeration of addition histories with saving on and off on the real code, against a map",
         "As C01, and every Unicode character as text."),
 "C21": ("exhaustive enumeration of sequences of tokens and texts on shared objects, against each one in a process of its own",
         "All sequences of three tokens and of three texts per language, long histories of thousands of words."),
 "C22": ("exhaustive enumeration of texts on the real tokenizers, against jieba and lindera called directly and a scan for coverage and order",
         "All texts of up to 5 (thorough 6) of 17 characters, phrases, every Unicode character. Trusts jieba and lindera."),
 "C23": ("exhaustive enumeration of histories with an export and load at every subset of points, against the history without",
         "All short histories in all languages, size sweeps, every Unicode character in texts."),
 "C24": ("exhaustive enumeration of addition histories with repeated references on the real code, against the last addition",
         "As C01, with longer histories of one and three references."),
 "C25": ("systematic exploration of schedules (preemption-bounded, controlled scheduler) and of nestings and panics at every point where user code runs, on the real code, against each index alone",
         "All schedules of two (three) threads with at most the stated number of preemptions. Threads are switched at calls of user code, not inside the library's own code."),
 "C26": ("exhaustive fault injection: a panic at every point (and every two points) at which user code runs in every short history of the real code, against the history without panics",
         "All histories of up to two (thorough three) additions over the alphabets, all languages."),
 "C27": ("exhaustive enumeration of word lists, classes and tokens on the real building blocks, against set membership and a scan over literal ranges",
         "All lists of up to three (thorough four) of fourteen words, twenty classes with every Unicode character, eighteen algorithms. Trusts rust-stemmers."),
 "C28": ("exhaustive enumeration of rewritings, cuts, omissions, replacements and byte changes of exports, on the real deserialization",
         "All orders of the top-level keys, every cut, every part, every byte; all texts of up to five (thorough six) pieces of JSON."),
 "C29": ("exhaustive enumeration of texts, ways to obtain a language and sequences of uses of copies, on the real code against a new instance",
         "Nine ways, all short strings, vocabularies, every Unicode character in every language. What a new instance gives is checked by C08 to C14 and C22."),
 "C30": ("exhaustive enumeration of settings and texts on the real segmentation, against lindera called directly with the same settings",
         "Six modes, with and without a user dictionary, all texts of up to 4 (thorough 5) of 17 characters. Trusts lindera."),
 "C31": ("exhaustive enumeration of addition histories, queries and search options on the real code; elasticlunr.js's search written out over the exported JSON, against scores computed from the texts",
         "All histories, queries and options within the bounds. The search of elasticlunr.js 0.9.5 is written from its description, as no copy of it is installed; characters beyond U+FFFF are left out (finding C06 astral-key)."),
 "C32": ("exhaustive enumeration of operation histories and copying points on the real stores, against the original and a replay of its history",
         "All histories to the stated depth with a copy at every point, all pairs of short histories compared. Terms of up to 50 characters, for serde_json's limit on nesting."),
 "C33": ("exhaustive fault injection: an error and a panic at every call of a serializer and every byte of a writer, and all serializers and structures for all short histories, on the real code",
         "Every point of the exports of all histories of one (thorough two) additions; every Unicode character as text. Serializers: serde_json's and one of the harness that checks announced lengths."),
}
here = os.path.dirname(os.path.abspath(__file__))
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [
    {"property": k, "quick_cmd": f"./run.sh {k}", "thorough_cmd": f"./run.sh {k}", "evidence_file": f"evidence/{k}.json",
     "technique": "model checking: " + t, "level": "model_checking", "level_note": n} for k, (t, n) in T.items()],
    "not_applicable": [],
    "notes": "run.sh reads VERIF_TIER (quick or thorough). No hooks in /repo are needed."}
open(os.path.join(here, "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
