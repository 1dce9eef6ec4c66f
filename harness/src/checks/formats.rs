//! C33: exports through every serializer, into structures, and into writers that fail, panic or export again.

use crate::data;
use crate::engine::{guarded, hash, Check, Cx};
use crate::hist::{self, Hist};
use crate::json::{self, J};
use crate::langs::LANGS;
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::pipeline::{FnWrapper, PipelineFn};
use elasticlunr::{Index, Pipeline};
use serde::ser::{self, Serialize};
use serde_json::{json, Value};
use std::cell::Cell;
use std::fmt;
use std::io::{self, Write};

// ------------------------------------------------------------------- a format of its own, checking the calls

#[derive(Debug)]
struct Bad(String);
impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: fmt::Display>(t: T) -> Self {
        Bad(t.to_string())
    }
}

const STOP: &str = "the serializer stops here";

/// Records what it is given. Fails or panics at the call with number `at`.
struct Rec {
    human: bool,
    at: Option<usize>,
    panics: bool,
    calls: Cell<usize>,
}
impl Rec {
    fn new(human: bool) -> Rec {
        Rec { human, at: None, panics: false, calls: Cell::new(0) }
    }
    fn tick(&self) -> Result<(), Bad> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.at == Some(n) {
            if self.panics {
                panic!("{}", STOP);
            }
            return Err(Bad(STOP.into()));
        }
        Ok(())
    }
}
struct Parts<'a> {
    r: &'a Rec,
    said: Option<usize>,
    arr: Vec<J>,
    obj: Vec<(String, J)>,
    key: Option<String>,
}
impl<'a> Parts<'a> {
    fn new(r: &'a Rec, said: Option<usize>) -> Result<Self, Bad> {
        r.tick()?;
        Ok(Parts { r, said, arr: vec![], obj: vec![], key: None })
    }
    fn done(self, list: bool) -> Result<J, Bad> {
        self.r.tick()?;
        let n = self.arr.len() + self.obj.len();
        if self.said.is_some_and(|s| s != n) {
            return Err(Bad(format!("{} elements are announced, {} follow", self.said.unwrap(), n)));
        }
        if self.key.is_some() {
            return Err(Bad("a key without value".into()));
        }
        for (i, e) in self.obj.iter().enumerate() {
            if i < 200 && self.obj[..i].iter().any(|f| f.0 == e.0) {
                return Err(Bad(format!("the key {:?} twice", e.0)));
            }
        }
        Ok(if list { J::Arr(self.arr) } else { J::Obj(self.obj) })
    }
    fn put<T: Serialize + ?Sized>(&mut self, k: &str, t: &T) -> Result<(), Bad> {
        let v = t.serialize(self.r)?;
        self.obj.push((k.into(), v));
        Ok(())
    }
    fn push<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Bad> {
        let v = t.serialize(self.r)?;
        self.arr.push(v);
        Ok(())
    }
}
fn num(f: f64) -> J {
    J::Num(f, f.to_string())
}
macro_rules! numbers { ($($m:ident $t:ty),*) => { $( fn $m(self, v: $t) -> Result<J, Bad> { self.tick()?; Ok(num(v as f64)) } )* } }
impl<'a> ser::Serializer for &'a Rec {
    type Ok = J;
    type Error = Bad;
    type SerializeSeq = Parts<'a>;
    type SerializeTuple = Parts<'a>;
    type SerializeTupleStruct = Parts<'a>;
    type SerializeTupleVariant = Parts<'a>;
    type SerializeMap = Parts<'a>;
    type SerializeStruct = Parts<'a>;
    type SerializeStructVariant = Parts<'a>;
    numbers!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_bool(self, v: bool) -> Result<J, Bad> {
        self.tick()?;
        Ok(J::Bool(v))
    }
    fn serialize_char(self, v: char) -> Result<J, Bad> {
        self.serialize_str(&v.to_string())
    }
    fn serialize_str(self, v: &str) -> Result<J, Bad> {
        self.tick()?;
        Ok(J::Str(v.into()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<J, Bad> {
        Err(Bad("bytes".into()))
    }
    fn serialize_none(self) -> Result<J, Bad> {
        self.serialize_unit()
    }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<J, Bad> {
        t.serialize(self)
    }
    fn serialize_unit(self) -> Result<J, Bad> {
        self.tick()?;
        Ok(J::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<J, Bad> {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<J, Bad> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<J, Bad> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, v: &'static str, t: &T) -> Result<J, Bad> {
        Ok(J::Obj(vec![(v.into(), t.serialize(self)?)]))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Parts<'a>, Bad> {
        Parts::new(self, n)
    }
    fn serialize_tuple(self, n: usize) -> Result<Parts<'a>, Bad> {
        Parts::new(self, Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Parts<'a>, Bad> {
        Parts::new(self, Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Parts<'a>, Bad> {
        Parts::new(self, Some(n))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Parts<'a>, Bad> {
        Parts::new(self, n)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Parts<'a>, Bad> {
        Parts::new(self, Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Parts<'a>, Bad> {
        Parts::new(self, Some(n))
    }
}
macro_rules! lists { ($($t:ident $m:ident),*) => { $( impl ser::$t for Parts<'_> {
    type Ok = J;
    type Error = Bad;
    fn $m<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Bad> { self.push(t) }
    fn end(self) -> Result<J, Bad> { self.done(true) }
} )* } }
lists!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! records { ($($t:ident),*) => { $( impl ser::$t for Parts<'_> {
    type Ok = J;
    type Error = Bad;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<(), Bad> { self.put(k, t) }
    fn end(self) -> Result<J, Bad> { self.done(false) }
} )* } }
records!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Parts<'_> {
    type Ok = J;
    type Error = Bad;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Bad> {
        match t.serialize(self.r)? {
            J::Str(s) if self.key.is_none() => self.key = Some(s),
            k => return Err(Bad(format!("{:?} is given as a key after {:?}", k, self.key))),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Bad> {
        let k = self.key.take().ok_or_else(|| Bad("a value without key".into()))?;
        self.put(&k, t)
    }
    fn end(self) -> Result<J, Bad> {
        self.done(false)
    }
}

// ----------------------------------------------------------------------------------------------- writers

/// Takes `left` bytes, `step` at a time, and then fails or panics.
struct Out<'a> {
    got: Vec<u8>,
    left: usize,
    step: usize,
    panics: bool,
    /// Called at every write.
    nested: &'a dyn Fn(),
}
impl Write for Out<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        (self.nested)();
        let n = b.len().min(self.left).min(self.step);
        if n == 0 && !b.is_empty() {
            if self.panics {
                panic!("{}", STOP);
            }
            return Err(io::Error::other(STOP));
        }
        self.got.extend(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Is interrupted every other time.
struct Slow(Vec<u8>, bool);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 = !self.1;
        if self.1 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(1);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// --------------------------------------------------------------------------------------------------- C33

pub struct C33;

#[derive(serde::Serialize)]
struct Field<'a, T> {
    before: u8,
    index: &'a T,
    after: Vec<Option<&'a T>>,
}
#[derive(serde::Serialize)]
struct Flat<'a, T> {
    before: u8,
    #[serde(flatten)]
    index: &'a T,
    zzz: &'static str,
}
#[derive(serde::Serialize)]
enum Tagged<'a, T> {
    New(&'a T),
    Pair(&'a T, Box<&'a T>),
}

fn same(what: &str, got: &J, want: &J) -> Result<(), String> {
    if !got.same(want) {
        return Err(format!("{} gives {} instead of {}", what, short(&got.text()), short(&want.text())));
    }
    Ok(())
}
fn short(s: &str) -> String {
    s.chars().take(400).collect()
}

impl C33 {
    /// All serializers, without faults.
    fn formats<T: Serialize>(&self, cx: &Cx, t: &T, flat: bool, compact: &str) -> Result<J, String> {
        let want = json::parse(compact)?;
        let text = |what: &str, r: Result<String, String>| -> Result<(), String> {
            let s = r.map_err(|e| format!("{} fails: {}", what, e))?;
            same(what, &json::parse(&s)?, &want)
        };
        let exact = |what: &str, r: Result<String, String>| -> Result<(), String> {
            let s = r.map_err(|e| format!("{} fails: {}", what, e))?;
            if s != compact {
                return Err(format!("{} gives {} instead of {}", what, short(&s), short(compact)));
            }
            Ok(())
        };
        let e = |e: serde_json::Error| e.to_string();
        let utf = |b: Vec<u8>| String::from_utf8(b).map_err(|e| e.to_string());
        exact("to_string", serde_json::to_string(t).map_err(e))?;
        exact("to_vec", serde_json::to_vec(t).map_err(e).and_then(utf))?;
        let mut w = vec![];
        exact("to_writer", serde_json::to_writer(&mut w, t).map_err(e).and_then(|_| utf(w)))?;
        let mut w = Slow(vec![], false);
        exact("a writer that is interrupted", serde_json::to_writer(&mut w, t).map_err(e).and_then(|_| utf(w.0)))?;
        text("to_string_pretty", serde_json::to_string_pretty(t).map_err(e))?;
        text("to_vec_pretty", serde_json::to_vec_pretty(t).map_err(e).and_then(utf))?;
        let mut w = vec![];
        let mut s = serde_json::Serializer::with_formatter(&mut w, serde_json::ser::PrettyFormatter::with_indent(b"\t"));
        let r = t.serialize(&mut s);
        text("another formatter", r.map_err(e).and_then(|_| utf(w)))?;
        let v = serde_json::to_value(t).map_err(|e| format!("to_value fails: {}", e))?;
        text("to_value", Ok(v.to_string()))?;
        for human in [true, false] {
            let j = t.serialize(&Rec::new(human)).map_err(|e| format!("another format: {}", e))?;
            same("another format", &j, &want)?;
        }
        // Inside of other structures.
        let f = Field { before: 1, index: t, after: vec![Some(t), None, Some(t)] };
        let s = serde_json::to_string(&f).map_err(e)?;
        exact("being a part", Ok(s.clone()).and_then(|s: String| {
            let want = format!("{{\"before\":1,\"index\":{0},\"after\":[{0},null,{0}]}}", compact);
            if s == want { Ok(compact.to_string()) } else { Ok(s) }
        }))?;
        same("being a part in another format", &f.serialize(&Rec::new(true)).map_err(|e| e.0)?, &json::parse(&s)?)?;
        for t in [Tagged::New(t), Tagged::Pair(t, Box::new(t))] {
            let s = serde_json::to_string(&t).map_err(e)?;
            let want = match t {
                Tagged::New(_) => format!("{{\"New\":{}}}", compact),
                _ => format!("{{\"Pair\":[{0},{0}]}}", compact),
            };
            if s != want {
                return Err(format!("inside of an enum it is {} instead of {}", short(&s), short(&want)));
            }
        }
        if flat {
            let f = Flat { before: 1, index: t, zzz: "z" };
            let mut parts = vec![("before".to_string(), num(1.0))];
            parts.extend(want.obj()?.iter().cloned());
            parts.push(("zzz".into(), J::Str("z".into())));
            let s = serde_json::to_string(&f).map_err(|e| format!("flattening fails: {}", e))?;
            same("flattening", &json::parse(&s)?, &J::Obj(parts.clone()))?;
            same("flattening in another format", &f.serialize(&Rec::new(true)).map_err(|e| e.0)?, &J::Obj(parts))?;
        }
        cx.count("transitions", 16);
        cx.outcome(&hash(&compact));
        Ok(want)
    }

    /// A fault at every call of a serializer and at every byte of a writer.
    fn faults<T: Serialize>(&self, cx: &Cx, t: &T, compact: &str, export: &dyn Fn() -> String) -> Result<(), String> {
        let whole = Rec::new(true);
        t.serialize(&whole).map_err(|e| e.0)?;
        let calls = whole.calls.get();
        let mut n = 0;
        for at in 0..calls {
            for panics in [false, true] {
                let r = Rec { human: true, at: Some(at), panics, calls: Cell::new(0) };
                let got = guarded(|| t.serialize(&r).map_err(|e| e.0));
                n += 1;
                match (panics, got) {
                    (false, Ok(Err(e))) if e.contains(STOP) => (),
                    (true, Err(e)) if e.contains(STOP) => (),
                    (_, got) => return Err(format!("a serializer that {} at call {} of {}: the result is {:?}", if panics { "panics" } else { "fails" }, at, calls, got.map(|r| r.map(|j| short(&j.text()))))),
                }
                if export() != compact {
                    return Err(format!("after a serializer stopped at call {} the export is {}", at, short(&export())));
                }
            }
        }
        for left in 0..compact.len() {
            for panics in [false, true] {
                let mut w = Out { got: vec![], left, step: usize::MAX, panics, nested: &|| () };
                let got = guarded(|| serde_json::to_writer(&mut w, t).map_err(|e| e.to_string()));
                n += 1;
                match (panics, got) {
                    (false, Ok(Err(e))) if e.contains(STOP) => (),
                    (true, Err(e)) if e.contains(STOP) => (),
                    (_, got) => return Err(format!("a writer that {} after {} bytes: the result is {:?}", if panics { "panics" } else { "fails" }, left, got)),
                }
                if w.got != compact.as_bytes()[..left] {
                    return Err(format!("a writer that takes {} bytes gets {}", left, short(&String::from_utf8_lossy(&w.got))));
                }
            }
        }
        if export() != compact {
            return Err(format!("after failing writers the export is {}", short(&export())));
        }
        // A writer that exports the same thing at every write.
        let bad = Cell::new(false);
        let again = || {
            if !bad.get() && export() != compact {
                bad.set(true);
            }
        };
        for step in [usize::MAX, 7] {
            let mut w = Out { got: vec![], left: usize::MAX, step, panics: false, nested: &again };
            serde_json::to_writer(&mut w, t).map_err(|e| format!("a writer that exports too: {}", e))?;
            if bad.get() || w.got != compact.as_bytes() {
                return Err("an export inside of an export differs from it".into());
            }
        }
        cx.count("transitions", n);
        cx.count("faults", n);
        Ok(())
    }

    fn history(&self, cx: &Cx, h: &Hist, faults: bool) -> Result<(), String> {
        let mut ix = h.run();
        let compact = ix.to_json();
        let want = self.formats(cx, &ix, true, &compact)?;
        same("to_json_pretty", &json::parse(&ix.to_json_pretty())?, &want)?;
        if faults {
            self.faults(cx, &ix, &compact, &|| ix.to_json())?;
            self.faults(cx, &ix, &compact, &|| {
                let _ = ix.to_json_pretty();
                serde_json::to_string(&ix).unwrap_or_default()
            })?;
        }
        if ix.to_json() != compact {
            return Err("exporting changed the index".into());
        }
        // It goes on as one that was never exported.
        let last = h.ops.last().cloned().unwrap_or_else(|| ("1".into(), vec!["cat".into(); h.fields.len()]));
        let mut other: Index = h.run();
        for x in [&mut ix, &mut other] {
            x.add_doc(&last.0, &last.1);
            x.add_doc("new", last.1.iter().rev());
        }
        if ix.to_json() != other.to_json() {
            return Err(format!("after exports it goes on to {} instead of {}", short(&ix.to_json()), short(&other.to_json())));
        }
        Ok(())
    }
}

fn options(v: &Value) -> SearchOptions {
    let b = |v: &Value| if v == "AND" { SearchBool::And } else { SearchBool::Or };
    let mut o = SearchOptions { bool: b(&v[0]), expand: v[1] == true, ..Default::default() };
    for (i, f) in v[2].as_array().unwrap().iter().enumerate() {
        let c = SearchOptionsField { boost: f[0].as_u64().map(|n| n as u8), bool: f[1].as_str().map(|_| b(&f[1])), expand: f[2].as_bool() };
        o.fields.insert(format!("f{}", i), c);
    }
    o
}

impl Check for C33 {
    fn explore(&self, cx: &Cx) {
        let run = |fam: &'static str| move |_: &str, p: &str| {
            cx.run(self, fam, p);
        };
        // Faults at every point of the exports of short histories.
        let f = run("faults");
        hist::alphabet(cx, "F1", "en", &["t", "b"], "id", &["", "cat", "ca dog"], &["1", "2"], 2, cx.tier(1, 2), &f);
        hist::alphabet(cx, "F2", "verbatim", &["b"], "id", &["", "a", "ab é", "docs \"df\""], &["1", "é"], 1, 2, &f);
        hist::alphabet(cx, "F3", "en", &["id", "b"], "id", &["", "cat dogs"], &["1", "\"\\\n"], 2, cx.tier(1, 2), &f);
        for l in LANGS {
            hist::alphabet(cx, "FL", l.code, &["b"], "id", data::texts(l.code), &["1"], 1, 1, &f);
        }
        for save in [true, false] {
            let p = hist::payload("en", &["t"], "id", save, &[("1", vec!["cat dog"])]);
            f("", &p);
        }
        // All formats, for more histories.
        let g = run("formats");
        hist::alphabet(cx, "H1", "en", &["t", "b"], "id", &["", "cat", "cat cat dog", "the ca"], &["1", "2", "10"], 2, 2, &g);
        hist::alphabet(cx, "H2", "verbatim", &["b"], "id", &["", "a", "ab", "abc", "docs df", "é éa", "tf \u{0} \"q\""], &["1", "2"], 1, cx.tier(3, 4), &g);
        for l in LANGS {
            hist::alphabet(cx, "HL", l.code, &["b"], "id", data::texts(l.code), &["1", "2"], 1, if l.ws { 2 } else { cx.tier(1, 2) }, &g);
        }
        let mut p = vec![];
        for n in (0..cx.tier(70, 300)).chain([100, 127, 128, 129, 255, 256, 257, 1000, 4097]) {
            for k in ["count", "docs", "terms", "lens", "wide", "odd"] {
                p.push(Hist::gen_payload(k, n));
            }
            if n < 60 {
                p.push(Hist::gen_payload("fields", n));
            }
        }
        for (k, n) in [("docs", 10001), ("terms", 20001), ("crowd", 300), ("docs", 65537)] {
            p.push(Hist::gen_payload(k, n));
        }
        cx.par(p.len(), |i| g("", &p[p.len() - 1 - i]));
        crate::engine::par_scalars(cx, |c| {
            g("", &Hist::gen_payload("char-text", c as usize));
        });
        // Thousands of exports of one index, whole or broken off.
        for (gen, n) in [("long", 400), ("long", 90), ("terms", 300), ("docs", 100), ("fields", 50)] {
            for end in ["whole", "fails", "panics"] {
                cx.run(self, "often", &json!({"gen": gen, "n": n, "end": end, "times": cx.tier(3000, 20000)}).to_string());
            }
        }
        // Pipelines of all names.
        let names = ["", "x", "é \"", "stemmer", " "];
        let mut q = vec![];
        for i in 0..crate::engine::seq_total(names.len(), cx.tier(4, 5)) {
            let mut v = vec![];
            crate::engine::seq_at(names.len(), i, &mut v);
            q.push(json!(v.iter().map(|&k| names[k]).collect::<Vec<_>>()).to_string());
        }
        cx.par(q.len(), |i| {
            cx.run(self, "pipeline", &q[i]);
        });
        // The stores alone, the search options.
        for n in 0..6 {
            for save in [true, false] {
                cx.run(self, "store", &json!([n, save]).to_string());
            }
            cx.run(self, "index", &json!([n]).to_string());
        }
        let mut per = vec![];
        for boost in [Value::Null, json!(0), json!(1), json!(255)] {
            for b in [Value::Null, json!("OR"), json!("AND")] {
                for e in [Value::Null, json!(true), json!(false)] {
                    per.push(json!([boost, b, e]));
                }
            }
        }
        cx.par(per.len(), |i| {
            for b in ["OR", "AND"] {
                for e in [true, false] {
                    cx.run(self, "options", &json!([b, e, []]).to_string());
                    for k in std::iter::once(vec![per[i].clone()]).chain(per.iter().map(|q| vec![per[i].clone(), q.clone()])) {
                        cx.run(self, "options", &json!([b, e, k]).to_string());
                    }
                }
            }
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        cx.count("traces", 1);
        cx.sample(|| format!("{} {}", fam, short(p)));
        match fam {
            "faults" | "formats" => return self.history(cx, &Hist::parse(p)?, fam == "faults"),
            _ => (),
        }
        let v: Value = serde_json::from_str(p).map_err(|e| format!("harness: {}", e))?;
        match fam {
            "pipeline" => {
                let names: Vec<String> = v.as_array().unwrap().iter().map(|n| n.as_str().unwrap().to_string()).collect();
                let stage = |n: &String| Box::new(FnWrapper(n.clone(), Some)) as Box<dyn PipelineFn>;
                let q = Pipeline { queue: names.iter().map(stage).collect() };
                let s = serde_json::to_string(&q).map_err(|e| e.to_string())?;
                if json::parse(&s)?.text() != json::parse(&v.to_string())?.text() {
                    return Err(format!("a pipeline of {} is exported as {}", v, s));
                }
                self.formats(cx, &q, false, &s)?;
                self.faults(cx, &q, &s, &|| serde_json::to_string(&q).unwrap_or_default())
            }
            "often" => {
                let h = Hist::parse(&Hist::gen_payload(v["gen"].as_str().unwrap(), v["n"].as_u64().unwrap() as usize))?;
                let ix = h.run();
                let compact = ix.to_json();
                // The deepest place is where the most brackets are open.
                let (mut open, mut deep, mut at) = (0, 0, 0);
                for (i, b) in compact.bytes().enumerate() {
                    match b {
                        b'{' => open += 1,
                        b'}' => open -= 1,
                        _ => (),
                    }
                    if open > deep {
                        (deep, at) = (open, i);
                    }
                }
                for i in 0..v["times"].as_u64().unwrap() {
                    let bad = match v["end"].as_str().unwrap() {
                        "whole" => serde_json::to_writer(io::sink(), &ix).is_err(),
                        e => {
                            let mut w = Out { got: vec![], left: at, step: usize::MAX, panics: e == "panics", nested: &|| () };
                            matches!(guarded(|| serde_json::to_writer(&mut w, &ix).is_ok()), Ok(true))
                        }
                    };
                    if bad || i % 500 == 0 && ix.to_json() != compact {
                        return Err(format!("export number {} goes wrong", i));
                    }
                }
                cx.count("transitions", v["times"].as_u64().unwrap());
                match guarded(|| (ix.to_json(), h.run().to_json())) {
                    Ok((a, b)) if a == compact && b == compact => Ok(()),
                    r => Err(format!("after that many exports there is {}", short(&format!("{:?}", r)))),
                }
            }
            "options" => {
                let o = options(&v);
                let s = serde_json::to_string(&o).map_err(|e| e.to_string())?;
                self.formats(cx, &o, true, &s)?;
                self.faults(cx, &o, &s, &|| serde_json::to_string(&o).unwrap_or_default())
            }
            "store" => {
                let mut st = DocumentStore::new(v[1] == true);
                for i in 0..v[0].as_u64().unwrap() {
                    st.add_doc(&i.to_string(), [("t".to_string(), "cat \"é\"".to_string())].into());
                    st.add_field_length(&i.to_string(), "t", i as usize);
                }
                let s = serde_json::to_string(&st).map_err(|e| e.to_string())?;
                self.formats(cx, &st, true, &s)?;
                self.faults(cx, &st, &s, &|| serde_json::to_string(&st).unwrap_or_default())
            }
            _ => {
                let mut ix = InvertedIndex::new();
                for i in 0..v[0].as_u64().unwrap() {
                    ix.add_token(&i.to_string(), &hist::word(i as usize), 1.5);
                    ix.add_token("x", "é\"", i as f64);
                    ix.remove_token("x", "é\"");
                }
                let s = serde_json::to_string(&ix).map_err(|e| e.to_string())?;
                self.formats(cx, &ix, true, &s)?;
                self.faults(cx, &ix, &s, &|| serde_json::to_string(&ix).unwrap_or_default())
            }
        }
    }
    fn rule(&self) -> &'static str {
        "all short histories, each exported through every serializer and into every structure, with an error and with a panic at every call and at every byte, and with exports inside of the export; sweeps of sizes; every Unicode character; a state is an export"
    }
}
