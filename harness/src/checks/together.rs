//! C25, C26: the code of the user that runs inside an operation (tokenizers, stages, names, the texts'
//! iterator). At each such point another thread may go on, another index may be used, or a panic may happen.

use crate::data;
use crate::engine::{guarded, hash, Check, Cx};
use crate::hist::Export;
use crate::langs::{self, LANGS};
use elasticlunr::pipeline::PipelineFn;
use elasticlunr::{Index, IndexBuilder, Language, Pipeline};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::{Rc, Weak};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

/// Called at every point where the library calls code of the user.
type Hook = Rc<dyn Fn()>;

fn quiet() -> Hook {
    Rc::new(|| ())
}

struct Wrapped {
    inner: Box<dyn Language>,
    hook: Hook,
    /// 0, or a way in which it is another language, although of the same name.
    own: u64,
}
impl Language for Wrapped {
    fn name(&self) -> String {
        (self.hook)();
        self.inner.name()
    }
    fn code(&self) -> String {
        (self.hook)();
        self.inner.code()
    }
    fn tokenize(&self, text: &str) -> Vec<String> {
        (self.hook)();
        let v = match self.own {
            1 => vec![text.to_string()],
            2 => text.chars().map(String::from).collect(),
            _ => self.inner.tokenize(text),
        };
        (self.hook)();
        v
    }
    fn make_pipeline(&self) -> Pipeline {
        Pipeline {
            queue: self
                .inner
                .make_pipeline()
                .queue
                .into_iter()
                .map(|inner| Box::new(Stage { inner, hook: self.hook.clone(), own: self.own }) as Box<dyn PipelineFn>)
                .collect(),
        }
    }
}
struct Stage {
    inner: Box<dyn PipelineFn>,
    hook: Hook,
    own: u64,
}
impl PipelineFn for Stage {
    fn name(&self) -> String {
        (self.hook)();
        self.inner.name()
    }
    fn filter(&self, token: String) -> Option<String> {
        (self.hook)();
        match self.own {
            0 => self.inner.filter(token),
            1 => Some(token),
            _ => (token.len() % 4 != 1).then(|| token.chars().rev().collect()),
        }
    }
}

struct Texts<'a> {
    texts: std::slice::Iter<'a, String>,
    hook: Hook,
}
struct Text<'a>(&'a str, Hook);
impl<'a> Iterator for Texts<'a> {
    type Item = Text<'a>;
    fn next(&mut self) -> Option<Text<'a>> {
        (self.hook)();
        self.texts.next().map(|t| Text(t, self.hook.clone()))
    }
}
impl AsRef<str> for Text<'_> {
    fn as_ref(&self) -> &str {
        (self.1)();
        self.0
    }
}

#[derive(Clone, Debug, Hash)]
enum Op {
    Add(String, Vec<String>),
    /// Both forms of the export become output.
    Export,
    /// The index is replaced by what its export loads to.
    Load,
}

/// What one user does with one index.
#[derive(Clone, Debug, Hash)]
struct Prog {
    lang: String,
    fields: Vec<String>,
    tok: Vec<usize>,
    reff: String,
    save: bool,
    own: u64,
    ops: Vec<Op>,
}

impl Prog {
    fn parse(v: &Value) -> Prog {
        let strs = |v: &Value| -> Vec<String> { v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect() };
        Prog {
            lang: v["lang"].as_str().unwrap().into(),
            fields: strs(&v["f"]),
            tok: v["tok"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
            reff: v["r"].as_str().unwrap().into(),
            save: v["s"].as_bool().unwrap(),
            own: v["own"].as_u64().unwrap_or(0),
            ops: v["ops"]
                .as_array()
                .unwrap()
                .iter()
                .map(|o| match o.as_str() {
                    Some("E") => Op::Export,
                    Some(_) => Op::Load,
                    None => Op::Add(o[0].as_str().unwrap().into(), strs(&o[1])),
                })
                .collect(),
        }
    }

    fn build(&self, hook: &Hook) -> Index {
        let inner: Box<dyn Language> = (langs::by_code(&self.lang).make)();
        let mut b = IndexBuilder::with_language(Box::new(Wrapped { inner, hook: hook.clone(), own: self.own })).save_docs(self.save).set_ref(&self.reff);
        for (i, f) in self.fields.iter().enumerate() {
            if self.tok.contains(&i) {
                let (hook, own) = (hook.clone(), self.own);
                b = b.add_field_with_tokenizer(
                    f,
                    Box::new(move |t| {
                        hook();
                        let v = match own {
                            0 => t.split(' ').filter(|w| !w.is_empty()).map(|w| w.to_lowercase()).collect(),
                            _ => t.split(' ').map(|w| format!("{}{}", own, w)).collect(),
                        };
                        hook();
                        v
                    }),
                );
            } else {
                b = b.add_field(f);
            }
        }
        b.build()
    }

    /// What is left after a step is one index; what it exported is added to `out`.
    fn step(&self, ix: &mut Index, op: &Op, hook: &Hook, out: &mut Vec<String>) {
        match op {
            Op::Add(r, d) => ix.add_doc(r, Texts { texts: d.iter(), hook: hook.clone() }),
            Op::Export => {
                let (a, b) = (ix.to_json(), ix.to_json_pretty());
                out.push(a);
                out.push(b);
            }
            Op::Load => {
                let l: Index = serde_json::from_str(&ix.to_json()).expect("an export is loaded");
                *ix = l;
            }
        }
    }

    fn run(&self, hook: &Hook) -> Vec<String> {
        let mut out = vec![];
        let mut ix = self.build(hook);
        for op in &self.ops {
            self.step(&mut ix, op, hook, &mut out);
        }
        out
    }

    /// What the program exports when nothing else is done in the same thread; worked out once.
    fn alone(&self) -> std::sync::Arc<Vec<String>> {
        use std::collections::HashMap;
        use std::sync::Arc;
        static KNOWN: Mutex<Option<HashMap<u64, Arc<Vec<String>>>>> = Mutex::new(None);
        let h = hash(self);
        if let Some(v) = KNOWN.lock().unwrap().get_or_insert_with(HashMap::new).get(&h) {
            return v.clone();
        }
        let p = self.clone();
        let v = std::thread::scope(|s| s.spawn(move || guarded(|| p.run(&quiet()))).join());
        let v = Arc::new(match v {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => panic!("{}", e),
            Err(_) => panic!("thread died"),
        });
        KNOWN.lock().unwrap().get_or_insert_with(HashMap::new).insert(h, v.clone());
        v
    }

    /// The number of points at which code of the user runs.
    fn points(&self) -> usize {
        let n = Rc::new(Cell::new(0));
        let m = n.clone();
        self.run(&(Rc::new(move || m.set(m.get() + 1)) as Hook));
        n.get()
    }
}

fn prog(lang: &str, f: &[&str], tok: &[usize], save: bool, ops: Value) -> Value {
    json!({"lang": lang, "f": f, "tok": tok, "r": "id", "s": save, "ops": ops})
}

/// Two uses of a language, with the same names for different things.
fn uses(l: &langs::Lang) -> [Value; 3] {
    let t = data::texts(l.code);
    let k = t.len();
    [
        prog(l.code, &["t"], &[], true, json!([["1", [t[k - 1]]], "E"])),
        prog(l.code, &["t", "b"], &[1], true, json!([["1", [t[k - 2], t[k - 1]]], "E"])),
        prog(l.code, &["t"], &[0], false, json!([["2", [t[k - 1]]], "L", ["1", [t[k - 2]]], "E"])),
    ]
}

/// The same use with another language, and other tokenizers, of the same names.
fn unlike(v: &Value, own: u64) -> Value {
    let mut v = v.clone();
    v["own"] = json!(own);
    v
}

// ----------------------------------------------------------------------------------------- scheduling

struct St {
    cur: usize,
    done: Vec<bool>,
    plan: Vec<usize>,
    /// (who chose, whom, who could have been chosen)
    trace: Vec<(usize, usize, Vec<usize>)>,
    ticks: u64,
    /// A thread waits for something another one holds: the rest runs freely.
    free: bool,
}
struct Sched {
    st: Mutex<St>,
    cv: Condvar,
}
const NOBODY: usize = usize::MAX;
/// Schedules that could not be followed.
static BLOCKED: AtomicU32 = AtomicU32::new(0);

impl Sched {
    fn new(n: usize, plan: &[usize]) -> Sched {
        let s = Sched {
            st: Mutex::new(St { cur: NOBODY, done: vec![false; n], plan: plan.to_vec(), trace: vec![], ticks: 0, free: false }),
            cv: Condvar::new(),
        };
        Sched::choose(&mut s.st.lock().unwrap(), NOBODY);
        s
    }
    fn choose(s: &mut St, from: usize) {
        let on: Vec<usize> = (0..s.done.len()).filter(|&i| !s.done[i]).collect();
        s.ticks += 1;
        if on.is_empty() {
            return;
        }
        if on.len() == 1 {
            s.cur = on[0];
            return;
        }
        let default = if on.contains(&from) { from } else { on[0] };
        let c = s.plan.get(s.trace.len()).copied().filter(|c| on.contains(c)).unwrap_or(default);
        s.trace.push((from, c, on));
        s.cur = c;
    }
    fn wait(&self, mut s: std::sync::MutexGuard<St>, i: usize) {
        self.cv.notify_all();
        while s.cur != i && !s.free {
            let t = s.ticks;
            // The code under test may hold locks while user code runs; then nearly every schedule ends here.
            let limit = match BLOCKED.load(Ordering::Relaxed) {
                0..=2 => 10_000,
                3..=20 => 1000,
                _ => 50,
            };
            let (g, o) = self.cv.wait_timeout(s, Duration::from_millis(limit)).unwrap();
            s = g;
            if o.timed_out() && s.ticks == t && !s.free {
                BLOCKED.fetch_add(1, Ordering::Relaxed);
                s.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn start(&self, i: usize) {
        self.wait(self.st.lock().unwrap(), i)
    }
    fn at(&self, i: usize) {
        let mut s = self.st.lock().unwrap();
        if s.free {
            return;
        }
        Sched::choose(&mut s, i);
        if s.cur != i {
            self.wait(s, i);
        }
    }
    fn finish(&self, i: usize) {
        let mut s = self.st.lock().unwrap();
        s.done[i] = true;
        if !s.free {
            Sched::choose(&mut s, i);
        }
        self.cv.notify_all();
    }
}

/// Runs each program in a thread of its own, one at a time, in the order of the plan.
fn scheduled(ps: &[Prog], plan: &[usize]) -> Result<(Vec<Vec<String>>, Vec<(usize, usize, Vec<usize>)>), String> {
    let s = Sched::new(ps.len(), plan);
    let r: Vec<Result<Vec<String>, String>> = std::thread::scope(|sc| {
        let h: Vec<_> = ps
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let s: &'static Sched = unsafe { std::mem::transmute::<&Sched, &'static Sched>(&s) };
                sc.spawn(move || {
                    s.start(i);
                    let r = guarded(|| p.run(&(Rc::new(move || s.at(i)) as Hook)));
                    s.finish(i);
                    r
                })
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let out = r.into_iter().collect::<Result<Vec<_>, _>>().map_err(|e| format!("panic: {}", e))?;
    let t = std::mem::take(&mut s.st.lock().unwrap().trace);
    Ok((out, t))
}

// ----------------------------------------------------------------------------------------------- C25

pub struct C25;

fn programs(v: &Value) -> Vec<Prog> {
    v.as_array().unwrap().iter().map(Prog::parse).collect()
}
fn numbers(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
fn differ(what: &str, who: usize, got: &[String], want: &[String]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)).unwrap();
    let c = |s: Option<&String>| s.map_or("nothing".to_string(), |s| s.chars().take(600).collect());
    Err(format!("{}: index {} exports\n{}\nand alone\n{}", what, who, c(got.get(i)), c(want.get(i))))
}

impl C25 {
    /// All schedules with at most `bound` preemptions.
    fn schedules(&self, cx: &Cx, v: &Value, bound: usize) {
        let ps = programs(v);
        let alone: Vec<_> = ps.iter().map(|p| p.alone()).collect();
        let mut stack: Vec<Vec<usize>> = vec![vec![]];
        while let Some(plan) = stack.pop() {
            let mut trace = vec![];
            let p = json!({"p": v, "plan": plan}).to_string();
            let ok = cx.case("sched", &p, || {
                let (out, t) = scheduled(&ps, &plan)?;
                cx.count("traces", 1);
                cx.count("transitions", t.len() as u64);
                cx.outcome(&(hash(&ps), t.iter().map(|x| x.1).collect::<Vec<_>>()));
                cx.sample(|| p.chars().take(300).collect());
                trace = t;
                for (i, o) in out.iter().enumerate() {
                    differ("indexes used by threads in turns", i, o, &alone[i])?;
                }
                Ok(())
            });
            if !ok {
                return;
            }
            let mut cost = 0;
            for (k, (from, c, on)) in trace.iter().enumerate() {
                if k >= plan.len() {
                    for &a in on.iter().filter(|a| *a != c) {
                        if cost + (on.contains(from) && a != *from) as usize <= bound {
                            let mut n: Vec<usize> = trace[..k].iter().map(|t| t.1).collect();
                            n.push(a);
                            stack.push(n);
                        }
                    }
                }
                cost += (on.contains(from) && c != from) as usize;
            }
        }
    }

    /// At point `at[0]` of the first program the second one runs, at whose point `at[1]` the third one.
    fn nested(&self, ps: &[Prog], at: &[usize]) -> Result<(), String> {
        fn go(ps: Rc<Vec<Prog>>, at: Rc<Vec<usize>>, d: usize, bad: Rc<RefCell<Option<String>>>) {
            let hook: Hook = if d < at.len() {
                let n = Cell::new(0);
                let (ps, at, bad) = (ps.clone(), at.clone(), bad.clone());
                Rc::new(move || {
                    n.set(n.get() + 1);
                    if n.get() == at[d] + 1 {
                        go(ps.clone(), at.clone(), d + 1, bad.clone());
                    }
                })
            } else {
                quiet()
            };
            let out = ps[d].run(&hook);
            if let Err(e) = differ("an index used inside an operation of another", d, &out, &ps[d].alone()) {
                *bad.borrow_mut() = Some(e);
            }
        }
        let bad = Rc::new(RefCell::new(None));
        go(Rc::new(ps.to_vec()), Rc::new(at.to_vec()), 0, bad.clone());
        let b = bad.borrow_mut().take();
        b.map_or(Ok(()), Err)
    }

    /// The first program is cut off by a panic at a point; then the others run, and the first one anew.
    fn after(&self, ps: &[Prog], at: usize) -> Result<(), String> {
        let alone: Vec<_> = ps.iter().map(|p| p.alone()).collect();
        let n = Cell::new(0);
        let hook: Hook = Rc::new(move || {
            n.set(n.get() + 1);
            if n.get() == at + 1 {
                panic!("planned");
            }
        });
        if guarded(|| ps[0].run(&hook)).is_err_and(|e| !e.contains("planned")) {
            return Err("another panic than the planned one".into());
        }
        for k in (1..ps.len()).chain([0]) {
            differ("after a panic in another index", k, &ps[k].run(&quiet()), &alone[k])?;
        }
        // The next thread is not affected either.
        let p = &ps[ps.len() - 1];
        let o = std::thread::scope(|s| s.spawn(|| guarded(|| p.run(&quiet()))).join()).map_err(|_| "thread died")?;
        differ("after a panic in another thread", ps.len() - 1, &o.map_err(|e| format!("panic: {}", e))?, &alone[ps.len() - 1])
    }

    /// A stage at place `k` of a language's pipeline runs the same pipeline on tokens of its own.
    fn own_pipeline(&self, code: &str, k: usize, tokens: &[String], inner: &[String]) -> Result<(), String> {
        struct Again {
            p: Rc<RefCell<Weak<Pipeline>>>,
            inner: Vec<String>,
            on: Cell<bool>,
            got: Rc<RefCell<Vec<Vec<String>>>>,
        }
        impl PipelineFn for Again {
            fn name(&self) -> String {
                "again".into()
            }
            fn filter(&self, t: String) -> Option<String> {
                if self.on.get() {
                    self.on.set(false);
                    let p = self.p.borrow().upgrade().unwrap();
                    self.got.borrow_mut().push(p.run(self.inner.clone()));
                    self.on.set(true);
                }
                Some(t)
            }
        }
        let inst = langs::inst(langs::by_code(code));
        let want = |v: &[String]| -> Vec<String> { v.iter().filter_map(|t| inst.lang.make_pipeline().run(vec![t.clone()]).pop()).collect() };
        let cell = Rc::new(RefCell::new(Weak::new()));
        let got = Rc::new(RefCell::new(vec![]));
        let mut q = inst.lang.make_pipeline();
        q.queue.insert(k.min(q.queue.len()), Box::new(Again { p: cell.clone(), inner: inner.to_vec(), on: Cell::new(true), got: got.clone() }));
        let p = Rc::new(q);
        *cell.borrow_mut() = Rc::downgrade(&p);
        let out = p.run(tokens.to_vec());
        if out != want(tokens) {
            return Err(format!("tokens {:?} become {:?} when a stage uses the pipeline, {:?} otherwise", tokens, out, want(tokens)));
        }
        for g in got.borrow().iter() {
            if *g != want(inner) {
                return Err(format!("tokens {:?} become {:?} when run inside a stage, {:?} otherwise", inner, g, want(inner)));
            }
        }
        Ok(())
    }
}

impl Check for C25 {
    fn explore(&self, cx: &Cx) {
        let en = uses(&LANGS[0]);
        // Nesting and panics.
        let mut pairs = vec![];
        for l in LANGS.iter() {
            for o in LANGS.iter() {
                // The dictionaries take long to load.
                if cx.quick() && !(l.ws && o.ws) && !matches!((l.code, o.code), ("zh", "zh") | ("ja", "ja") | ("zh", "en") | ("en", "ja") | ("ja", "zh")) {
                    continue;
                }
                for (m, a) in uses(l).iter().enumerate() {
                    for (n, b) in uses(o).iter().enumerate() {
                        if (l.ws && o.ws) || (m == 1 && n == 0) {
                            pairs.push(json!([a, b]));
                        }
                    }
                }
            }
        }
        for l in LANGS.iter() {
            for (m, u) in uses(l).iter().enumerate() {
                for k in 1..=3 {
                    if cx.quick() && !l.ws && (m != 1 || k > 1) {
                        continue;
                    }
                    pairs.push(json!([u, unlike(u, k)]));
                    pairs.push(json!([unlike(u, k), u]));
                    pairs.push(json!([unlike(u, k), unlike(u, k % 3 + 1)]));
                }
            }
        }
        cx.par(pairs.len(), |i| {
            let v = &pairs[i];
            let n = Prog::parse(&v[0]).points();
            let slow = ["zh", "ja"].iter().any(|c| v[0]["lang"] == *c || v[1]["lang"] == *c);
            for k in (0..=n).step_by(if slow && cx.quick() { 5 } else { 1 }) {
                cx.run(self, "after", &json!({"p": v, "at": [k]}).to_string());
                cx.run(self, "nest", &json!({"p": v, "at": [k]}).to_string());
            }
        });
        let mut triples = vec![];
        for l in LANGS.iter().filter(|l| l.ws) {
            let u = uses(l);
            for a in &u[..cx.tier(2, 3)] {
                for b in &u[..cx.tier(2, 3)] {
                    triples.push(json!([a, b, en[0]]));
                }
            }
        }
        cx.par(triples.len(), |i| {
            let v = &triples[i];
            let (n, m) = (Prog::parse(&v[0]).points(), Prog::parse(&v[1]).points());
            for k in 0..n {
                for j in 0..m {
                    cx.run(self, "nest", &json!({"p": v, "at": [k, j]}).to_string());
                }
            }
        });
        // Longer texts, at greater depth.
        let long = |l: &langs::Lang, n: usize| {
            let t = data::tokens(l.code);
            let text: Vec<&str> = (0..n).map(|i| t[(i * i + i / 7) % t.len()]).collect();
            prog(l.code, &["t", "b"], &[1], true, json!([["1", [text.join(" "), text.join(" ")]], "E"]))
        };
        let mut deep = vec![];
        for l in LANGS.iter().filter(|l| l.ws || l.code == "zh") {
            let u = uses(l);
            for (d, n) in [(2, 90), (3, 90), (4, 300), (6, 90), (9, 70)] {
                if l.ws || d < 4 {
                    let mut p = vec![u[1].clone(); d - 1];
                    p.push(long(l, n));
                    deep.push(json!(p));
                }
            }
            deep.push(json!([long(l, 40), long(l, 90)]));
            deep.push(json!([u[1], long(l, 3000)]));
        }
        cx.par(deep.len(), |i| {
            let v = &deep[i];
            let d = v.as_array().unwrap().len() - 1;
            let n = Prog::parse(&v[0]).points();
            for k in (0..n).step_by(n.div_ceil(cx.tier(40, 400))) {
                cx.run(self, "nest", &json!({"p": v, "at": vec![k; d]}).to_string());
                cx.run(self, "after", &json!({"p": v, "at": [k]}).to_string());
            }
        });
        // A pipeline inside itself.
        let mut own = vec![];
        for l in LANGS {
            let t = data::tokens(l.code);
            for k in 0..=l.stages.len() {
                for i in 0..t.len() {
                    for j in 0..t.len() {
                        own.push(json!({"lang": l.code, "k": k, "t": [t[i], t[j]], "in": [t[j], t[(i + j) % t.len()], t[0]]}).to_string());
                    }
                }
            }
        }
        cx.par(own.len(), |i| {
            cx.run(self, "own", &own[i]);
        });
        // Schedules of two threads and of three.
        let mut jobs: Vec<(Value, usize)> = vec![];
        for (i, l) in LANGS.iter().enumerate() {
            let u = uses(l);
            let low = if l.ws { cx.tier(1, 2) } else { cx.tier(0, 1) };
            for a in &u {
                for b in &en {
                    jobs.push((json!([a, b]), if i == 0 { cx.tier(2, 3) } else { low }));
                }
                if l.ws && i > 0 {
                    jobs.push((json!([a, u[0]]), low));
                }
            }
            jobs.push((json!([u[0], u[0]]), if l.ws { 2 } else { low }));
            for k in 1..=3 {
                jobs.push((json!([u[1], unlike(&u[1], k)]), low));
                jobs.push((json!([u[2], unlike(&u[2], k)]), low));
            }
        }
        for (i, l) in LANGS.iter().enumerate() {
            for o in &LANGS[i + 1..] {
                if l.ws && o.ws {
                    jobs.push((json!([uses(l)[1], uses(o)[0]]), cx.tier(1, 2)));
                }
            }
        }
        for a in &en {
            for b in &en {
                jobs.push((json!([a, b, en[0]]), cx.tier(1, 2)));
            }
        }
        cx.par(jobs.len(), |i| self.schedules(cx, &jobs[i].0, jobs[i].1));
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        let v: Value = serde_json::from_str(p).map_err(|e| e.to_string())?;
        cx.sample(|| format!("{} {}", fam, p.chars().take(300).collect::<String>()));
        if fam == "own" {
            cx.count("traces", 1);
            cx.count("transitions", 1);
            cx.outcome(p);
            let s = |k: &str| -> Vec<String> { v[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect() };
            return self.own_pipeline(v["lang"].as_str().unwrap(), v["k"].as_u64().unwrap() as usize, &s("t"), &s("in"));
        }
        let ps = programs(&v["p"]);
        if fam == "sched" {
            let (out, _) = scheduled(&ps, &numbers(&v["plan"]))?;
            for (i, o) in out.iter().enumerate() {
                differ("indexes used by threads in turns", i, o, &ps[i].alone())?;
            }
            return Ok(());
        }
        let at = numbers(&v["at"]);
        cx.count("traces", 1);
        cx.count("transitions", ps.iter().map(|p| p.ops.len() as u64).sum());
        cx.outcome(&(fam, p));
        match fam {
            "nest" => self.nested(&ps, &at),
            "after" => self.after(&ps, at[0]),
            _ => Err(format!("harness: no family {}", fam)),
        }
    }
    fn rule(&self) -> &'static str {
        "all schedules of two threads (three), switching at the calls of user code, with at most two (one) preemptions; every point of a program with another program nested in it (two levels), and with a panic at it; a state is a schedule or such a point"
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["threads are switched where the library calls code of the user and between operations, not inside the library's own code"]
    }
}

// ----------------------------------------------------------------------------------------------- C26

pub struct C26;

/// What an index holds for all documents but one.
type Held = (BTreeMap<String, String>, BTreeMap<(String, String), BTreeMap<String, String>>);
fn others(ix: &Index, fields: &[String], but: &str) -> Result<Held, String> {
    let x = Export::of(ix)?;
    let mut a = BTreeMap::new();
    for (r, d) in x.docs()? {
        a.insert(format!("doc {}", r), format!("{:?}", d));
    }
    for (r, d) in x.lens()? {
        a.insert(format!("len {}", r), format!("{:?}", d));
    }
    a.remove(&format!("doc {}", but));
    a.remove(&format!("len {}", but));
    let mut b = BTreeMap::new();
    for f in fields {
        for (t, (_, docs)) in x.trie(f)? {
            let d: BTreeMap<String, String> = docs.iter().filter(|d| d.0 != but).map(|d| (d.0.clone(), format!("{:?}", d.1))).collect();
            if !d.is_empty() {
                b.insert((f.clone(), t), d);
            }
        }
    }
    Ok((a, b))
}

impl C26 {
    fn interrupted(&self, cx: &Cx, p: &Prog, at: &[usize]) -> Result<(), String> {
        let alone = p.alone();
        let n = Rc::new(Cell::new(0usize));
        let left = Rc::new(RefCell::new(at.to_vec()));
        let hook: Hook = {
            let (n, left) = (n.clone(), left.clone());
            Rc::new(move || {
                n.set(n.get() + 1);
                let go = left.borrow().first() == Some(&(n.get() - 1));
                if go {
                    left.borrow_mut().remove(0);
                    panic!("planned");
                }
            })
        };
        let mut ix = p.build(&hook);
        let mut out: Vec<String> = vec![];
        let mut i = 0;
        while i < p.ops.len() {
            let keep = out.len();
            match guarded(|| p.step(&mut ix, &p.ops[i], &hook, &mut out)) {
                Ok(()) => i += 1,
                Err(e) if e.contains("planned") => {
                    cx.count("panics", 1);
                    out.truncate(keep);
                    // The other documents are as they were.
                    let mut want = p.build(&quiet());
                    for op in &p.ops[..i] {
                        p.step(&mut want, op, &quiet(), &mut vec![]);
                    }
                    let but = match &p.ops[i] {
                        Op::Add(r, _) => r.as_str(),
                        _ => "\0",
                    };
                    let was = std::mem::take(&mut *left.borrow_mut());
                    let (a, b) = (others(&ix, &p.fields, but)?, others(&want, &p.fields, but)?);
                    *left.borrow_mut() = was;
                    if a != b {
                        return Err(format!("after a panic while adding {:?} the other documents are held as {:?} instead of {:?}", but, a, b));
                    }
                }
                Err(e) => return Err(format!("panic: {}", e)),
            }
        }
        differ("an addition was cut off by a panic and repeated", 0, &out, &alone)
    }

    /// A cut off addition is repeated only at the end, after other documents with fewer values and the rest.
    fn later(&self, cx: &Cx, p: &Prog, at: usize, more: Option<(usize, &[String])>) -> Result<(), String> {
        let n = Rc::new(Cell::new(0usize));
        let armed = Rc::new(Cell::new(false));
        let hook: Hook = {
            let (n, armed) = (n.clone(), armed.clone());
            Rc::new(move || {
                if armed.get() {
                    n.set(n.get() + 1);
                    if n.get() == at.saturating_add(1) {
                        armed.set(false);
                        panic!("planned");
                    }
                }
            })
        };
        let mut ix = p.build(&hook);
        let mut want = p.build(&quiet());
        let (mut cut, mut loaded) = (None, false);
        let mut extra: Vec<Op> = vec![Op::Add("\u{1}".into(), vec![])];
        extra.extend((1..p.fields.len()).map(|k| Op::Add(format!("\u{1}{}", k), vec!["cat".into(); k])));
        for (i, op) in p.ops.iter().enumerate() {
            if cut.is_some() && matches!(op, Op::Load) {
                // Terms of the custom tokenizers would stay.
                loaded = true;
            }
            let op_more = match (op, more) {
                (Op::Add(r, d), Some((k, m))) if k == i => Op::Add(r.clone(), d.iter().chain(m).cloned().collect()),
                (o, _) => o.clone(),
            };
            armed.set(n.get() <= at);
            let r = guarded(|| p.step(&mut ix, &op_more, &hook, &mut vec![]));
            armed.set(false);
            match r {
                Ok(()) => p.step(&mut want, op, &quiet(), &mut vec![]),
                Err(e) if e.contains("planned") || more.is_some_and(|m| m.0 == i) => {
                    cx.count("panics", 1);
                    if matches!(op, Op::Add(..)) {
                        cut = Some(op);
                    }
                    let held = |ix: &Index| match op {
                        Op::Add(r, _) => others(ix, &p.fields, r).and_then(|o| Ok((o, others(ix, &p.fields, "\0")?))),
                        _ => Err(String::new()),
                    };
                    let before = held(&ix).ok();
                    for o in &extra {
                        p.step(&mut ix, o, &hook, &mut vec![]);
                        p.step(&mut want, o, &quiet(), &mut vec![]);
                    }
                    if let (Some((o, all)), Op::Add(r, _)) = (before, op) {
                        // What there is of the document itself, by what the index has of it and not of the others.
                        let now = held(&ix)?;
                        let own = |o: &Held, all: &Held| -> Result<Held, String> {
                            let a = all.0.iter().filter(|e| !o.0.contains_key(e.0)).map(|(k, v)| (k.clone(), v.clone())).collect();
                            let b = all
                                .1
                                .iter()
                                .filter_map(|(k, v)| v.get(r).map(|n| (k.clone(), BTreeMap::from([(r.clone(), n.clone())]))))
                                .collect();
                            Ok((a, b))
                        };
                        let (a, b) = (own(&o, &all)?, own(&now.0, &now.1)?);
                        if a != b {
                            return Err(format!("after the addition of {:?} was cut off and other documents were added, it is held as {:?} instead of {:?}", r, b, a));
                        }
                    }
                }
                Err(e) => return Err(format!("panic: {}", e)),
            }
        }
        if loaded {
            return Ok(());
        }
        if let Some(op) = cut {
            p.step(&mut ix, op, &hook, &mut vec![]);
            p.step(&mut want, op, &quiet(), &mut vec![]);
        }
        differ("an addition was cut off and repeated at the end", 0, &[ix.to_json()], &[want.to_json()])
    }

    /// More values than fields: whatever happens, repeating the addition with the right number puts it right.
    fn extra(&self, p: &Prog, which: usize, more: &[String]) -> Result<(), String> {
        let alone = p.alone();
        let mut ix = p.build(&quiet());
        let mut out = vec![];
        for (i, op) in p.ops.iter().enumerate() {
            if let (Op::Add(r, d), true) = (op, i == which) {
                let mut d = d.clone();
                d.extend_from_slice(more);
                let _ = guarded(|| ix.add_doc(r, &d));
            }
            p.step(&mut ix, op, &quiet(), &mut out);
        }
        differ("an addition with too many values was repeated", 0, &out, &alone)
    }
}

impl Check for C26 {
    fn explore(&self, cx: &Cx) {
        let mut ps: Vec<Value> = vec![];
        // All histories of up to two (three) additions over small alphabets, English.
        let texts = ["", "cat", "dog cats the"];
        let mut adds = vec![];
        for r in ["1", "2"] {
            for a in texts {
                for b in texts {
                    adds.push(json!([r, [a, b]]));
                }
            }
        }
        for a in &adds {
            ps.push(prog("en", &["t", "b"], &[], true, json!([a, "E"])));
            for b in &adds {
                for (tok, save) in [(&[][..], true), (&[0][..], true), (&[0, 1][..], false)] {
                    ps.push(prog("en", &["t", "b"], tok, save, json!([a, "E", b, "E"])));
                }
                if !cx.quick() {
                    for c in &adds {
                        ps.push(prog("en", &["t", "b"], &[1], true, json!([a, b, c, "E"])));
                    }
                }
            }
        }
        for r in ["id", "1"] {
            for t in texts {
                ps.push(prog("en", &["id", "b"], &[], true, json!([[r, [t, "cat"]], "E", [r, ["x", t]], "L", ["2", [t]], "E"])));
                ps.push(prog("en", &["b", "id"], &[0, 1], true, json!([[r, [t, "cat"]], "E", [r, ["x", t]], "E"])));
            }
        }
        for l in LANGS {
            let t = data::texts(l.code);
            for (i, a) in t.iter().enumerate() {
                for (j, b) in t.iter().enumerate() {
                    if l.ws || (i + j) % 3 == 0 && !cx.quick() || i + 1 == t.len() && j == 0 {
                        ps.push(prog(l.code, &["t", "b"], &[1], true, json!([["1", [a, b]], "E", ["2", [b]], "E"])));
                        if l.ws {
                            ps.push(prog(l.code, &["t"], &[], true, json!([["1", [a]], ["1", [b]], "L", ["1", [a]], "E"])));
                        }
                    }
                }
            }
        }
        // Fields in numbers, and long texts.
        for n in 1..=cx.tier(12, 30) {
            let f: Vec<String> = (0..n).map(|i| format!("f{}", i * 7 % 30)).collect();
            let f: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
            ps.push(prog("en", &f, &[n / 2], true, json!([["1", vec!["cat"; n]], "E", ["2", vec!["dog"; n]], "E"])));
            ps.push(prog("en", &["t"], &[], true, json!([["1", ["cat ".repeat(n * 3)]], ["2", ["dog cat ".repeat(n)]], "E"])));
        }
        cx.par(ps.len(), |i| {
            let p = Prog::parse(&ps[i]);
            let slow = !langs::by_code(&p.lang).ws;
            let n = p.points();
            for k in (0..=n).step_by(if slow && cx.quick() { 3 } else { 1 }) {
                cx.run(self, "panic", &json!({"p": ps[i], "at": [k]}).to_string());
                cx.run(self, "later", &json!({"p": ps[i], "at": k, "more": []}).to_string());
            }
            for (w, o) in p.ops.iter().enumerate() {
                // Fewer values than fields would be filled up.
                if matches!(o, Op::Add(_, d) if d.len() == p.fields.len()) && !slow {
                    for more in [json!(["x"]), json!(["cat", ""]), json!([""])] {
                        cx.run(self, "extra", &json!({"p": ps[i], "which": w, "more": more}).to_string());
                        cx.run(self, "more", &json!({"p": ps[i], "at": w, "more": more}).to_string());
                    }
                }
            }
        });
        // Two panics, and three in a row.
        let two: Vec<Value> = ps.iter().filter(|p| p["lang"] == "en").take(cx.tier(60, 400)).cloned().collect();
        cx.par(two.len(), |i| {
            let n = Prog::parse(&two[i]).points();
            for k in 0..n {
                for j in k + 1..n.min(k + cx.tier(30, 80)) {
                    cx.run(self, "panic", &json!({"p": two[i], "at": [k, j]}).to_string());
                }
                cx.run(self, "panic", &json!({"p": two[i], "at": [k, k + 1, k + 2]}).to_string());
            }
        });
    }
    fn eval(&self, cx: &Cx, fam: &str, p: &str) -> Result<(), String> {
        let v: Value = serde_json::from_str(p).map_err(|e| e.to_string())?;
        let q = Prog::parse(&v["p"]);
        cx.count("traces", 1);
        cx.count("transitions", q.ops.len() as u64);
        cx.outcome(&(fam, p));
        cx.sample(|| format!("{} {}", fam, p.chars().take(300).collect::<String>()));
        if fam == "extra" {
            let more: Vec<String> = v["more"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
            return self.extra(&q, v["which"].as_u64().unwrap() as usize, &more);
        }
        if fam == "later" {
            return self.later(cx, &q, v["at"].as_u64().unwrap() as usize, None);
        }
        if fam == "more" {
            let more: Vec<String> = v["more"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
            return self.later(cx, &q, usize::MAX, Some((v["at"].as_u64().unwrap() as usize, &more)));
        }
        self.interrupted(cx, &q, &numbers(&v["at"]))
    }
    fn rule(&self) -> &'static str {
        "all short histories with a panic at every point where code of the user runs (and at every two of them), and additions with too many values, each repeated; a state is a history with such a point"
    }
}
