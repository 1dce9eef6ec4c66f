//! The exploration engine: runs cases of a check on all cores, catches panics, records which case each
//! thread is in (so that a crash or a hang of the code under test can be attributed and replayed), and
//! collects counters, distinct outcomes, samples, known findings and the simplest violation.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub trait Check: Sync {
    /// Enumerates the bounded space, calling `cx.run` (or `cx.case`) for every case.
    fn explore(&self, cx: &Cx);
    /// Decides one case. Everything about the case is in `fam` and `payload`.
    fn eval(&self, cx: &Cx, fam: &str, payload: &str) -> Result<(), String>;
    /// How cases are made and what makes an outcome non-trivial.
    fn rule(&self) -> &'static str;
    /// "model_checking" or "exploration".
    fn level(&self) -> &'static str {
        "model_checking"
    }
    /// What the verdict rests on.
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub fam: String,
    pub payload: String,
    pub msg: String,
}

/// A listed finding: suppresses exactly the deviation its key stands for in the check's code.
#[derive(Clone, Debug)]
pub struct Known {
    pub key: String,
    pub what: String,
}

#[derive(Default)]
struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-1a with a finalizer: deterministic, unlike the standard library's default hasher.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

const SET_CAP: usize = 1 << 20;

struct Local {
    counts: Vec<(&'static str, u64)>,
    outcomes: IdSet,
    capped: bool,
    slot: Option<usize>,
}

thread_local! {
    static LOCAL: RefCell<Local> = RefCell::new(Local { counts: vec![], outcomes: IdSet::default(), capped: false, slot: None });
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static IN_CASE: Cell<bool> = Cell::new(false);
}

pub struct Cx {
    pub id: &'static str,
    pub tier: Tier,
    pub threads: usize,
    pub known: Vec<Known>,
    pub replaying: bool,
    slots: Option<Slots>,
    next_slot: AtomicUsize,
    stop: AtomicBool,
    deadline: Instant,
    cut: AtomicBool,
    violation: Mutex<Option<Violation>>,
    seen_known: Mutex<BTreeMap<String, (String, u64)>>,
    counts: Mutex<BTreeMap<&'static str, u64>>,
    outcomes: Mutex<IdSet>,
    capped: AtomicBool,
    samples: Mutex<Vec<String>>,
    sample_tick: AtomicU64,
    notes: Mutex<BTreeMap<String, serde_json::Value>>,
}

pub const SLOT_SIZE: usize = 1 << 21;
pub const N_SLOTS: usize = 64;

/// A file mapped by the worker and read by the supervisor.
/// Slot layout: epoch u64, active u32, fam_len u32, payload_len u32, truncated u32, bytes.
pub struct Slots {
    base: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn create(path: &str) -> std::io::Result<Slots> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)?;
        f.set_len((SLOT_SIZE * N_SLOTS) as u64)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT_SIZE * N_SLOTS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { base: p as *mut u8 })
    }

    #[inline]
    fn enter(&self, slot: usize, fam: &str, payload: &str) {
        unsafe {
            let p = self.base.add(slot * SLOT_SIZE);
            let room = SLOT_SIZE - 24 - fam.len();
            let n = payload.len().min(room);
            *(p.add(12) as *mut u32) = fam.len() as u32;
            *(p.add(16) as *mut u32) = n as u32;
            *(p.add(20) as *mut u32) = (n < payload.len()) as u32;
            std::ptr::copy_nonoverlapping(fam.as_ptr(), p.add(24), fam.len());
            std::ptr::copy_nonoverlapping(payload.as_ptr(), p.add(24 + fam.len()), n);
            *(p as *mut u64) += 1;
            *(p.add(8) as *mut u32) = 1;
        }
    }

    #[inline]
    fn leave(&self, slot: usize) {
        unsafe {
            let p = self.base.add(slot * SLOT_SIZE);
            *(p.add(8) as *mut u32) = 0;
        }
    }

    /// (epoch, family, payload, truncated) of every slot with a case in progress.
    pub fn active(&self) -> Vec<(usize, u64, String, String, bool)> {
        let mut v = vec![];
        for s in 0..N_SLOTS {
            unsafe {
                let p = self.base.add(s * SLOT_SIZE);
                if std::ptr::read_volatile(p.add(8) as *const u32) != 1 {
                    continue;
                }
                let epoch = std::ptr::read_volatile(p as *const u64);
                let fl = *(p.add(12) as *const u32) as usize;
                let pl = *(p.add(16) as *const u32) as usize;
                let tr = *(p.add(20) as *const u32) != 0;
                if 24 + fl + pl > SLOT_SIZE {
                    continue;
                }
                let fam = std::slice::from_raw_parts(p.add(24), fl);
                let pay = std::slice::from_raw_parts(p.add(24 + fl), pl);
                v.push((
                    s,
                    epoch,
                    String::from_utf8_lossy(fam).into_owned(),
                    String::from_utf8_lossy(pay).into_owned(),
                    tr,
                ));
            }
        }
        v
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{}", info);
        if IN_CASE.with(|c| c.get()) {
            PANIC_MSG.with(|m| *m.borrow_mut() = s);
        } else {
            eprintln!("harness: {}", s);
        }
    }));
}

/// Runs `f`; a panic in it becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().replace('\n', " ")))
}

impl Cx {
    pub fn new(id: &'static str, tier: Tier, known: Vec<Known>, slots: Option<Slots>) -> Cx {
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(N_SLOTS - 2);
        Cx {
            id,
            tier,
            threads,
            known,
            replaying: slots.is_none(),
            slots,
            next_slot: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            // Only reached if the code under test became many times slower.
            deadline: Instant::now() + Duration::from_secs(if tier == Tier::Quick { 600 } else { 4 * 3600 }),
            cut: AtomicBool::new(false),
            violation: Mutex::new(None),
            seen_known: Mutex::new(BTreeMap::new()),
            counts: Mutex::new(BTreeMap::new()),
            outcomes: Mutex::new(IdSet::default()),
            capped: AtomicBool::new(false),
            samples: Mutex::new(vec![]),
            sample_tick: AtomicU64::new(0),
            notes: Mutex::new(BTreeMap::new()),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// Picks a bound by tier.
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    /// Ends the exploration, without a verdict on the rest, when the time is up.
    fn look_at_clock(&self) {
        if Instant::now() > self.deadline && !self.stop.swap(true, Ordering::Relaxed) {
            self.cut.store(true, Ordering::Relaxed);
        }
    }

    pub fn count(&self, name: &'static str, n: u64) {
        LOCAL.with(|l| {
            let mut l = l.borrow_mut();
            if let Some(e) = l.counts.iter_mut().find(|e| std::ptr::eq(e.0, name) || e.0 == name) {
                e.1 += n;
            } else {
                l.counts.push((name, n));
            }
        })
    }

    /// Records one observed outcome; the number of distinct ones is reported.
    pub fn outcome<T: Hash + ?Sized>(&self, t: &T) {
        let h = hash(t);
        LOCAL.with(|l| {
            let mut l = l.borrow_mut();
            if l.outcomes.len() < SET_CAP {
                l.outcomes.insert(h);
            } else {
                l.capped = true;
            }
        })
    }

    pub fn note(&self, name: &str, v: impl Into<serde_json::Value>) {
        self.notes.lock().unwrap().insert(name.into(), v.into());
    }

    /// Keeps a handful of actual cases for the evidence: the 1st, 10th, 100th, ... one.
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let n = self.sample_tick.fetch_add(1, Ordering::Relaxed) + 1;
        let mut p = 1u64;
        while p < n {
            p *= 7;
        }
        if p == n {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 12 {
                s.push(f());
            }
        }
    }

    /// Is this finding listed? If so it is noted as observed, and the case counts as passed.
    pub fn known(&self, key: &str, example: impl FnOnce() -> String) -> bool {
        if let Some(k) = self.known.iter().find(|k| k.key == key) {
            let mut s = self.seen_known.lock().unwrap();
            let e = s.entry(k.key.clone()).or_insert_with(|| (format!("{} (e.g. {})", k.what, example()), 0));
            e.1 += 1;
            true
        } else {
            false
        }
    }

    pub fn run(&self, check: &dyn Check, fam: &str, payload: &str) -> bool {
        self.case(fam, payload, || check.eval(self, fam, payload))
    }

    /// Runs one case, given as a closure, under the name (fam, payload).
    #[inline]
    pub fn case(&self, fam: &str, payload: &str, f: impl FnOnce() -> Result<(), String>) -> bool {
        if self.stopped() {
            return false;
        }
        let slot = LOCAL.with(|l| {
            let mut l = l.borrow_mut();
            *l.slot.get_or_insert_with(|| self.next_slot.fetch_add(1, Ordering::Relaxed) % N_SLOTS)
        });
        if let Some(s) = &self.slots {
            s.enter(slot, fam, payload);
            self.look_at_clock();
        }
        let r = match guarded(f) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        };
        if let Some(s) = &self.slots {
            s.leave(slot);
        }
        match r {
            Ok(()) => true,
            Err(msg) => {
                self.report(fam, payload, msg);
                false
            }
        }
    }

    pub fn report(&self, fam: &str, payload: &str, msg: String) {
        let mut v = self.violation.lock().unwrap();
        let better = match &*v {
            None => true,
            Some(o) => (payload.len(), payload) < (o.payload.len(), o.payload.as_str()),
        };
        if better {
            *v = Some(Violation { fam: fam.into(), payload: payload.into(), msg });
        }
        self.stop.store(true, Ordering::Relaxed);
    }

    /// Calls `f(i)` for i in 0..n on all cores. Dynamic chunks; each index exactly once.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let grain = (n / (self.threads * 32)).clamp(1, 4096);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        'w: loop {
                            let a = next.fetch_add(grain, Ordering::Relaxed);
                            if a >= n {
                                break;
                            }
                            for i in a..(a + grain).min(n) {
                                if self.stopped() {
                                    break 'w;
                                }
                                f(i);
                            }
                        }
                        self.flush();
                    })
                    .unwrap();
            }
        });
    }

    pub fn flush(&self) {
        LOCAL.with(|l| {
            let mut l = l.borrow_mut();
            let mut c = self.counts.lock().unwrap();
            for (k, v) in l.counts.drain(..) {
                *c.entry(k).or_insert(0) += v;
            }
            let mut o = self.outcomes.lock().unwrap();
            o.extend(l.outcomes.drain());
            if l.capped {
                self.capped.store(true, Ordering::Relaxed);
            }
            if let Some(s) = l.slot.take() {
                // A slot may be reused by a later thread, never by two at a time.
                let _ = s;
            }
        });
    }

    pub fn result(&self) -> serde_json::Value {
        self.flush();
        let v = self.violation.lock().unwrap().clone();
        serde_json::json!({
            "violation": v.map(|v| serde_json::json!({"fam": v.fam, "payload": v.payload, "msg": v.msg})),
            "known": self.seen_known.lock().unwrap().iter()
                .map(|(k, (w, n))| serde_json::json!({"key": k, "what": w, "cases": n})).collect::<Vec<_>>(),
            "counts": *self.counts.lock().unwrap(),
            "outcomes": self.outcomes.lock().unwrap().len(),
            "cut": self.cut.load(Ordering::Relaxed),
            "outcomes_capped": self.capped.load(Ordering::Relaxed),
            "samples": *self.samples.lock().unwrap(),
            "notes": *self.notes.lock().unwrap(),
        })
    }
}

/// Number of sequences of length 0..=max over n symbols.
pub fn seq_total(n: usize, max: usize) -> usize {
    let mut t = 0;
    let mut p = 1;
    for _ in 0..=max {
        t += p;
        p *= n;
    }
    t
}

/// The i-th sequence (shortest first) over n symbols.
pub fn seq_at(n: usize, mut i: usize, out: &mut Vec<usize>) {
    out.clear();
    let mut len = 0;
    let mut p = 1;
    while i >= p {
        i -= p;
        p *= n;
        len += 1;
    }
    for _ in 0..len {
        p /= n;
        out.push(i / p);
        i %= p;
    }
}

/// All strings of length `min..=max` over the alphabet, shortest first, in parallel.
pub fn par_strings(cx: &Cx, alphabet: &[&str], min: usize, max: usize, f: impl Fn(&str) + Sync) {
    let n = alphabet.len();
    let skip = if min == 0 { 0 } else { seq_total(n, min - 1) };
    let total = seq_total(n, max);
    let chunk = 256;
    cx.par((total - skip).div_ceil(chunk), |c| {
        let mut idx = vec![];
        let mut s = String::new();
        for i in (skip + c * chunk)..(skip + (c + 1) * chunk).min(total) {
            seq_at(n, i, &mut idx);
            s.clear();
            for &k in &idx {
                s.push_str(alphabet[k]);
            }
            f(&s);
            if cx.stopped() {
                return;
            }
        }
    });
}

/// Every Unicode scalar value, in parallel.
pub fn par_scalars(cx: &Cx, f: impl Fn(char) + Sync) {
    cx.par(0x110000 / 256, |blk| {
        for u in (blk as u32 * 256)..(blk as u32 * 256 + 256) {
            if let Some(c) = char::from_u32(u) {
                f(c);
                if cx.stopped() {
                    return;
                }
            }
        }
    });
}
