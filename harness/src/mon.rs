//! Runner, monitors' verdicts and evidence.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/* Random numbers *************************************************************/

/// xoshiro256** seeded by splitmix64
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

/// An iterator over some items with a legal `size_hint` that may not tell
/// much
pub struct Odd<T> {
    items: std::vec::IntoIter<T>,
    lower: usize,
    extra: Option<usize>,
}

impl<T> Iterator for Odd<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        (self.lower.min(n), self.extra.map(|e| n.saturating_add(e)))
    }
}

impl Rng {
    /// The items, from an iterator that may know little about its size
    pub fn odd<T>(&mut self, items: impl IntoIterator<Item = T>) -> Odd<T> {
        let items: Vec<T> = items.into_iter().collect();
        let n = items.len();
        let lower = match self.below(4) {
            0 | 1 => 0,
            2 => n,
            _ => self.below(n + 1),
        };
        let extra = match self.below(4) {
            0 => None,
            1 => Some(0),
            2 => Some(usize::MAX),
            _ => Some(1 + self.below(2 * n + 2)),
        };
        Odd { items: items.into_iter(), lower, extra }
    }
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut sm = || {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        Rng([sm(), sm(), sm(), sm()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (((self.u64() >> 32) as u128 * n as u128) >> 32) as usize
    }
    /// Uniform in `lo..=hi`
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    /// True with probability `pct`%
    pub fn pct(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 != 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

/// Deterministic hash (FNV-1a based) for case signatures
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z ^ (z >> 27)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn sig<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}
/// Hash of a value through its own `Hash` implementation
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    sig(t)
}

/* Panics *********************************************************************/

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static UNIT: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<usize> = const { Cell::new(0) };
}

/// The payload of an oracle's verdict
struct Verdict(String);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(non-string panic)".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("panic at {loc}: {msg}");
        if msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            // The process is about to abort
            let unit = UNIT.with(|u| u.borrow().clone());
            eprintln!("ABORT in unit {unit}: {text}");
        }
        LAST.with(|l| *l.borrow_mut() = text);
    }));
}

/// Run something that is allowed to panic; `Err` has the panic message
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    match r {
        Ok(r) => Ok(r),
        Err(e) if e.is::<Verdict>() => resume_unwind(e),
        Err(_) => Err(LAST.with(|l| l.borrow().clone())),
    }
}

/// Raise an oracle's verdict
pub fn violation(msg: String) -> ! {
    std::panic::panic_any(Verdict(msg))
}

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { $crate::mon::violation(format!($($a)*)) };
}

/// Check a condition
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::mon::violation(format!($($a)*)) } };
}

/// Check that an observed value equals the expected one
#[macro_export]
macro_rules! ckeq {
    ($got:expr, $want:expr, $($a:tt)*) => {{
        let got = &$got;
        let want = &$want;
        if *got != *want {
            let what = format!($($a)*);
            $crate::mon::violation(format!("{what}: observed {}, expected {}",
                $crate::mon::short(&format!("{got:?}")), $crate::mon::short(&format!("{want:?}"))))
        }
    }};
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 1500 {
        let t: String = s.chars().take(1500).collect();
        format!("{t}...")
    } else {
        s.to_string()
    }
}

/* Units **********************************************************************/

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Context of a unit of work
pub struct U {
    pub rng: Rng,
    pub tier: Tier,
    pub label: String,
    pub shard: usize,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    known: BTreeMap<String, String>,
    case: String,
}

/// The quick amount of work, multiplied by SQMON_EFFORT, but not more than the thorough one
fn more(quick: usize, thorough: usize) -> usize {
    static EFFORT: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let effort = EFFORT.get_or_init(|| std::env::var("SQMON_EFFORT").ok().and_then(|e| e.parse().ok()).unwrap_or(1));
    (quick * effort).min(thorough).max(quick)
}

impl U {
    /// Scale for the amount of work: quick or thorough; tiny under Miri
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if cfg!(miri) {
            return (quick / 50).clamp(1, 4);
        }
        match self.tier {
            Tier::Quick => more(quick, thorough),
            Tier::Thorough => thorough,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// One more case evaluated
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// One more evaluated case, which is non-trivial, with its signature
    pub fn case<T: Hash>(&mut self, signature: &T) {
        self.evals += 1;
        if self.distinct.len() < 3_000_000 {
            let mut h = Fnv::default();
            self.label.split('#').next().hash(&mut h);
            signature.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    /// Description of the current case, to be used if it fails
    pub fn describe(&mut self, s: String) {
        self.case = s;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(short(&format!("[{}] {s}", self.label)));
        }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    /// A violation that matches an entry of the known findings file
    /// (`key`); `detail` says what was observed.
    pub fn known(&mut self, key: &str, detail: String) {
        self.known.insert(key.to_string(), detail);
    }
}

type Job = Box<dyn Fn(&mut U) + Send + Sync>;

pub struct Mon {
    prop: &'static str,
    rule: &'static str,
    tier: Tier,
    seed: u64,
    only: Option<String>,
    out: Option<String>,
    journal: Option<Mutex<std::fs::File>>,
    required: Vec<(&'static str, u64)>,
    may_hang: Vec<&'static str>,
    units: Vec<(String, usize, Job)>,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Totals {
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    known: BTreeMap<String, String>,
    violations: Vec<(String, String, String)>,
    done: usize,
}

#[cfg(not(miri))]
mod cpu {
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
        fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
    }
    pub fn clock_of_this_thread() -> i32 {
        let mut c = 0i32;
        // SAFETY: plain libc calls with valid out-pointers
        unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
        c
    }
    pub fn seconds(clk: i32) -> Option<f64> {
        let mut ts = [0i64; 2];
        // SAFETY: as above
        if unsafe { clock_gettime(clk, &mut ts) } != 0 {
            return None;
        }
        Some(ts[0] as f64 + ts[1] as f64 * 1e-9)
    }
}

impl Mon {
    /// `rule`: how cases are made, and what makes one non-trivial
    pub fn new(prop: &'static str, rule: &'static str) -> Mon {
        let env = |k: &str| std::env::var(k).ok();
        let tier = match env("VERIF_TIER").as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
        let args: Vec<String> = std::env::args().collect();
        let only = args
            .iter()
            .position(|a| a == "--only")
            .and_then(|i| args.get(i + 1).cloned());
        let journal = env("SQMON_JOURNAL").map(|p| {
            Mutex::new(
                std::fs::OpenOptions::new()
                    .create(true)
                    .append(true)
                    .open(p)
                    .expect("journal"),
            )
        });
        Mon {
            prop,
            rule,
            tier,
            seed,
            only,
            out: env("SQMON_OUT"),
            journal,
            required: vec![],
            may_hang: vec![],
            units: vec![],
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// The run is only meaningful if this counter reached `n`
    pub fn require(&mut self, counter: &'static str, n: u64) {
        self.required.push((counter, n));
    }

    /// Units with labels that start like this may never end: they are
    /// left running, and it's not a violation
    pub fn may_hang(&mut self, label: &'static str) {
        self.may_hang.push(label);
    }

    pub fn unit(&mut self, label: impl Into<String>, f: impl Fn(&mut U) + Send + Sync + 'static) {
        self.units.push((label.into(), 0, Box::new(f)));
    }

    /// A unit that is run several times with different random streams
    pub fn shards(
        &mut self,
        label: impl Into<String>,
        quick: usize,
        thorough: usize,
        f: impl Fn(&mut U) + Send + Sync + 'static,
    ) {
        let label = label.into();
        let n = if cfg!(miri) {
            1
        } else if self.thorough() {
            thorough
        } else {
            more(quick, thorough)
        };
        let f = Arc::new(f);
        for i in 0..n {
            let f = f.clone();
            self.units
                .push((format!("{label}#{i}"), i, Box::new(move |u| f(u))));
        }
    }

    fn journal(&self, s: &str) {
        if let Some(j) = &self.journal {
            let _ = writeln!(j.lock().unwrap(), "{s}");
        }
    }

    fn run_one(&self, unit: &(String, usize, Job), totals: &Mutex<Totals>) {
        let (label, shard, job) = unit;
        UNIT.with(|u| *u.borrow_mut() = label.clone());
        self.journal(&format!("start {label}"));
        let mut u = U {
            rng: Rng::new(sig(&(self.seed, self.prop, label.as_str()))),
            tier: self.tier,
            label: label.clone(),
            shard: *shard,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            known: BTreeMap::new(),
            case: String::new(),
        };
        let r: Result<(), Box<dyn Any + Send>> = catch_unwind(AssertUnwindSafe(|| job(&mut u)));
        let mut t = totals.lock().unwrap();
        if let Err(e) = r {
            let msg = match e.downcast::<Verdict>() {
                Ok(v) => v.0,
                Err(_) => format!("unexpected {}", LAST.with(|l| l.borrow().clone())),
            };
            t.violations.push((label.clone(), u.case.clone(), msg));
        }
        t.evals += u.evals;
        t.distinct.extend(u.distinct);
        t.samples.extend(u.samples);
        for (k, v) in u.counters {
            *t.counters.entry(k).or_insert(0) += v;
        }
        t.known.extend(u.known);
        t.done += 1;
        drop(t);
        self.journal(&format!("done {label}"));
    }

    /// Run all units and report; never returns
    pub fn run(self) -> ! {
        install_hook();
        // A part of the units, `i/n`, for several processes
        let part: (usize, usize) = std::env::var("SQMON_PART")
            .ok()
            .and_then(|s| s.split_once('/').and_then(|(i, n)| Some((i.parse().ok()?, n.parse().ok()?))))
            .unwrap_or((0, 1));
        let units: Vec<&(String, usize, Job)> = self
            .units
            .iter()
            .enumerate()
            .filter(|(i, _)| i % part.1 == part.0)
            .map(|(_, u)| u)
            .filter(|(l, _, _)| self.only.as_ref().map(|o| l == o).unwrap_or(true))
            .collect();
        if std::env::var("SQMON_BUILD_ONLY").is_ok() {
            std::process::exit(0);
        }
        if units.is_empty() {
            eprintln!("no units to run");
            std::process::exit(2);
        }
        let totals = Mutex::new(Totals::default());
        let next = AtomicUsize::new(0);
        #[cfg(miri)]
        {
            let _ = &next;
            for u in &units {
                self.run_one(u, &totals);
            }
        }
        #[cfg(not(miri))]
        {
            let nthreads = std::env::var("SQMON_THREADS")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(8usize)
                .min(units.len());
            // (unit, cpu clock, cpu seconds at start) per thread
            let running: Vec<Mutex<Option<(usize, i32, f64)>>> =
                (0..2 * nthreads).map(|_| Mutex::new(None)).collect();
            let budget = if self.thorough() { 1200.0 } else { 150.0 };
            // Units left running, see `may_hang`
            let left: Mutex<HashSet<usize>> = Mutex::default();
            std::thread::scope(|s| {
                let (units, totals, next, running, left, me) =
                    (&units, &totals, &next, &running, &left, &self);
                let hangs = |i: usize| me.may_hang.iter().any(|l| units[i].0.starts_with(l));
                let work = move |t: usize| {
                    let clk = cpu::clock_of_this_thread();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= units.len() {
                            break;
                        }
                        let now = cpu::seconds(clk).unwrap_or(0.0);
                        *running[t].lock().unwrap() = Some((i, clk, now));
                        me.run_one(units[i], totals);
                        *running[t].lock().unwrap() = None;
                        left.lock().unwrap().remove(&i);
                    }
                };
                let start = move |t: usize| {
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(s, move || work(t))
                        .expect("spawn");
                };
                for t in 0..nthreads {
                    start(t);
                }
                // Watchdog: CPU time, not wall-clock time
                let mut slept = 0u64;
                loop {
                    let done = totals.lock().unwrap().done;
                    if done >= units.len() {
                        break;
                    }
                    let nleft = left.lock().unwrap().len();
                    if nleft > 0 && done + nleft >= units.len() {
                        // The threads left running can't be joined
                        let mut t = totals.lock().unwrap();
                        t.counters.insert("units left running".into(), nleft as u64);
                        std::process::exit(self.conclude(&t, units.len()));
                    }
                    std::thread::sleep(std::time::Duration::from_millis(if slept < 100 {
                        2
                    } else {
                        100
                    }));
                    slept += 1;
                    if slept % 10 != 0 {
                        continue;
                    }
                    for (at, r) in running.iter().enumerate() {
                        let g = r.lock().unwrap();
                        if let Some((i, clk, began)) = *g {
                            let used = cpu::seconds(clk).unwrap_or(0.0) - began;
                            if hangs(i) {
                                // Not a violation: replace the thread
                                if used > budget / 5.0 && left.lock().unwrap().insert(i) {
                                    start((at + nthreads) % (2 * nthreads));
                                }
                                continue;
                            }
                            if used > budget {
                                let label = units[i].0.clone();
                                let mut t = totals.lock().unwrap();
                                // Everything here is a finite computation
                                t.violations.push((
                                    label,
                                    String::new(),
                                    format!(
                                        "no progress: still running after {budget} s of CPU time, two orders of magnitude above the normal cost"
                                    ),
                                ));
                                self.report(&t, units.len());
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
        }
        let t = totals.into_inner().unwrap();
        std::process::exit(self.conclude(&t, units.len()))
    }

    /// Report, and the exit status
    fn conclude(&self, t: &Totals, nunits: usize) -> i32 {
        self.report(t, nunits);
        if !t.violations.is_empty() {
            return 1;
        }
        if self.only.is_none() && !cfg!(miri) {
            for (k, n) in &self.required {
                let have = t.counters.get(*k).copied().unwrap_or(0);
                if have < *n {
                    eprintln!("INCONCLUSIVE: observed only {have} of {n} {k}");
                    return 2;
                }
            }
        }
        0
    }

    fn report(&self, t: &Totals, nunits: usize) {
        let mut samples = t.samples.clone();
        samples.sort();
        let step = (samples.len() / 6).max(1);
        let samples: Vec<String> = samples.into_iter().step_by(step).take(6).collect();
        let mut o = String::from("{");
        o.push_str(&format!("\"property\":{},", jstr(self.prop)));
        o.push_str(&format!("\"seed\":{},", self.seed));
        o.push_str(&format!("\"units\":{nunits},\"units_finished\":{},", t.done));
        o.push_str(&format!("\"evaluations\":{},", t.evals));
        o.push_str(&format!("\"distinct_nontrivial\":{},", t.distinct.len()));
        o.push_str(&format!("\"rule\":{},", jstr(self.rule)));
        o.push_str(&format!(
            "\"samples\":[{}],",
            samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
        ));
        o.push_str(&format!(
            "\"counters\":{{{}}},",
            t.counters
                .iter()
                .map(|(k, v)| format!("{}:{v}", jstr(k)))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push_str(&format!(
            "\"known\":{{{}}},",
            t.known
                .iter()
                .map(|(k, v)| format!("{}:{}", jstr(k), jstr(v)))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push_str(&format!(
            "\"violations\":[{}]}}",
            t.violations
                .iter()
                .take(50)
                .map(|(l, c, m)| format!(
                    "{{\"unit\":{},\"case\":{},\"what\":{}}}",
                    jstr(l),
                    jstr(&short(c)),
                    jstr(&short(m))
                ))
                .collect::<Vec<_>>()
                .join(",")
        ));
        match &self.out {
            Some(p) => std::fs::write(p, o).expect("write result"),
            None => println!("{o}"),
        }
    }
}
