//! Exhaustive exploration: a stateless, deviation-bounded explorer over choice sequences and a
//! breadth-first explorer over (implementation state, model state) pairs.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::sys;

pub const THREADS: usize = 8;
const SLOT: usize = 8192;

pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {}", msg);
    sys::exit_now(2)
}

// ---------------------------------------------------------------------------------------------
// choices

#[derive(Clone, Copy)]
struct Point {
    n: u32,
    choice: u32,
    cost: u32,
}

#[derive(Default)]
struct Inner {
    prefix: Vec<u32>,
    trace: Vec<Point>,
    steps: u64,
    states: Vec<u64>,
    label: String,
    sample: Option<String>,
    want_sample: bool,
}

/// The source of all nondeterminism of one execution.
#[derive(Clone, Default)]
pub struct Ctx(Rc<RefCell<Inner>>);

impl Ctx {
    fn choose(&self, n: usize, cost: u32) -> usize {
        let mut c = self.0.borrow_mut();
        if n == 0 {
            harness_error("choice without alternatives");
        }
        if n == 1 {
            return 0;
        }
        let i = c.trace.len();
        let choice = c.prefix.get(i).copied().unwrap_or(0);
        if choice as usize >= n {
            harness_error(&format!("execution diverged: choice {} of {} at point {}", choice, n, i));
        }
        c.trace.push(Point { n: n as u32, choice, cost });
        choice as usize
    }

    /// A choice whose non-default alternatives each cost one deviation.
    pub fn pick(&self, n: usize) -> usize {
        self.choose(n, 1)
    }

    /// A choice of which every alternative is always explored.
    pub fn all(&self, n: usize) -> usize {
        self.choose(n, 0)
    }

    pub fn pick_of<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.pick(v.len())]
    }

    pub fn all_of<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.all(v.len())]
    }

    pub fn flag(&self) -> bool {
        self.pick(2) == 1
    }

    /// Records that `n` transitions of the implementation were executed and compared.
    pub fn step(&self, n: u64) {
        self.0.borrow_mut().steps += n;
    }

    /// Records a visited state.
    pub fn state<T: Hash + ?Sized>(&self, t: &T) {
        let h = hash(t);
        self.0.borrow_mut().states.push(h);
    }

    pub fn label(&self, s: impl Into<String>) {
        self.0.borrow_mut().label = s.into();
    }

    pub fn sample(&self, f: impl FnOnce() -> String) {
        let want = self.0.borrow().want_sample;
        if want {
            let s = f();
            self.0.borrow_mut().sample = Some(s);
        }
    }
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static CURRENT: RefCell<(String, String, Vec<u32>)> = const { RefCell::new((String::new(), String::new(), Vec::new())) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        if !GUARDED.with(|g| g.get()) {
            eprintln!("harness panic: {}", s);
        }
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// Calls the code under test; a panic in it is a result.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let was = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(was));
    r.map_err(|_| format!("{} panicked: {}", what, PANIC.with(|p| p.borrow().replace('\n', " "))))
}

// ---------------------------------------------------------------------------------------------
// a run of one check

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub suite: String,
    pub choices: Vec<u32>,
    pub msg: String,
}

#[derive(Default)]
pub struct SuiteStats {
    pub name: String,
    pub executions: u64,
    pub points: u64,
    pub steps: u64,
    pub states: u64,
    pub bound: String,
    pub capped: bool,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub wall: f64,
    pub levels: Vec<u64>,
}

pub struct Run {
    pub property: String,
    pub tier: Tier,
    pub deadline: Instant,
    pub replay: Option<(String, Vec<u32>)>,
    pub only: Option<String>,
    pub suites: Vec<SuiteStats>,
    pub violations: Vec<Violation>,
}

static SLOTS: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Maps the file in which the workers note what they are executing.
pub fn map_slots(f: &std::fs::File) {
    use std::os::fd::AsRawFd;
    f.set_len((SLOT * THREADS) as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT * THREADS, 3, 1, f.as_raw_fd(), 0) };
    if p as isize == -1 {
        harness_error("mmap failed");
    }
    SLOTS.store(p as usize, Ordering::SeqCst);
}

fn note(worker: usize, suite: &str, prefix: &[u32]) {
    let base = SLOTS.load(Ordering::Relaxed);
    if base == 0 {
        return;
    }
    let p = (base + worker * SLOT) as *mut u8;
    unsafe {
        let name = &suite.as_bytes()[..suite.len().min(64)];
        let n = prefix.len().min((SLOT - 128) / 4);
        (p as *mut u32).write_volatile(1);
        (p.add(4) as *mut u32).write_volatile(name.len() as u32);
        (p.add(8) as *mut u32).write_volatile(n as u32);
        std::ptr::copy_nonoverlapping(name.as_ptr(), p.add(12), name.len());
        std::ptr::copy_nonoverlapping(prefix.as_ptr() as *const u8, p.add(128), n * 4);
    }
}

fn unnote(worker: usize) {
    let base = SLOTS.load(Ordering::Relaxed);
    if base != 0 {
        unsafe { ((base + worker * SLOT) as *mut u32).write_volatile(0) };
    }
}

pub fn read_slots(bytes: &[u8]) -> Vec<(String, Vec<u32>)> {
    let mut r = Vec::new();
    for s in bytes.chunks_exact(SLOT) {
        let w = |i: usize| u32::from_le_bytes(s[i..i + 4].try_into().unwrap());
        if w(0) == 1 {
            let name = String::from_utf8_lossy(&s[12..12 + w(4) as usize]).into_owned();
            let pre = (0..w(8) as usize).map(|i| w(128 + 4 * i)).collect();
            r.push((name, pre));
        }
    }
    r
}

struct Watch {
    started: Instant,
    limit: Duration,
    active: bool,
    suite: String,
    prefix: Vec<u32>,
}

static WATCH: [Mutex<Option<Watch>>; THREADS] = [const { Mutex::new(None) }; THREADS];

fn enter(w: usize, property: &str, suite: &str, prefix: &[u32], limit: u64) {
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        if c.0 != property {
            c.0 = property.to_owned();
        }
        if c.1 != suite {
            c.1 = suite.to_owned();
        }
        c.2.clear();
        c.2.extend_from_slice(prefix);
    });
    note(w, suite, prefix);
    let mut g = WATCH[w].lock().unwrap();
    match &mut *g {
        Some(x) => {
            x.started = Instant::now();
            x.limit = Duration::from_secs(limit);
            x.active = true;
            if x.suite != suite {
                x.suite = suite.to_owned();
            }
            x.prefix.clear();
            x.prefix.extend_from_slice(prefix);
        }
        None => {
            *g = Some(Watch {
                started: Instant::now(),
                limit: Duration::from_secs(limit),
                active: true,
                suite: suite.to_owned(),
                prefix: prefix.to_vec(),
            })
        }
    }
}

fn leave(w: usize) {
    unnote(w);
    if let Some(x) = &mut *WATCH[w].lock().unwrap() {
        x.active = false;
    }
}

static PROPERTY: Mutex<String> = Mutex::new(String::new());

pub fn replay_path(property: &str, suite: &str, choices: &[u32]) -> String {
    let dir = format!("{}/replay", crate::verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    // a path without blanks
    let suite: String = suite.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
    format!("{}/{}-{}-{:08x}.json", dir, property, suite, hash(choices) as u32)
}

pub fn write_replay(property: &str, suite: &str, choices: &[u32], msg: &str) -> String {
    let path = replay_path(property, suite, choices);
    let ch: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"suite\": {},\n \"choices\": [{}],\n \"message\": {}\n}}\n",
        json(property),
        json(suite),
        ch.join(","),
        json(msg)
    );
    let _ = std::fs::write(&path, s);
    path
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report_and_exit(property: &str, suite: &str, choices: &[u32], msg: &str) -> ! {
    let path = write_replay(property, suite, choices, msg);
    let mut out = std::io::stdout();
    let _ = writeln!(out, "violated in suite {}: {}", suite, msg);
    let _ = writeln!(out, "VIOLATION property={} replay={}", property, path);
    let _ = out.flush();
    sys::exit_now(1)
}

/// Ends the process because of a violation that can't be survived in-process.
pub fn emergency(msg: &str) -> ! {
    let (p, s, c) = CURRENT.with(|c| c.borrow().clone());
    report_and_exit(&p, &s, &c, msg)
}

pub fn start_watchdog(property: &str) {
    *PROPERTY.lock().unwrap() = property.to_owned();
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        for w in WATCH.iter() {
            if let Some(s) = &*w.lock().unwrap() {
                if s.active && s.started.elapsed() > s.limit {
                    let p = PROPERTY.lock().unwrap().clone();
                    report_and_exit(&p, &s.suite, &s.prefix, &format!("no result within {:?}", s.limit));
                }
            }
        }
    });
}

impl Run {
    pub fn new(property: &str, tier: Tier) -> Self {
        let cap = match tier {
            Tier::Quick => 600,
            Tier::Thorough => 6 * 3600,
        };
        Run {
            property: property.to_owned(),
            tier,
            deadline: Instant::now() + Duration::from_secs(cap),
            replay: None,
            only: None,
            suites: Vec::new(),
            violations: Vec::new(),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// `q` in the quick tier, `t` in the thorough one.
    pub fn tiered<T>(&self, q: T, t: T) -> T {
        match self.tier {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }

    fn skip(&self, name: &str) -> bool {
        match (&self.only, &self.replay) {
            (Some(o), _) => o != name,
            (_, Some((s, _))) => s != name,
            _ => false,
        }
    }

    /// Explores every execution of `f` with at most `bound` deviations.
    pub fn explore(&mut self, name: &str, bound: usize, f: impl Fn(&Ctx) -> Verdict + Sync) {
        self.explore_t(name, bound, 60, f)
    }

    /// As `explore`, with a time limit in seconds for a single execution.
    pub fn explore_t(&mut self, name: &str, bound: usize, limit: u64, f: impl Fn(&Ctx) -> Verdict + Sync) {
        if self.skip(name) {
            return;
        }
        let property = self.property.clone();
        if let Some((_, choices)) = self.replay.clone() {
            CURRENT.with(|c| *c.borrow_mut() = (property, name.to_owned(), choices.clone()));
            let ctx = Ctx::default();
            ctx.0.borrow_mut().prefix = choices.clone();
            if let Err(msg) = run_one(&f, &ctx) {
                self.violations.push(Violation { suite: name.to_owned(), choices, msg });
            }
            return;
        }

        let t0 = Instant::now();
        let mut st = SuiteStats { name: name.to_owned(), bound: format!("{} deviations", bound), ..Default::default() };
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let found: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
        let mut level: Vec<Vec<u32>> = vec![Vec::new()];
        let mut all_states: HashSet<u64> = HashSet::new();
        let deadline = self.deadline;

        for dev in 0..=bound {
            let shared = Mutex::new(std::mem::take(&mut level));
            let idle = AtomicUsize::new(0);
            let next: Mutex<Vec<Vec<u32>>> = Mutex::new(Vec::new());
            let agg: Mutex<SuiteStats> = Mutex::new(SuiteStats::default());
            let states: Mutex<&mut HashSet<u64>> = Mutex::new(&mut all_states);
            std::thread::scope(|sc| {
                for w in 0..THREADS {
                    let (shared, idle, next, agg, states) = (&shared, &idle, &next, &agg, &states);
                    let (stop, capped, found, f, property) = (&stop, &capped, &found, &f, &property);
                    sc.spawn(move || {
                        let mut local: Vec<Vec<u32>> = Vec::new();
                        let mut up: Vec<Vec<u32>> = Vec::new();
                        let mut my = SuiteStats::default();
                        let mut seen: HashSet<u64> = HashSet::new();
                        let mut waiting = false;
                        loop {
                            let prefix = match local.pop() {
                                Some(p) => p,
                                None => {
                                    let mut s = shared.lock().unwrap();
                                    match s.pop() {
                                        Some(p) => {
                                            if waiting {
                                                waiting = false;
                                                idle.fetch_sub(1, Ordering::SeqCst);
                                            }
                                            let take = (s.len() / (2 * THREADS)).min(64);
                                            for _ in 0..take {
                                                local.push(s.pop().unwrap());
                                            }
                                            p
                                        }
                                        None => {
                                            if !waiting {
                                                waiting = true;
                                                idle.fetch_add(1, Ordering::SeqCst);
                                            }
                                            drop(s);
                                            if idle.load(Ordering::SeqCst) == THREADS || stop.load(Ordering::SeqCst) {
                                                break;
                                            }
                                            std::thread::sleep(Duration::from_micros(200));
                                            continue;
                                        }
                                    }
                                }
                            };
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                capped.store(true, Ordering::SeqCst);
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                            enter(w, property, name, &prefix, limit);
                            let ctx = Ctx::default();
                            {
                                let mut c = ctx.0.borrow_mut();
                                c.prefix = prefix.clone();
                                c.want_sample = my.samples.len() < 2 || my.executions.is_power_of_two() && my.samples.len() < 6;
                            }
                            let r = run_one(f, &ctx);
                            leave(w);
                            let mut c = ctx.0.borrow_mut();
                            if c.trace.len() < prefix.len() {
                                harness_error("execution diverged: fewer choices than its prefix");
                            }
                            my.executions += 1;
                            my.points += (c.trace.len() - prefix.len()) as u64 + 1;
                            my.steps += c.steps;
                            seen.extend(c.states.drain(..));
                            if let Some(s) = c.sample.take() {
                                my.samples.push(s);
                            }
                            let label = match &r {
                                Ok(()) if c.label.is_empty() => "ok",
                                Ok(()) => &c.label,
                                Err(_) => "violation",
                            };
                            match my.labels.get_mut(label) {
                                Some(n) => *n += 1,
                                None => {
                                    my.labels.insert(label.to_owned(), 1);
                                }
                            }
                            if let Err(msg) = r {
                                // a violation counts when the same execution fails again
                                let again = Ctx::default();
                                again.0.borrow_mut().prefix = prefix.clone();
                                match run_one(f, &again) {
                                    Err(_) => {
                                        found.lock().unwrap().push(Violation { suite: name.to_owned(), choices: prefix.clone(), msg });
                                        stop.store(true, Ordering::SeqCst);
                                        break;
                                    }
                                    Ok(()) => harness_error(&format!("not reproducible: {} {:?}: {}", name, prefix, msg)),
                                }
                            }
                            for i in prefix.len()..c.trace.len() {
                                let p = c.trace[i];
                                for alt in 1..p.n {
                                    if p.cost as usize + dev > bound {
                                        break;
                                    }
                                    let mut q: Vec<u32> = Vec::with_capacity(i + 1);
                                    q.extend(c.trace[..i].iter().map(|p| p.choice));
                                    q.push(alt);
                                    if p.cost == 0 {
                                        local.push(q);
                                    } else {
                                        up.push(q);
                                    }
                                }
                            }
                            if local.len() > 1 && idle.load(Ordering::Relaxed) > 0 {
                                let half = local.len().div_ceil(2);
                                shared.lock().unwrap().extend(local.drain(..half));
                            }
                        }
                        next.lock().unwrap().append(&mut up);
                        let mut a = agg.lock().unwrap();
                        a.executions += my.executions;
                        a.points += my.points;
                        a.steps += my.steps;
                        for (k, v) in my.labels {
                            *a.labels.entry(k).or_default() += v;
                        }
                        a.samples.append(&mut my.samples);
                        states.lock().unwrap().extend(seen);
                    });
                }
            });
            level = next.into_inner().unwrap();
            let a = agg.into_inner().unwrap();
            st.executions += a.executions;
            st.points += a.points;
            st.steps += a.steps;
            for (k, v) in a.labels {
                *st.labels.entry(k).or_default() += v;
            }
            if st.samples.len() < 3 {
                st.samples.extend(a.samples.into_iter().take(3));
            }
            st.levels.push(a.executions);
            if stop.load(Ordering::SeqCst) {
                break;
            }
        }
        st.states = all_states.len() as u64;
        st.capped = capped.load(Ordering::SeqCst);
        st.wall = t0.elapsed().as_secs_f64();
        self.finish(st, found.into_inner().unwrap());
    }

    fn finish(&mut self, st: SuiteStats, mut found: Vec<Violation>) {
        eprintln!(
            "[{}] {}: {} executions {:?}, {} steps, {} states, {:?}, {:.1}s{}",
            self.property,
            st.name,
            st.executions,
            st.levels,
            st.steps,
            st.states,
            st.labels,
            st.wall,
            if st.capped { " CAPPED" } else { "" }
        );
        self.suites.push(st);
        found.sort_by_key(|v| (v.choices.iter().filter(|c| **c != 0).count(), v.choices.len()));
        if let Some(v) = found.into_iter().next() {
            self.violations.push(v);
        }
    }

    /// Breadth-first search of all states reachable from `initials` by at most `depth` operations
    /// out of `nops`; `step` applies one to the implementation and the model and compares them
    /// (None: not enabled). States with equal keys are merged.
    pub fn bfs<S: Send + Sync>(
        &mut self,
        name: &str,
        initials: Vec<S>,
        nops: usize,
        depth: usize,
        step: impl Fn(&S, usize) -> Result<Option<S>, String> + Sync,
        key: impl Fn(&S) -> u64 + Sync,
        show: impl Fn(usize) -> String,
    ) {
        if self.skip(name) {
            return;
        }
        let property = self.property.clone();
        if let Some((_, choices)) = self.replay.clone() {
            CURRENT.with(|c| *c.borrow_mut() = (property, name.to_owned(), choices.clone()));
            let mut it = choices.iter();
            let first = *it.next().unwrap_or(&0) as usize;
            let mut owned: Option<S> = None;
            for op in it {
                let cur = owned.as_ref().unwrap_or(&initials[first]);
                match guard("operation", || step(cur, *op as usize)).and_then(|r| r) {
                    Ok(Some(s)) => owned = Some(s),
                    Ok(None) => harness_error("replayed operation is not enabled"),
                    Err(msg) => {
                        self.violations.push(Violation { suite: name.to_owned(), choices: choices.clone(), msg });
                        return;
                    }
                }
            }
            return;
        }
        let t0 = Instant::now();
        let mut st = SuiteStats { name: name.to_owned(), ..Default::default() };
        let mut seen: HashSet<u64> = HashSet::new();
        let mut frontier: Vec<(Vec<u32>, S)> = Vec::new();
        for (i, s) in initials.into_iter().enumerate() {
            if seen.insert(key(&s)) {
                frontier.push((vec![i as u32], s));
            }
        }
        st.levels.push(frontier.len() as u64);
        let found: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
        let mut done_depth = 0;
        let mut expanded = 0u64;
        let mut closed = false;
        'outer: for d in 0..depth {
            expanded += frontier.len() as u64;
            let idx = AtomicUsize::new(0);
            let trans = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let capped = AtomicBool::new(false);
            let last = d + 1 == depth;
            let out: Mutex<Vec<(Vec<u32>, S, u64)>> = Mutex::new(Vec::new());
            let keys: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
            let deadline = self.deadline;
            std::thread::scope(|sc| {
                for w in 0..THREADS {
                    let (idx, trans, stop, capped, out, keys) = (&idx, &trans, &stop, &capped, &out, &keys);
                    let (frontier, seen, step, key, found, property) = (&frontier, &seen, &step, &key, &found, &property);
                    sc.spawn(move || {
                        let mut mine = Vec::new();
                        let mut mykeys: HashSet<u64> = HashSet::new();
                        loop {
                            let i = idx.fetch_add(1, Ordering::Relaxed);
                            if i >= frontier.len() || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                capped.store(true, Ordering::SeqCst);
                                break;
                            }
                            let (path, s) = &frontier[i];
                            for op in 0..nops {
                                let mut p = path.clone();
                                p.push(op as u32);
                                enter(w, property, name, &p, 60);
                                match guard("operation", || step(s, op)).and_then(|r| r) {
                                    Ok(None) => (),
                                    Ok(Some(n)) => {
                                        trans.fetch_add(1, Ordering::Relaxed);
                                        let k = key(&n);
                                        if !seen.contains(&k) && mykeys.insert(k) && !last {
                                            mine.push((p, n, k));
                                        }
                                    }
                                    Err(msg) => {
                                        // must fail again
                                        if guard("operation", || step(s, op)).and_then(|r| r).is_ok() {
                                            harness_error(&format!("not reproducible: {} {:?}: {}", name, p, msg));
                                        }
                                        found.lock().unwrap().push(Violation { suite: name.to_owned(), choices: p, msg });
                                        stop.store(true, Ordering::SeqCst);
                                        break;
                                    }
                                }
                            }
                            leave(w);
                        }
                        out.lock().unwrap().append(&mut mine);
                        keys.lock().unwrap().extend(mykeys);
                    });
                }
            });
            st.steps += trans.load(Ordering::SeqCst);
            let keys = keys.into_inner().unwrap();
            let fresh = keys.len();
            let mut nf = Vec::new();
            if !last {
                let mut o = out.into_inner().unwrap();
                o.sort_by(|a, b| a.0.cmp(&b.0));
                let mut got = HashSet::new();
                for (p, s, k) in o {
                    if got.insert(k) {
                        nf.push((p, s));
                    }
                }
            }
            seen.extend(keys);
            st.levels.push(fresh as u64);
            if capped.load(Ordering::SeqCst) {
                st.capped = true;
                break 'outer;
            }
            if stop.load(Ordering::SeqCst) {
                break 'outer;
            }
            done_depth = d + 1;
            if fresh == 0 {
                closed = true;
                break 'outer;
            }
            if let Some((p, _)) = nf.last() {
                st.samples.truncate(2);
                st.samples.push(format!("initial {} then {}", p[0], p[1..].iter().map(|o| show(*o as usize)).collect::<Vec<_>>().join("; ")));
            }
            frontier = nf;
        }
        st.bound = if closed {
            "all reachable states (search closed)".to_owned()
        } else {
            format!("all operation sequences up to length {}", done_depth)
        };
        st.executions = expanded;
        st.states = seen.len() as u64;
        st.wall = t0.elapsed().as_secs_f64();
        st.labels.insert("agree".to_owned(), st.steps);
        let f = found.into_inner().unwrap();
        self.finish(st, f);
    }
}

fn run_one(f: &impl Fn(&Ctx) -> Verdict, ctx: &Ctx) -> Verdict {
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(r) => r,
        Err(_) => harness_error(&format!("panic in the harness: {}", PANIC.with(|p| p.borrow().clone()))),
    }
}
