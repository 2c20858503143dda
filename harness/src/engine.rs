//! Enumeration of case spaces and of reachable states, evidence, replay and supervision.
use crate::env;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Bad {
    /// identifies the kind of failure, for the list of known findings
    pub key: String,
    pub text: String,
}
#[derive(Clone, Debug)]
pub struct Good {
    /// observed outcome, for the histogram
    pub class: String,
    /// identity of what was examined
    pub digest: u64,
    /// counts as non-trivial
    pub nontrivial: bool,
    /// library operations performed
    pub steps: u64,
}
pub type Res = Result<Good, Bad>;

pub fn good(class: &str, digest: u64) -> Res {
    Ok(Good { class: class.into(), digest, nontrivial: true, steps: 1 })
}
pub fn good_n(class: &str, digest: u64, steps: u64) -> Res {
    Ok(Good { class: class.into(), digest, nontrivial: true, steps })
}
pub fn trivial(class: &str, digest: u64) -> Res {
    Ok(Good { class: class.into(), digest, nontrivial: false, steps: 1 })
}
pub fn bad<X>(key: &str, text: impl Into<String>) -> Result<X, Bad> {
    Err(Bad { key: key.into(), text: text.into() })
}
impl From<String> for Bad {
    fn from(s: String) -> Bad {
        Bad { key: "violation".into(), text: s }
    }
}
impl From<&str> for Bad {
    fn from(s: &str) -> Bad {
        Bad { key: "violation".into(), text: s.into() }
    }
}

pub fn digest<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(1, 2);
    t.hash(&mut h);
    h.finish()
}
pub fn digest128<T: std::hash::Hash>(t: &T) -> u128 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let (mut a, mut b) = (std::hash::SipHasher::new_with_keys(1, 2), std::hash::SipHasher::new_with_keys(3, 4));
    t.hash(&mut a);
    t.hash(&mut b);
    (a.finish() as u128) << 64 | b.finish() as u128
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
}
impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// quick value or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
}

type Run<'a> = Box<dyn Fn(u64) -> Res + Sync + Send + 'a>;
type Show<'a> = Box<dyn Fn(u64) -> String + Sync + Send + 'a>;

/// A finite space of cases, enumerated completely.
pub struct Space<'a> {
    pub name: String,
    pub what: String,
    pub size: u64,
    pub run: Run<'a>,
    pub show: Show<'a>,
    /// each case on a thread of its own (fixes the order of hash maps and the stack size)
    pub fresh: Option<usize>,
    /// one case at a time
    pub serial: bool,
    /// cases are run by processes with a single thread, from which they can fork safely
    pub procs: bool,
}

impl<'a> Space<'a> {
    pub fn procs(mut self) -> Self {
        self.procs = true;
        self
    }
    pub fn new(name: &str, what: &str, size: u64, run: impl Fn(u64) -> Res + Sync + Send + 'a, show: impl Fn(u64) -> String + Sync + Send + 'a) -> Space<'a> {
        Space { name: name.into(), what: what.into(), size, run: Box::new(run), show: Box::new(show), fresh: None, serial: false, procs: false }
    }
    pub fn fresh(mut self) -> Self {
        self.fresh = Some(8 << 20);
        self
    }
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
}

/// A transition system over real objects, explored breadth first.
pub trait Machine: Sync + Send {
    type S: Clone + Send + Sync;
    fn inits(&self) -> Vec<Self::S>;
    fn nops(&self) -> usize;
    fn show_init(&self, i: usize) -> String;
    fn show_op(&self, op: usize) -> String;
    /// None: not enabled
    fn step(&self, s: &Self::S, op: usize) -> Result<Option<Self::S>, Bad>;
    /// run on every new state
    fn check(&self, _s: &Self::S) -> Result<(), Bad> {
        Ok(())
    }
    fn canon(&self, s: &Self::S) -> u128;
}

pub trait AnyMachine: Sync + Send {
    fn explore(&self, r: &Runner, name: &str, depth: usize, max_states: usize) -> Explored;
    fn replay(&self, path: &[usize]) -> Result<(), Bad>;
    fn show(&self, path: &[usize]) -> String;
}

pub struct Explored {
    pub states: u64,
    pub transitions: u64,
    pub depth: usize,
    pub complete: bool,
    pub capped: bool,
    pub per_level: Vec<u64>,
    pub sample: String,
}

pub enum Item<'a> {
    Space(Space<'a>),
    Machine { name: String, what: String, m: Box<dyn AnyMachine + 'a>, depth: usize, max_states: usize },
}

impl<'a> From<Space<'a>> for Item<'a> {
    fn from(s: Space<'a>) -> Item<'a> {
        Item::Space(s)
    }
}

pub fn machine<'a, M: Machine + 'a>(name: &str, what: &str, m: M, depth: usize, max_states: usize) -> Item<'a> {
    Item::Machine { name: name.into(), what: what.into(), m: Box::new(m), depth, max_states }
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{}{}", msg, loc);
            }
        });
    }));
}

/// Runs library code, turning a panic into its message.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

fn guarded_case(f: &dyn Fn() -> Res) -> Res {
    match no_panic(f) {
        Ok(r) => r,
        Err(m) => bad("panic", format!("panic: {}", m)),
    }
}

pub fn on_thread<R: Send>(stack: usize, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(stack).spawn_scoped(s, f).expect("thread").join().expect("joined"))
}

/// A thread whose hash maps have an order determined by `seed`.
pub fn on_seeded_thread<R: Send>(stack: usize, seed: u64, f: impl FnOnce() -> R + Send) -> R {
    on_thread(stack, || {
        env::rng(env::Rng::Stream(seed ^ 0x5eed));
        let _ = std::collections::HashMap::<u8, u8>::new();
        f()
    })
}

impl<'a> Space<'a> {
    pub fn run_case(&self, i: u64) -> Res {
        let f = || {
            env::rng(env::Rng::Stream(env::mix(i ^ 0xc0ffee)));
            guarded_case(&|| (self.run)(i))
        };
        match self.fresh {
            Some(stack) => on_seeded_thread(stack, i, f),
            None => f(),
        }
    }
}

// ---------------------------------------------------------------- processes

pub fn encode_res(r: &Res) -> Vec<u8> {
    match r {
        Ok(g) => format!("G\u{1}{}\u{1}{}\u{1}{}\u{1}{}", g.class, g.digest, g.nontrivial as u8, g.steps),
        Err(b) => format!("B\u{1}{}\u{1}{}", b.key, b.text),
    }
    .into_bytes()
}
pub fn decode_res(b: &[u8]) -> Option<Res> {
    let t = String::from_utf8_lossy(b).to_string();
    let w: Vec<&str> = t.split('\u{1}').collect();
    match w[..] {
        ["G", c, d, n, s] => Some(Ok(Good { class: c.into(), digest: d.parse().unwrap_or(0), nontrivial: n == "1", steps: s.parse().unwrap_or(1) })),
        ["B", k, t] => Some(bad(k, t)),
        _ => None,
    }
}
fn write_fd(fd: i32, mut d: &[u8]) -> bool {
    while !d.is_empty() {
        let n = unsafe { libc::write(fd, d.as_ptr() as *const _, d.len()) };
        if n <= 0 {
            return false;
        }
        d = &d[n as usize..];
    }
    true
}
fn read_fd(fd: i32, n: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; n];
    let mut at = 0;
    while at < n {
        let k = unsafe { libc::read(fd, v[at..].as_mut_ptr() as *mut _, n - at) };
        if k <= 0 {
            return None;
        }
        at += k as usize;
    }
    Some(v)
}

/// A process with one thread that runs cases on request.
struct Worker {
    pid: i32,
    to: i32,
    from: i32,
}
impl Worker {
    /// To be called while this process has one thread only.
    fn new(s: &Space, others: &[Worker]) -> Worker {
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0, "pipe");
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(a[1]);
                libc::close(b[0]);
                for o in others {
                    libc::close(o.to);
                    libc::close(o.from);
                }
                while let Some(i) = read_fd(a[0], 8) {
                    let r = encode_res(&s.run_case(u64::from_le_bytes(i.try_into().unwrap())));
                    let mut m = (r.len() as u32).to_le_bytes().to_vec();
                    m.extend(r);
                    if !write_fd(b[1], &m) {
                        break;
                    }
                }
                libc::_exit(0);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Worker { pid, to: a[1], from: b[0] }
        }
    }
    fn run(&self, i: u64) -> Res {
        let r = || {
            if !write_fd(self.to, &i.to_le_bytes()) {
                return None;
            }
            let n = read_fd(self.from, 4)?;
            decode_res(&read_fd(self.from, u32::from_le_bytes(n.try_into().unwrap()) as usize)?)
        };
        r().unwrap_or_else(|| bad("crash", "the process running the case ended"))
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.to);
            libc::close(self.from);
            libc::kill(self.pid, libc::SIGKILL);
            libc::waitpid(self.pid, std::ptr::null_mut(), 0);
        }
    }
}

// ---------------------------------------------------------------- slots

const SLOT: usize = 4096;
const NSLOT: usize = 64;

pub struct Slots {
    p: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    pub fn open(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
        f.set_len((SLOT * NSLOT) as u64).expect("slot file size");
        let p = unsafe { libc::mmap(std::ptr::null_mut(), SLOT * NSLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED, "mmap");
        Slots { p: p as *mut u8 }
    }
    fn none() -> Slots {
        let v = vec![0u8; SLOT * NSLOT].leak();
        Slots { p: v.as_mut_ptr() }
    }
    pub fn set(&self, i: usize, token: &str) {
        unsafe {
            let p = self.p.add(i * SLOT);
            std::ptr::write_volatile(p as *mut u64, 0);
            let n = token.len().min(SLOT - 16);
            std::ptr::copy_nonoverlapping(token.as_ptr(), p.add(16), n);
            std::ptr::write_volatile(p.add(8) as *mut u64, n as u64);
            std::ptr::write_volatile(p as *mut u64, now_ms().max(1));
        }
    }
    pub fn clear(&self, i: usize) {
        unsafe { std::ptr::write_volatile(self.p.add(i * SLOT) as *mut u64, 0) }
    }
    pub fn read(&self) -> Vec<(u64, String)> {
        (0..NSLOT)
            .filter_map(|i| unsafe {
                let p = self.p.add(i * SLOT);
                let t = std::ptr::read_volatile(p as *const u64);
                if t == 0 {
                    return None;
                }
                let n = (std::ptr::read_volatile(p.add(8) as *const u64) as usize).min(SLOT - 16);
                let s = std::slice::from_raw_parts(p.add(16), n);
                Some((t, String::from_utf8_lossy(s).to_string()))
            })
            .collect()
    }
}

pub fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

// ---------------------------------------------------------------- runner

pub struct Known {
    pub key: String,
    pub text: String,
}

pub struct Runner<'c> {
    pub ctx: &'c Ctx,
    pub threads: usize,
    pub slots: Slots,
    pub known: Vec<Known>,
    pub deadline: Instant,
    pub classes: Mutex<BTreeMap<String, u64>>,
    pub digests: Mutex<HashSet<u64>>,
    pub known_seen: Mutex<BTreeMap<String, (u64, String)>>,
    pub found: Mutex<Option<(u64, String, Bad)>>,
    pub evaluations: AtomicU64,
    pub steps: AtomicU64,
    pub states: AtomicU64,
    pub timed_out: AtomicBool,
}

impl<'c> Runner<'c> {
    pub fn is_known(&self, b: &Bad) -> bool {
        self.known.iter().any(|k| k.key == b.key)
    }
    fn report(&self, order: u64, token: String, b: Bad) -> bool {
        if self.is_known(&b) {
            let mut k = self.known_seen.lock().unwrap();
            let e = k.entry(b.key.clone()).or_insert((0, format!("{}: {}", token, b.text)));
            e.0 += 1;
            return false;
        }
        let mut f = self.found.lock().unwrap();
        if f.as_ref().map_or(true, |x| order < x.0) {
            *f = Some((order, token, b));
        }
        true
    }

    fn run_space(&self, s: &Space) -> (u64, Vec<String>) {
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let threads = if s.serial { 1 } else { self.threads };
        let chunk = (s.size / (threads as u64 * 64)).clamp(1, 4096);
        let mut procs: Vec<Worker> = vec![];
        for _ in 0..if s.procs { threads } else { 0 } {
            let w = Worker::new(s, &procs);
            procs.push(w);
        }
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, done, stop_at, procs) = (&next, &done, &stop_at, &procs);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
                        let mut digs: Vec<u64> = vec![];
                        let mut steps = 0;
                        'out: loop {
                            let a = next.fetch_add(chunk, Ordering::SeqCst);
                            if a >= s.size {
                                break;
                            }
                            for i in a..(a + chunk).min(s.size) {
                                if i > stop_at.load(Ordering::Relaxed) || self.timed_out.load(Ordering::Relaxed) {
                                    break 'out;
                                }
                                let token = format!("{}:{}", s.name, i);
                                self.slots.set(t, &token);
                                let r = if s.procs { procs[t].run(i) } else { s.run_case(i) };
                                self.slots.clear(t);
                                done.fetch_add(1, Ordering::Relaxed);
                                match r {
                                    Ok(g) => {
                                        *classes.entry(g.class).or_insert(0) += 1;
                                        steps += g.steps;
                                        if g.nontrivial {
                                            digs.push(g.digest);
                                        }
                                    }
                                    Err(b) => {
                                        if self.report(i, token, b) {
                                            stop_at.fetch_min(i, Ordering::Relaxed);
                                        }
                                    }
                                }
                            }
                            if Instant::now() > self.deadline {
                                self.timed_out.store(true, Ordering::Relaxed);
                            }
                        }
                        self.steps.fetch_add(steps, Ordering::Relaxed);
                        let mut c = self.classes.lock().unwrap();
                        for (k, v) in classes {
                            *c.entry(k).or_insert(0) += v;
                        }
                        drop(c);
                        let mut d = self.digests.lock().unwrap();
                        if d.len() < 20_000_000 {
                            d.extend(digs);
                        }
                    })
                    .expect("worker");
            }
        });
        let n = done.load(Ordering::SeqCst);
        self.evaluations.fetch_add(n, Ordering::Relaxed);
        let mut sample = vec![(s.show)(0)];
        if s.size > 2 {
            sample.push((s.show)(s.size / 2));
        }
        (n, sample)
    }
}

impl<M: Machine> AnyMachine for M {
    fn explore(&self, r: &Runner, name: &str, depth: usize, max_states: usize) -> Explored {
        let mut seen: HashSet<u128> = HashSet::new();
        let mut frontier: Vec<(M::S, Vec<u16>)> = vec![];
        for (i, s) in self.inits().into_iter().enumerate() {
            if seen.insert(self.canon(&s)) {
                if let Err(b) = guarded_case(&|| self.check(&s).map(|_| Good { class: String::new(), digest: 0, nontrivial: false, steps: 0 })) {
                    r.report(0, format!("{}:{}", name, i), b);
                }
                frontier.push((s, vec![i as u16]));
            }
        }
        let mut states = frontier.len() as u64;
        let transitions = AtomicU64::new(0);
        let mut per_level = vec![states];
        let (mut d, mut capped) = (0, false);
        let mut last = frontier.last().map(|x| x.1.clone()).unwrap_or_default();
        while d < depth && !frontier.is_empty() {
            if r.found.lock().unwrap().is_some() || r.timed_out.load(Ordering::Relaxed) {
                capped = true;
                break;
            }
            let idx = AtomicUsize::new(0);
            let out: Mutex<Vec<(u128, M::S, Vec<u16>)>> = Mutex::new(vec![]);
            let fr = &frontier;
            std::thread::scope(|sc| {
                for t in 0..r.threads {
                    let (idx, out, transitions, seen) = (&idx, &out, &transitions, &seen);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || {
                            let mut mine: Vec<(u128, M::S, Vec<u16>)> = vec![];
                            let mut local: HashSet<u128> = HashSet::new();
                            loop {
                                let i = idx.fetch_add(1, Ordering::SeqCst);
                                if i >= fr.len() || r.timed_out.load(Ordering::Relaxed) {
                                    break;
                                }
                                if i % 64 == 0 && Instant::now() > r.deadline {
                                    r.timed_out.store(true, Ordering::Relaxed);
                                }
                                let (s, path) = &fr[i];
                                for op in 0..self.nops() {
                                    let mut p = path.clone();
                                    p.push(op as u16);
                                    let token = format!("{}:{}", name, p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."));
                                    r.slots.set(t, &token);
                                    env::rng(env::Rng::Stream(digest(&p)));
                                    let x = match no_panic(|| match self.step(s, op) {
                                        Ok(Some(n)) => self.check(&n).map(|_| Some(n)),
                                        x => x,
                                    }) {
                                        Ok(x) => x,
                                        Err(m) => bad("panic", format!("panic: {}", m)),
                                    };
                                    r.slots.clear(t);
                                    match x {
                                        Ok(None) => {}
                                        Ok(Some(n)) => {
                                            transitions.fetch_add(1, Ordering::Relaxed);
                                            let c = self.canon(&n);
                                            if !seen.contains(&c) && local.insert(c) {
                                                mine.push((c, n, p));
                                            }
                                        }
                                        Err(b) => {
                                            transitions.fetch_add(1, Ordering::Relaxed);
                                            r.report((d as u64) << 40 | (i as u64) << 12 | op as u64, token, b);
                                        }
                                    }
                                }
                            }
                            out.lock().unwrap().extend(mine);
                        })
                        .expect("worker");
                }
            });
            let mut new = out.into_inner().unwrap();
            new.sort_by(|a, b| a.2.cmp(&b.2));
            frontier = vec![];
            for (c, s, p) in new {
                if seen.len() >= max_states {
                    capped = true;
                    break;
                }
                if seen.insert(c) {
                    frontier.push((s, p));
                }
            }
            d += 1;
            states += frontier.len() as u64;
            per_level.push(frontier.len() as u64);
            if let Some(l) = frontier.last() {
                last = l.1.clone();
            }
            if capped {
                break;
            }
        }
        let complete = frontier.is_empty() && !capped && !r.timed_out.load(Ordering::Relaxed);
        let t = transitions.load(Ordering::SeqCst);
        r.states.fetch_add(states, Ordering::Relaxed);
        r.steps.fetch_add(t, Ordering::Relaxed);
        r.evaluations.fetch_add(t, Ordering::Relaxed);
        let path: Vec<usize> = last.iter().map(|x| *x as usize).collect();
        Explored { states, transitions: t, depth: d, complete, capped: capped || r.timed_out.load(Ordering::Relaxed), per_level, sample: self.show(&path) }
    }

    fn replay(&self, path: &[usize]) -> Result<(), Bad> {
        let mut s = self.inits().into_iter().nth(path[0]).ok_or_else(|| Bad::from("no such initial state"))?;
        let mut p: Vec<u16> = vec![path[0] as u16];
        self.check(&s)?;
        for &op in &path[1..] {
            p.push(op as u16);
            env::rng(env::Rng::Stream(digest(&p)));
            match no_panic(|| match self.step(&s, op) {
                Ok(Some(n)) => self.check(&n).map(|_| Some(n)),
                x => x,
            }) {
                Ok(Ok(Some(n))) => s = n,
                Ok(Ok(None)) => {}
                Ok(Err(b)) => return Err(b),
                Err(m) => return bad("panic", format!("panic: {}", m)),
            }
        }
        Ok(())
    }

    fn show(&self, path: &[usize]) -> String {
        if path.is_empty() {
            return String::new();
        }
        let mut v = vec![self.show_init(path[0])];
        v.extend(path[1..].iter().map(|&o| self.show_op(o)));
        v.join("; ")
    }
}

// ---------------------------------------------------------------- JSON

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---------------------------------------------------------------- whole check

pub struct CheckDef {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub items: fn(&Ctx) -> Vec<Item<'static>>,
    pub assumptions: &'static [&'static str],
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn load_known(id: &str) -> Vec<Known> {
    let p = format!("{}/known_findings.txt", verif_dir());
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        // known: property=C20 key=<key> <text>
        if let Some(r) = l.strip_prefix(&format!("known: property={} key=", id)) {
            let (k, t) = r.split_once(' ').unwrap_or((r, ""));
            v.push(Known { key: k.into(), text: t.into() });
        }
    }
    v
}

/// Exit codes of the inner process: 0 quiet, 1 violation reported, 2 other.
pub fn run_inner(def: &CheckDef, ctx: &Ctx, slots: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let threads = std::env::var("KPDB_MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let budget = std::env::var("KPDB_MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(ctx.q(420, 10_000));
    let r = Runner {
        ctx,
        threads,
        slots: slots.map_or_else(Slots::none, Slots::open),
        known: load_known(def.id),
        deadline: Instant::now() + Duration::from_secs(budget),
        classes: Mutex::new(BTreeMap::new()),
        digests: Mutex::new(HashSet::new()),
        known_seen: Mutex::new(BTreeMap::new()),
        found: Mutex::new(None),
        evaluations: AtomicU64::new(0),
        steps: AtomicU64::new(0),
        states: AtomicU64::new(0),
        timed_out: AtomicBool::new(false),
    };
    let items = (def.items)(ctx);
    let verbose = std::env::var("KPDB_MC_VERBOSE").is_ok();
    let only = std::env::var("KPDB_MC_ONLY").ok();
    let mut samples: Vec<String> = vec![];
    let mut spaces: Vec<String> = vec![];
    let mut all_complete = true;
    for it in &items {
        let t = Instant::now();
        let name = match it {
            Item::Space(s) => &s.name,
            Item::Machine { name, .. } => name,
        };
        if only.as_ref().map_or(false, |o| o != name) {
            continue;
        }
        match it {
            Item::Space(s) => {
                let (n, sm) = r.run_space(s);
                all_complete &= n == s.size;
                samples.extend(sm.into_iter().map(|x| format!("{}: {}", s.name, x)));
                spaces.push(format!("{{\"name\":{},\"what\":{},\"size\":{},\"run\":{}}}", js(&s.name), js(&s.what), s.size, n));
            }
            Item::Machine { name, what, m, depth, max_states } => {
                let e = m.explore(&r, name, *depth, *max_states);
                // complete up to the stated depth counts as enumerated; a cap does not
                all_complete &= !e.capped;
                samples.push(format!("{}: {}", name, e.sample));
                spaces.push(format!(
                    "{{\"name\":{},\"what\":{},\"states\":{},\"transitions\":{},\"depth\":{},\"all_states_reached\":{},\"capped\":{},\"states_per_level\":{:?}}}",
                    js(name), js(what), e.states, e.transitions, e.depth, e.complete, e.capped, e.per_level
                ));
            }
        }
        if verbose {
            println!("{:8.2}s {}", t.elapsed().as_secs_f64(), spaces.last().unwrap());
        }
        if r.found.lock().unwrap().is_some() {
            all_complete = false;
            break;
        }
    }
    let found = r.found.lock().unwrap().take();
    let known_seen = r.known_seen.lock().unwrap().clone();
    let mut rc = 0;
    if let Some((_, token, b)) = &found {
        let again: Vec<bool> = (0..2).map(|_| replay_token(&items, token).is_err()).collect();
        let shown = show_token(&items, token);
        let path = write_replay(def.id, token, &shown, &b.text, Some(&again));
        println!("{}: {}", token, shown);
        println!("{}", b.text);
        println!("VIOLATION property={} replay={}", def.id, path);
        rc = 1;
    }
    for k in &r.known {
        let n = known_seen.get(&k.key).map_or(0, |x| x.0);
        if n > 0 {
            println!("KNOWN-FINDING: property={} {} (key {}, {} cases)", def.id, k.text, k.key, n);
        } else if found.is_none() && only.is_none() {
            println!("note: listed finding {} did not occur in this run", k.key);
        }
    }
    let evals = r.evaluations.load(Ordering::SeqCst);
    let steps = r.steps.load(Ordering::SeqCst);
    let distinct = r.digests.lock().unwrap().len() as u64;
    let mstates = r.states.load(Ordering::SeqCst);
    let classes = r.classes.lock().unwrap();
    let mut cov = String::new();
    if def.level == "model_checking" {
        cov.push_str(&format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},", mstates + distinct, steps, evals));
    } else {
        cov.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},", evals, distinct + mstates));
    }
    let mut cls: Vec<_> = classes.iter().collect();
    cls.sort_by(|a, b| b.1.cmp(a.1));
    cov.push_str(&format!(
        "\"rule\":{},\"exhaustive\":{},\"samples\":[{}],\"spaces\":[{}],\"outcome_classes\":{},\"outcomes\":{{{}}},\"known_findings_seen\":{}",
        js(def.rule),
        all_complete,
        samples.iter().take(60).map(|s| js(&crate::model::clip400(s))).collect::<Vec<_>>().join(","),
        spaces.join(","),
        cls.len(),
        cls.iter().take(60).map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
        known_seen.len(),
    ));
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        js(def.id),
        js(ctx.q("quick", "thorough")),
        ctx.seed,
        js(def.level),
        cov,
        def.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        found.is_some() as u32
    );
    write_evidence(def.id, &ev);
    println!(
        "{}: {} cases/transitions, {} library steps, {} states/distinct cases, {} outcome classes, complete={} in {:.1}s{}",
        def.id, evals, steps, mstates + distinct, cls.len(), all_complete, t0.elapsed().as_secs_f64(), if rc == 0 { "" } else { " — VIOLATED" }
    );
    rc
}

pub fn write_evidence(id: &str, text: &str) {
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let tmp = format!("{}/.{}.tmp", dir, id);
    std::fs::write(&tmp, text).expect("evidence");
    std::fs::rename(&tmp, format!("{}/{}.json", dir, id)).expect("evidence");
}

pub fn write_replay(id: &str, token: &str, shown: &str, text: &str, again: Option<&[bool]>) -> String {
    let dir = format!("{}/build/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, id);
    let mut f = std::fs::File::create(&path).expect("replay file");
    let _ = writeln!(f, "property={}\ntoken={}\ncase: {}\nobserved: {}", id, token, shown, text);
    if let Some(a) = again {
        let _ = writeln!(f, "repeated on its own: fails {} of {} times", a.iter().filter(|x| **x).count(), a.len());
    }
    let _ = writeln!(f, "replay: cd {} && ./run_check.sh --replay {}", verif_dir(), path);
    path
}

pub fn show_token(items: &[Item], token: &str) -> String {
    let (n, rest) = token.rsplit_once(':').unwrap_or((token, "0"));
    for it in items {
        match it {
            Item::Space(s) if s.name == n => return (s.show)(rest.parse().unwrap_or(0)),
            Item::Machine { name, m, .. } if name == n => {
                return m.show(&rest.split('.').filter_map(|x| x.parse().ok()).collect::<Vec<_>>());
            }
            _ => {}
        }
    }
    token.into()
}

pub fn replay_token(items: &[Item], token: &str) -> Result<(), Bad> {
    let (n, rest) = token.rsplit_once(':').unwrap_or((token, "0"));
    for it in items {
        match it {
            Item::Space(s) if s.name == n => return s.run_case(rest.parse().unwrap_or(0)).map(|_| ()),
            Item::Machine { name, m, .. } if name == n => {
                return m.replay(&rest.split('.').filter_map(|x| x.parse().ok()).collect::<Vec<_>>());
            }
            _ => {}
        }
    }
    Err(Bad::from(format!("no case {}", token)))
}

/// Parent of the exploring process: attributes crashes and hangs to cases.
pub fn supervise(def: &CheckDef, ctx: &Ctx) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().expect("exe");
    let tier = ctx.q("quick", "thorough");
    let dir = format!("{}/build", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let slot_path = format!("{}/slots-{}-{}", dir, def.id, std::process::id());
    let hang_ms: u64 = 25_000;
    let mut last = String::new();
    for attempt in 0..2 {
        let slots = Slots::open(&slot_path);
        for i in 0..NSLOT {
            slots.clear(i);
        }
        let mut c = Command::new(&exe);
        c.args(["check-inner", def.id, &slot_path]).env("VERIF_TIER", tier).stdin(Stdio::null());
        if std::env::var("KPDB_MC_STDERR").is_err() {
            // the library reports dropped associations there
            c.stderr(Stdio::null());
        }
        if attempt == 1 {
            c.env("KPDB_MC_THREADS", "2");
        }
        let mut child = c.spawn().expect("child");
        let mut suspects: Vec<String> = vec![];
        let status = loop {
            if let Some(st) = child.try_wait().expect("wait") {
                break Some(st);
            }
            let now = now_ms();
            let slow: Vec<String> = slots.read().into_iter().filter(|(t, _)| now > *t && now - *t > hang_ms).map(|x| x.1).collect();
            if !slow.is_empty() {
                suspects = slow;
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(20));
        };
        if let Some(st) = status {
            if let Some(code) = st.code() {
                if code == 0 || code == 1 {
                    let _ = std::fs::remove_file(&slot_path);
                    return code;
                }
                println!("{}: the exploring process ended with code {}", def.id, code);
            }
            last = match st.signal() {
                Some(s) => format!("signal {}", s),
                None => format!("code {:?}", st.code()),
            };
            suspects = slots.read().into_iter().map(|x| x.1).collect();
        } else {
            last = "no progress".to_string();
        }
        println!("{}: exploration interrupted ({}); examining {} cases one by one", def.id, last, suspects.len());
        for tok in &suspects {
            let (kind, text) = isolated(&exe, def.id, tok, tier, 60);
            if kind != "ok" {
                let items = (def.items)(ctx);
                let shown = show_token(&items, tok);
                let key = kind;
                if load_known(def.id).iter().any(|k| k.key == key) {
                    continue;
                }
                let path = write_replay(def.id, tok, &shown, &text, None);
                let ev = format!(
                    "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{\"evaluations\":1,\"distinct_nontrivial\":1,\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":1,\"rule\":{},\"samples\":[{}],\"exhaustive\":false}},\"wall_s\":0,\"violations\":1}}\n",
                    js(def.id), js(tier), ctx.seed, js(def.level), js(def.rule), js(&shown)
                );
                write_evidence(def.id, &ev);
                println!("{}: {}", tok, shown);
                println!("{}", text);
                println!("VIOLATION property={} replay={}", def.id, path);
                let _ = std::fs::remove_file(&slot_path);
                return 1;
            }
        }
    }
    let _ = std::fs::remove_file(&slot_path);
    println!("{}: exploration failed twice ({}) and no single case reproduces it", def.id, last);
    2
}

/// Runs one case in a process of its own.
pub fn isolated(exe: &std::path::Path, id: &str, token: &str, tier: &str, secs: u64) -> (&'static str, String) {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let mut c = Command::new(exe)
        .args(["one", id, token])
        .env("VERIF_TIER", tier)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().expect("wait") {
            let mut out = String::new();
            use std::io::Read;
            let _ = c.stdout.take().unwrap().read_to_string(&mut out);
            return match (st.code(), st.signal()) {
                (Some(0), _) => ("ok", out),
                (Some(1), _) => ("violation", out),
                (_, Some(s)) => ("crash", format!("the process was ended by signal {}{}", s, match s {
                    6 => " (abort: stack overflow, allocation failure or panic while unwinding)",
                    11 => " (invalid memory access)",
                    9 => " (killed)",
                    _ => "",
                })),
                (c, _) => ("crash", format!("the process ended with {:?}", c)),
            };
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            return ("hang", format!("no answer within {} s", secs));
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}
