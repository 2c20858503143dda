//! Operations side by side, inside one another and one after the other. Every case runs in a
//! process of its own, so that what one history leaves behind cannot reach another.
use super::c04::Cred;
use crate::engine::*;
use crate::env;
use crate::kdbx;
use crate::lk::*;
use crate::model::*;
use crate::xmlmodel;
use kpdb::*;
use std::cell::{Cell, RefCell};
use std::io::{Read, Write};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Duration;

// ---------------------------------------------------------------- a process per case

/// Runs the closure in a child process.
fn forked(f: impl FnOnce() -> Res) -> Res {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            panic!("harness: pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("harness: fork");
        }
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = no_panic(f).unwrap_or_else(|m| bad("panic", format!("panic: {}", m)));
            let t = encode_res(&r);
            let mut d = &t[..];
            while !d.is_empty() {
                let n = libc::write(p[1], d.as_ptr() as *const _, d.len());
                if n <= 0 {
                    break;
                }
                d = &d[n as usize..];
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut out: Vec<u8> = vec![];
        let end = now_ms() + 20_000;
        let mut hung = false;
        loop {
            let mut fd = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            let left = end.saturating_sub(now_ms());
            let n = libc::poll(&mut fd, 1, left as i32);
            if n == 0 {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let mut b = [0u8; 4096];
            let n = libc::read(p[0], b.as_mut_ptr() as *mut _, b.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&b[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if hung {
            return bad("deadlock", "the operations do not end");
        }
        match decode_res(&out) {
            Some(r) => r,
            _ if libc::WIFSIGNALED(st) => bad("crash", format!("the process dies of signal {}", libc::WTERMSIG(st))),
            _ => bad("crash", "the process ends early"),
        }
    }
}

// ---------------------------------------------------------------- the operations

struct Fix {
    a: MDb,
    a2: MDb,
    b: MDb,
    bad: MDb,
    cred_a: Cred,
    cred_b: Cred,
    file_a: Vec<u8>,
    file_a2: Vec<u8>,
    file_b: Vec<u8>,
    bad_xml: Vec<u8>,
    kf_xml: Vec<u8>,
    kf_hex: Vec<u8>,
    key: Vec<u8>,
    key2: Vec<u8>,
}
fn fix() -> &'static Fix {
    static F: OnceLock<Fix> = OnceLock::new();
    F.get_or_init(|| {
        let cred_a = Cred::Pw("first".into());
        let cred_b = Cred::Both("second".into(), (1..33).collect(), 1);
        let (mut a, mut a2, mut b) = (small(cred_a.reference()), small(cred_a.reference()), small(cred_b.reference()));
        a.name = "database A".into();
        a2.name = "another database under the same password".into();
        a2.rounds = 3;
        a2.gzip = false;
        a2.root.entries.push(MEntry::new(uid(60)).s(MKey::Title, "only in A2").p(MKey::Notes, "secret of A2"));
        b.name = "database B".into();
        b.rounds = 2;
        b.gzip = false;
        b.comment = Some(b"of B".to_vec());
        b.binaries.insert("0".into(), vec![9; 30]);
        b.root.entries[0].binaries.insert("file".into(), BVal::Ref("0".into()));
        b.root.entries.push(MEntry::new(uid(61)).s(MKey::Title, "only in B").p(MKey::Other("PIN".into()), "4711 of B").p(MKey::Password, "password of B"));
        let mut g = MGroup::new(uid(70), "group of B");
        g.entries.push(MEntry::new(uid(62)).p(MKey::Password, "deeper"));
        b.root.groups.push(g);
        for m in [&mut a, &mut a2, &mut b] {
            m.root.fix_parents(NIL);
        }
        let mut bad_ = a.clone();
        bad_.name = "no file can hold \u{1}".into();
        // files by the independent writer
        let file = |m: &MDb, n: u8| -> Vec<u8> {
            let mut d = super::c03::dialect(m.ckey);
            d.params.rounds = m.rounds;
            d.params.gzip = m.gzip;
            d.params.comment = m.comment.clone();
            d.params.master_seed = [n; 32];
            super::c03::file_of(m, &d)
        };
        let (file_a, file_a2, file_b) = (file(&a, 1), file(&a2, 2), file(&b, 3));
        // a document that breaks off after protected values were read
        let bad_xml = {
            let mut d = super::c03::dialect(b.ckey);
            d.params.rounds = 2;
            d.params.gzip = false;
            let tree = super::c03::tree_of(&b, &d);
            let xml = crate::xmlmodel::serialise(&tree, &d.text, d.params.salsa());
            let at = xml.rfind("</Entry>").unwrap();
            super::c03::file_of_text(&format!("{}<Times><UsageCount>many</UsageCount></Times>{}", &xml[..at], &xml[at..]), &d)
        };
        let key: Vec<u8> = (10..42).collect();
        let key2: Vec<u8> = (100..132).collect();
        let kf_xml = format!("<?xml version=\"1.0\"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>{}</Data></Key></KeyFile>", crate::refs::b64::enc(&key)).into_bytes();
        let kf_hex = crate::refs::b64::hex(&key2).into_bytes();
        Fix { a, a2, b, bad: bad_, cred_a, cred_b, file_a, file_a2, file_b, bad_xml, kf_xml, kf_hex, key, key2 }
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum O {
    OpenA,
    OpenA2,
    OpenB,
    SaveA,
    SaveA2,
    SaveB,
    KfXml,
    KfHex,
    KfSave,
    OpenWrong,
    OpenCut,
    OpenBroken,
    OpenNoFile,
    OpenBadXml,
    SaveFails,
    SaveBad,
    KfBad,
    SourceFails,
}
const ALL: [O; 18] = [
    O::OpenA,
    O::OpenA2,
    O::OpenB,
    O::SaveA,
    O::SaveA2,
    O::SaveB,
    O::KfXml,
    O::KfHex,
    O::KfSave,
    O::OpenWrong,
    O::OpenCut,
    O::OpenBroken,
    O::OpenNoFile,
    O::OpenBadXml,
    O::SaveFails,
    O::SaveBad,
    O::KfBad,
    O::SourceFails,
];

type Hook<'a> = &'a dyn Fn(u64);

struct Src<'a> {
    d: &'a [u8],
    at: usize,
    calls: u64,
    fail: Option<u64>,
    hook: Hook<'a>,
}
impl Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        (self.hook)(self.calls);
        if self.fail == Some(self.calls) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "scripted"));
        }
        // never more than this at once, so that there are several calls
        let n = b.len().min(self.d.len() - self.at).min(400);
        b[..n].copy_from_slice(&self.d[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
struct Snk<'a> {
    got: Vec<u8>,
    calls: u64,
    fail: Option<u64>,
    hook: Hook<'a>,
}
impl Write for Snk<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        (self.hook)(self.calls);
        if self.fail == Some(self.calls) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "scripted"));
        }
        let n = b.len().min(400);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

thread_local! {
    static FILES: RefCell<Vec<(usize, Vec<u8>)>> = const { RefCell::new(vec![]) };
}

fn opened(d: std::result::Result<Database, Error>, m: &MDb, o: O) -> std::result::Result<(), Bad> {
    match d {
        Ok(d) => {
            let got = of(&d);
            let mut want = m.after_reopen();
            want.generator = got.generator.clone();
            match diff(&want, &got) {
                None => Ok(()),
                Some(x) => bad("content", format!("{:?}: {}", o, x)),
            }
        }
        Err(e) => bad("refused", format!("{:?} fails: {:?}", o, e)),
    }
}
fn must_fail<T>(r: std::result::Result<T, Error>, o: O) -> std::result::Result<(), Bad> {
    match r {
        Ok(_) => bad("accepted", format!("{:?} succeeds", o)),
        Err(_) => Ok(()),
    }
}

/// Performs the operation, calling the hook at each call of the source or sink, and judges it.
fn exec(o: O, hook: Hook) -> std::result::Result<(), Bad> {
    let f = fix();
    let src = |d: &'static [u8], fail: Option<u64>| Src { d, at: 0, calls: 0, fail, hook };
    let open = |d: &'static [u8], c: &Cred, fail: Option<u64>| Database::open(&mut src(d, fail), &c.key());
    let save = |m: &MDb, c: &Cred, fail: Option<u64>| {
        let d = build(m, &c.key());
        let mut s = Snk { got: vec![], calls: 0, fail, hook };
        let r = d.save(&mut s);
        // whatever happened, the database is what it was
        if let Some(x) = diff(m, &of(&d)) {
            return bad("altered", format!("{:?} changed the database: {}", o, x));
        }
        Ok((r, s.got))
    };
    let saved = |m: &MDb, c: &Cred, n: usize| -> std::result::Result<(), Bad> {
        let (r, got) = save(m, c, None)?;
        if let Err(e) = r {
            return bad("refused", format!("{:?} fails: {:?}", o, e));
        }
        FILES.with(|f| f.borrow_mut().push((n, got)));
        Ok(())
    };
    match o {
        O::OpenA => opened(open(&f.file_a, &f.cred_a, None), &f.a, o),
        O::OpenA2 => opened(open(&f.file_a2, &f.cred_a, None), &f.a2, o),
        O::OpenB => opened(open(&f.file_b, &f.cred_b, None), &f.b, o),
        O::SaveA => saved(&f.a, &f.cred_a, 0),
        O::SaveA2 => saved(&f.a2, &f.cred_a, 1),
        O::SaveB => saved(&f.b, &f.cred_b, 2),
        O::KfXml | O::KfHex => {
            let (d, k, t): (&'static [u8], _, _) = if o == O::KfXml { (&f.kf_xml, &f.key, KeyFileType::Xml) } else { (&f.kf_hex, &f.key2, KeyFileType::Hex) };
            match KeyFile::open(&mut src(d, None)) {
                Ok(x) if x.key.unsecure() == &k[..] && x.file_type == t => Ok(()),
                Ok(_) => bad("content", format!("{:?} gives another key", o)),
                Err(e) => bad("refused", format!("{:?} fails: {:?}", o, e)),
            }
        }
        O::KfSave => {
            let mut s = Snk { got: vec![], calls: 0, fail: None, hook };
            match kf(&f.key, KeyFileType::Xml).save(&mut s) {
                Ok(()) => match KeyFile::open(&mut &s.got[..]) {
                    Ok(x) if x.key.unsecure() == &f.key[..] => Ok(()),
                    _ => bad("content", "a key file saved here does not hold its key"),
                },
                Err(e) => bad("refused", format!("{:?} fails: {:?}", o, e)),
            }
        }
        O::OpenWrong => must_fail(open(&f.file_a, &f.cred_b, None), o),
        O::OpenCut => must_fail(open(&f.file_b[..f.file_b.len() - 20], &f.cred_b, None), o),
        O::OpenBroken => {
            static X: OnceLock<Vec<u8>> = OnceLock::new();
            let x = X.get_or_init(|| {
                let mut x = f.file_a2.clone();
                let n = x.len();
                x[n - 40] ^= 1;
                x
            });
            must_fail(open(x, &f.cred_a, None), o)
        }
        O::OpenNoFile => must_fail(open(b"this is no database at all, just some text", &f.cred_a, None), o),
        O::OpenBadXml => must_fail(open(&f.bad_xml, &f.cred_b, None), o),
        O::SaveFails => must_fail(save(&f.b, &f.cred_b, Some(6))?.0, o),
        O::SaveBad => must_fail(save(&f.bad, &f.cred_a, None)?.0, o),
        O::KfBad => must_fail(KeyFile::open(&mut src(b"<KeyFile><Meta><Version>1.00</Version></Meta><Key/></KeyFile>", None)), o),
        O::SourceFails => must_fail(open(&f.file_a, &f.cred_a, Some(12)), o),
    }
}

/// The files saved here: each opens under its own credentials with its own content, under no
/// other, and shares no secret with another.
fn files_ok(files: &[(usize, Vec<u8>)]) -> std::result::Result<(), Bad> {
    let f = fix();
    let (ms, cs) = ([&f.a, &f.a2, &f.b], [&f.cred_a, &f.cred_a, &f.cred_b]);
    let mut secrets: Vec<(usize, u8, Vec<u8>)> = vec![];
    for (i, (n, b)) in files.iter().enumerate() {
        let ck = ms[*n].ckey;
        let p = match kdbx::open(b, &ck) {
            Ok(p) => p,
            Err(e) => return bad("file", format!("file {} of this history does not open: {}", i, e)),
        };
        let got = match xmlmodel::decode(&p) {
            Ok(g) => g,
            Err(e) => return bad("file", format!("file {} of this history: {}", i, e)),
        };
        let mut want = ms[*n].after_reopen();
        want.generator = got.generator.clone();
        if let Some(x) = diff(&want, &got) {
            return bad("file", format!("file {} of this history holds something else: {}", i, x));
        }
        let other = cs[if *n == 2 { 0 } else { 2 }];
        if Database::open(&mut &b[..], &other.key()).is_ok() {
            return bad("file", format!("file {} of this history opens under other credentials", i));
        }
        for id in [4u8, 5, 7, 8, 9] {
            let v = p.field(id).unwrap_or(&[]).to_vec();
            if let Some(o) = secrets.iter().find(|s| s.2 == v) {
                return bad("file", format!("field {} of file {} is field {} of file {}", id, i, o.1, o.0));
            }
            secrets.push((i, id, v));
        }
    }
    Ok(())
}
fn my_files() -> Vec<(usize, Vec<u8>)> {
    FILES.with(|f| std::mem::take(&mut *f.borrow_mut()))
}

/// How many calls of its source or sink the operation makes.
fn calls(o: O) -> u64 {
    // in a process of its own, so that nothing of it stays
    let r = forked(|| {
        let n = Cell::new(0);
        let _ = no_panic(|| {
            let _ = exec(o, &|k| n.set(k));
        });
        good("calls", n.get())
    });
    r.map_or(8, |g| g.digest)
}

// ---------------------------------------------------------------- one after the other

/// The ways in which an operation may end without a result.
#[derive(Clone, Copy, Debug)]
enum Step {
    Do(O),
    /// the source or sink panics at this call
    Panics(O, u64),
    /// the source or sink never returns from this call
    Stuck(O, u64),
    /// on a thread of its own, ended before the next
    OnThread(O),
}

/// A stream of randomness of its own for every thread of the process.
fn seed() -> u64 {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(5000);
    N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}

fn step(s: Step) -> std::result::Result<(), Bad> {
    match s {
        Step::Do(o) => exec(o, &|_| {}),
        Step::Panics(o, n) => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                exec(o, &|k| {
                    if k == n {
                        std::panic::resume_unwind(Box::new(()))
                    }
                })
            }));
            match r {
                Ok(Err(b)) => Err(b),
                _ => Ok(()),
            }
        }
        Step::Stuck(o, n) => {
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || {
                env::rng(env::Rng::Stream(seed()));
                let t2 = tx.clone();
                let r = exec(o, &move |k| {
                    if k == n {
                        let _ = t2.send(None);
                        loop {
                            std::thread::park();
                        }
                    }
                });
                let _ = tx.send(Some(r));
            });
            match rx.recv() {
                Ok(Some(Err(b))) => Err(b),
                _ => Ok(()),
            }
        }
        Step::OnThread(o) => std::thread::spawn(move || {
            env::rng(env::Rng::Stream(seed()));
            let r = no_panic(|| exec(o, &|_| {})).unwrap_or_else(|m| bad("panic", m));
            r.map(|_| my_files())
        })
        .join()
        .unwrap_or_else(|_| bad("panic", "the thread panics"))
        .map(|f| FILES.with(|x| x.borrow_mut().extend(f))),
    }
}

fn history(w: &[Step]) -> Res {
    forked(|| {
        for (i, s) in w.iter().enumerate() {
            if let Err(b) = step(*s) {
                return bad(&b.key, format!("step {}: {}", i + 1, b.text));
            }
        }
        let f = my_files();
        files_ok(&f)?;
        good_n("one after the other", digest(&format!("{:?}", w)), w.len() as u64)
    })
}

// ---------------------------------------------------------------- inside one another

/// `outer`, with `inner` run in its call number n (on another thread that is waited for, if `far`),
/// and inside that in its call number m a third.
fn nested(outer: O, n: u64, inner: O, third: Option<(u64, O)>, far: bool) -> Res {
    forked(|| {
        let err: RefCell<Option<Bad>> = RefCell::new(None);
        let files: Mutex<Vec<(usize, Vec<u8>)>> = Mutex::new(vec![]);
        let keep = |r: std::result::Result<(), Bad>, who: &str| {
            if let Err(b) = r {
                err.borrow_mut().get_or_insert(Bad { key: b.key, text: format!("{}: {}", who, b.text) });
            }
        };
        let inner_run = || -> std::result::Result<(), Bad> {
            let e3: RefCell<Option<Bad>> = RefCell::new(None);
            let r = exec(inner, &|k| {
                if let Some((m, o)) = third {
                    if k == m {
                        if let Err(b) = exec(o, &|_| {}) {
                            e3.borrow_mut().get_or_insert(b);
                        }
                    }
                }
            });
            match e3.into_inner() {
                Some(b) => Err(b),
                None => r,
            }
        };
        let r = exec(outer, &|k| {
            if k != n {
                return;
            }
            if far {
                let r = std::thread::scope(|s| {
                    s.spawn(|| {
                        env::rng(env::Rng::Stream(seed()));
                        let r = no_panic(inner_run).unwrap_or_else(|m| bad("panic", m));
                        files.lock().unwrap().extend(my_files());
                        r
                    })
                    .join()
                    .unwrap()
                });
                keep(r, "the inner operation");
            } else {
                keep(inner_run(), "the inner operation");
            }
        });
        keep(r, "the outer operation");
        if let Some(b) = err.into_inner() {
            return Err(b);
        }
        let mut f = my_files();
        f.extend(files.into_inner().unwrap());
        files_ok(&f)?;
        // and afterwards
        exec(outer, &|_| {})?;
        good_n(if far { "inside, on another thread" } else { "inside" }, digest(&(outer as u8, n, inner as u8, third.map(|t| (t.0, t.1 as u8)))), 3)
    })
}

// ---------------------------------------------------------------- side by side

/// One thread runs at a time; at each point the schedule may hand over to another.
struct Sched {
    m: Mutex<Baton>,
    cv: Condvar,
}
struct Baton {
    running: usize,
    done: Vec<bool>,
    step: u64,
    /// at this step, hand over to this thread
    switches: Vec<(u64, usize)>,
    /// a thread waited in vain: all run freely from here on
    free: bool,
    points: Vec<u64>,
    switched: u64,
}
static SCHED: OnceLock<Sched> = OnceLock::new();
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN: Cell<bool> = const { Cell::new(false) };
}

impl Sched {
    fn wait<'a>(&'a self, mut b: std::sync::MutexGuard<'a, Baton>, me: usize) {
        let mut last = (b.step, b.running);
        let mut idle = 0;
        while b.running != me && !b.free {
            let (g, t) = self.cv.wait_timeout(b, Duration::from_millis(100)).unwrap();
            b = g;
            if t.timed_out() {
                if (b.step, b.running) == last {
                    idle += 1;
                } else {
                    idle = 0;
                    last = (b.step, b.running);
                }
                // the one that runs waits for something a stopped one holds
                if idle > 20 {
                    b.free = true;
                    self.cv.notify_all();
                }
            } else {
                idle = 0;
                last = (b.step, b.running);
            }
        }
    }
    fn point(&self, me: usize) {
        let mut b = self.m.lock().unwrap();
        if b.free {
            return;
        }
        b.points[me] += 1;
        b.step += 1;
        let s = b.step;
        if let Some(i) = b.switches.iter().position(|x| x.0 == s) {
            let mut to = b.switches[i].1;
            let n = b.done.len();
            // the next one still running
            for _ in 0..n {
                if !b.done[to] && to != me {
                    break;
                }
                to = (to + 1) % n;
            }
            if !b.done[to] && to != me {
                b.running = to;
                b.switched += 1;
                self.cv.notify_all();
                self.wait(b, me);
            }
        }
    }
    fn end(&self, me: usize) {
        let mut b = self.m.lock().unwrap();
        b.done[me] = true;
        if let Some(n) = (0..b.done.len()).find(|i| !b.done[*i]) {
            b.running = n;
        }
        self.cv.notify_all();
    }
}
fn point() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || IN.with(|i| i.replace(true)) {
        return;
    }
    if let Some(s) = SCHED.get() {
        s.point(me);
    }
    IN.with(|i| i.set(false));
}

/// Runs the threads under the schedule in this process (once per process).
fn run_threads(progs: &[Vec<O>], first: usize, switches: &[(u64, usize)], allocs: bool) -> (std::result::Result<(), Bad>, Vec<u64>, u64, bool) {
    fix();
    let n = progs.len();
    let s = SCHED.get_or_init(|| Sched {
        m: Mutex::new(Baton { running: first, done: vec![false; n], step: 0, switches: switches.to_vec(), free: false, points: vec![0; n], switched: 0 }),
        cv: Condvar::new(),
    });
    let results: Vec<std::result::Result<Vec<(usize, Vec<u8>)>, Bad>> = std::thread::scope(|sc| {
        let hs: Vec<_> = progs
            .iter()
            .enumerate()
            .map(|(i, p)| {
                sc.spawn(move || {
                    env::rng(env::Rng::Stream(i as u64 + 1000));
                    {
                        let b = s.m.lock().unwrap();
                        s.wait(b, i);
                    }
                    ME.with(|m| m.set(i));
                    env::rng_hook(Some(point));
                    if allocs {
                        env::alloc_hook(Some(point));
                    }
                    let r = no_panic(|| p.iter().try_for_each(|o| exec(*o, &|_| point())));
                    env::alloc_hook(None);
                    env::rng_hook(None);
                    ME.with(|m| m.set(usize::MAX));
                    s.end(i);
                    match r {
                        Ok(Ok(())) => Ok(my_files()),
                        Ok(Err(b)) => bad(&b.key, format!("thread {}: {}", i, b.text)),
                        Err(m) => bad("panic", format!("thread {} panics: {}", i, m)),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let b = s.m.lock().unwrap();
    let (points, switched, free) = (b.points.clone(), b.switched, b.free);
    drop(b);
    let mut files = vec![];
    for r in results {
        match r {
            Ok(f) => files.extend(f),
            Err(b) => return (Err(b), points, switched, free),
        }
    }
    (files_ok(&files), points, switched, free)
}

fn interleaved(progs: &[Vec<O>], first: usize, switches: &[(u64, usize)], allocs: bool) -> Res {
    forked(|| {
        let (r, points, switched, free) = run_threads(progs, first, switches, allocs);
        r?;
        let c = if free { "side by side, one waits for another".to_string() } else { format!("side by side, {} forced switches", switched) };
        good_n(&c, digest(&(format!("{:?}", progs), first, switches, allocs, points)), progs.iter().map(|p| p.len() as u64).sum())
    })
}

/// Points of the threads when they run one after the other.
fn count_points(progs: &[Vec<O>], allocs: bool) -> u64 {
    let r = forked(|| {
        let (_, p, _, _) = run_threads(progs, 0, &[], allocs);
        good_n("", p.iter().sum(), 1)
    });
    r.map_or(0, |g| g.digest)
}

/// All schedules with exactly `bound` forced switches.
fn schedules(v: &mut Vec<Item<'static>>, name: &str, progs: Vec<Vec<O>>, bound: u32, allocs: bool) {
    let n = count_points(&progs, allocs);
    let k = progs.len() as u64;
    // positions ascending are enough: each set once
    let per: u64 = match bound {
        0 => 1,
        1 => n,
        2 => n * n.saturating_sub(1) / 2,
        _ => n * n.saturating_sub(1) / 2 * n.saturating_sub(2) / 3,
    };
    let targets = if k == 2 { 1 } else { (k - 1).pow(bound) };
    let decode = move |i: u64| -> (usize, Vec<(u64, usize)>) {
        let first = (i % k) as usize;
        let i = i / k;
        let (mut t, mut i) = (i % targets, i / targets);
        // the i-th subset
        let mut pos = vec![];
        let mut c = bound as u64;
        let choose = |n: u64, k: u64| -> u64 {
            match k {
                0 => 1,
                1 => n,
                2 => n * n.saturating_sub(1) / 2,
                3 => n * n.saturating_sub(1) / 2 * n.saturating_sub(2) / 3,
                _ => 0,
            }
        };
        // combinatorial number system
        let mut top = n;
        while c > 0 {
            let mut x = top - 1;
            while choose(x, c) > i {
                x -= 1;
            }
            i -= choose(x, c);
            pos.push(x + 1);
            top = x;
            c -= 1;
        }
        pos.reverse();
        let sw = pos
            .into_iter()
            .map(|p| {
                let to = if k == 2 { 0 } else { t % (k - 1) };
                t /= (k - 1).max(1);
                (p, to as usize)
            })
            .collect();
        (first, sw)
    };
    let p2 = progs.clone();
    v.push(
        Space::new(
            name,
            &format!("all schedules with {} forced switches over {} points ({}) of {:?}", bound, n, if allocs { "every allocation, every call of a source or sink, every draw of randomness" } else { "every call of a source or sink, every draw of randomness" }, progs),
            k * targets * per,
            move |i| {
                let (f, s) = decode(i);
                interleaved(&progs, f, &s, allocs)
            },
            move |i| {
                let (f, s) = decode(i);
                format!("{:?}, thread {} first, switches (step, thread) {:?}", p2, f, s)
            },
        )
        .procs()
        .into(),
    );
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    fix();
    let k = ALL.len() as u64;
    // sequences
    for len in 1..=ctx.q(3u32, 4) {
        let w = move |i: u64| -> Vec<Step> { (0..len).map(|j| Step::Do(ALL[(i / k.pow(j) % k) as usize])).collect() };
        v.push(Space::new(&format!("sequences of {}", len), "every sequence of that many operations, successful and failing, one after the other", k.pow(len), move |i| history(&w(i)), move |i| format!("{:?}", w(i))).procs().into());
    }
    let w = move |i: u64| -> Vec<Step> { vec![Step::OnThread(ALL[(i % k) as usize]), Step::Do(ALL[(i / k % k) as usize]), Step::OnThread(ALL[(i / k / k % k) as usize])] };
    v.push(Space::new("threads in turn", "every sequence of three operations, the first and the last on threads of their own", k.pow(3), move |i| history(&w(i)), move |i| format!("{:?}", w(i))).procs().into());
    // long repetitions
    let reps = ctx.q(60usize, 400);
    let w = move |i: u64| -> Vec<Step> {
        let a = [ALL[(i % k) as usize], ALL[(i / k) as usize]];
        (0..reps).map(|j| Step::Do(a[j % 2])).chain(ALL.iter().map(|o| Step::Do(*o))).collect()
    };
    v.push(Space::new("repetitions", "every two operations repeated in turn many times, then every operation once", k * k, move |i| history(&w(i)), move |i| format!("{:?}", &w(i)[..2])).procs().into());
    // broken off at each call, then everything
    let calls_of: Vec<(O, u64)> = ALL.iter().map(|o| (*o, calls(*o))).collect();
    let brk: Arc<Vec<(O, u64)>> = Arc::new(calls_of.iter().flat_map(|(o, n)| (1..=*n).map(move |c| (*o, c))).collect());
    let nb = brk.len() as u64;
    for stuck in [false, true] {
        let b = brk.clone();
        let n = ctx.q(40usize, 200);
        let w = move |i: u64| -> Vec<Step> {
            let (o, c) = b[i as usize];
            let s = if stuck { Step::Stuck(o, c) } else { Step::Panics(o, c) };
            (0..n).map(|_| s).chain(ALL.iter().map(|o| Step::Do(*o))).collect()
        };
        let w2 = w.clone();
        v.push(
            Space::new(
                if stuck { "abandoned many times" } else { "panicking many times" },
                "every operation broken off in the same call of its source or sink many times, then every operation once",
                nb,
                move |i| history(&w(i)),
                move |i| format!("{:?}", &w2(i)[0]),
            )
            .procs()
            .into(),
        );
    }
    for stuck in [false, true] {
        let b = brk.clone();
        let w = move |i: u64| -> Vec<Step> {
            let (o, c) = b[(i / k) as usize];
            let x = ALL[(i % k) as usize];
            let s = if stuck { Step::Stuck(o, c) } else { Step::Panics(o, c) };
            vec![s, Step::Do(x), s, Step::Do(o), Step::OnThread(x)]
        };
        let w2 = w.clone();
        v.push(
            Space::new(
                if stuck { "abandoned" } else { "panicking" },
                if stuck { "every operation left for good inside every call of its source or sink, then every other operation" } else { "every operation whose source or sink panics at every call, then every other operation" },
                nb * k,
                move |i| history(&w(i)),
                move |i| format!("{:?}", w2(i)),
            )
            .procs()
            .into(),
        );
    }
    // inside
    for far in [false, true] {
        let b = brk.clone();
        let b2 = brk.clone();
        v.push(
            Space::new(
                if far { "inside, on another thread" } else { "inside" },
                "every operation run inside every call of the source or sink of every operation",
                nb * k,
                move |i| {
                    let (o, c) = b[(i / k) as usize];
                    nested(o, c, ALL[(i % k) as usize], None, far)
                },
                move |i| format!("{:?}: {:?} inside", b2[(i / k) as usize], ALL[(i % k) as usize]),
            )
            .procs()
            .into(),
        );
    }
    let main = [O::OpenA, O::OpenB, O::SaveA, O::SaveB, O::OpenWrong];
    let b = Arc::new(brk.iter().filter(|x| main.contains(&x.0)).cloned().collect::<Vec<_>>());
    let mid: Arc<Vec<(O, u64)>> = Arc::new(if ctx.thorough() { b.to_vec() } else { main.iter().flat_map(|o| { let n = b.iter().filter(|x| x.0 == *o).count() as u64; [(*o, 1), (*o, n / 2), (*o, n)] }).collect() });
    let (nm, n3) = (mid.len() as u64, main.len() as u64);
    let (b1, m1, b2, m2) = (b.clone(), mid.clone(), b.clone(), mid.clone());
    v.push(
        Space::new(
            "inside inside",
            "operations three deep: every call of the outer one, places of the middle one",
            b.len() as u64 * nm * n3,
            move |i| {
                let (o, c) = b1[(i / nm / n3) as usize];
                let (p, d) = m1[(i / n3 % nm) as usize];
                nested(o, c, p, Some((d, main[(i % n3) as usize])), false)
            },
            move |i| format!("{:?}: {:?}: {:?}", b2[(i / nm / n3) as usize], m2[(i / n3 % nm) as usize], main[(i % n3) as usize]),
        )
        .procs()
        .into(),
    );
    // side by side
    let pairs: Vec<(O, O)> = ALL.iter().enumerate().flat_map(|(i, a)| ALL[i..].iter().map(move |b| (*a, *b))).collect();
    for (a, b) in &pairs {
        schedules(&mut v, &format!("1 switch {:?} {:?}", a, b), vec![vec![*a], vec![*b]], 1, false);
    }
    let few = [(O::OpenA, O::OpenB), (O::OpenA, O::OpenA2), (O::OpenA, O::SaveB), (O::SaveA, O::SaveB), (O::SaveA, O::SaveA), (O::OpenB, O::OpenB), (O::OpenWrong, O::OpenA), (O::SaveFails, O::SaveA), (O::KfXml, O::KfSave)];
    let two: Vec<(O, O)> = if ctx.thorough() { pairs.clone() } else { few.to_vec() };
    for (a, b) in &two {
        schedules(&mut v, &format!("2 switches {:?} {:?}", a, b), vec![vec![*a], vec![*b]], 2, false);
    }
    for (a, b) in &few {
        schedules(&mut v, &format!("1 switch at allocations {:?} {:?}", a, b), vec![vec![*a], vec![*b]], 1, true);
    }
    // two operations per thread; three threads
    schedules(&mut v, "1 switch, two each", vec![vec![O::OpenA, O::SaveB], vec![O::SaveA, O::OpenB]], 1, false);
    schedules(&mut v, "1 switch, three threads", vec![vec![O::OpenA], vec![O::SaveB], vec![O::OpenB]], 1, false);
    if ctx.thorough() {
        schedules(&mut v, "2 switches, two each", vec![vec![O::OpenA, O::SaveB], vec![O::SaveA, O::OpenB]], 2, false);
        schedules(&mut v, "2 switches, three threads", vec![vec![O::OpenA], vec![O::SaveB], vec![O::OpenB]], 2, false);
        for (a, b) in [(O::OpenA, O::SaveB), (O::SaveA, O::SaveB), (O::OpenA, O::OpenB)] {
            schedules(&mut v, &format!("3 switches {:?} {:?}", a, b), vec![vec![a], vec![b]], 3, false);
        }
    }
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C21",
        level: "model_checking",
        rule: "every sequence, nesting and schedule within the bounds is executed on the real code in a process of its own under a cooperative scheduler; every operation must give the result it gives alone and every file its own content; non-trivial: a distinct history",
        items,
        assumptions: &[
            "Switches happen at calls of sources and sinks, draws of randomness and (where stated) allocations, not between any two machine instructions.",
            "A thread that waits for a stopped one longer than two seconds is taken to wait for a lock; all threads then run freely.",
        ],
    }
}
