//! Sinks: every way of taking the bytes, every point of failure.
use super::c08::pair;
use crate::engine::*;
use crate::env;
use crate::faultio::*;
use crate::lk::*;
use crate::model::*;
use kpdb::*;
use std::io::Write;
use std::sync::Arc;

pub enum What {
    Db(Database, MDb),
    Key(KeyFile),
}
pub struct Output {
    pub name: String,
    pub what: What,
}
unsafe impl Sync for Output {}
unsafe impl Send for Output {}

const SEED: u64 = 909;

impl Output {
    fn run(&self, w: &mut dyn Write) -> std::result::Result<(), Error> {
        struct W<'a>(&'a mut dyn Write);
        impl<'a> Write for W<'a> {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                self.0.write(b)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                self.0.flush()
            }
        }
        env::rng(env::Rng::Stream(SEED));
        let mut w = W(w);
        match &self.what {
            What::Db(d, _) => d.save(&mut w),
            What::Key(k) => k.save(&mut w),
        }
    }
    /// the sink holds exactly one complete file of this content
    fn complete(&self, got: &[u8], base: &[u8]) -> std::result::Result<(), String> {
        if got == base {
            return Ok(());
        }
        match &self.what {
            What::Key(_) => Err(format!("the sink holds {} bytes, the complete file has {}", got.len(), base.len())),
            What::Db(_, m) => {
                let p = crate::kdbx::open(got, &m.ckey)?;
                let d = crate::xmlmodel::decode(&p)?;
                let mut w = m.after_reopen();
                w.generator = d.generator.clone();
                w.ckey = d.ckey;
                match diff(&w, &d) {
                    None => Ok(()),
                    Some(x) => Err(format!("the sink holds other content: {}", x)),
                }
            }
        }
    }
}

pub fn outputs(big: bool) -> Vec<Output> {
    let (key, ck) = pw("c09");
    let mut v = vec![];
    for gz in [true, false] {
        for comment in [None, Some(b"a comment".to_vec()), Some(vec![])] {
            let mut m = small(ck);
            m.rounds = 0;
            m.gzip = gz;
            m.comment = comment;
            v.push(Output { name: format!("database, gzip {}, comment {:?}", gz, m.comment.as_ref().map(|c| c.len())), what: What::Db(build(&m, &key), m) });
        }
    }
    if big {
        let mut m = small(ck);
        m.rounds = 0;
        m.gzip = false;
        m.comment = Some(vec![b'c'; 65535]);
        m.root.entries[0].binaries.insert("big".into(), BVal::Plain((0..200_000u32).map(|i| env::mix(i as u64) as u8).collect()));
        v.push(Output { name: "large database".into(), what: What::Db(build(&m, &key), m) });
    }
    for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
        v.push(Output { name: format!("key file {:?}", t), what: What::Key(kf(&[0xb7; 32], t)) });
    }
    v
}

struct Base0 {
    o: Output,
    bytes: Vec<u8>,
    calls: u64,
}

fn judge(b: &Base0, s: &Script, flush: Option<usize>) -> Res {
    let mut w = Sink::new(s);
    w.flush = flush.map(|k| KINDS[k]);
    let r = b.o.run(&mut w);
    let d = digest(&(&b.o.name, s, flush));
    match r {
        Err(e) if w.failed() => {
            let t = format!("{:?}", e);
            good(&format!("error reported: {}", t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("")), d)
        }
        Err(e) => bad("refused", format!("{}: the sink took everything ({:?}), yet saving failed: {:?}", b.o.name, s, e)),
        Ok(()) if w.failed() => bad("failure ignored", format!("{}: the sink failed ({:?}, flush {:?}), yet saving reported success", b.o.name, s, flush.map(|k| KINDS[k]))),
        Ok(()) => match b.o.complete(&w.got, &b.bytes) {
            Ok(()) => good("complete", d),
            Err(t) => bad("incomplete", format!("{}: {} ({:?})", b.o.name, t, s)),
        },
    }
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let bs: Arc<Vec<Base0>> = Arc::new(on_seeded_thread(8 << 20, 9, || {
        outputs(true)
            .into_iter()
            .map(|o| {
                let s = Script::base(Base::Full);
                let mut w = Sink::new(&s);
                let _ = no_panic(|| o.run(&mut w));
                let (bytes, calls) = (w.got.clone(), w.calls());
                Base0 { o, bytes, calls }
            })
            .collect()
    }));
    let mut v: Vec<Item> = vec![];
    let a = bs.clone();
    v.push(
        Space::new(
            "in one piece",
            "every output into a vector and into a sink that takes all it is given; databases judged by the independent decoder",
            bs.len() as u64,
            move |i| {
                let b = &a[i as usize];
                let mut x = vec![];
                if let Err(e) = b.o.run(&mut x) {
                    return bad("refused", format!("{}: {:?}", b.o.name, e));
                }
                if let Err(t) = b.o.complete(&x, &b.bytes).and_then(|_| b.o.complete(&b.bytes, &[])) {
                    if matches!(b.o.what, What::Db(..)) || x != b.bytes {
                        return bad("incomplete", format!("{}: {}", b.o.name, t));
                    }
                }
                good("complete", digest(&b.o.name))
            },
            |i| format!("output {}", i),
        )
        .into(),
    );
    type F = Box<dyn Fn(u64) -> (Script, Option<usize>) + Send + Sync>;
    let mk = |v: &mut Vec<Item<'static>>, k: usize, name: &str, what: &str, n: u64, f: F| {
        let f: Arc<dyn Fn(u64) -> (Script, Option<usize>) + Send + Sync> = f.into();
        let (a, g) = (bs.clone(), f.clone());
        let nm = bs[k].o.name.clone();
        v.push(
            Space::new(
                &format!("{} of {}", name, nm),
                what,
                n,
                move |i| {
                    let (s, fl) = f(i);
                    judge(&a[k], &s, fl)
                },
                move |i| format!("{}: {:?}", nm, g(i)),
            )
            .into(),
        );
    };
    for k in 0..bs.len() {
        let len = bs[k].bytes.len();
        let calls = bs[k].calls + 3;
        let large = len > 100_000;
        let pieces: Vec<usize> = if large { vec![1000, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 100_000, len - 1, len] } else { (1..=len + 1).collect() };
        let np = pieces.len() as u64;
        mk(&mut v, k, "pieces", "pieces of every constant size, without and with an interruption before each", 2 * np, Box::new(move |i| (Script::base(if i % 2 == 0 { Base::Chunk(pieces[i as usize / 2]) } else { Base::Alternate(pieces[i as usize / 2]) }), None)));
        let caps: Vec<usize> = if large { (0..len).step_by(len / ctx.q(200, 4000)).chain((len - 70)..len).collect() } else { (0..len).collect() };
        let nc = caps.len() as u64;
        let nk = KINDS.len() as u64;
        mk(&mut v, k, "capacity", "a sink that takes every number of bytes short of the file, then reports an error of every kind (once or for ever) or takes no more", nc * (2 * nk + 1), {
            Box::new(move |i| {
                let at = caps[(i / (2 * nk + 1)) as usize];
                let j = i % (2 * nk + 1);
                let act = if j == 2 * nk {
                    Act::Zero
                } else if j % 2 == 0 {
                    Act::Fail(j as usize / 2)
                } else {
                    Act::Dead(j as usize / 2)
                };
                if matches!(act, Act::Fail(_)) {
                    // once, then everything is taken
                    return (Script::base(Base::LimitOnce(at, act)), None);
                }
                (Script::base(Base::Limit(at, act)), None)
            })
        });
        mk(&mut v, k, "flush", "a flush that fails with every kind of error", nk, Box::new(move |i| (Script::base(Base::Full), Some(i as usize))));
        mk(&mut v, k, "one cut", "two pieces, cut at every place", (if large { 400 } else { len }) as u64, Box::new(move |i| (Script::base(Base::Cuts(vec![if large { i as usize * len / 400 } else { i as usize }])), None)));
        let singles: Vec<Act> = [Act::Half, Act::AllButOne, Act::Intr, Act::Zero]
            .into_iter()
            .chain((0..KINDS.len()).map(Act::Fail))
            .chain((0..KINDS.len()).map(Act::Dead))
            .chain([1usize, 2, 3, 4, 5, 7, 8, 11, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 1000].into_iter().map(Act::Up))
            .collect();
        let ns = singles.len() as u64;
        mk(&mut v, k, "one deviation", "one call answered otherwise (a part taken, interrupted, nothing taken, an error of every kind)", calls * ns, Box::new(move |i| (Script::acts(&[(i / ns, singles[(i % ns) as usize])]), None)));
        const ACTS: [Act; 8] = [Act::Up(1), Act::Up(2), Act::Half, Act::AllButOne, Act::Intr, Act::Fail(0), Act::Dead(5), Act::Zero];
        let na = ACTS.len() as u64;
        let c2 = if large { 8 } else { calls + 3 };
        mk(&mut v, k, "two deviations", "every pair of calls answered otherwise", c2 * (c2 - 1) / 2 * na * na, {
            Box::new(move |i| {
                let (x, y) = (i % na, i / na % na);
                let (p, q) = pair(i / na / na);
                (Script::acts(&[(p, ACTS[x as usize]), (q, ACTS[y as usize])]), None)
            })
        });
        if ctx.thorough() && !large {
            let c3 = calls + 4;
            mk(&mut v, k, "three deviations", "every triple of calls answered otherwise (by one byte, half, an interruption, an error)", c3 * c3 * c3 * 64, {
                let ac = [Act::Up(1), Act::Half, Act::Intr, Act::Fail(0)];
                Box::new(move |i| {
                    let a = |j: u64| ac[(i >> (2 * j) & 3) as usize];
                    let n = i / 64;
                    (Script::acts(&[(n % c3, a(0)), (n / c3 % c3, a(1)), (n / c3 / c3, a(2))]), None)
                })
            });
        }
        if !large {
            mk(&mut v, k, "byte by byte", "byte by byte with one error, one interruption or one refusal at every byte", len as u64 * 3, {
                Box::new(move |i| (Script { base: Base::Chunk(1), acts: vec![(i / 3, [Act::Fail(0), Act::Intr, Act::Zero][(i % 3) as usize])] }, None))
            });
        }
        // the standard library's sinks
        let a = bs.clone();
        v.push(
            Space::new(
                &format!("standard sinks of {}", bs[k].o.name),
                "fixed buffers of every size up to two bytes more than the file, buffered and line writers",
                if large { 30 } else { 3 * (len as u64 + 3) },
                move |i| {
                    let b = &a[k];
                    let at = if large { len - 7 + i as usize / 3 } else { i as usize / 3 };
                    match i % 3 {
                        0 => {
                            let mut buf = vec![0u8; at];
                            let mut c = std::io::Cursor::new(&mut buf[..]);
                            let r = b.o.run(&mut c);
                            let n = c.position() as usize;
                            match r {
                                Ok(()) => match b.o.complete(&buf[..n], &b.bytes) {
                                    Ok(()) => good("complete", digest(&(k, i))),
                                    Err(t) => bad("incomplete", format!("{}: a buffer of {} bytes: {}", b.o.name, at, t)),
                                },
                                Err(_) if at < len => good("error reported: Io", digest(&(k, i))),
                                Err(e) => bad("refused", format!("{}: a buffer of {} bytes is large enough: {:?}", b.o.name, at, e)),
                            }
                        }
                        j => {
                            let s = Script::base(Base::Alternate(at.max(1)));
                            let mut sink = Sink::new(&s);
                            let r = if j == 1 {
                                let mut w = std::io::BufWriter::with_capacity(at + 1, &mut sink);
                                let r = b.o.run(&mut w);
                                w.flush().map_err(|_| ()).ok();
                                r
                            } else {
                                let mut w = std::io::LineWriter::with_capacity(at + 1, &mut sink);
                                let r = b.o.run(&mut w);
                                w.flush().map_err(|_| ()).ok();
                                r
                            };
                            if let Err(e) = r {
                                return bad("refused", format!("{}: {:?}", b.o.name, e));
                            }
                            match b.o.complete(&sink.got, &b.bytes) {
                                Ok(()) => good("complete", digest(&(k, i))),
                                Err(t) => bad("incomplete", format!("{}: {}", b.o.name, t)),
                            }
                        }
                    }
                },
                |i| format!("kind {} size {}", i % 3, i / 3),
            )
            .into(),
        );
    }
    large(ctx, &mut v);
    // an unsupported type of database
    let n = outputs(false).len() as u64;
    v.push(
        Space::new(
            "unsupported type",
            "databases of the first format's type, into sinks of several kinds",
            n * 4,
            move |i| {
                let Output { what, name } = outputs(false).swap_remove((i / 4) as usize);
                let What::Db(mut d, _) = what else { return trivial("not a database", 0) };
                d.db_type = DbType::Kdb1;
                let s = Script::base([Base::Full, Base::Chunk(1), Base::Limit(0, Act::Dead(0)), Base::Limit(0, Act::Zero)][(i % 4) as usize].clone());
                let mut w = Sink::new(&s);
                let r = d.save(&mut w);
                if !w.got.is_empty() {
                    return bad("unsupported written", format!("{}: {} bytes written for an unsupported type", name, w.got.len()));
                }
                match r {
                    Ok(()) => bad("unsupported saved", format!("{}: saving an unsupported type reported success", name)),
                    Err(_) => good("unsupported refused", digest(&i)),
                }
            },
            |i| format!("output {} sink {}", i / 4, i % 4),
        )
        .into(),
    );
    v
}

/// Large files, with something happening around every usual buffer size and at many other places.
fn large(ctx: &Ctx, v: &mut Vec<Item<'static>>) {
    let (key, ck) = pw("c09");
    let mut outs = vec![];
    let mut sizes = vec![7000usize, 70_000, 150_000];
    if ctx.thorough() {
        sizes.extend([300_000, 1_200_000]);
    }
    for n in sizes {
        for gz in [false, true] {
            let mut m = small(ck);
            m.rounds = 0;
            m.gzip = gz;
            m.comment = Some(vec![b'c'; n.min(65_000)]);
            m.root.entries[0].binaries.insert("big".into(), BVal::Plain((0..n).map(|i| env::mix(i as u64) as u8).collect()));
            outs.push(Output { name: format!("database with an attachment of {} bytes, gzip {}", n, gz), what: What::Db(build(&m, &key), m) });
        }
        for t in [KeyFileType::Hex, KeyFileType::Xml] {
            let k: Vec<u8> = (0..n / 2).map(|i| env::mix(i as u64) as u8).collect();
            outs.push(Output { name: format!("key file {:?} of {} bytes", t, n / 2), what: What::Key(kf(&k, t)) });
        }
    }
    let bs: Arc<Vec<Base0>> = Arc::new(on_seeded_thread(8 << 20, 99, || {
        outs.into_iter()
            .map(|o| {
                let s = Script::base(Base::Full);
                let mut w = Sink::new(&s);
                let _ = no_panic(|| o.run(&mut w));
                let (bytes, calls) = (w.got.clone(), w.calls());
                Base0 { o, bytes, calls }
            })
            .collect()
    }));
    const KINDS: u64 = 10;
    let parts = ctx.q(40, 200);
    let at: Arc<Vec<(usize, usize)>> = Arc::new(bs.iter().enumerate().flat_map(|(k, b)| super::c08::landmarks(b.bytes.len(), parts).into_iter().map(move |x| (k, x))).collect());
    let script = |kind: u64, x: usize| match kind {
        0 => Script::base(Base::Cuts(vec![x])),
        1 => Script::base(Base::Chunk(x.max(64))),
        2 => Script::base(Base::LimitOnce(x, Act::Fail(0))),
        3 => Script::base(Base::LimitOnce(x, Act::Fail(3))),
        4 => Script::base(Base::Limit(x, Act::Dead(1))),
        5 => Script::base(Base::LimitOnce(x, Act::Intr)),
        6 => Script::base(Base::Alternate(x.max(500))),
        7 => Script { base: Base::Cuts(vec![x]), acts: vec![(1, Act::Intr), (3, Act::Up(1)), (5, Act::Half)] },
        8 => Script::base(Base::Limit(x, Act::Zero)),
        _ => Script::base(Base::Cuts(vec![x, x + 1, x + 2])),
    };
    let (a, at1, b, at2) = (bs.clone(), at.clone(), bs, at.clone());
    v.push(
        Space::new(
            "large outputs",
            "databases with large attachments and comments and long keys, into sinks that take a part, fail, refuse or interrupt around every usual buffer size and at many other places",
            at.len() as u64 * KINDS,
            move |i| {
                let (k, x) = at1[(i / KINDS) as usize];
                judge(&a[k], &script(i % KINDS, x), None)
            },
            move |i| {
                let (k, x) = at2[(i / KINDS) as usize];
                format!("{}: at {} kind {}", b[k].o.name, x, i % KINDS)
            },
        )
        .into(),
    );
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C09",
        level: "fault_enumeration",
        rule: "every script of sink behaviour of the listed forms for every output; success only if the sink took exactly the complete file, an error if the sink failed, and success if it did not; non-trivial: a distinct (output, script)",
        items,
        assumptions: &["the file counts as delivered when the sink has accepted the bytes; a failed flush counts as a failing sink when flush is called"],
    }
}
