//! Sources: every way of delivering the bytes, every point of failure.
use crate::engine::*;
use crate::faultio::*;
use crate::lk::*;
use crate::model::*;
use kpdb::*;
use std::io::Read;
use std::sync::Arc;

#[derive(Clone)]
pub struct Input {
    pub name: String,
    pub bytes: Vec<u8>,
    /// None: a key file
    pub key: Option<CompositeKey>,
}

#[derive(Clone, PartialEq, Debug, Hash)]
pub enum Outcome {
    Db(String),
    Key(Vec<u8>, String),
    Err(String),
}

fn err(e: Error) -> Outcome {
    Outcome::Err(match e {
        Error::Io(e) => format!("Io({:?})", e.kind()),
        e => format!("{:?}", e),
    })
}

impl Input {
    pub fn run(&self, r: &mut dyn Read) -> Outcome {
        struct R<'a>(&'a mut dyn Read);
        impl<'a> Read for R<'a> {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                self.0.read(b)
            }
        }
        let mut r = R(r);
        match &self.key {
            Some(k) => match Database::open(&mut r, k) {
                Ok(d) => Outcome::Db(format!("{:?}", of(&d))),
                Err(e) => err(e),
            },
            None => match KeyFile::open(&mut r) {
                Ok(k) => Outcome::Key(k.key.unsecure().to_vec(), format!("{:?}", k.file_type)),
                Err(e) => err(e),
            },
        }
    }
}

pub fn inputs() -> Vec<Input> {
    let (key, ck) = pw("c08");
    let mut v = vec![];
    let mut add = |name: &str, bytes: Vec<u8>, key: Option<&CompositeKey>| v.push(Input { name: name.into(), bytes, key: key.cloned() });
    on_seeded_thread(8 << 20, 8, || {
        let mut m = small(ck);
        m.rounds = 1;
        m.gzip = true;
        let f = save(&build(&m, &key)).unwrap_or_default();
        add("database", f.clone(), Some(&key));
        add("database, wrong password", f.clone(), Some(&pw("C08").0));
        add("database cut in the payload", f[..f.len() - 16].to_vec(), Some(&key));
        add("database cut in the header", f[..100].to_vec(), Some(&key));
        let mut x = f.clone();
        let n = x.len();
        x[n - 40] ^= 1;
        add("database with a damaged payload", x, Some(&key));
        let mut x = f.clone();
        x[12] = 99;
        add("database with an unknown field", x, Some(&key));
        let mut x = f.clone();
        x[0] = 0;
        add("database with a wrong signature", x, Some(&key));
        m.gzip = false;
        m.comment = Some(b"a comment in the header".to_vec());
        let kfile = kf(&[7; 32], KeyFileType::Xml);
        let k2 = CompositeKey::from_key_file(kfile.clone());
        m.ckey = k2.clone().unsecure();
        add("database with key file and comment, not compressed", save(&build(&m, &k2)).unwrap_or_default(), Some(&k2));
        let k3 = CompositeKey::from_both("c08", kfile);
        m.comment = Some(vec![]);
        m.ckey = k3.clone().unsecure();
        add("database with both, empty comment", save(&build(&m, &k3)).unwrap_or_default(), Some(&k3));
        for (gz, split) in [(true, 100i64), (false, 100), (false, -1)] {
            let mut d = super::c03::dialect(ck);
            d.params.gzip = gz;
            d.params.rounds = 0;
            d.split = split;
            add(&format!("database of several blocks, gzip {}, split {}", gz, split), super::c03::file_of(&small(ck), &d), Some(&key));
        }
        for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
            let mut b = vec![];
            let _ = kf(&[0x5a; 32], t.clone()).save(&mut b);
            add(&format!("key file {:?}", t), b, None);
        }
        add("key file, other layout", b"<?xml version='1.0'?>\n<KeyFile>\r\n <!-- c -->\n<Key><Data> WlpaWlpaWlpaWlpaWlpaWlpaWlpaWlpaWlpaWlpaWlo= </Data></Key><Meta><Version>1.00</Version></Meta></KeyFile>\n".to_vec(), None);
        add("key file of 64 bytes, not hexadecimal", vec![b'z'; 64], None);
        add("key file of 31 bytes", vec![7; 31], None);
        add("key file, empty", vec![], None);
        add("key file cut", b"<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>WlpaWlpaWlpaWlpaWlpaWlpaWlpaWlpaWlpaWlpaWlo=</Da".to_vec(), None);
    });
    v
}

fn whole(i: &Input) -> (Outcome, u64) {
    let s = Script::base(Base::Full);
    let mut r = Source::new(&i.bytes, &s);
    let o = i.run(&mut r);
    let n = r.calls();
    (o, n)
}

fn judge(inp: &Input, want: &Outcome, s: &Script) -> Res {
    let mut r = Source::new(&inp.bytes, s);
    let got = inp.run(&mut r);
    let d = digest(&(&inp.name, s));
    if r.failed() {
        return match got {
            Outcome::Err(e) => good(&format!("refused: {}", class(&e)), d),
            _ => bad("error ignored", format!("{}: the source failed, yet opening succeeded ({:?})", inp.name, s)),
        };
    }
    if got != *want {
        return bad("delivery", format!("{}: delivered as {:?} the result is {}, in one piece it is {}", inp.name, s, clip400(&format!("{:?}", got)), clip400(&format!("{:?}", want))));
    }
    good(
        match &got {
            Outcome::Db(_) => "database opened",
            Outcome::Key(..) => "key file opened",
            Outcome::Err(_) => "refused as in one piece",
        },
        d,
    )
}
fn class(e: &str) -> String {
    e.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

pub const ACTS: [Act; 8] = [Act::Up(1), Act::Up(2), Act::Up(16), Act::Half, Act::AllButOne, Act::Intr, Act::Fail(0), Act::Dead(1)];

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let ins: Arc<Vec<(Input, Outcome, u64)>> = Arc::new(
        inputs()
            .into_iter()
            .map(|i| {
                let (o, n) = no_panic(|| whole(&i)).unwrap_or((Outcome::Err("panic".into()), 0));
                (i, o, n)
            })
            .collect(),
    );
    let mut v: Vec<Item> = vec![];
    // the baseline says what it should
    let a = ins.clone();
    v.push(
        Space::new(
            "in one piece",
            "every input from memory (a slice) and from a source that hands out all it has",
            ins.len() as u64,
            move |i| {
                let (inp, want, _) = &a[i as usize];
                let got = inp.run(&mut &inp.bytes[..]);
                let opens = !matches!(got, Outcome::Err(_));
                let should = ["database", "database with key file and comment, not compressed", "database with both, empty comment", "key file, other layout"].contains(&inp.name.as_str())
                    || inp.name.contains("several blocks")
                    || ["key file Binary", "key file Hex", "key file Xml"].contains(&inp.name.as_str());
                if opens != should {
                    return bad("baseline", format!("{}: {}", inp.name, clip400(&format!("{:?}", got))));
                }
                if got != *want {
                    return bad("delivery", format!("{}: a slice gives {:?}, a scripted source {:?}", inp.name, got, want));
                }
                good(if opens { "opens" } else { "refused" }, digest(&inp.name))
            },
            |i| format!("input {}", i),
        )
        .into(),
    );
    let mk = |v: &mut Vec<Item<'static>>, inp: usize, name: &str, what: &str, n: u64, f: Box<dyn Fn(u64) -> Script + Send + Sync>| {
        let f: Arc<dyn Fn(u64) -> Script + Send + Sync> = f.into();
        let (a, g) = (ins.clone(), f.clone());
        let nm = ins[inp].0.name.clone();
        v.push(
            Space::new(&format!("{} of {}", name, nm), what, n, move |i| judge(&a[inp].0, &a[inp].1, &f(i)), move |i| format!("{}: {:?}", nm, g(i))).into(),
        );
    };
    for k in 0..ins.len() {
        let len = ins[k].0.bytes.len();
        let calls = ins[k].2 + 3;
        // constant pieces
        mk(&mut v, k, "pieces", "pieces of every constant size, without and with an interruption before each", 2 * len as u64 + 2, Box::new(move |i| Script::base(if i % 2 == 0 { Base::Chunk(i as usize / 2 + 1) } else { Base::Alternate(i as usize / 2 + 1) })));
        // one cut
        mk(&mut v, k, "one cut", "two pieces, cut at every place", len as u64 + 1, Box::new(move |i| Script::base(Base::Cuts(vec![i as usize]))));
        // failure at every place
        mk(&mut v, k, "failure at every byte", "an error of every kind after every number of bytes, all at once or byte by byte before it", (len as u64 + 1) * 2 * KINDS.len() as u64, {
            Box::new(move |i| {
                let kd = (i % 12) as usize;
                let at = (i / 24) as usize;
                if i / 12 % 2 == 0 {
                    Script::base(Base::LimitOnce(at, Act::Fail(kd)))
                } else {
                    Script { base: Base::Chunk(1), acts: vec![(at as u64, Act::Fail(kd))] }
                }
            })
        });
        // interruption at every call of byte-by-byte delivery, several in a row
        mk(&mut v, k, "interruptions", "1 to 3 interruptions at every call of delivery in pieces of 1 and of 7 bytes", (len as u64 + 2) * 6, {
            Box::new(move |i| {
                let at = i / 6;
                Script { base: Base::Chunk(if i % 2 == 0 { 1 } else { 7 }), acts: (0..(i / 2 % 3 + 1)).map(|j| (at + j, Act::Intr)).collect() }
            })
        });
        // one deviation, with every kind of error
        let singles: Vec<Act> = ACTS.iter().copied().chain((0..KINDS.len()).map(Act::Fail)).chain([3usize, 4, 5, 7, 8, 11, 13, 15, 17, 31, 32, 33, 63, 64, 65].into_iter().map(Act::Up)).collect();
        let ns = singles.len() as u64;
        mk(&mut v, k, "one deviation", "one call answered otherwise (1 to 65 bytes, half, all but one, interrupted, an error of every kind)", calls * ns, Box::new(move |i| Script::acts(&[(i / ns, singles[(i % ns) as usize])])));
        // two deviations
        let na = ACTS.len() as u64;
        let c2 = calls + 3;
        mk(&mut v, k, "two deviations", "every pair of calls answered otherwise", c2 * (c2 - 1) / 2 * na * na, {
            Box::new(move |i| {
                let (x, y) = (i % na, i / na % na);
                let (p, q) = pair(i / na / na);
                Script::acts(&[(p, ACTS[x as usize]), (q, ACTS[y as usize])])
            })
        });
        if ctx.thorough() && (k == 0 || k == 7 || k > 11) {
            let c3 = calls + 4;
            mk(&mut v, k, "three deviations", "every triple of calls answered otherwise (by one byte, half, an interruption, an error)", c3 * c3 * c3 * 64, {
                let ac = [Act::Up(1), Act::Half, Act::Intr, Act::Fail(0)];
                Box::new(move |i| {
                    let a = |j: u64| ac[(i >> (2 * j) & 3) as usize];
                    let n = i / 64;
                    Script::acts(&[(n % c3, a(0)), (n / c3 % c3, a(1)), (n / c3 / c3, a(2))])
                })
            });
        }
        // every subset of cuts
        let bits = ctx.q(10u64, 15).min(len as u64);
        if len > 0 {
            // the field boundaries of a header, then equal parts
            let places: Vec<usize> = {
                let mut p: Vec<usize> = vec![];
                if ins[k].0.key.is_some() {
                    let (b, mut at) = (&ins[k].0.bytes, 12);
                    p.extend([4, 8, 12]);
                    while at + 3 < b.len() && p.len() < bits as usize {
                        p.push(at + 1);
                        p.push(at + 3);
                        at += 3 + u16::from_le_bytes([b[at + 1], b[at + 2]]) as usize;
                        p.push(at);
                    }
                } else {
                    p.extend((1..=bits as usize).map(|j| j * len / (bits as usize + 1)));
                }
                p.retain(|x| *x > 0 && *x < len);
                p.sort();
                p.dedup();
                p.truncate(bits as usize);
                p
            };
            mk(&mut v, k, "cuts", "every subset of 10 (thorough: 15) places as cuts", 1 << places.len(), Box::new(move |i| Script::base(Base::Cuts(places.iter().enumerate().filter(|(j, _)| i >> j & 1 == 1).map(|(_, p)| *p).collect()))));
        }
        // the standard library's sources
        let a = ins.clone();
        v.push(
            Space::new(
                &format!("standard sources of {}", ins[k].0.name),
                "cursors, chains, limited and buffered readers with every split or size",
                4 * (len as u64 + 1),
                move |i| {
                    let (inp, want, _) = &a[k];
                    let at = (i / 4) as usize;
                    let b = &inp.bytes;
                    let got = match i % 4 {
                        0 => inp.run(&mut (&b[..at]).chain(&b[at..])),
                        1 => inp.run(&mut std::io::BufReader::with_capacity(at + 1, &b[..])),
                        2 => inp.run(&mut (&b[..]).take(at as u64).chain(std::io::Cursor::new(&b[at..]))),
                        _ => {
                            let s = Script::base(Base::Alternate(at + 1));
                            inp.run(&mut std::io::BufReader::with_capacity(5, Source::new(b, &s)))
                        }
                    };
                    if got != *want {
                        return bad("delivery", format!("{}: {:?} instead of {:?}", inp.name, got, want));
                    }
                    good("as in one piece", digest(&(k, i)))
                },
                |i| format!("kind {} at {}", i % 4, i / 4),
            )
            .into(),
        );
    }
    large(ctx, &mut v);
    v
}

/// Large inputs: places around the usual buffer sizes, and others at equal distances.
pub fn landmarks(len: usize, parts: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (9..22).flat_map(|k| (1usize << k) - 2..(1usize << k) + 3).chain((0..=parts).map(|j| j * len / parts)).chain([1, 2, len - 1, len - 2, len - 16, len - 17]).filter(|x| *x <= len).collect();
    p.sort();
    p.dedup();
    p
}

fn large(ctx: &Ctx, v: &mut Vec<Item<'static>>) {
    let (key, ck) = pw("c08");
    let mut ins: Vec<Input> = vec![];
    on_seeded_thread(8 << 20, 88, || {
        let mut sizes = vec![7000usize, 70_000, 150_000];
        if ctx.thorough() {
            sizes.extend([300_000, 1_200_000]);
        }
        for n in sizes {
            for gz in [false, true] {
                let mut m = small(ck);
                m.gzip = gz;
                m.rounds = 0;
                m.comment = Some(vec![b'c'; n.min(65_000)]);
                m.binaries.insert("0".into(), (0..n).map(|j| crate::env::mix(j as u64) as u8).collect());
                let f = save(&build(&m, &key)).unwrap_or_default();
                ins.push(Input { name: format!("database with an attachment of {} bytes, gzip {}", n, gz), bytes: f, key: Some(key.clone()) });
            }
            for at in 0..3 {
                ins.push(Input { name: format!("key file with {} bytes of white space, form {}", n, at), bytes: long_key_file(n, at, &[0x5a; 32]), key: None });
            }
        }
    });
    let ins: Arc<Vec<(Input, Outcome)>> = Arc::new(
        ins.into_iter()
            .map(|i| {
                let o = no_panic(|| i.run(&mut &i.bytes[..])).unwrap_or(Outcome::Err("panic".into()));
                (i, o)
            })
            .collect(),
    );
    const KINDS: u64 = 9;
    let parts = ctx.q(40, 200);
    let at: Vec<(usize, usize)> = ins.iter().enumerate().flat_map(|(k, i)| landmarks(i.0.bytes.len(), parts).into_iter().map(move |x| (k, x))).collect();
    let script = |kind: u64, x: usize| match kind {
        0 => Script::base(Base::Cuts(vec![x])),
        1 => Script::base(Base::Chunk(x.max(64))),
        2 => Script::base(Base::LimitOnce(x, Act::Fail(0))),
        3 => Script::base(Base::LimitOnce(x, Act::Fail(3))),
        4 => Script::base(Base::Limit(x, Act::Dead(1))),
        5 => Script::base(Base::LimitOnce(x, Act::Intr)),
        6 => Script::base(Base::Alternate(x.max(500))),
        7 => Script { base: Base::Cuts(vec![x]), acts: vec![(1, Act::Intr), (3, Act::Up(1)), (5, Act::Half)] },
        _ => Script::base(Base::Cuts(vec![x, x + 1, x + 2])),
    };
    let (a, at1, b) = (ins.clone(), Arc::new(at), ins);
    let at3 = at1.clone();
    v.push(
        Space::new(
            "large inputs",
            "databases with large attachments and comments and long key files, cut, failing or interrupted around every usual buffer size and at many other places",
            at1.len() as u64 * KINDS,
            move |i| {
                let (k, x) = at1[(i / KINDS) as usize];
                let (inp, want) = &a[k];
                if matches!(want, Outcome::Err(_)) {
                    return bad("baseline", format!("{} does not open: {:?}", inp.name, want));
                }
                judge(inp, want, &script(i % KINDS, x))
            },
            move |i| {
                let (k, x) = at3[(i / KINDS) as usize];
                format!("{}: at {} kind {}", b[k].0.name, x, i % KINDS)
            },
        )
        .into(),
    );
}

/// An XML key file with much white space: before the key, in its data, at the end.
pub fn long_key_file(n: usize, at: usize, key: &[u8]) -> Vec<u8> {
    let gap = |k: usize| if k == at { "\n".repeat(n) } else { String::new() };
    let d = crate::refs::b64::enc(key);
    let (d1, d2) = d.split_at(d.len() / 2);
    format!("<?xml version=\"1.0\"?>\n<KeyFile><Meta><Version>1.00</Version></Meta>{}<Key><Data>{}{}{}</Data></Key></KeyFile>{}", gap(0), d1, gap(1), d2, gap(2)).into_bytes()
}

/// (a, b) with a < b, number i
pub fn pair(i: u64) -> (u64, u64) {
    let mut b = ((((8 * i + 1) as f64).sqrt() + 1.0) / 2.0) as u64;
    while b * (b - 1) / 2 > i {
        b -= 1;
    }
    while (b + 1) * b / 2 <= i {
        b += 1;
    }
    (i - b * (b - 1) / 2, b)
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C08",
        level: "fault_enumeration",
        rule: "every script of source behaviour of the listed forms for every input; the result must be that of delivery in one piece, or an error if the source failed; non-trivial: a distinct (input, script)",
        items,
        assumptions: &["an error reported in place of the end of the source counts as before its end"],
    }
}
