//! Randomness: what is drawn, where each bit of it goes, and what happens when it fails.
use crate::engine::*;
use crate::env::{self, Rng};
use crate::lk::open;
use crate::lk::*;
use crate::model::*;
use kpdb::*;
use std::collections::HashMap;
use std::sync::Arc;

/// The secrets of a thing: name, value, bits that must come from the system.
type Secrets = Vec<(String, Vec<u8>, usize)>;

fn of_file(f: &[u8], ck: &[u8; 32]) -> std::result::Result<Secrets, String> {
    let p = crate::kdbx::open(f, ck)?;
    let mut v = vec![];
    for (id, n, name) in [(4u8, 32, "master seed"), (5, 32, "transformation seed"), (7, 16, "initialisation vector"), (8, 32, "inner stream key"), (9, 32, "start bytes")] {
        let d = p.field(id).ok_or(format!("{} missing", name))?;
        if d.len() != n {
            return Err(format!("{} of {} bytes", name, d.len()));
        }
        v.push((name.to_string(), d.to_vec(), n * 8));
    }
    Ok(v)
}
fn of_key(k: KeyFile) -> std::result::Result<Secrets, String> {
    let b = k.key.unsecure().to_vec();
    if b.len() != 32 {
        return Err(format!("a generated key of {} bytes", b.len()));
    }
    Ok(vec![("generated key".into(), b, 256)])
}
fn of_uuid(n: &str, u: &[u8; 16]) -> Secrets {
    vec![(n.to_string(), u.to_vec(), 122)]
}

pub struct Scenario {
    pub name: String,
    f: Box<dyn Fn() -> std::result::Result<Secrets, String> + Send + Sync>,
}

struct Db {
    d: Database,
    ck: [u8; 32],
}
unsafe impl Sync for Db {}
unsafe impl Send for Db {}

fn dbs() -> Vec<(String, Db)> {
    let (key, ck) = pw("c10");
    let mut v: Vec<(String, Db)> = vec![];
    let mut m0 = MDb::new(ck);
    m0.rounds = 0;
    let mut add = |n: &str, m: &MDb, k: &CompositeKey| v.push((n.into(), Db { d: build(m, k), ck: m.ckey }));
    add("empty, compressed", &m0, &key);
    let mut m = m0.clone();
    m.gzip = false;
    add("empty, not compressed", &m, &key);
    m.comment = Some(vec![9; 300]);
    add("with comment", &m, &key);
    let k = CompositeKey::from_both("c10", kf(&[3; 32], KeyFileType::Xml));
    let mut m = small(k.clone().unsecure());
    m.rounds = 1;
    add("small, password and key file", &m, &k);
    let k = CompositeKey::from_key_file(kf(&[3; 32], KeyFileType::Hex));
    let mut m = small(k.clone().unsecure());
    m.rounds = 3;
    m.gzip = false;
    add("small, key file", &m, &k);
    let mut m = rich(ck);
    m.rounds = 0;
    add("rich", &m, &key);
    v
}

pub fn scenarios() -> Vec<Scenario> {
    let mut v: Vec<Scenario> = vec![];
    let mut add = |n: &str, f: Box<dyn Fn() -> std::result::Result<Secrets, String> + Send + Sync>| v.push(Scenario { name: n.into(), f });
    let ds = Arc::new(on_seeded_thread(8 << 20, 10, dbs));
    for i in 0..ds.len() {
        let d = ds.clone();
        add(&format!("save ({})", ds[i].0), Box::new(move || of_file(&save(&d[i].1.d).map_err(|e| format!("{:?}", e))?, &d[i].1.ck)));
    }
    let d = ds.clone();
    add(
        "second save of the same database",
        Box::new(move || {
            save(&d[0].1.d).map_err(|e| format!("{:?}", e))?;
            of_file(&save(&d[0].1.d).map_err(|e| format!("{:?}", e))?, &d[0].1.ck)
        }),
    );
    let d = ds.clone();
    add(
        "save of an opened database",
        Box::new(move || {
            let f = save(&d[0].1.d).map_err(|e| format!("{:?}", e))?;
            let o = open(&f, &pw("c10").0).map_err(|e| format!("{:?}", e))?;
            of_file(&save(&o).map_err(|e| format!("{:?}", e))?, &d[0].1.ck)
        }),
    );
    add("KeyFile::new", Box::new(|| of_key(KeyFile::new().map_err(|e| format!("{:?}", e))?)));
    add("KeyFile::new_binary", Box::new(|| of_key(KeyFile::new_binary().map_err(|e| format!("{:?}", e))?)));
    add("KeyFile::new_hex", Box::new(|| of_key(KeyFile::new_hex().map_err(|e| format!("{:?}", e))?)));
    add("KeyFile::new_xml", Box::new(|| of_key(KeyFile::new_xml().map_err(|e| format!("{:?}", e))?)));
    add("Entry::new", Box::new(|| Ok(of_uuid("identifier", Entry::new().uuid.0.as_bytes()))));
    add("Group::new", Box::new(|| Ok(of_uuid("identifier", Group::new("g").uuid.0.as_bytes()))));
    add("Database::new", Box::new(|| Ok(of_uuid("identifier of the root group", Database::new(&pw("c10").0).root_group.uuid.0.as_bytes()))));
    add("EntryUuid::new_random", Box::new(|| Ok(of_uuid("identifier", EntryUuid::new_random().0.as_bytes()))));
    add("GroupUuid::new_random", Box::new(|| Ok(of_uuid("identifier", GroupUuid::new_random().0.as_bytes()))));
    add("CustomIconUuid::new_random", Box::new(|| Ok(of_uuid("identifier", CustomIconUuid::new_random().0.as_bytes()))));
    v
}

const SEED: u64 = 1010;

fn run(s: &Scenario, mode: Rng) -> (std::result::Result<Secrets, String>, env::RngLog) {
    // the order of hash maps is drawn once per thread
    let _ = HashMap::<u8, u8>::new();
    env::rng(mode);
    let (r, l) = env::logged(|| no_panic(|| (s.f)()));
    env::rng(Rng::Stream(1));
    (r.unwrap_or_else(|p| Err(format!("panic: {}", p))), l)
}

/// All values of a set: no two share eight bytes, nor does one repeat itself.
fn distinct<'a>(it: impl Iterator<Item = (String, &'a [u8])>, seen: &mut HashMap<[u8; 8], String>) -> std::result::Result<(), String> {
    for (n, d) in it {
        for (k, w) in d.windows(8).enumerate() {
            let here = format!("{} at byte {}", n, k);
            if let Some(o) = seen.insert(w.try_into().unwrap(), here.clone()) {
                return Err(format!("{} and {} are the same ({})", o, here, crate::refs::b64::hex(w)));
            }
        }
    }
    Ok(())
}

fn influence(s: &Scenario) -> Res {
    let (base, log) = run(s, Rng::Stream(SEED));
    let base = match base {
        Ok(b) => b,
        Err(e) => return bad("no secrets", format!("{}: {}", s.name, e)),
    };
    if let Err(e) = distinct(base.iter().map(|x| (x.0.clone(), &x.1[..])), &mut HashMap::new()) {
        return bad("shared", format!("{}: {}", s.name, e));
    }
    let (again, _) = run(s, Rng::Stream(SEED));
    if again.as_ref().ok() != Some(&base) {
        return bad("not from the system", format!("{}: the secrets differ although the system's generator repeated itself", s.name));
    }
    // bits that reach exactly one secret, and the bytes reached
    let mut own = vec![0usize; base.len()];
    let mut reached: Vec<Vec<u8>> = base.iter().map(|b| vec![0; b.1.len()]).collect();
    for p in 0..log.bytes {
        for bit in 0..8 {
            let (x, _) = run(s, Rng::Flip(SEED, p, 1 << bit));
            let x = match x {
                Ok(x) => x,
                Err(e) => return bad("no secrets", format!("{}: {}", s.name, e)),
            };
            let mut hit = vec![];
            for (i, (a, b)) in base.iter().zip(&x).enumerate() {
                if a.1 != b.1 {
                    hit.push(i);
                }
                for (j, (q, r)) in a.1.iter().zip(&b.1).enumerate() {
                    reached[i][j] |= q ^ r;
                }
            }
            if hit.len() == 1 {
                own[hit[0]] += 1;
            }
        }
    }
    for (i, b) in base.iter().enumerate() {
        if own[i] < b.2 {
            return bad("weak", format!("{}: {} depends on {} bits of the system's random source alone, it needs {}", s.name, b.0, own[i], b.2));
        }
        let bits: u32 = reached[i].iter().map(|x| x.count_ones()).sum();
        if (bits as usize) < b.2 {
            return bad("weak", format!("{}: only {} bits of {} vary with the system's random source", s.name, bits, b.0));
        }
    }
    good_n("every bit from the system", digest(&s.name), log.bytes * 8 + 2)
}

/// Every value of one byte of the source: as many sets of secrets as the bits that have an influence allow.
fn values(s: &Scenario, p: u64) -> Res {
    let (base, log) = run(s, Rng::Stream(SEED));
    let base = match base {
        Ok(b) => b,
        Err(e) => return bad("no secrets", format!("{}: {}", s.name, e)),
    };
    if p >= log.bytes {
        return trivial("not drawn", digest(&s.name));
    }
    let mut seen: HashMap<Secrets, u8> = HashMap::new();
    let mut bits = 0;
    seen.insert(base.clone(), 0);
    for x in 1..=255u8 {
        match run(s, Rng::Flip(SEED, p, x)).0 {
            Ok(r) => {
                if x.count_ones() == 1 && r != base {
                    bits += 1;
                }
                seen.insert(r, x);
            }
            Err(e) => return bad("no secrets", format!("{}: {}", s.name, e)),
        }
    }
    // a byte of a version 4 identifier has fixed bits; a generator in between mixes all
    if seen.len() < 1 << bits {
        return bad("weak", format!("{}: the 256 values of byte {} of the random source give {} different sets of secrets, although {} of its bits have an influence", s.name, p, seen.len(), bits));
    }
    good_n("all values", digest(&(&s.name, p)), 257)
}

fn need(s: &Secrets) -> u64 {
    s.iter().map(|x| x.1.len() as u64).sum()
}

/// Under a disturbed source: nothing, or the full measure.
fn disturbed(s: &Scenario, mode: Rng) -> Res {
    let (r, l) = run(s, mode);
    let d = digest(&(&s.name, format!("{:?}", mode)));
    match r {
        Err(_) if l.failed > 0 || matches!(mode, Rng::Interrupt(..)) => good("nothing produced", d),
        Err(e) => bad("refused", format!("{}: {:?}: {}", s.name, mode, e)),
        Ok(x) => {
            if l.failed > 0 {
                return bad("failure ignored", format!("{}: the system's random source failed ({:?}), yet secrets were produced", s.name, mode));
            }
            if l.bytes < need(&x) {
                return bad("too few", format!("{}: {:?}: {} random bytes for {} bytes of secrets", s.name, mode, l.bytes, need(&x)));
            }
            if let Err(e) = distinct(x.iter().map(|x| (x.0.clone(), &x.1[..])), &mut HashMap::new()) {
                return bad("shared", format!("{}: {:?}: {}", s.name, mode, e));
            }
            good("full measure", d)
        }
    }
}

// ---------------------------------------------------------------- histories

const OPS: [&str; 11] = [
    "save A",
    "save B",
    "save A again into a failing sink",
    "save A with content that cannot be written",
    "open the last file and save it",
    "generate a key file",
    "new entry and group",
    "save while the random source fails",
    "save a clone of A",
    "open with a wrong password",
    "new database, saved",
];

struct Hist {
    a: Db,
    b: Db,
    bad: Db,
}

fn hist() -> Hist {
    let mut v = dbs();
    let (key, ck) = pw("c10");
    let mut m = small(ck);
    m.rounds = 0;
    m.name = "\u{1}".into();
    Hist { bad: Db { d: build(&m, &key), ck }, b: v.swap_remove(4).1, a: v.swap_remove(0).1 }
}

/// Runs the history; every secret of it is distinct and freshly drawn.
fn history(h: &Hist, ops: impl Iterator<Item = usize>, seed: u64, real: bool) -> std::result::Result<(u64, u64), Bad> {
    let mut seen = HashMap::new();
    let mode = if real { Rng::Real } else { Rng::Stream(seed) };
    env::rng(mode);
    let mut last: Option<(Vec<u8>, CompositeKey, [u8; 32])> = None;
    let mut n = 0u64;
    let mut sum = 0;
    for op in ops {
        n += 1;
        let (r, l) = env::logged(|| -> std::result::Result<Secrets, String> {
            let sv = |d: &Database, ck: &[u8; 32], last: &mut Option<_>| {
                let f = save(d).map_err(|e| format!("{:?}", e))?;
                let s = of_file(&f, ck);
                *last = Some((f, d.composite_key.clone(), *ck));
                s
            };
            Ok(match op {
                0 => sv(&h.a.d, &h.a.ck, &mut last)?,
                1 => sv(&h.b.d, &h.b.ck, &mut last)?,
                2 => {
                    let s = crate::faultio::Script::base(crate::faultio::Base::Limit(150, crate::faultio::Act::Dead(0)));
                    let mut w = crate::faultio::Sink::new(&s);
                    let _ = h.a.d.save(&mut w);
                    vec![]
                }
                3 => {
                    let _ = save(&h.bad.d);
                    vec![]
                }
                4 => match last.take() {
                    None => vec![],
                    Some((f, k, ck)) => {
                        let d = open(&f, &k).map_err(|e| format!("{:?}", e))?;
                        sv(&d, &ck, &mut last)?
                    }
                },
                5 => of_key(KeyFile::new().map_err(|e| format!("{:?}", e))?)?,
                6 => {
                    let mut v = of_uuid("entry identifier", Entry::new().uuid.0.as_bytes());
                    v.extend(of_uuid("group identifier", Group::new("g").uuid.0.as_bytes()));
                    v
                }
                7 => {
                    env::rng_keep(Rng::FailAfter(seed, n % 3));
                    let r = no_panic(|| save(&h.a.d));
                    env::rng_keep(mode);
                    if let Ok(Ok(_)) = r {
                        return Err("saved although the random source failed".into());
                    }
                    vec![]
                }
                8 => sv(&h.a.d.clone(), &h.a.ck, &mut last)?,
                9 => {
                    if let Some((f, _, _)) = &last {
                        let _ = open(f, &pw("wrong").0);
                    }
                    vec![]
                }
                _ => {
                    let (key, ck) = pw("fresh");
                    let mut d = Database::new(&key);
                    d.transform_rounds = TransformRounds(0);
                    let mut v = of_uuid("root identifier", d.root_group.uuid.0.as_bytes());
                    v.extend(sv(&d, &ck, &mut last)?);
                    v
                }
            })
        });
        let r = match r {
            Ok(r) => r,
            Err(e) => return bad("failed", format!("step {} ({}): {}", n, OPS[op], e)),
        };
        if !real && l.bytes < need(&r) {
            return bad("too few", format!("step {} ({}): {} random bytes drawn for {} bytes of secrets", n, OPS[op], l.bytes, need(&r)));
        }
        sum ^= digest(&r);
        if let Err(e) = distinct(r.iter().map(|x| (format!("{} of step {}", x.0, n), &x.1[..])), &mut seen) {
            return bad("shared", e);
        }
    }
    env::rng(Rng::Stream(1));
    Ok((n, sum))
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let sc = Arc::new(scenarios());
    let mut v: Vec<Item> = vec![];
    let (a, b) = (sc.clone(), sc.clone());
    v.push(Space::new("influence", "for every bit the system's random source supplies, the secrets it changes", sc.len() as u64, move |i| influence(&a[i as usize]), move |i| b[i as usize].name.clone()).into());
    const MAXB: u64 = 260;
    let some: Arc<Vec<usize>> = Arc::new((0..sc.len()).collect());
    let (a, b, i1, i2) = (sc.clone(), sc.clone(), some.clone(), some.clone());
    v.push(
        Space::new(
            "values",
            "every value of every byte the system's random source supplies: no two give the same secrets (but for the fixed bits of identifiers)",
            some.len() as u64 * MAXB,
            move |i| values(&a[i1[(i / MAXB) as usize]], i % MAXB),
            move |i| format!("{} byte {}", b[i2[(i / MAXB) as usize]].name, i % MAXB),
        )
        .into(),
    );
    const MAXC: u64 = 24;
    let (a, b) = (sc.clone(), sc.clone());
    v.push(
        Space::new(
            "failures",
            "the random source fails for good at every call",
            sc.len() as u64 * MAXC,
            move |i| disturbed(&a[(i / MAXC) as usize], Rng::FailAfter(SEED, i % MAXC)),
            move |i| format!("{}: failing from call {}", b[(i / MAXC) as usize].name, i % MAXC),
        )
        .into(),
    );
    let (a, b) = (sc.clone(), sc.clone());
    v.push(
        Space::new(
            "interruptions",
            "the random source is interrupted at every call",
            sc.len() as u64 * MAXC,
            move |i| disturbed(&a[(i / MAXC) as usize], Rng::Interrupt(SEED, i % MAXC)),
            move |i| format!("{}: interrupted at call {}", b[(i / MAXC) as usize].name, i % MAXC),
        )
        .into(),
    );
    let (a, b) = (sc.clone(), sc.clone());
    v.push(
        Space::new(
            "short answers",
            "the random source hands out at most 1 to 40 bytes per call",
            sc.len() as u64 * 40,
            move |i| disturbed(&a[(i / 40) as usize], Rng::Short(SEED, (i % 40 + 1) as usize)),
            move |i| format!("{}: {} bytes per call", b[(i / 40) as usize].name, i % 40 + 1),
        )
        .into(),
    );
    let h = Arc::new(on_seeded_thread(8 << 20, 10, hist));
    let k = OPS.len() as u64;
    for len in 1..=ctx.q(5u32, 6) {
        let h = h.clone();
        let ops = move |i: u64| (0..len).map(move |j| (i / k.pow(j) % k) as usize);
        v.push(
            Space::new(
                &format!("histories of {}", len),
                "every history of saves, failing saves, opens, generated keys and identifiers; all secrets of a history compared with one another",
                k.pow(len),
                move |i| history(&h, ops(i), env::mix(i ^ 77), false).map(|(n, s)| Good { class: "all distinct".into(), digest: s, nontrivial: s != 0, steps: n }),
                move |i| ops(i).map(|o| OPS[o]).collect::<Vec<_>>().join("; "),
            )
            .into(),
        );
    }
    let long = ctx.q(3000, 30000);
    let h1 = h.clone();
    v.push(
        Space::new(
            "long histories",
            "one operation repeated many times, or all in turn, on one thread; with the harness's random source and with the kernel's",
            2 * (k + 1),
            move |i| {
                let o = (i / 2) as usize;
                history(&h1, (0..long).map(|j| if o == k as usize { (j * 7 + j / 11) % k as usize } else { o }), 4, i % 2 == 1).map(|(n, s)| Good { class: "all distinct".into(), digest: s ^ i, nontrivial: true, steps: n })
            },
            move |i| format!("{} x{} {}", if i / 2 == k { "all" } else { OPS[(i / 2) as usize] }, long, if i % 2 == 1 { "kernel" } else { "harness" }),
        )
        .into(),
    );
    let h1 = h.clone();
    v.push(
        Space::new(
            "threads",
            "saves on 2 to 8 threads at once with the kernel's random source",
            7,
            move |i| {
                let n = i as usize + 2;
                let all: Vec<std::result::Result<Secrets, String>> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..n)
                        .map(|_| {
                            s.spawn(|| {
                                env::rng(Rng::Real);
                                let mut v = vec![];
                                for _ in 0..40 {
                                    v.extend(of_file(&save(&h1.a.d).map_err(|e| format!("{:?}", e))?, &h1.a.ck)?);
                                    v.extend(of_key(KeyFile::new().map_err(|e| format!("{:?}", e))?)?);
                                    v.extend(of_uuid("identifier", Entry::new().uuid.0.as_bytes()));
                                }
                                Ok(v)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
                });
                let mut seen = HashMap::new();
                for (t, r) in all.into_iter().enumerate() {
                    let r = r.map_err(|e| Bad::from(e))?;
                    if let Err(e) = distinct(r.iter().map(|x| (format!("{} on thread {}", x.0, t), &x.1[..])), &mut seen) {
                        return bad("shared", e);
                    }
                }
                good_n("all distinct", digest(&n), n as u64 * 120)
            },
            |i| format!("{} threads", i + 2),
        )
        .serial()
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C10",
        level: "fault_enumeration",
        rule: "every bit of the random source flipped in turn, every failure point of it, and every history up to the bound; non-trivial: a distinct scenario, disturbance or set of secrets",
        items,
        assumptions: &["the system's random source is what getrandom(2) hands out (intercepted in the harness's own process)", "two independent values of 8 random bytes do not coincide"],
    }
}
