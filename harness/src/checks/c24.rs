//! Secrets do not outlive the values that hold them: every block of memory released is looked into.
use crate::engine::*;
use crate::env;
use crate::lk::*;
use crate::model::uid;
use kpdb::*;
use secstr::SecStr;
use std::sync::Arc;
use uuid::Uuid;

/// Values set as protected, in texts of several lengths; the last two are keys.
fn secrets() -> Vec<Vec<u8>> {
    let text = |n: usize, salt: u64| -> Vec<u8> {
        (0..n).map(|i| b'A' + (env::mix(salt * 1000 + i as u64) % 58) as u8).map(|b| if b"\\[]^_`".contains(&b) { b'#' } else { b }).collect()
    };
    let bytes = |salt: u64| -> Vec<u8> { (0..32).map(|i| env::mix(salt * 77 + i) as u8).collect() };
    vec![text(8, 1), text(23, 2), text(64, 3), text(600, 4), text(5000, 5), bytes(6), bytes(7)]
}

pub struct St {
    d: Database,
    kept: Vec<Entry>,
    groups: Vec<Group>,
    values: Vec<StringValue>,
    keys: Vec<CompositeKey>,
    kfs: Vec<KeyFile>,
}

pub const OPS: &[&str] = &[
    "set a password from text",
    "set a password from a string of its own",
    "set another password",
    "insert protected notes",
    "insert a long protected value under a key of its own",
    "remove the password from the map",
    "set protected text by set_other over the password",
    "insert a protected attachment",
    "remove the attachments",
    "keep the entry in its history",
    "clear the history",
    "add a clone of the entry to a group below",
    "remove the first entry",
    "remove the group below",
    "keep the removed entry and drop it",
    "clone the database and drop the clone",
    "replace the database by its clone",
    "set the plain fields",
    "search and look up",
    "read the values",
    "print",
    "compare",
    "make a key from a password",
    "make a key from a key file",
    "make a key from both",
    "give the database another key",
    "drop the keys",
    "make protected text plain again",
    "sort the entries",
    "many strings in one entry",
];

pub fn apply(s: &mut St, op: usize, sec: &[Vec<u8>]) {
    let t = |i: usize| std::str::from_utf8(&sec[i]).unwrap();
    let e = |s: &mut St| -> usize {
        if s.d.root_group.entries.is_empty() {
            let mut e = Entry::new();
            e.uuid = EntryUuid(Uuid::from_bytes(uid(9)));
            s.d.root_group.add_entry(e);
        }
        0
    };
    macro_rules! e {
        () => {{
            let i = e(s);
            &mut s.d.root_group.entries[i]
        }};
    }
    match op {
        0 => e!().set_password(t(0)),
        1 => e!().set_password(String::from(t(1))),
        2 => e!().set_password(t(2)),
        3 => drop(e!().strings.insert(StringKey::Notes, StringValue::new(t(3), true))),
        4 => drop(e!().strings.insert(StringKey::Other("pin".into()), StringValue::new(t(4), true))),
        5 => drop(e!().strings.remove(&StringKey::Password)),
        6 => e!().set_other(StringKey::Password, "plain"),
        7 => drop(e!().binaries.insert(BinaryKey("a".into()), BinaryValue::Protected(SecStr::new(sec[4].clone())))),
        8 => e!().binaries.clear(),
        9 => {
            let c = e!().clone();
            e!().history.push(c);
        }
        10 => e!().history.clear(),
        11 => {
            let c = e!().clone();
            if s.d.root_group.groups.is_empty() {
                s.d.root_group.add_group(Group::new("below"));
            }
            s.d.root_group.groups[0].add_entry(c);
        }
        12 => {
            let u = e!().uuid;
            s.kept.extend(s.d.root_group.remove_entry(u));
        }
        13 => {
            if let Some(u) = s.d.root_group.groups.first().map(|g| g.uuid) {
                s.groups.extend(s.d.root_group.remove_group(u));
            }
        }
        14 => {
            s.kept.clear();
            s.groups.clear();
            s.values.clear();
        }
        15 => drop(s.d.clone()),
        16 => s.d = s.d.clone(),
        17 => {
            let x = e!();
            x.set_title("title");
            x.set_url("url");
            x.set_username("user");
            x.set_notes("notes");
            x.tags = "tags".into();
        }
        18 => {
            let u = e!().uuid;
            for q in ["", "title", "zzz", "pin"] {
                let _ = s.d.find_entries(q).len() + s.d.find_groups(q).len();
                let _ = s.d.find_entries_mut(q).len() + s.d.find_groups_mut(q).len();
            }
            let _ = s.d.get_entry(u).is_some() && s.d.get_entry_mut(u).is_some();
        }
        19 => {
            let mut n = 0;
            for g in s.d.root_group.iter_mut() {
                for x in g.entries.iter_mut() {
                    n += x.password().map_or(0, str::len) + x.notes().map_or(0, str::len);
                    n += x.other(StringKey::Other("pin".into())).map_or(0, str::len);
                    let _ = (x.title(), x.url(), x.username());
                }
            }
            std::hint::black_box(n);
        }
        20 => drop(std::hint::black_box(format!("{:?} {:#?} {:?} {:?}", s.d, s.kept, s.keys, s.kfs))),
        21 => {
            let c = s.d.clone();
            std::hint::black_box(c == s.d);
        }
        22 => s.keys.push(CompositeKey::from_password("the password")),
        23 => {
            let k = KeyFile { key: SecStr::new(sec[5].clone()), file_type: KeyFileType::Xml };
            s.kfs.push(k.clone());
            s.keys.push(CompositeKey::from_key_file(k));
        }
        24 => {
            let k = KeyFile { key: SecStr::new(sec[6].clone()), file_type: KeyFileType::Binary };
            s.keys.push(CompositeKey::from_both("the password", k));
        }
        25 => {
            if let Some(k) = s.keys.pop() {
                s.d.composite_key = k;
            }
        }
        26 => {
            s.keys.clear();
            s.kfs.clear();
        }
        27 => drop(e!().strings.insert(StringKey::Notes, StringValue::new("plain notes", false))),
        28 => {
            e!();
            let c = s.d.root_group.entries[0].clone();
            s.d.root_group.entries.push(c);
            s.d.root_group.entries.reverse();
        }
        _ => {
            for i in 0..40 {
                let v = StringValue::new(t(i % 4), true);
                e!().strings.insert(StringKey::Other(format!("k{}", i)), v);
            }
        }
    }
}

fn start() -> St {
    St { d: Database::new(&CompositeKey::from_password("other")), kept: vec![], groups: vec![], values: vec![], keys: vec![], kfs: vec![] }
}

/// The secrets together with the composite keys made from them.
fn needles() -> Vec<Vec<u8>> {
    let sec = secrets();
    let sha = crate::refs::sha::sha256;
    let mut v = sec.clone();
    v.push(sha(&sec[5]).to_vec());
    v.push(pw_ref("the password").to_vec());
    v.push(sha(&[&sha(b"the password")[..], &sec[6]].concat()).to_vec());
    v.push(pw_ref("other").to_vec());
    v
}
const NAMES: [&str; 11] = [
    "a password of 8 bytes", "a password of 23 bytes", "a password of 64 bytes", "protected notes of 600 bytes", "a protected value of 5000 bytes",
    "the key of a key file", "the key of another key file", "the composite key of a key file", "the composite key of a password", "the composite key of both", "the first composite key",
];

fn judged<R>(names: &dyn Fn(usize) -> String, secrets: &[Vec<u8>], d: u64, f: impl FnOnce() -> R) -> Res {
    let refs: Vec<&[u8]> = secrets.iter().map(|v| &v[..]).collect();
    let (r, n, found) = env::watched(&refs, 5, f);
    if r.is_err() {
        return bad("panic", "panics");
    }
    if let Some((j, size)) = found {
        return bad("left behind", format!("a released block of {} bytes still holds {} or a part of it", size, names(j)));
    }
    if n == 0 {
        return trivial("nothing released", d);
    }
    good("nothing left behind", d)
}
fn by_name(i: usize) -> String {
    NAMES[i].into()
}

/// Takes everything and keeps nothing; fails at the given call.
struct Nowhere {
    calls: u64,
    fail: u64,
}
impl std::io::Write for Nowhere {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.fail {
            return Err(std::io::ErrorKind::Other.into());
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.calls += 1;
        if self.calls == self.fail {
            return Err(std::io::ErrorKind::Other.into());
        }
        Ok(())
    }
}

/// Databases with secrets at every kind of place.
fn contents() -> Vec<(&'static str, Vec<usize>)> {
    vec![
        ("a password", vec![0]),
        ("protected strings", vec![1, 3, 4]),
        ("an attachment", vec![7]),
        ("history", vec![2, 3, 7, 9, 0]),
        ("two groups", vec![2, 3, 11, 1]),
        ("many strings", vec![29, 7, 9, 11]),
    ]
}
/// In blocks that hold nothing of their earlier owners.
fn content(ops: &[usize], sec: &[Vec<u8>], gzip: bool) -> Database {
    env::watched(&[], 0, || content_(ops, sec, gzip)).0.unwrap()
}
fn content_(ops: &[usize], sec: &[Vec<u8>], gzip: bool) -> Database {
    let mut s = start();
    for o in ops {
        apply(&mut s, *o, sec);
    }
    s.d.composite_key = CompositeKey::from_password("the password");
    s.d.transform_rounds = TransformRounds(1);
    s.d.compression = if gzip { Compression::GZip } else { Compression::None };
    s.d
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let sec = Arc::new(secrets());
    let all = Arc::new(needles());
    let mut v: Vec<Item> = vec![];
    let k = OPS.len() as u64;
    let len = ctx.q(3u32, 4);
    let (s1, a1) = (sec.clone(), all.clone());
    let case = move |i: u64| -> Vec<usize> { (0..len).map(|j| (i / k.pow(j) % k) as usize).collect() };
    v.push(
        Space::new(
            "sequences",
            &format!("every sequence of {} of {} operations on values with secrets, then everything is dropped", len, k),
            k.pow(len),
            move |i| {
                let p = case(i);
                judged(&by_name, &a1, digest(&p), || {
                    let mut s = start();
                    for o in p {
                        apply(&mut s, o, &s1);
                    }
                })
            },
            move |i| case(i).iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "),
        )
        .into(),
    );
    // every length, through every way to make a secret
    const WAYS: [&str; 11] = [
        "StringValue::new of text",
        "StringValue::new of a string",
        "StringValue::new of a string with room to spare",
        "StringValue::new of a boxed text",
        "set_password over another",
        "a protected attachment, cloned",
        "an entry with history, cloned twice and compared",
        "a key file, cloned and made a composite key",
        "a string in a map that grows",
        "saved",
        "saved and opened",
    ];
    let mut lens: Vec<usize> = (8..ctx.q(200, 1100)).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 65535, 65536, 65537, 300_000]);
    let lens = Arc::new(lens);
    let (l1, l2) = (lens.clone(), lens.clone());
    v.push(
        Space::new(
            "lengths",
            "a secret of every length to 200 bytes (thorough: 1100) and around powers of two, made in every way",
            lens.len() as u64 * WAYS.len() as u64,
            move |i| {
                let (n, w) = (l1[(i / WAYS.len() as u64) as usize], i % WAYS.len() as u64);
                let secret: Vec<u8> = (0..n).map(|j| b'A' + (env::mix(n as u64 * 7919 + j as u64) % 26) as u8).collect();
                let t = String::from_utf8(secret.clone()).unwrap();
                let t = t.as_str();
                let file = std::cell::RefCell::new(vec![]);
                let name = |_: usize| format!("the secret of {} bytes", n);
                if w >= 9 {
                    let s = env::watched(&[], 0, || {
                        let mut s = start();
                        s.d.transform_rounds = TransformRounds(1);
                        let mut e = Entry::new();
                        e.set_password(t);
                        e.binaries.insert(BinaryKey("a".into()), BinaryValue::Protected(SecStr::new(secret.clone())));
                        s.d.root_group.add_entry(e);
                        s
                    })
                    .0
                    .unwrap();
                    judged(&name, &[secret.clone()], digest(&(n, w)), || s.d.save(&mut *file.borrow_mut()).is_ok())?;
                    if w == 10 {
                        let f = file.borrow();
                        judged(&name, &[secret.clone()], digest(&(n, w)), || drop(Database::open(&mut &f[..], &CompositeKey::from_password("other"))))?;
                    }
                    return good("nothing left behind", digest(&(n, w)));
                }
                judged(&name, &[secret.clone()], digest(&(n, w)), || match w {
                    0 => drop(StringValue::new(t, true)),
                    1 => drop(StringValue::new(String::from(t), true)),
                    2 => {
                        let mut s = String::with_capacity(n + 100);
                        s.push_str(t);
                        drop(StringValue::new(s, true))
                    }
                    3 => drop(StringValue::new(Box::<str>::from(t), true)),
                    4 => {
                        let mut e = Entry::new();
                        e.set_password(t);
                        e.set_password("another");
                        e.set_password(t);
                    }
                    5 => {
                        let b = BinaryValue::Protected(SecStr::new(secret.clone()));
                        drop(b.clone());
                    }
                    6 => {
                        let mut e = Entry::new();
                        e.set_password(t);
                        e.history = vec![e.clone(), e.clone()];
                        let f = e.clone();
                        std::hint::black_box(f == e);
                    }
                    7 => {
                        let k = KeyFile { key: SecStr::new(secret.clone()), file_type: KeyFileType::Binary };
                        let c = CompositeKey::from_key_file(k.clone());
                        let d = CompositeKey::from_both("p", k);
                        std::hint::black_box(c == d);
                    }
                    _ => {
                        let mut e = Entry::new();
                        for i in 0..20 {
                            e.strings.insert(StringKey::Other(i.to_string()), StringValue::new(t, true));
                        }
                    }
                })
            },
            move |i| format!("{} bytes, {}", l2[(i / WAYS.len() as u64) as usize], WAYS[(i % WAYS.len() as u64) as usize]),
        )
        .into(),
    );
    // saves that fail at every call
    let cs = Arc::new(contents());
    let mut saves = vec![];
    for c in 0..cs.len() {
        for gz in [false, true] {
            let d = content(&cs[c].1, &sec, gz);
            let mut n = Nowhere { calls: 0, fail: 0 };
            let _ = d.save(&mut n);
            for f in 0..=n.calls {
                saves.push((c, gz, f));
            }
        }
    }
    let saves = Arc::new(saves);
    let (s1, s2, a1, sc, c1, c2) = (saves.clone(), saves.clone(), all.clone(), sec.clone(), cs.clone(), cs.clone());
    v.push(
        Space::new(
            "saves",
            "databases with secrets at every kind of place saved, to a sink that works or fails at each of its calls",
            saves.len() as u64,
            move |i| {
                let (c, gz, f) = s1[i as usize];
                let d = content(&c1[c].1, &sc, gz);
                judged(&by_name, &a1, digest(&(c, gz, f)), || {
                    let mut s = Nowhere { calls: 0, fail: f };
                    std::hint::black_box(d.save(&mut s).is_ok());
                    drop(d);
                })
            },
            move |i| {
                let (c, gz, f) = s2[i as usize];
                format!("{}, gzip {}, failing at call {} (0: never)", c2[c].0, gz, f)
            },
        )
        .into(),
    );
    // unsaveable content next to the secrets
    let (a1, sc) = (all.clone(), sec.clone());
    v.push(
        Space::new(
            "refused saves",
            "databases with secrets that cannot be saved: a character XML has not in each kind of place, a comment too long, groups too deep, another type",
            6,
            move |i| {
                let d = env::watched(&[], 0, || {
                let mut d = content_(&[2, 3, 7, 9, 11], &sc, true);
                match i {
                    0 => d.root_group.notes = "\0".into(),
                    1 => d.root_group.groups[0].name = "\u{1}".into(),
                    2 => d.root_group.entries[0].tags = "\u{2}".into(),
                    3 => d.comment = Some(Comment(vec![1; 70_000])),
                    4 => d.db_type = DbType::Kdb1,
                    _ => {
                        let mut g = Group::new("deep");
                        for _ in 0..300 {
                            let mut h = Group::new("deep");
                            h.add_group(g);
                            g = h;
                        }
                        d.root_group.add_group(g);
                    }
                }
                d
                })
                .0
                .unwrap();
                judged(&by_name, &a1, digest(&i), || {
                    let mut s = Nowhere { calls: 0, fail: 0 };
                    std::hint::black_box(d.save(&mut s).is_ok());
                    drop(d);
                })
            },
            |i| format!("case {}", i),
        )
        .into(),
    );
    // files: whole, with other keys, and cut
    let mut files: Vec<Vec<u8>> = vec![];
    let mut opens: Vec<(usize, usize)> = vec![];
    for c in cs.iter() {
        for gz in [false, true] {
            let f = on_seeded_thread(8 << 20, 24, || save(&content(&c.1, &sec, gz)).unwrap_or_default());
            let n = f.len();
            let step = (n / ctx.q(60, 600)).max(1);
            opens.extend((0..n).step_by(step).map(|x| (files.len(), x)));
            opens.extend([(files.len(), n), (files.len(), n + 1), (files.len(), n + 2)]);
            files.push(f);
        }
    }
    let (files, opens) = (Arc::new(files), Arc::new(opens));
    let (f1, o1, o2, a1) = (files.clone(), opens.clone(), opens.clone(), all.clone());
    v.push(
        Space::new(
            "opens",
            "those databases opened and dropped: whole, byte by byte, with another key, and cut",
            opens.len() as u64,
            move |i| {
                let (f, n) = o1[i as usize];
                let data = &f1[f];
                let end = data.len();
                let pw = if n == end + 2 { "the passwore" } else { "the password" };
                judged(&by_name, &a1, digest(&(f, n)), || {
                    let k = CompositeKey::from_password(pw);
                    if n == end + 1 {
                        struct One<'a>(&'a [u8]);
                        impl std::io::Read for One<'_> {
                            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                                let n = b.len().min(1);
                                std::io::Read::read(&mut self.0, &mut b[..n])
                            }
                        }
                        drop(Database::open(&mut One(data), &k))
                    } else {
                        drop(Database::open(&mut &data[..n.min(end)], &k))
                    }
                })
            },
            move |i| format!("file {}, {} bytes", o2[i as usize].0, o2[i as usize].1),
        )
        .into(),
    );
    // documents that stop or go wrong after the secrets were read
    let docs: Vec<(crate::kdbx::Params, Vec<u8>)> = files
        .iter()
        .filter_map(|f| {
            let p = crate::kdbx::open(f, &pw_ref("the password")).ok()?;
            let mut q = crate::kdbx::Params::new(pw_ref("the password"));
            q.psk = p.field(8)?.try_into().ok()?;
            q.gzip = false;
            Some((q, p.xml))
        })
        .collect();
    let mut cuts: Vec<(usize, usize, u8)> = vec![];
    for (i, d) in docs.iter().enumerate().step_by(2) {
        let n = d.1.len();
        let step = (n / ctx.q(300, 3000)).max(1);
        cuts.extend((0..n).step_by(step).flat_map(|x| [(i, x, 0u8), (i, x, 1)]));
    }
    let (docs, cuts) = (Arc::new(docs), Arc::new(cuts));
    let (d1, c1, c2, a1) = (docs.clone(), cuts.clone(), cuts.clone(), all.clone());
    v.push(
        Space::new(
            "defective documents",
            "their documents, in a sound container, cut or with one character replaced at many places",
            cuts.len() as u64,
            move |i| {
                let (d, n, how) = c1[i as usize];
                let mut x = d1[d].1.clone();
                match how {
                    0 => x.truncate(n),
                    _ => x[n] = b'<',
                }
                let f = d1[d].0.file(&x);
                judged(&by_name, &a1, digest(&(d, n, how)), || drop(Database::open(&mut &f[..], &CompositeKey::from_password("the password"))))
            },
            move |i| format!("document {}, {} at {}", c2[i as usize].0, ["cut", "<"][c2[i as usize].2 as usize], c2[i as usize].1),
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C24",
        level: "exploration",
        rule: "operations on values that hold secrets; non-trivial: at least one block of memory was released and looked into",
        items,
        assumptions: &["secrets are looked for by any eight bytes of them, in blocks of the heap as they are released; the stack and registers are not looked into"],
    }
}
