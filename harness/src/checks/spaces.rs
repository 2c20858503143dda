//! Bounded spaces of database models.
use crate::engine::*;
use crate::lk::*;
use crate::model::*;
use std::sync::Arc;

fn prep(m: &mut MDb) {
    m.root.fix_parents(NIL);
}

pub type Judge = fn(&MDb) -> Res;

/// The spaces of database models, each case given to the judge.
pub fn items(ctx: &Ctx, judge: Judge) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    let ms = Arc::new(mutators());
    let n = ms.len() as u64;
    {
        let (a, b) = (ms.clone(), ms.clone());
        v.push(
            Space::new(
                "single",
                "every value of every field, one change to a database with all fields set, both compressions",
                n * 2,
                move |i| {
                    let mut m = rich([0; 32]);
                    m.gzip = i % 2 == 0;
                    (a[(i / 2) as usize].1)(&mut m);
                    prep(&mut m);
                    judge(&m)
                },
                move |i| format!("{}, start gzip={}", b[(i / 2) as usize].0, i % 2 == 0),
            )
            .fresh()
            .into(),
        );
    }
    let rs = Arc::new(if ctx.thorough() { mutators() } else { mutators_reduced() });
    let k = rs.len() as u64;
    // pairs (a, b): a * k + b restricted to a < b by index arithmetic
    let pairs = k * (k - 1) / 2;
    let unpair = move |i: u64| -> (usize, usize) {
        let mut b = ((((8 * i + 1) as f64).sqrt() + 1.0) / 2.0) as u64;
        while b * (b - 1) / 2 > i {
            b -= 1;
        }
        while (b + 1) * b / 2 <= i {
            b += 1;
        }
        ((i - b * (b - 1) / 2) as usize, b as usize)
    };
    {
        let (a, b) = (rs.clone(), rs.clone());
        v.push(
            Space::new(
                "pair",
                "every pair of field changes (reduced values in the quick tier)",
                pairs,
                move |i| {
                    let (x, y) = unpair(i);
                    let mut m = rich([0; 32]);
                    m.gzip = i % 2 == 0;
                    (a[x].1)(&mut m);
                    (a[y].1)(&mut m);
                    prep(&mut m);
                    judge(&m)
                },
                move |i| {
                    let (x, y) = unpair(i);
                    format!("{}; {}", b[x].0, b[y].0)
                },
            )
            .into(),
        );
    }
    // all tree shapes with all small numbers of entries and history items
    let maxn = ctx.q(4, 5);
    let mut shapes: Vec<(Vec<usize>, u64)> = vec![];
    for n in 1..=maxn {
        for t in trees(n) {
            shapes.push((t, 4u64.pow(n as u32)));
        }
    }
    let total: u64 = shapes.iter().map(|s| s.1).sum();
    let shapes = Arc::new(shapes);
    let tree = move |mut i: u64| -> MDb {
        let mut s = 0;
        while i >= shapes[s].1 {
            i -= shapes[s].1;
            s += 1;
        }
        let mut m = MDb::new([0; 32]);
        let code = i;
        m.gzip = code % 2 == 0;
        m.root = tree_group(&shapes[s].0, &|g| {
            let mut x = MGroup::new(uid(g as u32 + 1), &format!("G{}", g));
            // 0..2 entries, 3: one entry with two history items
            let c = code / 4u64.pow(g as u32) % 4;
            for e in 0..(if c == 3 { 1 } else { c }) {
                let mut en = MEntry::new(uid(100 + 10 * g as u32 + e as u32)).s(MKey::Title, &format!("E{}.{}", g, e)).p(MKey::Password, &format!("pw{}.{}", g, e));
                if c == 3 {
                    en.history = (0..2).map(|h| MEntry::new(en.uuid).p(MKey::Password, &format!("old{}", h)).s(MKey::Title, "old")).collect();
                }
                x.entries.push(en);
            }
            x
        });
        prep(&mut m);
        m
    };
    let tree = Arc::new(tree);
    let t2 = tree.clone();
    v.push(
        Space::new(
            "tree",
            "every ordered tree of groups up to the bound, each group with 0, 1 or 2 entries or one entry with two history items",
            total,
            move |i| judge(&tree(i)),
            move |i| clip400(&format!("{:?}", t2(i).root)),
        )
        .into(),
    );
    // every Unicode scalar value XML can carry, in text, protected text and attributes
    let chunk = 512u32;
    let chunks = 0x110000 / chunk;
    let pack = move |i: u64| -> MDb {
        let (slot, c) = (i / chunks as u64, (i % chunks as u64) as u32);
        let mut m = MDb::new([0; 32]);
        m.gzip = false;
        let mut e = MEntry::new(uid(5));
        for u in c * chunk..(c + 1) * chunk {
            if let Some(ch) = char::from_u32(u).filter(|c| is_xml_char(*c)) {
                let k = MKey::Other(format!("{:x}", u));
                match slot {
                    0 => {
                        e.strings.insert(k, SVal::Plain(ch.to_string()));
                    }
                    1 => {
                        e.strings.insert(k, SVal::Prot(ch.to_string().into_bytes()));
                    }
                    2 => {
                        m.binaries.insert(ch.to_string(), vec![1]);
                    }
                    _ => {
                        e.strings.insert(MKey::Other(ch.to_string()), SVal::Plain(format!("a{}b", ch)));
                    }
                }
            }
        }
        m.root.entries.push(e);
        prep(&mut m);
        m
    };
    v.push(
        Space::new(
            "scalars",
            "every Unicode scalar value XML can carry: as a text, a protected text, an attribute value, a key and inside a text",
            chunks as u64 * 4,
            move |i| judge(&pack(i)),
            move |i| format!("slot {} scalars {:x}..", i / chunks as u64, (i % chunks as u64) * chunk as u64),
        )
        .into(),
    );
    // all short strings over the characters that matter to XML
    let alpha: &[char] = &[' ', '\n', '\r', '\t', '<', '>', '&', ']', 'a', '"', '\'', 'é'];
    let len = ctx.q(3, 4);
    let mut words: Vec<String> = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..len {
        level = level.iter().flat_map(|w| alpha.iter().map(move |c| format!("{}{}", w, c))).collect();
        words.extend(level.iter().cloned());
    }
    let n_words = words.len() as u64;
    let words = Arc::new(words);
    let per = 64usize;
    let nch = (words.len() + per - 1) / per;
    let w2 = words.clone();
    let (w3, w4) = (words.clone(), words.clone());
    v.push(
        Space::new(
            "words",
            "every string up to length 3 (4 thorough) over the characters that matter to XML, in every kind of text slot",
            nch as u64,
            move |i| {
                let ws = &words[i as usize * per..((i as usize + 1) * per).min(words.len())];
                let mut m = MDb::new([0; 32]);
                m.gzip = i % 2 == 0;
                for (j, w) in ws.iter().enumerate() {
                    let mut e = MEntry::new(uid(j as u32 + 1));
                    e.tags = w.clone();
                    e.override_url = w.clone();
                    e.at_seq = w.clone();
                    e.assoc = vec![(w.clone(), w.clone())];
                    e.strings.insert(MKey::Title, SVal::Plain(w.clone()));
                    e.strings.insert(MKey::Notes, SVal::Prot(w.clone().into_bytes()));
                    e.strings.insert(MKey::Other(w.clone()), SVal::Plain(w.clone()));
                    e.binaries.insert(w.clone(), BVal::Ref("0".into()));
                    m.custom_data.insert(w.clone(), w.clone());
                    m.root.entries.push(e);
                    let mut g = MGroup::new(uid(1000 + j as u32), w);
                    g.notes = w.clone();
                    g.at_seq = w.clone();
                    m.root.groups.push(g);
                }
                prep(&mut m);
                judge(&m)
            },
            move |i| format!("words from {:?}", w2[i as usize * per]),
        )
        .into(),
    );
    v.push(
        Space::new(
            "attributes",
            "the same strings as attachment ids and references (XML attributes)",
            n_words,
            move |i| {
                let w = &w3[i as usize];
                let mut m = MDb::new([0; 32]);
                m.gzip = i % 2 == 0;
                let mut e = MEntry::new(uid(1));
                e.binaries.insert("b".into(), BVal::Ref(w.clone()));
                m.binaries.insert(w.clone(), w.clone().into_bytes());
                m.root.entries.push(e);
                prep(&mut m);
                judge(&m)
            },
            move |i| format!("attachment id {:?}", w4[i as usize]),
        )
        .into(),
    );
    v.push(near(judge));
    // order of hash maps
    v.push(
        Space::new(
            "maporder",
            "databases with five items in every map, under different orders of the library's hash maps",
            ctx.q(200, 5000),
            move |i| {
                let mut m = rich([0; 32]);
                m.gzip = i % 2 == 0;
                for j in 0..5 {
                    m.custom_data.insert(format!("k{}", j), format!("v{}", j));
                    m.custom_icons.insert(uid(950 + j), vec![j as u8]);
                    m.binaries.insert(format!("id{}", j), vec![j as u8; 10]);
                    m.root.entries[0].strings.insert(MKey::Other(format!("s{}", j)), SVal::Prot(vec![b'a' + j as u8; 30 + j as usize]));
                    m.root.entries[0].binaries.insert(format!("b{}", j), BVal::Prot(vec![j as u8; 33]));
                }
                judge(&m)
            },
            move |i| format!("hash seed {}", i),
        )
        .fresh()
        .into(),
    );
    // sizes around the buffer and block sizes in use
    let sizes: Vec<usize> = (0..130).chain([1000, 4000, 4080, 4090, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100_000, 1 << 20, (1 << 20) + 1]).collect();
    let s2 = sizes.clone();
    v.push(
        Space::new(
            "sizes",
            "texts, protected texts and attachments of every length around buffer boundaries",
            sizes.len() as u64 * 8,
            move |i| {
                let n = sizes[i as usize / 8];
                let k = i % 8;
                let mut m = small([0; 32]);
                m.gzip = k & 1 == 0;
                let txt: String = (0..n).map(|j| (b'a' + (j % 26) as u8) as char).collect();
                let e = &mut m.root.entries[0];
                match k / 2 {
                    0 => {
                        e.strings.insert(MKey::Notes, SVal::Plain(txt));
                    }
                    1 => {
                        e.strings.insert(MKey::Notes, SVal::Prot(txt.into_bytes()));
                        e.strings.insert(MKey::Url, SVal::Prot(b"after".to_vec()));
                    }
                    2 => {
                        e.binaries.insert("b".into(), BVal::Plain((0..n).map(|j| (j * 7 + j / 256) as u8).collect()));
                    }
                    _ => {
                        m.binaries.insert("b".into(), (0..n).map(|j| crate::env::mix(j as u64) as u8).collect());
                    }
                }
                judge(&m)
            },
            move |i| format!("{} bytes, kind {}", s2[i as usize / 8], i % 8),
        )
        .into(),
    );
    v.push(huge(ctx, judge));
    const DEPTHS: [usize; 12] = [1, 2, 3, 10, 60, 127, 200, 255, 256, 257, 258, 300];
    v.push(
        Space::new(
            "deep",
            "chains of nested groups and rows of many groups and entries",
            24,
            move |i| {
                let n = DEPTHS[i as usize / 2];
                let mut m = MDb::new([0; 32]);
                m.gzip = i % 2 == 0;
                m.root = if i % 2 == 0 {
                    chain(n)
                } else {
                    let mut r = MGroup::new(uid(1), "wide");
                    for j in 0..n as u32 {
                        r.groups.push(MGroup::new(uid(1000 + j), &format!("g{}", j)));
                        r.entries.push(MEntry::new(uid(2000 + j)).p(MKey::Password, &format!("pw{}", j)));
                    }
                    r
                };
                prep(&mut m);
                judge(&m)
            },
            move |i| format!("{} {}", if i % 2 == 0 { "nested" } else { "side by side" }, DEPTHS[i as usize / 2]),
        )
        .fresh()
        .into(),
    );
    v.extend(super::spaces::sizes(ctx, judge));
    v
}

/// Names that are nearly the same.
pub fn near(judge: Judge) -> Item<'static> {
    const NEAR: [&str; 34] = [
        "a", "A", "á", "a\u{301}", "ａ", "ä", "Ä", "ae", "ab", "aB", "AB", "a b", "a  b", " a", "a ", "a\n", "\ta", "", " ", "a.txt", "A.TXT", "a.TXT", "a.txt ", "a/txt", "1", "01", "001", "１", "1.0", "ss", "ß", "SS", "i", "ı",
    ];
    let np = NEAR.len() as u64;
        Space::new(
            "near names",
            "every two of 34 names that are nearly the same (letter case, white space, composed and wide characters, leading zeros) beside one another as strings, attachments, icons, identifiers of the pool and custom data",
            np * np,
            move |i| {
                let (x, y) = (NEAR[(i / np) as usize], NEAR[(i % np) as usize]);
                if x == y {
                    return trivial("the same name", i);
                }
                let mut m = MDb::new([0; 32]);
                m.gzip = i % 3 == 0;
                let mut e = MEntry::new(uid(1));
                for (j, w) in [x, y].iter().enumerate() {
                    let val = format!("value {}", j);
                    let o = MKey::Other(w.to_string());
                    e.strings.insert(o, if i % 2 == 0 { SVal::Plain(val.clone()) } else { SVal::Prot(val.clone().into_bytes()) });
                    e.binaries.insert(w.to_string(), if (i as usize + j) % 2 == 0 { BVal::Plain(val.clone().into_bytes()) } else { BVal::Ref(w.to_string()) });
                    m.binaries.insert(w.to_string(), format!("pool {}", j).into_bytes());
                    m.custom_data.insert(w.to_string(), val.clone());
                    e.assoc.push((w.to_string(), val.clone()));
                    let mut g = MGroup::new(uid(10 + j as u32), w);
                    g.notes = val.clone();
                    m.root.groups.push(g);
                    let mut icon = uid(900);
                    icon[15] ^= j as u8;
                    icon[0] ^= (i % 2) as u8 * j as u8;
                    m.custom_icons.insert(icon, vec![j as u8]);
                }
                let mut h = e.clone();
                h.history = vec![];
                h.strings.remove(&MKey::Other(x.to_string()));
                h.binaries.remove(x);
                e.history = vec![h];
                m.root.entries.push(e);
                prep(&mut m);
                judge(&m)
            },
            move |i| format!("{:?} and {:?}", NEAR[(i / np) as usize], NEAR[(i % np) as usize]),
        )
        .into()
}

/// Contents of many megabytes.
pub fn huge(ctx: &Ctx, judge: Judge) -> Item<'static> {
    const BIG: [(usize, usize); 6] = [(2, 17), (3, 13), (0, 34), (1, 17), (2, 49), (0, 66)];
    Space::new(
            "many megabytes",
            "texts, protected texts and attachments of 13 to 66 MiB",
            ctx.q(6, 12),
            move |i| {
                let (kind, mib) = BIG[i as usize % 6];
                let n = (mib << 20) + 1;
                let mut m = small([0; 32]);
                m.gzip = kind == 0 || i >= 6;
                let e = &mut m.root.entries[0];
                let txt = || "some text of forty letters and a newline\n".bytes().cycle().take(n).collect::<Vec<u8>>();
                match kind {
                    0 => drop(e.strings.insert(MKey::Notes, SVal::Plain(String::from_utf8(txt()).unwrap()))),
                    1 => drop(e.strings.insert(MKey::Notes, SVal::Prot(txt()))),
                    2 => drop(e.binaries.insert("b".into(), BVal::Plain((0..n).map(|j| (j * 7 + j / 256) as u8).collect()))),
                    _ => drop(m.binaries.insert("b".into(), (0..n).map(|j| crate::env::mix(j as u64) as u8).collect())),
                }
                judge(&m)
            },
            move |i| format!("{:?}, compressed {}", BIG[i as usize % 6], i >= 6),
        )
        .into()
}

/// Lists of many items, long texts, and items that are alike.
pub fn sizes(ctx: &Ctx, judge: Judge) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    // numbers of items in every list
    let mut counts: Vec<usize> = (0..=36).chain([49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 299, 300, 301, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097]).collect();
    if ctx.thorough() {
        counts.extend(37..300);
        counts.extend([9999, 10_000, 10_001, 16385, 32768, 65535, 65536, 65537]);
    }
    let c2 = counts.clone();
    const LISTS: [&str; 11] = ["groups", "entries", "history items", "auto-type associations", "strings", "protected strings", "attachments", "protected attachments", "pool attachments", "custom data", "custom icons"];
    v.push(
        Space::new(
            "counts",
            "every list and map of the database with every number of items around the usual limits",
            (counts.len() * LISTS.len()) as u64,
            move |i| {
                let n = counts[i as usize / LISTS.len()];
                let mut m = small([0; 32]);
                m.gzip = n % 2 == 0;
                let mut root = std::mem::replace(&mut m.root, MGroup::new(NIL, ""));
                let mut e = root.entries.remove(0);
                let mut more = vec![];
                for j in 0..n as u32 {
                    match i as usize % LISTS.len() {
                        0 => root.groups.push(MGroup::new(uid(5000 + j), &format!("g{}", j))),
                        1 => more.push(MEntry::new(uid(5000 + j)).s(MKey::Title, &format!("e{}", j))),
                        2 => {
                            let mut h = MEntry::new(e.uuid).s(MKey::Title, &format!("h{}", j)).p(MKey::Password, &format!("p{}", j));
                            h.parent = e.parent;
                            e.history.push(h);
                        }
                        3 => e.assoc.push((format!("s{}", j), format!("w{}", j))),
                        4 => {
                            e.strings.insert(MKey::Other(format!("k{}", j)), SVal::Plain(format!("v{}", j)));
                        }
                        5 => {
                            e.strings.insert(MKey::Other(format!("k{}", j)), SVal::Prot(format!("v{}", j).into_bytes()));
                        }
                        6 => {
                            e.binaries.insert(format!("k{}", j), BVal::Plain(format!("v{}", j).into_bytes()));
                        }
                        7 => {
                            e.binaries.insert(format!("k{}", j), BVal::Prot(format!("v{}", j).into_bytes()));
                        }
                        8 => {
                            m.binaries.insert(format!("{}", j), format!("v{}", j).into_bytes());
                        }
                        9 => {
                            m.custom_data.insert(format!("k{}", j), format!("v{}", j));
                        }
                        _ => {
                            m.custom_icons.insert(uid(5000 + j), vec![j as u8, 1]);
                        }
                    }
                }
                root.entries.insert(0, e);
                root.entries.extend(more);
                m.root = root;
                prep(&mut m);
                judge(&m)
            },
            move |i| format!("{} {}", c2[i as usize / LISTS.len()], LISTS[i as usize % LISTS.len()]),
        )
        .into(),
    );
    // lengths of every text and every blob
    let slots = Arc::new(text_slots());
    let s2 = slots.clone();
    let mut lens: Vec<usize> = vec![31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 8193, 32767, 32768, 65535, 65536, 65537];
    if ctx.thorough() {
        lens.extend([131_073, 1 << 20, (1 << 20) + 1]);
    }
    let (l1, l2) = (lens.clone(), lens);
    v.push(
        Space::new(
            "lengths of texts",
            "every place that holds text with texts of every length around the usual limits",
            (slots.len() * l1.len()) as u64,
            move |i| {
                let (slot, n) = (i as usize % slots.len(), l1[i as usize / slots.len()]);
                let mut m = rich([0; 32]);
                m.gzip = i % 2 == 0;
                (slots[slot].1)(&mut m, (0..n).map(|j| (b'a' + (j % 23 + j / 256) as u8 % 26) as char).collect());
                prep(&mut m);
                judge(&m)
            },
            move |i| format!("{} of {} characters", s2[i as usize % s2.len()].0, l2[i as usize / s2.len()]),
        )
        .into(),
    );
    v.push(
        Space::new(
            "twins",
            "every list and map of the database with three items, all assignments of two ids and two contents to them",
            TWINS.iter().map(|t| t.1).sum(),
            move |i| {
                let mut m = twins(i);
                prep(&mut m);
                judge(&m)
            },
            |i| {
                let (k, c) = twin(i);
                format!("{}: assignment {}", TWINS[k].0, c)
            },
        )
        .into(),
    );
    v
}

/// Kinds of lists and the number of assignments.
const TWINS: [(&str, u64); 10] = [
    ("entries of a group", 64),
    ("entries of three groups", 64),
    ("groups of a group", 64),
    ("nested groups", 64),
    ("history items", 64),
    ("associations", 64),
    ("strings", 64),
    ("attachments", 512),
    ("pool attachments and references to them", 64),
    ("custom data and icons", 64),
];

fn twin(mut i: u64) -> (usize, u64) {
    let mut k = 0;
    while i >= TWINS[k].1 {
        i -= TWINS[k].1;
        k += 1;
    }
    (k, i)
}

/// A database with items that agree in their ids, contents or both.
fn twins(i: u64) -> MDb {
    let (k, c) = twin(i);
    let mut m = small([0; 32]);
    m.gzip = c % 2 == 0;
    m.root.groups.clear();
    m.root.entries.clear();
    // item j: id bit 2j, content bit 2j + 1
    let id = |j: u64| (c >> (2 * j) & 1) as u32;
    let content = |j: u64| c >> (2 * j + 1) & 1;
    let entry = |j: u64| MEntry::new(if id(j) == 0 { NIL } else { uid(7) }).s(MKey::Title, ["", "same"][content(j) as usize]).p(MKey::Password, ["x", "same"][content(j) as usize]);
    let group = |j: u64| MGroup::new(if id(j) == 0 { NIL } else { uid(7) }, ["", "same"][content(j) as usize]);
    match k {
        0 => m.root.entries = (0..3).map(entry).collect(),
        1 => {
            m.root.entries = vec![entry(0)];
            for j in 1..3 {
                let mut g = MGroup::new(uid(j as u32), "g");
                g.entries.push(entry(j));
                m.root.groups.push(g);
            }
        }
        2 => m.root.groups = (0..3).map(group).collect(),
        3 => {
            m.root.uuid = group(0).uuid;
            m.root.name = group(0).name;
            let mut g = group(1);
            g.groups.push(group(2));
            m.root.groups.push(g);
        }
        4 => {
            let mut e = entry(0);
            e.history = (0..3).map(entry).collect();
            m.root.entries.push(e);
        }
        5 => {
            let mut e = entry(0);
            e.assoc = (0..3).map(|j| (["", "same"][id(j) as usize].into(), ["", "same"][content(j) as usize].into())).collect();
            m.root.entries.push(e);
        }
        6 => {
            let mut e = entry(0);
            e.strings.clear();
            for j in 0..3u64 {
                let text = ["", "same"][content(j) as usize];
                e.strings.insert(MKey::Other(format!("k{}", j)), if id(j) == 0 { SVal::Plain(text.into()) } else { SVal::Prot(text.as_bytes().to_vec()) });
            }
            m.root.entries.push(e);
        }
        7 => {
            let mut e = entry(0);
            m.binaries.insert("0".into(), b"same".to_vec());
            for j in 0..3u64 {
                let val = match c >> (3 * j) & 7 {
                    0 => BVal::Plain(vec![]),
                    1 => BVal::Plain(b"same".to_vec()),
                    2 => BVal::Prot(vec![]),
                    3 => BVal::Prot(b"same".to_vec()),
                    4 => BVal::Ref("0".into()),
                    5 => BVal::Ref("missing".into()),
                    6 => BVal::Ref(String::new()),
                    _ => BVal::Plain(b"other".to_vec()),
                };
                e.binaries.insert(format!("k{}", j), val);
            }
            m.root.entries.push(e);
        }
        8 => {
            let mut e = entry(0);
            m.binaries.clear();
            for j in 0..3u64 {
                m.binaries.insert(format!("{}", j), if content(j) == 0 { vec![] } else { b"same".to_vec() });
                if id(j) == 1 {
                    e.binaries.insert(format!("k{}", j), BVal::Ref(format!("{}", j)));
                }
            }
            m.root.entries.push(e);
        }
        _ => {
            for j in 0..3u64 {
                m.custom_data.insert(format!("k{}", j), ["", "same"][content(j) as usize].into());
                m.custom_icons.insert(uid(80 + j as u32), if id(j) == 0 { vec![] } else { b"same".to_vec() });
            }
        }
    }
    m
}
