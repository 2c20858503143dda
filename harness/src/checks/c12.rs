//! Iteration, lookup and search against a walk of the model.
use crate::engine::*;
use crate::lk::*;
use crate::model::*;
use kpdb::*;
use std::sync::Arc;
use uuid::Uuid;

/// Breadth first, siblings in order.
pub fn bfs(g: &MGroup) -> Vec<&MGroup> {
    let mut v = vec![g];
    let mut i = 0;
    while i < v.len() {
        let g = v[i];
        v.extend(g.groups.iter());
        i += 1;
    }
    v
}
fn lib_bfs(g: &Group) -> Vec<*const Group> {
    let mut v: Vec<&Group> = vec![g];
    let mut i = 0;
    while i < v.len() {
        let g = v[i];
        v.extend(g.groups.iter());
        i += 1;
    }
    v.into_iter().map(|g| g as *const Group).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Say {
    Yes,
    No,
    Unspecified,
}

/// Whether the text contains the query ignoring case, where all ways of ignoring it agree.
fn contains(t: &str, q: &str) -> Say {
    let lower: fn(&str) -> String = |s| s.to_lowercase();
    let upper: fn(&str) -> String = |s| s.to_uppercase();
    let cl: fn(&str) -> String = |s| s.chars().flat_map(|c| c.to_lowercase()).collect();
    let cu: fn(&str) -> String = |s| s.chars().flat_map(|c| c.to_uppercase()).collect();
    let clu: fn(&str) -> String = |s| s.chars().flat_map(|c| c.to_uppercase()).flat_map(|c| c.to_lowercase()).collect();
    if t.contains(q) {
        return Say::Yes;
    }
    let v: Vec<bool> = [lower, upper, cl, cu, clu].iter().map(|f| f(t).contains(&f(q))).collect();
    if v.iter().all(|x| *x) {
        Say::Yes
    } else if v.iter().all(|x| !x) {
        Say::No
    } else {
        Say::Unspecified
    }
}

fn matches(e: &MEntry, q: &str) -> Say {
    let v: Vec<Say> = e.strings.values().filter_map(|s| if let SVal::Plain(s) = s { Some(contains(s, q)) } else { None }).collect();
    if v.contains(&Say::Yes) {
        Say::Yes
    } else if v.contains(&Say::Unspecified) {
        Say::Unspecified
    } else {
        Say::No
    }
}

/// got is expected with the unspecified ones in or out
fn agree<T: Copy + PartialEq + std::fmt::Debug>(what: &str, want: &[(T, Say)], got: &[T]) -> std::result::Result<(), Bad> {
    let mut g = got.iter().peekable();
    for (x, s) in want {
        let here = g.peek() == Some(&x);
        match s {
            Say::Yes if here => {
                g.next();
            }
            Say::Unspecified => {
                if here {
                    g.next();
                }
            }
            Say::No if !here => {}
            _ => {
                let w: Vec<usize> = want.iter().enumerate().filter(|x| x.1 .1 == Say::Yes).map(|x| x.0).collect();
                let h: Vec<String> = got.iter().map(|x| want.iter().position(|y| y.0 == *x).map_or("?".into(), |p| p.to_string())).collect();
                return bad("wrong result", format!("{}: elements {:?} (numbered breadth first) expected, got {:?}", what, w, h));
            }
        }
    }
    if g.next().is_some() {
        return bad("wrong result", format!("{}: more elements than expected", what));
    }
    Ok(())
}

/// Everything at once for one database.
pub fn battery(d: &mut Database, m: &MDb, ids: &[U], queries: &[&str]) -> std::result::Result<u64, Bad> {
    let before = m;
    let groups = bfs(&m.root);
    let ptrs = lib_bfs(&d.root_group);
    let mut steps = 0;
    // iteration, from every group
    {
        let all: Vec<&Group> = d.root_group.iter().collect();
        let got: Vec<*const Group> = all.iter().map(|g| *g as *const Group).collect();
        agree("iterating", &ptrs.iter().map(|p| (*p, Say::Yes)).collect::<Vec<_>>(), &got)?;
        for g in &all {
            let got: Vec<*const Group> = g.iter().map(|g| g as *const Group).collect();
            agree("iterating a sub group", &lib_bfs(g).into_iter().map(|p| (p, Say::Yes)).collect::<Vec<_>>(), &got)?;
            steps += 1;
        }
        let mut it = d.root_group.iter();
        for _ in 0..ptrs.len() {
            it.next();
        }
        if it.next().is_some() || it.next().is_some() {
            return bad("wrong result", "the iterator goes on after its end");
        }
    }
    for (k, g) in groups.iter().enumerate() {
        // the library's tree is the model's
        let l = unsafe { &*ptrs[k] };
        if l.uuid.0.as_bytes() != &g.uuid || l.name != g.name || l.entries.len() != g.entries.len() {
            return bad("harness", "the trees differ");
        }
    }
    {
        let mut got: Vec<*const Group> = vec![];
        let mut it = d.root_group.iter_mut();
        while let Some(g) = it.next() {
            got.push(g as *const Group);
        }
        if it.next().is_some() {
            return bad("wrong result", "the mutable iterator goes on after its end");
        }
        agree("iterating mutably", &ptrs.iter().map(|p| (*p, Say::Yes)).collect::<Vec<_>>(), &got)?;
    }
    let entries: Vec<(*const Entry, &MEntry)> = ptrs.iter().zip(&groups).flat_map(|(p, g)| unsafe { (**p).entries.iter().map(|e| e as *const Entry) }.zip(g.entries.iter())).collect();
    for id in ids {
        steps += 4;
        let u = Uuid::from_bytes(*id);
        let wg = groups.iter().position(|g| g.uuid == *id).map(|i| ptrs[i]);
        let we = entries.iter().find(|e| e.1.uuid == *id).map(|e| e.0);
        let name = |x: bool| if x { "an element" } else { "nothing" };
        let chk = |what: &str, w: Option<usize>, g: Option<usize>| {
            if w == g {
                Ok(())
            } else {
                bad("wrong lookup", format!("{} of id {:02x?}: {} expected, got {}", what, id, name(w.is_some()), if w.is_some() && g.is_some() { "another one" } else { name(g.is_some()) }))
            }
        };
        chk("get_group", wg.map(|p| p as usize), d.get_group(GroupUuid(u)).map(|g| g as *const Group as usize))?;
        chk("get_entry", we.map(|p| p as usize), d.get_entry(EntryUuid(u)).map(|g| g as *const Entry as usize))?;
        chk("get_group_mut", wg.map(|p| p as usize), d.get_group_mut(GroupUuid(u)).map(|g| g as *const Group as usize))?;
        chk("get_entry_mut", we.map(|p| p as usize), d.get_entry_mut(EntryUuid(u)).map(|g| g as *const Entry as usize))?;
    }
    for q in queries {
        steps += 4;
        let wg: Vec<(*const Group, Say)> = groups.iter().zip(&ptrs).map(|(g, p)| (*p, contains(&g.name, q))).collect();
        let we: Vec<(*const Entry, Say)> = entries.iter().map(|(p, e)| (*p, matches(e, q))).collect();
        let g: Vec<*const Group> = d.find_groups(*q).into_iter().map(|g| g as *const Group).collect();
        agree(&format!("find_groups({:?})", q), &wg, &g)?;
        let g: Vec<*const Entry> = d.find_entries(*q).into_iter().map(|g| g as *const Entry).collect();
        agree(&format!("find_entries({:?})", q), &we, &g)?;
        let g: Vec<*const Group> = d.find_groups_mut(q.to_string()).into_iter().map(|g| g as *const Group).collect();
        agree(&format!("find_groups_mut({:?})", q), &wg, &g)?;
        let g: Vec<*const Entry> = d.find_entries_mut(q.to_string()).into_iter().map(|g| g as *const Entry).collect();
        agree(&format!("find_entries_mut({:?})", q), &we, &g)?;
    }
    if let Some(x) = diff(before, &of(d)) {
        return bad("changed", format!("searching changed the database: {}", x));
    }
    Ok(steps)
}

fn db_of(root: MGroup) -> (Database, MDb) {
    let (key, ck) = pw("c12");
    let mut m = MDb::new(ck);
    m.root = root;
    m.root.fix_parents(NIL);
    (build(&m, &key), m)
}

fn run(root: MGroup, ids: &[U], qs: &[&str]) -> Res {
    let (mut d, m) = db_of(root);
    let n = battery(&mut d, &m, ids, qs)?;
    good_n("as the model", digest(&(&m.root, ids, qs)), n)
}

fn lists2<T: Clone>(a: &[T]) -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    for x in a {
        v.push(vec![x.clone()]);
        for y in a {
            v.push(vec![x.clone(), y.clone()]);
        }
    }
    v
}

fn strings(k: u64) -> String {
    ["a", "A", "b", "B", " "][k as usize].into()
}
/// every string of at most n of the five letters
fn words(n: u32) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|w| (0..5).map(move |k| format!("{}{}", w, strings(k)))).collect();
        v.extend(last.clone());
    }
    v
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    // shapes
    let shapes: Arc<Vec<Vec<usize>>> = Arc::new((1..=ctx.q(10, 12)).flat_map(trees).collect());
    let (a, b) = (shapes.clone(), shapes.clone());
    v.push(
        Space::new(
            "shapes",
            "every tree of up to 10 (thorough: 12) groups, with 0 to 2 entries in each",
            shapes.len() as u64 * 3,
            move |i| {
                let n = i % 3;
                let mut nodes = 0;
                let root = tree_group(&a[(i / 3) as usize], &|k| {
                    let mut g = MGroup::new(uid(k as u32), &format!("group {}", k % 3));
                    for e in 0..((k as u64 * (n + 1) + n) % 3) {
                        g.entries.push(MEntry::new(uid(1000 + k as u32 * 10 + e as u32)).s(MKey::Title, &format!("title {}", (k as u64 + e) % 3)));
                    }
                    g
                });
                nodes += a[(i / 3) as usize].len() as u32 + 1;
                let ids: Vec<U> = (0..nodes).map(uid).chain((0..nodes).flat_map(|k| [uid(1000 + k * 10), uid(1001 + k * 10)])).chain([NIL]).collect();
                run(root, &ids, &["", "group", "1", "TITLE 2", "x"])
            },
            move |i| format!("parents {:?} entries pattern {}", b[(i / 3) as usize], i % 3),
        )
        .into(),
    );
    v.push(
        Space::new(
            "large",
            "chains, fans and combs of up to some hundred groups, groups of many entries",
            6 * 12,
            |i| {
                let n = [1usize, 2, 3, 7, 31, 32, 33, 63, 64, 65, 129, 250][(i % 12) as usize];
                let parents: Vec<usize> = match i / 12 {
                    0 => (0..n).collect(),
                    1 => vec![0; n],
                    2 => (0..n).map(|k| k & !1).collect(),
                    3 => (0..n).map(|k| k / 2).collect(),
                    4 => (0..n).map(|k| if k < n / 2 { k } else { 0 }).collect(),
                    _ => vec![],
                };
                // parents by breadth-first number: any list with parent < own number gives a tree
                let root = tree_group(&parents, &|k| {
                    let mut g = MGroup::new(uid(k as u32), &format!("g{}", k));
                    let e = if i / 12 == 5 { n } else { k % 2 };
                    for j in 0..e {
                        g.entries.push(MEntry::new(uid(100_000 + (k * 1000 + j) as u32)).s(MKey::Url, &format!("u{}", j)));
                    }
                    g
                });
                run(root, &[uid(0), uid(n as u32), uid(n as u32 + 1), uid(100_000), uid(100_000 + n as u32 - 1), NIL], &["", "G1", "g", "u1", "U", "zz"])
            },
            |i| format!("kind {} size number {}", i / 12, i % 12),
        )
        .into(),
    );
    v.push(
        Space::new(
            "wide",
            "hundreds to thousands of groups waiting at once: fans, two-level fans, binary trees, and as many entries in one group",
            4 * 16,
            |i| {
                let n = [254usize, 255, 256, 257, 511, 512, 513, 1022, 1023, 1024, 1025, 1100, 2048, 2050, 4097, 5000][(i % 16) as usize];
                let parents: Vec<usize> = match i / 16 {
                    0 => vec![0; n],
                    1 => (0..n).map(|k| if k < n * 9 / 10 { 0 } else { 1 + (k % 40) }).collect(),
                    2 => (0..n).map(|k| k / 2).collect(),
                    _ => vec![0; 3],
                };
                let root = tree_group(&parents, &|k| {
                    let mut g = MGroup::new(uid(k as u32), &format!("g{}", k));
                    let e = if i / 16 == 3 && k == 1 { n } else { (k % 100 == 1) as usize };
                    for j in 0..e {
                        g.entries.push(MEntry::new(uid(100_000 + (k * 10_000 + j) as u32)).s(MKey::Url, &format!("u{}", j)));
                    }
                    g
                });
                run(root, &[uid(0), uid(1), uid(n as u32), uid(n as u32 + 1), uid(110_000), uid(110_000 + n as u32 - 1)], &["", "G1", "u1"])
            },
            |i| format!("kind {} size number {}", i / 16, i % 16),
        )
        .into(),
    );
    // queries and texts of any length
    let lengths: Vec<usize> = (1..70).chain([100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 65_535, 65_536, 65_537]).collect();
    let (a, b) = (Arc::new(lengths.clone()), lengths);
    v.push(
        Space::new(
            "long queries",
            "queries of every length to 69 and around powers of two, in one-byte, two-byte and mixed letters: against texts that are the query, hold it first, last or between, in other letters, or differ from it in one letter at the beginning, in the middle or at the end",
            a.len() as u64 * 3,
            move |i| {
                let n = a[(i / 3) as usize];
                let letter = |k: usize| match i % 3 {
                    0 => (b'a' + (k * k % 23) as u8) as char,
                    1 => char::from_u32(0x3b1 + (k * k % 13) as u32).unwrap(),
                    _ => [' ', 'q', 'é', '😀', 'z'][k * k % 5],
                };
                let q: Vec<char> = (0..n).map(letter).collect();
                let text = |v: &[char]| v.iter().collect::<String>();
                let mut ts = vec![text(&q), text(&q).to_uppercase(), format!("{}{}", text(&q), "w".repeat(300)), format!("{}{}", "w".repeat(300), text(&q)), format!("w{}w", text(&q)), text(&q[..n - 1]), text(&q[1..])];
                for k in [0, n / 2, n - 1] {
                    let mut x = q.clone();
                    x[k] = '_';
                    ts.push(text(&x));
                    ts.push(format!("{}{}", text(&x), text(&q[..n - 1])));
                    ts.push(format!("{}{}", text(&x), text(&q)));
                }
                let mut m = MGroup::new(uid(0), "root");
                for (k, t) in ts.iter().enumerate() {
                    let mut g = MGroup::new(uid(1 + k as u32), t);
                    g.entries.push(MEntry::new(uid(1000 + k as u32)).s([MKey::Title, MKey::Notes, MKey::Other("o".into())][k % 3].clone(), t));
                    m.groups.push(g);
                }
                run(m, &[uid(0), uid(1)], &[&text(&q), &text(&q).to_uppercase()])
            },
            move |i| format!("{} letters of kind {}", b[(i / 3) as usize], i % 3),
        )
        .into(),
    );
    // ids, repeated ones included
    let alphabet = [NIL, uid(1), [0xff; 16]];
    for n in 1..=ctx.q(7usize, 8) {
        let ts = Arc::new(trees(n));
        let per = 3u64.pow(n as u32);
        let (a, b) = (ts.clone(), ts.clone());
        v.push(
            Space::new(
                &format!("group ids {}", n),
                "every tree of that size with every assignment of three ids (nil, all ones, another) to its groups",
                per * ts.len() as u64,
                move |i| {
                    let root = tree_group(&a[(i / per) as usize], &|k| {
                        let mut g = MGroup::new(alphabet[(i % per / 3u64.pow(k as u32) % 3) as usize], "g");
                        g.entries.push(MEntry::new(alphabet[(k + i as usize) % 3]));
                        g
                    });
                    run(root, &[NIL, uid(1), uid(2), [0xff; 16]], &[])
                },
                move |i| format!("parents {:?} ids number {}", b[(i / per) as usize], i % per),
            )
            .into(),
        );
    }
    let el = Arc::new(lists2(&[uid(1), uid(2)]));
    for n in 1..=ctx.q(5usize, 6) {
        let ts = Arc::new(trees(n));
        let per = 7u64.pow(n as u32);
        let (a, b, el) = (ts.clone(), ts.clone(), el.clone());
        v.push(
            Space::new(
                &format!("entry ids {}", n),
                "every tree of that size with every list of up to two entries of two ids in each group",
                per * ts.len() as u64,
                move |i| {
                    let root = tree_group(&a[(i / per) as usize], &|k| {
                        let mut g = MGroup::new(uid(1 + k as u32 % 2), "g");
                        for u in &el[(i % per / 7u64.pow(k as u32) % 7) as usize] {
                            let mut e = MEntry::new(*u);
                            // history keeps the id of its entry, or another's
                            e.history.push(MEntry::new(uid(3)));
                            g.entries.push(e);
                        }
                        g
                    });
                    run(root, &[uid(1), uid(2), uid(3), NIL], &[])
                },
                move |i| format!("parents {:?} entries number {}", b[(i / per) as usize], i % per),
            )
            .into(),
        );
    }
    // nothing but the ids, names and strings matters
    let searched = |ms: &[&Mutator]| -> Res {
        let mut m = rich([0; 32]);
        for f in ms {
            (f.1)(&mut m);
        }
        // (setting ids and strings is part of other spaces)
        m.root.fix_parents(NIL);
        let m = MDb { ckey: pw("x").1, ..m };
        let mut d = build(&m, &pw("x").0);
        let ids: Vec<U> = [1, 2, 3, 4, 5, 77, 101, 102, 103, 104, 105, 801, 802, 803, 804].into_iter().map(uid).chain([NIL, [0xff; 16]]).collect();
        let n = battery(&mut d, &m, &ids, &["", "sub", "GROUP", "sibling", "title", "older", "http", "user", "protected", "password", "x"])?;
        good_n("as the model", digest(&format!("{:?}", m)), n)
    };
    {
        let ms = Arc::new(mutators().into_iter().filter(|x| !x.0.contains("= \"") && !x.0.contains("rounds=") && !x.0.contains("comment of")).collect::<Vec<_>>());
        let m2 = ms.clone();
        v.push(Space::new("settings", "a full database with every value of every field that is no text, one at a time", ms.len() as u64, move |i| searched(&[&ms[i as usize]]), move |i| m2[i as usize].0.clone()).into());
        let ps = Arc::new(other_slots().into_iter().filter(|x| ["names", "bin_enabled", "expires", "enable_", "is_expanded", "history x", "custom_icon=", "prot[", ".at_enabled", "version=", "assoc x", "binaries x"].iter().any(|y| x.0.contains(y))).collect::<Vec<_>>());
        let p2 = ps.clone();
        let n = ps.len() as u64;
        v.push(
            Space::new("two settings", "a full database with every pair of values of the fields that are flags or name groups and entries", n * n, move |i| searched(&[&ps[(i / n) as usize], &ps[(i % n) as usize]]), move |i| format!("{}; {}", p2[(i / n) as usize].0, p2[(i % n) as usize].0)).into(),
        );
    }
    // who matches
    let ml = Arc::new(lists2(&[true, false]));
    for n in 1..=ctx.q(4usize, 5) {
        let ts = Arc::new(trees(n));
        let per = 14u64.pow(n as u32);
        let (a, b, ml) = (ts.clone(), ts.clone(), ml.clone());
        v.push(
            Space::new(
                &format!("matches {}", n),
                "every tree of that size with every choice of matching groups and up to two matching or other entries in each",
                per * ts.len() as u64,
                move |i| {
                    let root = tree_group(&a[(i / per) as usize], &|k| {
                        let x = i % per / 14u64.pow(k as u32) % 14;
                        let mut g = MGroup::new(uid(k as u32), if x % 2 == 0 { "the NEEDLE here" } else { "other" });
                        g.notes = "needle".into();
                        for (j, m) in ml[(x / 2) as usize].iter().enumerate() {
                            g.entries.push(MEntry::new(uid(100 + j as u32)).s(MKey::Notes, if *m { "a Needle" } else { "needl e" }));
                        }
                        g
                    });
                    run(root, &[], &["nEEDLE"])
                },
                move |i| format!("parents {:?} choice {}", b[(i / per) as usize], i % per),
            )
            .into(),
        );
    }
    // where in an entry
    v.push(
        Space::new(
            "strings",
            "every assignment of absent, matching, other, protected matching to six string keys, with and without matches in history, attachments, tags",
            4u64.pow(6) * 8,
            |i| {
                let mut e = MEntry::new(uid(1));
                let keys = [MKey::Title, MKey::Username, MKey::Url, MKey::Notes, MKey::Password, MKey::Other("needle key".into())];
                for (j, k) in keys.into_iter().enumerate() {
                    match i >> (2 * j) & 3 {
                        1 => e.strings.insert(k, SVal::Plain("xxNeeDlexx".into())),
                        2 => e.strings.insert(k, SVal::Plain("nothing".into())),
                        3 => e.strings.insert(k, SVal::Prot(b"needle".to_vec())),
                        _ => None,
                    };
                }
                if i >> 12 & 1 == 1 {
                    e.history.push(MEntry::new(uid(1)).s(MKey::Title, "needle"));
                }
                if i >> 13 & 1 == 1 {
                    e.binaries.insert("needle".into(), BVal::Plain(b"needle".to_vec()));
                    e.assoc.push(("needle".into(), "needle".into()));
                }
                if i >> 14 & 1 == 1 {
                    e.tags = "needle".into();
                    e.override_url = "needle".into();
                    e.at_seq = "needle".into();
                }
                let mut root = MGroup::new(uid(9), "r");
                root.notes = "needle".into();
                root.at_seq = "needle".into();
                root.entries.push(e);
                root.entries.push(MEntry::new(uid(2)).p(MKey::Password, "needle"));
                run(root, &[], &["needle", "NEEDLE", "key"])
            },
            |i| format!("assignment {}", i),
        )
        .into(),
    );
    // texts
    let mut ts = texts();
    for t in ["ΑΣ", "ΑΣ Β", "ας", "ασ", "Σ", "σ", "ς", "ß", "SS", "İ", "i", "I", "ı", "ﬁ", "FI", "ǅ", "ǆ", "É", "e\u{301}", "E\u{301}", "K", "\u{212a}", "Å", "å", "Straße", "STRASSE", "abc", "ABC", "aBcD", "b", "[a]", ".*", "a.c", "%", "\\", "^a"] {
        ts.push(t.to_string());
    }
    let ts = Arc::new(ts);
    let n = ts.len() as u64;
    let (a, b) = (ts.clone(), ts.clone());
    v.push(
        Space::new(
            "texts",
            "every pair of a list of texts, one searched for in the other (cases on which ways of ignoring case differ are left open)",
            n * n,
            move |i| {
                let (t, q) = (&a[(i / n) as usize], &a[(i % n) as usize]);
                if t.len() + q.len() > 20_000 {
                    return trivial("too long", 0);
                }
                let mut root = MGroup::new(uid(1), t);
                root.entries.push(MEntry::new(uid(2)).s(MKey::Other("k".into()), t));
                root.entries.push(MEntry::new(uid(3)).s(MKey::Title, &format!("pre {} post", t)));
                root.entries.push(MEntry::new(uid(4)).s(MKey::Title, "x"));
                run(root, &[], &[q.as_str()])
            },
            move |i| format!("{:?} in {:?}", clip(&b[(i % n) as usize]), clip(&b[(i / n) as usize])),
        )
        .into(),
    );
    let (wt, wq) = (Arc::new(words(ctx.q(5, 6))), Arc::new(words(3)));
    let nq = wq.len() as u64;
    let (a, b) = (wt.clone(), wq.clone());
    v.push(
        Space::new(
            "words",
            "every string of up to 5 (thorough: 6) of the letters a, A, b, B, space, searched for every such string of up to 3",
            wt.len() as u64,
            move |i| {
                let t = &a[i as usize];
                let mut root = MGroup::new(uid(1), t);
                root.entries.push(MEntry::new(uid(2)).s(MKey::Username, t));
                let qs: Vec<&str> = wq.iter().map(|s| s.as_str()).collect();
                run(root, &[], &qs)
            },
            move |i| format!("{:?} against {} words, the last {:?}", wt[i as usize], nq, b.last()),
        )
        .into(),
    );
    v.push(
        Space::new(
            "characters",
            "every character that has another case, searched for in both directions, alone and within text",
            0x110000 / 64,
            |i| {
                let mut n = 0;
                for c in (i * 64)..(i * 64 + 64) {
                    let Some(c) = char::from_u32(c as u32) else { continue };
                    let l: String = c.to_lowercase().collect();
                    let u: String = c.to_uppercase().collect();
                    if l == u && c as u32 > 0x250 {
                        continue;
                    }
                    for (t, q) in [(c.to_string(), l.clone()), (l.clone(), u.clone()), (u.clone(), c.to_string()), (format!("a{}b", l), format!("A{}", u)), (format!("x{}", u), u.clone())] {
                        let mut root = MGroup::new(uid(1), &t);
                        root.entries.push(MEntry::new(uid(2)).s(MKey::Url, &t));
                        let (mut d, m) = db_of(root);
                        n += battery(&mut d, &m, &[], &[&q])?;
                    }
                }
                if n == 0 {
                    return trivial("no letters", i);
                }
                good_n("as the model", digest(&i), n)
            },
            |i| format!("characters from U+{:X}", i * 64),
        )
        .into(),
    );
    // opened databases, and repeated searches with edits in between
    v.push(
        Space::new(
            "after edits",
            "searches and lookups after every sequence of two edits of a small tree, before and after reopening",
            12 * 12 * 2,
            |i| {
                let (key, ck) = pw("c12");
                let mut m = rich(ck);
                m.rounds = 0;
                let mut d = build(&m, &key);
                let mut n = 0;
                for op in [i % 12, i / 12 % 12] {
                    n += battery(&mut d, &m, &[uid(1), uid(2), uid(3), uid(101), uid(103), uid(500)], &["title", "sub", "new", "Root", ""])?;
                    match op {
                        0 => {
                            d.root_group.groups[0].name = "New name".into();
                            m.root.groups[0].name = "New name".into();
                        }
                        1 => {
                            d.root_group.entries[0].set_title("a new title");
                            m.root.entries[0].strings.insert(MKey::Title, SVal::Plain("a new title".into()));
                        }
                        2 => {
                            d.root_group.entries.reverse();
                            m.root.entries.reverse();
                        }
                        3 => {
                            d.root_group.groups.reverse();
                            m.root.groups.reverse();
                        }
                        4 => {
                            let e = MEntry::new(uid(500)).s(MKey::Notes, "new");
                            d.root_group.add_entry(build_entry(&e));
                            m.root.entries.push(e);
                        }
                        5 => {
                            let g = MGroup::new(uid(500), "Newest");
                            d.root_group.groups[0].add_group(build_group(&g));
                            m.root.groups[0].groups.push(g);
                        }
                        6 => {
                            let u = m.root.groups[0].uuid;
                            d.root_group.remove_group(GroupUuid(Uuid::from_bytes(u)));
                            m.root.groups.remove(0);
                            m.root.groups.push(MGroup::new(uid(77), "new"));
                            d.root_group.add_group(build_group(&m.root.groups[m.root.groups.len() - 1]));
                        }
                        7 => {
                            let e = d.root_group.entries.pop();
                            d.root_group.groups[0].entries.extend(e);
                            let e = m.root.entries.pop();
                            m.root.groups[0].entries.extend(e);
                        }
                        8 => {
                            d = d.clone();
                        }
                        9 => {
                            for e in d.find_entries_mut("title") {
                                e.set_title("renamed");
                            }
                            fn ren(g: &mut MGroup) {
                                for e in &mut g.entries {
                                    if matches(e, "title") == Say::Yes {
                                        e.strings.insert(MKey::Title, SVal::Plain("renamed".into()));
                                    }
                                }
                                g.groups.iter_mut().for_each(ren);
                            }
                            ren(&mut m.root);
                        }
                        10 => {
                            d.root_group.uuid = GroupUuid(Uuid::from_bytes(uid(500)));
                            m.root.uuid = uid(500);
                        }
                        _ => {
                            if let Some(e) = d.root_group.entries.last_mut() {
                                e.uuid = EntryUuid(Uuid::from_bytes(uid(103)));
                            }
                            if let Some(e) = m.root.entries.last_mut() {
                                e.uuid = uid(103);
                            }
                        }
                    }
                }
                if i / 144 == 1 {
                    let f = save(&d).map_err(|e| Bad::from(format!("{:?}", e)))?;
                    d = crate::lk::open(&f, &key).map_err(|e| Bad::from(format!("{:?}", e)))?;
                    m = m.after_reopen();
                    let g = of(&d);
                    m.generator = g.generator;
                    m.ckey = g.ckey;
                }
                n += battery(&mut d, &m, &[uid(1), uid(2), uid(3), uid(101), uid(103), uid(500)], &["title", "sub", "new", "Root", ""])?;
                good_n("as the model", digest(&i), n)
            },
            |i| format!("edits {} and {}, reopened {}", i % 12, i / 12 % 12, i / 144 == 1),
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C12",
        level: "model_checking",
        rule: "every tree, id assignment, match assignment and pair of texts within the bounds; every iterator, lookup and search (mutable and not) compared element by element, by address, with a walk of the model; non-trivial: a distinct tree with its queries",
        items,
        assumptions: &["where full and simple case mappings to upper and lower case disagree, either answer is accepted, except that text always contains its own pieces"],
    }
}
