//! Equality: values compare equal exactly when what can be read from them is equal.
use super::c04;
use super::c13;
use crate::engine::*;
use crate::lk::*;
use crate::model::*;
use kpdb::*;
use secstr::SecStr;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use uuid::Uuid;

/// Both ways of asking, for both orders, and of a value with itself.
fn agrees<T: PartialEq>(a: &T, b: &T, same: bool, what: &dyn Fn() -> String) -> std::result::Result<(), Bad> {
    if (a == b) != same || (b == a) != same {
        return bad("equality", format!("{}: {} although their contents {}", what(), if same { "differ" } else { "compare equal" }, if same { "are the same" } else { "differ" }));
    }
    if (a != b) == same || (b != a) == same {
        return bad("inequality", format!("{}: == and != agree", what()));
    }
    Ok(())
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// One changed database.
struct Twin {
    name: String,
    m: MDb,
    d: Database,
    class: usize,
    groups: Vec<usize>,
    entries: Vec<usize>,
}
fn groups_of<'a>(g: &'a Group, v: &mut Vec<&'a Group>) {
    v.push(g);
    g.groups.iter().for_each(|c| groups_of(c, v));
}
fn groups_in(d: &Database) -> Vec<&Group> {
    let mut v = vec![];
    groups_of(&d.root_group, &mut v);
    v
}
fn entries_in(d: &Database) -> Vec<&Entry> {
    groups_in(d).into_iter().flat_map(|g| g.entries.iter().flat_map(|e| std::iter::once(e).chain(e.history.iter()))).collect()
}

fn group_at<'a>(g: &'a mut Group, k: &mut usize) -> Option<&'a mut Group> {
    if *k == 0 {
        return Some(g);
    }
    *k -= 1;
    g.groups.iter_mut().find_map(|c| group_at(c, k))
}
fn entry_at<'a>(g: &'a mut Group, k: &mut usize) -> Option<&'a mut Entry> {
    for e in g.entries.iter_mut() {
        let n = e.history.len();
        if *k == 0 {
            return Some(e);
        }
        if *k <= n {
            return Some(&mut e.history[*k - 1]);
        }
        *k -= n + 1;
    }
    g.groups.iter_mut().find_map(|c| entry_at(c, k))
}

#[derive(Default)]
struct Classes {
    dbs: HashMap<(MDb, bool), usize>,
    groups: HashMap<MGroup, usize>,
    entries: HashMap<MEntry, usize>,
}
fn class<K: Hash + Eq>(m: &mut HashMap<K, usize>, k: K) -> usize {
    let n = m.len();
    *m.entry(k).or_insert(n)
}
fn twin(c: &mut Classes, name: String, d: Database) -> Twin {
    let m = of(&d);
    Twin {
        name,
        class: class(&mut c.dbs, (m.clone(), d.db_type == DbType::Kdb1)),
        groups: groups_in(&d).into_iter().map(|g| class(&mut c.groups, group_of(g))).collect(),
        entries: entries_in(&d).into_iter().map(|e| class(&mut c.entries, entry_of(e))).collect(),
        m,
        d,
    }
}
fn twins(thorough: bool) -> Vec<Twin> {
    let mut c = Classes::default();
    let (key, ck) = pw("c23");
    let mut v = vec![];
    for b in [rich(ck), small(ck)] {
        v.push(twin(&mut c, "nothing".into(), build(&b, &key)));
        v.push(twin(&mut c, "nothing again".into(), build(&b, &key)));
        let (other, _) = pw("c23 ");
        v.push(twin(&mut c, "another key".into(), build(&b, &other)));
        let mut d = build(&b, &key);
        d.db_type = DbType::Kdb1;
        v.push(twin(&mut c, "another type".into(), d));
    }
    // the parents, which nothing derives them from while a value is in memory
    {
        let d = build(&rich(ck), &key);
        let mut near = uid(2);
        near[15] ^= 1;
        for p in [NIL, uid(77), uid(2), near] {
            let p = GroupUuid(Uuid::from_bytes(p));
            for k in 0..groups_in(&d).len() {
                let mut d = d.clone();
                group_at(&mut d.root_group, &mut { k }).unwrap().parent = p;
                v.push(twin(&mut c, format!("parent of group {} {:?}", k, p), d));
            }
            for k in 0..entries_in(&d).len() {
                let mut d = d.clone();
                entry_at(&mut d.root_group, &mut { k }).unwrap().parent = p;
                v.push(twin(&mut c, format!("parent of entry {} {:?}", k, p), d));
            }
        }
    }
    let muts = if thorough { mutators() } else { mutators().into_iter().enumerate().filter(|(i, m)| i % 3 == 0 || !m.0.contains(" = ")).map(|x| x.1).collect() };
    for (n, f) in muts {
        let mut m = rich(ck);
        f(&mut m);
        v.push(twin(&mut c, n, build(&m, &key)));
    }
    v
}

// ---------------------------------------------------------------- small values

fn string_values() -> Vec<(String, StringValue)> {
    let mut v = vec![];
    for t in texts().iter().chain(&c04::passwords()) {
        v.push((format!("plain {:?}", clip(t)), StringValue::Plain(t.clone())));
        v.push((format!("protected {:?}", clip(t)), StringValue::Protected(SecStr::from(t.as_str()))));
    }
    v.push(("protected bytes".into(), StringValue::Protected(SecStr::new(vec![0xff]))));
    v
}
fn byte_strings() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = c04::keys();
    v.extend(c04::passwords().into_iter().map(String::into_bytes));
    v.extend((0..=255).map(|b| vec![b]));
    // the same but for one byte, wherever it is
    let base = vec![7u8; 70];
    v.extend((0..70).map(|i| {
        let mut x = base.clone();
        x[i] ^= 1;
        x
    }));
    v.extend((0..70).map(|n| base[..n].to_vec()));
    v.push(base);
    v.sort();
    v.dedup();
    v
}
fn names() -> Vec<String> {
    let mut v = texts();
    v.extend(c04::passwords());
    v.extend(["Title", "title", "UserName", "URL", "Password", "Notes", "Username", "Url"].map(String::from));
    v.sort();
    v.dedup();
    v
}
fn uuids() -> Vec<Uuid> {
    let mut v = vec![[0; 16], [255; 16], uid(1), uid(2), uid(256)];
    for i in 0..16 {
        for b in [1, 128] {
            let mut x = uid(1);
            x[i] ^= b;
            v.push(x);
        }
    }
    v.sort();
    v.dedup();
    v.into_iter().map(Uuid::from_bytes).collect()
}

type Law = Box<dyn Fn(usize) -> Res + Send + Sync>;

/// The laws of equality between one element and all others; elements at different places differ.
fn eq_laws<T: PartialEq + Clone + std::fmt::Debug + Send + Sync + 'static>(kind: &'static str, v: Vec<T>) -> (&'static str, usize, Law) {
    let n = v.len();
    let law = move |i: usize| {
        for (j, x) in v.iter().enumerate() {
            agrees(&v[i], x, i == j, &|| clip400(&format!("{} {:?} and {:?}", kind, v[i], x)))?;
        }
        let c = v[i].clone();
        agrees(&v[i], &c, true, &|| clip400(&format!("{} {:?} and its clone", kind, c)))?;
        good_n("agree", digest(&(kind, i)), v.len() as u64)
    };
    (kind, n, Box::new(law))
}
/// Those of hashes, of an order, and of maps by it.
fn ord_laws<T: Ord + Clone + std::fmt::Debug + Send + Sync + 'static>(kind: &'static str, v: Vec<T>) -> (&'static str, usize, Law) {
    use std::cmp::Ordering::*;
    let n = v.len();
    let map: BTreeMap<T, usize> = v.iter().cloned().zip(0..).collect();
    let law = move |i: usize| {
        let a = &v[i];
        if map.len() != v.len() || map.get(a) != Some(&i) {
            return bad("map", format!("{} {:?} is not found in an ordered map of {} of {}", kind, a, map.len(), v.len()));
        }
        for (j, b) in v.iter().enumerate() {
            let o = a.cmp(b);
            if (o == Equal) != (i == j) || b.cmp(a) != o.reverse() || a.partial_cmp(b) != Some(o) || (a < b) != (o == Less) || (a > b) != (o == Greater) {
                return bad("order", format!("{} {:?} and {:?} are {:?} of one another, the other way {:?}", kind, a, b, o, b.cmp(a)));
            }
            if o == Less {
                if let Some(c) = v.iter().find(|c| b < *c && !(a < *c)) {
                    return bad("order", format!("{}: {:?} < {:?} < {:?}, but not the first and the last", kind, a, b, c));
                }
            }
        }
        good_n("ordered", digest(&(kind, i)), v.len() as u64)
    };
    (kind, n, Box::new(law))
}
fn hash_laws<T: Hash + Eq + Clone + std::fmt::Debug + Send + Sync + 'static>(kind: &'static str, v: Vec<T>) -> (&'static str, usize, Law) {
    let n = v.len();
    let map: HashMap<T, usize> = v.iter().cloned().zip(0..).collect();
    let law = move |i: usize| {
        let c = v[i].clone();
        if hash(&c) != hash(&v[i]) || map.get(&c) != Some(&i) || map.len() != v.len() {
            return bad("map", format!("{} {:?} is not found in a hash map of {} of {}", kind, c, map.len(), v.len()));
        }
        good("found", digest(&(kind, i)))
    };
    (kind, n, Box::new(law))
}

fn laws() -> Vec<(&'static str, usize, Law)> {
    let mut v = vec![];
    macro_rules! all {
        ($k:literal, $v:expr) => {{
            let x = $v;
            v.push(eq_laws($k, x.clone()));
            v.push(ord_laws($k, x.clone()));
            v.push(hash_laws($k, x));
        }};
    }
    macro_rules! ordered {
        ($k:literal, $v:expr) => {{
            let x = $v;
            v.push(eq_laws($k, x.clone()));
            v.push(ord_laws($k, x));
        }};
    }
    let mut keys: Vec<StringKey> = vec![StringKey::Notes, StringKey::Password, StringKey::Title, StringKey::Url, StringKey::Username];
    keys.extend(names().into_iter().map(StringKey::Other));
    all!("StringKey", keys);
    all!("BinaryKey", names().into_iter().map(BinaryKey).collect::<Vec<_>>());
    all!("BinaryId", names().into_iter().map(BinaryId).collect::<Vec<_>>());
    all!("EntryUuid", uuids().into_iter().map(EntryUuid).collect::<Vec<_>>());
    all!("GroupUuid", uuids().into_iter().map(GroupUuid).collect::<Vec<_>>());
    let icons = uuids().into_iter().map(CustomIconUuid).collect::<Vec<_>>();
    v.push(eq_laws("CustomIconUuid", icons.clone()));
    v.push(hash_laws("CustomIconUuid", icons));
    all!("Icon", (0..69).map(icon).collect::<Vec<_>>());
    all!("Obfuscation", vec![Obfuscation::None, Obfuscation::UseClipboard]);
    let mut colors = vec![];
    for a in [0u8, 1, 128, 255] {
        for b in [0u8, 1, 128, 255] {
            for c in [0u8, 1, 128, 255] {
                colors.push(Color { red: a, green: b, blue: c });
            }
        }
    }
    ordered!("Color", colors);
    let nums = [0u16, 1, 2, 3, 255, 256, 65535];
    ordered!("Version", nums.iter().flat_map(|a| nums.iter().map(|b| Version { major: *a, minor: *b })).collect::<Vec<_>>());
    ordered!("TransformRounds", [0u64, 1, 255, 256, 6000, 1 << 32, (1 << 32) + 1, u64::MAX].map(TransformRounds).to_vec());
    ordered!("Comment", byte_strings().into_iter().map(Comment).collect::<Vec<_>>());
    ordered!("Compression", vec![Compression::None, Compression::GZip]);
    ordered!("DbType", vec![DbType::Kdb1, DbType::Kdb2]);
    ordered!("KeyFileType", vec![KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml]);
    let some: Vec<String> = names().into_iter().step_by(4).collect();
    let mut assoc = vec![];
    for w in &some {
        for k in &some {
            assoc.push(Association { window: w.clone(), keystroke_sequence: k.clone() });
        }
    }
    v.push(eq_laws("Association", assoc.clone()));
    v.push(ord_laws("Association", assoc.into_iter().step_by(3).collect()));
    let mut seen = std::collections::HashSet::new();
    v.push(eq_laws("StringValue", string_values().into_iter().filter(|x| seen.insert(x.0.clone() + &format!("{:?}", plain(&x.1)))).map(|x| x.1).collect()));
    let mut bins = vec![];
    for b in byte_strings() {
        bins.push(BinaryValue::Plain(b.clone()));
        if let Ok(t) = String::from_utf8(b.clone()) {
            bins.push(BinaryValue::Ref(BinaryId(t)));
        }
        bins.push(BinaryValue::Protected(SecStr::new(b)));
    }
    v.push(eq_laws("BinaryValue", bins));
    let mut kfs = vec![];
    for b in byte_strings() {
        for t in 0..3 {
            kfs.push(KeyFile { key: SecStr::new(b.clone()), file_type: c04::kind(t) });
        }
    }
    v.push(eq_laws("KeyFile", kfs));
    // composite keys: one for each way to make a key
    let mut by: HashMap<[u8; 32], CompositeKey> = HashMap::new();
    let mut creds: Vec<c04::Cred> = byte_strings().into_iter().map(|b| c04::Cred::Kf(b, 0)).collect();
    creds.extend(c04::alphabet());
    for c in creds {
        by.entry(c.reference()).or_insert_with(|| c.key());
    }
    v.push(eq_laws("CompositeKey", by.into_iter().collect::<BTreeMap<_, _>>().into_values().collect()));
    v
}
fn plain(v: &StringValue) -> &[u8] {
    match v {
        StringValue::Plain(s) => s.as_bytes(),
        StringValue::Protected(s) => s.unsecure(),
    }
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    let tw = Arc::new(twins(ctx.thorough()));
    let (t1, t2) = (tw.clone(), tw.clone());
    v.push(
        Space::new(
            "databases",
            "a rich database with every single change (quick: a third of the texts, dates and numbers), a small one and ones with another key or type, each with every other: databases, their groups, entries and history items",
            tw.len() as u64,
            move |i| {
                let a = &t1[i as usize];
                let (ga, ea) = (groups_in(&a.d), entries_in(&a.d));
                let mut n = 0;
                for (bi, b) in t1.iter().enumerate() {
                    n += 1;
                    // equal ones take a full comparison: every eighth of them
                    let all = (i as usize + bi) % 8 == 0;
                    let what = |k: &str| format!("{} with {} and with {}", k, clip(&a.name), clip(&b.name));
                    agrees(&a.d, &b.d, a.class == b.class, &|| what("databases"))?;
                    // those that were changed, and their neighbours
                    let (gb, eb) = (groups_in(&b.d), entries_in(&b.d));
                    for (j, (x, y)) in ga.iter().zip(&gb).enumerate() {
                        if all || a.groups[j] != b.groups[j] {
                            agrees(*x, *y, a.groups[j] == b.groups[j], &|| what("groups"))?;
                        }
                    }
                    for (j, (x, y)) in ea.iter().zip(&eb).enumerate() {
                        if all || a.entries[j] != b.entries[j] {
                            agrees(*x, *y, a.entries[j] == b.entries[j], &|| what("entries"))?;
                        }
                    }
                }
                for (j, x) in ga.iter().enumerate() {
                    for (k, y) in ga.iter().enumerate() {
                        agrees(*x, *y, a.groups[j] == a.groups[k], &|| format!("groups {} and {} with {}", j, k, clip(&a.name)))?;
                    }
                }
                for (j, x) in ea.iter().enumerate() {
                    for (k, y) in ea.iter().enumerate() {
                        agrees(*x, *y, a.entries[j] == a.entries[k], &|| format!("entries {} and {} with {}", j, k, clip(&a.name)))?;
                    }
                }
                let c = a.d.clone();
                agrees(&a.d, &c, true, &|| format!("a database with {} and its clone", clip(&a.name)))?;
                if let Some(t) = diff(&a.m, &of(&c)) {
                    return bad("clone", format!("a clone of a database with {}: {}", clip(&a.name), t));
                }
                if c.db_type != a.d.db_type {
                    return bad("clone", "a clone is of another type");
                }
                good_n("agree", digest(&i), n)
            },
            move |i| t2[i as usize].name.clone(),
        )
        .into(),
    );
    let ls = Arc::new(laws());
    let cases: Arc<Vec<(usize, usize)>> = Arc::new(ls.iter().enumerate().flat_map(|(k, l)| (0..l.1).map(move |i| (k, i))).collect());
    let (l1, l2, c1, c2) = (ls.clone(), ls.clone(), cases.clone(), cases.clone());
    v.push(
        Space::new(
            "values",
            "every pair of many values of each kind of key, identifier, icon, colour, version, string, attachment, key file and composite key: equality, order (of all threes), hashes and maps",
            cases.len() as u64,
            move |i| {
                let (k, j) = c1[i as usize];
                (l1[k].2)(j)
            },
            move |i| {
                let (k, j) = c2[i as usize];
                format!("{} number {} with all others", l2[k].0, j)
            },
        )
        .into(),
    );
    // clones share nothing with what they were cloned from
    let ops = Arc::new(c13::ops());
    let n = ops.len() as u64;
    let depth = ctx.q(3u32, 4);
    let (o1, o2) = (ops.clone(), ops.clone());
    let pick = move |i: u64, j: u32| (i / n.pow(j) % n) as usize;
    v.push(
        Space::new(
            "clones",
            &format!("every sequence of {} of {} edits; then the database and a clone of it are edited in turn by every edit", depth, n),
            n.pow(depth),
            move |i| {
                let (key, ck) = pw("c23");
                let mut m = small(ck);
                let mut d = build(&m, &key);
                for j in 0..depth {
                    c13::apply(&mut d, &mut m, &o1[pick(i, j)])?;
                }
                let before = of(&d);
                for op in o1.iter() {
                    for clone in [true, false] {
                        let (mut a, mut mm) = (d.clone(), m.clone());
                        let other = a.clone();
                        // one of the three is changed; the others stay
                        let text = |w: &str| format!("{:?} on {}", op, w);
                        if clone {
                            c13::apply(&mut a, &mut mm, op)?;
                            agrees(&a, &d, of(&a) == before, &|| text("a clone"))?;
                            if let Some(t) = diff(&before, &of(&d)) {
                                return bad("shared", format!("{} changes what it was cloned from: {}", text("a clone"), t));
                            }
                        } else {
                            let mut b = other.clone();
                            std::mem::swap(&mut a, &mut b);
                            c13::apply(&mut a, &mut mm, op)?;
                            drop(a);
                            agrees(&b, &other, true, &|| text("the original, then dropped"))?;
                        }
                        if let Some(t) = diff(&before, &of(&other)) {
                            return bad("shared", format!("{} changes a clone: {}", text("the original"), t));
                        }
                    }
                }
                good_n("independent", digest128(&format!("{:?}", before)) as u64, 2 * n)
            },
            move |i| (0..depth).map(|j| format!("{:?}", o2[pick(i, j)])).collect::<Vec<_>>().join(", "),
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C23",
        level: "exploration",
        rule: "values built with known contents and compared; the contents, read field by field, are the reference",
        items,
        assumptions: &["contents are compared as read from the public fields and the accessors"],
    }
}
