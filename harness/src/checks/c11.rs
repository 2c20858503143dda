//! Protected values: in no output of the library, in no form, except encrypted.
use crate::engine::*;
use crate::env;
use crate::lk::open;
use crate::lk::*;
use crate::model::*;
use crate::refs::{b64, xml};
use kpdb::*;
use uuid::Uuid;
use std::collections::HashMap;
use std::sync::Arc;

// ---------------------------------------------------------------- searching for a secret in many forms

/// Every piece of W bytes of a secret, in the forms a careless program might write it.
#[derive(Clone)]
pub struct Needles {
    by8: HashMap<[u8; 8], Vec<(Vec<u8>, u16, u8)>>,
    /// Which eight bytes may begin a piece: one bit for each of 2^18 classes.
    maybe: Vec<u64>,
    names: Vec<String>,
}
fn class(b: &[u8]) -> usize {
    (u64::from_le_bytes(b[..8].try_into().unwrap()).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 46) as usize
}
const FORMS: [&str; 11] = ["plain", "UTF-16", "hexadecimal", "HEXADECIMAL", "spaced hexadecimal", "decimal", "base64", "base64 (shifted by 1)", "base64 (shifted by 2)", "escaped bytes", "reversed"];
const W: usize = 8;

fn base64_inner(d: &[u8], shift: usize) -> Vec<u8> {
    let mut v = vec![0; shift];
    v.extend_from_slice(d);
    let e = b64::enc(&v).into_bytes();
    // characters that depend on these bytes alone
    let a = (shift * 8 + 5) / 6;
    let b = v.len() * 8 / 6;
    e[a..b].to_vec()
}

impl Needles {
    pub fn new() -> Needles {
        Needles { by8: HashMap::new(), maybe: vec![0; 1 << 12], names: vec![] }
    }
    pub fn add(&mut self, name: &str, secret: &[u8]) {
        if secret.len() < W {
            return;
        }
        let id = self.names.len() as u16;
        self.names.push(name.into());
        let rev: Vec<u8> = secret.iter().rev().copied().collect();
        let n = secret.windows(W).count();
        for (k, w) in secret.windows(W).chain(rev.windows(W)).enumerate() {
            let mut put = |form: u8, p: Vec<u8>| {
                if p.len() >= 8 {
                    let c = class(&p);
                    self.maybe[c / 64] |= 1 << (c % 64);
                    self.by8.entry(p[..8].try_into().unwrap()).or_default().push((p, id, form));
                }
            };
            if k >= n {
                put(10, w.to_vec());
                continue;
            }
            put(0, w.to_vec());
            put(1, w.iter().flat_map(|b| [*b, 0]).collect());
            put(2, b64::hex(w).to_lowercase().into_bytes());
            put(3, b64::hex(w).to_uppercase().into_bytes());
            put(4, w.iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>().join(" ").into_bytes());
            put(5, w.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ").into_bytes());
            for s in 0..3 {
                // the interior of eight bytes is at least eight characters
                put(6 + s as u8, base64_inner(w, s));
            }
            put(9, w.iter().map(|b| format!("\\x{:02x}", b)).collect::<String>().into_bytes());
        }
    }
    pub fn find(&self, hay: &[u8]) -> Option<String> {
        for i in 0..hay.len().saturating_sub(7) {
            let c = class(&hay[i..]);
            if self.maybe[c / 64] >> (c % 64) & 1 == 0 {
                continue;
            }
            if let Some(v) = self.by8.get(&hay[i..i + 8]) {
                for (p, id, form) in v {
                    if hay[i..].starts_with(p) {
                        return Some(format!("{} ({})", self.names[*id as usize], FORMS[*form as usize]));
                    }
                }
            }
        }
        None
    }
}

/// A value nothing else resembles.
fn sentinel(n: u64) -> String {
    let a = b"ABCDEFGHJKLMNPQRSTUVWXYZabcdefghjkmnopqrstuvwxyz23456789";
    (0..20).map(|i| a[(env::mix(n * 100 + i + 7_000_000) % a.len() as u64) as usize] as char).collect()
}

fn debug_forms(d: &Database) -> Vec<(&'static str, String)> {
    let mut v = vec![("Debug of the database", format!("{:?}", d)), ("pretty Debug of the database", format!("{:#?}", d)), ("Debug of the key", format!("{:?} {:#?}", d.composite_key, d.composite_key))];
    for g in d.root_group.iter() {
        v.push(("Debug of a group", format!("{:?} {:#?}", g, g)));
        for e in &g.entries {
            v.push(("Debug of an entry", format!("{:?} {:#?}", e, e)));
            for s in e.strings.values() {
                v.push(("Debug of a string value", format!("{:?} {:#?}", s, s)));
            }
            for s in e.binaries.values() {
                v.push(("Debug of a binary value", format!("{:?} {:#?}", s, s)));
            }
        }
    }
    v
}

/// Saves the database and searches everything it shows. Gives the file.
fn examine(d: &Database, m: &MDb, nd: &Needles, publics: &[String]) -> std::result::Result<Vec<u8>, Bad> {
    for (n, t) in debug_forms(d) {
        if let Some(x) = nd.find(t.as_bytes()) {
            return bad("debug", format!("{} shows {}", n, x));
        }
    }
    let f = match save(d) {
        Ok(f) => f,
        Err(e) => return bad("refused", format!("not saved: {:?}", e)),
    };
    if let Some(x) = nd.find(&f) {
        return bad("in file", format!("the file shows {}", x));
    }
    let p = crate::kdbx::open(&f, &m.ckey).map_err(|e| Bad { key: "format".into(), text: e })?;
    if let Some(x) = nd.find(&p.xml) {
        return bad("in document", format!("the decrypted document shows {}", x));
    }
    for s in publics {
        if !String::from_utf8_lossy(&p.xml).contains(s.as_str()) {
            return bad("harness", format!("plain value {} not found in the document", s));
        }
    }
    let mut w = m.after_reopen();
    match crate::xmlmodel::decode(&p) {
        Err(e) => return bad("format", format!("the document does not decode with each value under its own stream bytes: {}", e)),
        Ok(g) => {
            w.generator = g.generator.clone();
            w.ckey = g.ckey;
            if let Some(x) = diff(&w, &g) {
                return bad("decoded", format!("decoded with inner-stream bytes of their own: {}", x));
            }
        }
    }
    let o = match open(&f, &d.composite_key) {
        Ok(o) => o,
        Err(e) => return bad("reopen", format!("{:?}", e)),
    };
    let g = of(&o);
    w.generator = g.generator.clone();
    w.ckey = g.ckey;
    if let Some(x) = diff(&w, &g) {
        return bad("reopened", format!("reopened: {}", x));
    }
    for (n, t) in debug_forms(&o) {
        if let Some(x) = nd.find(t.as_bytes()) {
            return bad("debug", format!("after reopening, {} shows {}", n, x));
        }
    }
    Ok(f)
}

/// The encrypted values of a file in document order.
fn ciphertexts(f: &[u8], ck: &[u8; 32]) -> std::result::Result<(Vec<Vec<u8>>, String), String> {
    fn rec(e: &xml::Elem, out: &mut Vec<Vec<u8>>) -> std::result::Result<(), String> {
        if e.attr("Protected") == Some("True") {
            out.push(b64::dec(&e.leaf()?)?);
        }
        for c in e.children() {
            rec(c, out)?;
        }
        Ok(())
    }
    let p = crate::kdbx::open(f, ck)?;
    let e = xml::parse(&p.xml)?;
    let mut v = vec![];
    rec(&e, &mut v)?;
    // the document with the encrypted values blanked
    let mut s = String::from_utf8_lossy(&p.xml).to_string();
    for c in &v {
        let b = b64::enc(c);
        if !b.is_empty() {
            s = s.replacen(&format!(">{}<", b), "><", 1);
        }
    }
    Ok((v, s))
}

// ---------------------------------------------------------------- places

/// A place for a value: puts it there as absent (0), plain (1) or protected (2).
struct Place {
    name: &'static str,
    put: fn(&mut MDb, u8, &[u8]),
}

fn sv(s: &mut std::collections::BTreeMap<MKey, SVal>, k: MKey, how: u8, v: &[u8]) {
    match how {
        0 => {
            s.remove(&k);
        }
        1 => {
            s.insert(k, SVal::Plain(String::from_utf8_lossy(v).to_string()));
        }
        _ => {
            s.insert(k, SVal::Prot(v.to_vec()));
        }
    }
}
fn bv(s: &mut std::collections::BTreeMap<String, BVal>, how: u8, v: &[u8]) {
    match how {
        0 => {
            s.remove("b");
        }
        1 => {
            s.insert("b".into(), BVal::Plain(v.to_vec()));
        }
        _ => {
            s.insert("b".into(), BVal::Prot(v.to_vec()));
        }
    }
}

const PLACES: [Place; 14] = [
    Place { name: "password", put: |m, h, v| sv(&mut m.root.entries[0].strings, MKey::Password, h, v) },
    Place { name: "title", put: |m, h, v| sv(&mut m.root.entries[0].strings, MKey::Title, h, v) },
    Place { name: "user name", put: |m, h, v| sv(&mut m.root.entries[0].strings, MKey::Username, h, v) },
    Place { name: "URL", put: |m, h, v| sv(&mut m.root.entries[0].strings, MKey::Url, h, v) },
    Place { name: "notes", put: |m, h, v| sv(&mut m.root.entries[0].strings, MKey::Notes, h, v) },
    Place { name: "custom string", put: |m, h, v| sv(&mut m.root.entries[0].strings, MKey::Other("Custom".into()), h, v) },
    Place { name: "attachment", put: |m, h, v| bv(&mut m.root.entries[0].binaries, h, v) },
    Place { name: "history password", put: |m, h, v| sv(&mut m.root.entries[0].history[0].strings, MKey::Password, h, v) },
    Place { name: "history attachment", put: |m, h, v| bv(&mut m.root.entries[0].history[1].binaries, h, v) },
    Place { name: "history custom string", put: |m, h, v| sv(&mut m.root.entries[0].history[1].strings, MKey::Other("Custom".into()), h, v) },
    Place { name: "second entry's password", put: |m, h, v| sv(&mut m.root.entries[1].strings, MKey::Password, h, v) },
    Place { name: "nested password", put: |m, h, v| sv(&mut m.root.groups[0].groups[0].entries[0].strings, MKey::Password, h, v) },
    Place { name: "nested attachment", put: |m, h, v| bv(&mut m.root.groups[0].groups[0].entries[0].binaries, h, v) },
    Place { name: "sibling's title", put: |m, h, v| sv(&mut m.root.groups[1].entries[0].strings, MKey::Title, h, v) },
];

fn bare(ck: [u8; 32]) -> MDb {
    let mut m = MDb::new(ck);
    m.rounds = 0;
    let mut e = MEntry::new(uid(1));
    e.history = vec![MEntry::new(uid(1)), MEntry::new(uid(1))];
    m.root.entries = vec![e, MEntry::new(uid(2))];
    let mut g = MGroup::new(uid(11), "g");
    let mut gg = MGroup::new(uid(12), "gg");
    gg.entries.push(MEntry::new(uid(3)));
    g.groups.push(gg);
    let mut s = MGroup::new(uid(13), "s");
    s.entries.push(MEntry::new(uid(4)));
    m.root.groups = vec![g, s];
    m.root.fix_parents(NIL);
    m
}

const PW: &str = "the master pass phrase 4711";

fn creds() -> (CompositeKey, [u8; 32], Needles) {
    static MADE: std::sync::OnceLock<(Vec<u8>, [u8; 32], Needles)> = std::sync::OnceLock::new();
    let (kfk, ck, n) = MADE.get_or_init(|| {
        let (_, ck, n, kfk) = make_creds();
        (kfk, ck, n)
    });
    (CompositeKey::from_both(PW, kf(kfk, KeyFileType::Xml)), *ck, n.clone())
}
fn make_creds() -> (CompositeKey, [u8; 32], Needles, Vec<u8>) {
    let kfk = sentinel(900).into_bytes();
    let key = CompositeKey::from_both(PW, kf(&kfk, KeyFileType::Xml));
    let ck = crate::refs::sha::sha256_cat(&[&crate::refs::sha::sha256(PW.as_bytes()), &kfk]);
    let mut n = Needles::new();
    n.add("the master password", PW.as_bytes());
    n.add("the hash of the master password", &crate::refs::sha::sha256(PW.as_bytes()));
    n.add("the key of the key file", &kfk);
    n.add("the composite key", &ck);
    (key, ck, n, kfk)
}

fn places(assign: &[u8], gz: bool) -> Res {
    let (key, ck, mut nd) = creds();
    let mut m = bare(ck);
    m.gzip = gz;
    let mut publics = vec![];
    for (i, how) in assign.iter().enumerate() {
        let s = sentinel(i as u64);
        (PLACES[i].put)(&mut m, *how, s.as_bytes());
        match how {
            1 if !PLACES[i].name.contains("attachment") => publics.push(s),
            2 => nd.add(PLACES[i].name, s.as_bytes()),
            _ => {}
        }
    }
    examine(&build(&m, &key), &m, &nd, &publics)?;
    good_n("hidden", digest(&(assign, gz)), 3)
}

/// A long protected value, recognisable at its start, in its middle and at its end.
fn long_value(place: usize, len: usize, gz: bool) -> Res {
    let (key, ck, mut nd) = creds();
    let mut m = bare(ck);
    m.gzip = gz;
    let mut s: Vec<u8> = (0..len).map(|j| b'a' + (env::mix(j as u64) % 26) as u8).collect();
    let ats = if len < 20 { vec![] } else { vec![0, len / 2, len - 20] };
    for (k, at) in ats.iter().copied().enumerate() {
        if k == 1 && len < 60 {
            continue;
        }
        let t = sentinel(50 + k as u64);
        s[at..at + 20].copy_from_slice(t.as_bytes());
    }
    for at in ats {
        nd.add(PLACES[place].name, &s[at..(at + 20).min(len)]);
    }
    (PLACES[place].put)(&mut m, 2, &s);
    examine(&build(&m, &key), &m, &nd, &[])?;
    good_n("hidden", digest(&(place, len, gz)), 3)
}

/// Many protected values.
fn many_values(kind: u8, n: u64) -> Res {
    let (key, ck, mut nd) = creds();
    let mut m = bare(ck);
    m.gzip = n % 2 == 0;
    for j in 0..n {
        let s = sentinel(1000 + j);
        nd.add("one of many", s.as_bytes());
        let b = s.as_bytes();
        let entry = |id: u32| MEntry::new(uid(id)).p(MKey::Password, &s);
        match kind {
            0 => {
                m.root.entries[0].strings.insert(MKey::Other(format!("k{}", j)), SVal::Prot(b.to_vec()));
            }
            1 => {
                m.root.entries[0].binaries.insert(format!("k{}", j), BVal::Prot(b.to_vec()));
            }
            2 => m.root.entries[0].history.push(entry(1)),
            3 => m.root.entries.push(entry(5000 + j as u32)),
            4 => {
                let mut g = MGroup::new(uid(20_000 + j as u32), "g");
                g.entries.push(entry(5000 + j as u32));
                m.root.groups.push(g);
            }
            _ => {
                if n > 25 {
                    return trivial("nested too deep", n);
                }
                let mut g = MGroup::new(uid(20_000 + j as u32), "g");
                g.entries.push(entry(5000 + j as u32));
                g.groups = std::mem::take(&mut m.root.groups);
                m.root.groups = vec![g];
            }
        }
    }
    m.root.fix_parents(NIL);
    examine(&build(&m, &key), &m, &nd, &[])?;
    good_n("hidden", digest(&(kind, n)), 3)
}

/// Values under names (None: an attachment) at places, in a context.
fn name_at(vals: &[(usize, Option<MKey>, bool, u64)], context: u64) -> Res {
    let (key, ck, mut nd) = creds();
    let mut m = bare(ck);
    m.gzip = context & 1 == 1;
    m.prot = [context & 2 == 2; 5];
    let mut publics = vec![];
    for (n, (place, k, prot, shape)) in vals.iter().enumerate() {
        let s = match shape {
            0 => sentinel(700 + n as u64),
            1 => (0..20).map(|j| sentinel(720 + 20 * n as u64 + j)).collect::<String>(),
            _ => format!("\u{e4}{}\u{1f600}", sentinel(760 + n as u64)),
        };
        let e = entry_at(&mut m, *place);
        e.times.expires = context & 8 == 8;
        match (k, prot) {
            (None, true) => drop(e.binaries.insert("b".into(), BVal::Prot(s.clone().into_bytes()))),
            (None, false) => drop(e.binaries.insert("b".into(), BVal::Plain(s.clone().into_bytes()))),
            (Some(k), true) => drop(e.strings.insert(k.clone(), SVal::Prot(s.clone().into_bytes()))),
            (Some(k), false) => drop(e.strings.insert(k.clone(), SVal::Plain(s.clone()))),
        }
        if *prot {
            nd.add("the protected value", s.as_bytes());
        } else if k.is_some() && *place != 11 {
            publics.push(s);
        }
    }
    if context & 4 == 4 {
        m.bin_enabled = true;
        m.bin_uuid = match vals[0].0 {
            5 | 6 => m.root.groups[0].uuid,
            7 | 8 => m.root.groups[0].groups[0].uuid,
            9 | 10 => m.root.groups[1].uuid,
            _ => m.root.uuid,
        };
    }
    m.root.fix_parents(NIL);
    examine(&build(&m, &key), &m, &nd, &publics)?;
    good_n("hidden", digest(&(vals, context)), 3)
}

// ---------------------------------------------------------------- values of all sizes

/// Two values of a size differ in nothing but the encrypted bytes of that value.
fn interference(place: usize, a: &[u8], b: &[u8], gz: bool) -> Res {
    let (key, ck, _) = creds();
    let mut m = bare(ck);
    m.gzip = gz;
    for (i, p) in PLACES.iter().enumerate() {
        (p.put)(&mut m, if i == place { 2 } else { (i % 3) as u8 }, if i == place { a } else { b"other" });
    }
    // one object is changed, so that the order of its maps stays
    let mut d = build(&m, &key);
    let shown = debug_forms(&d);
    env::rng(env::Rng::Stream(11));
    let f1 = match save(&d) {
        Ok(f) => f,
        Err(e) => return bad("refused", format!("not saved: {:?}", e)),
    };
    put_lib(&mut d, place, b);
    for ((n, x), (_, y)) in shown.into_iter().zip(debug_forms(&d)) {
        if x != y {
            return bad("debug", format!("{} depends on the protected {}", n, PLACES[place].name));
        }
    }
    env::rng(env::Rng::Stream(11));
    let f2 = match save(&d) {
        Ok(f) => f,
        Err(e) => return bad("refused", format!("not saved: {:?}", e)),
    };
    let r = ciphertexts(&f1, &ck).and_then(|x| Ok((x, ciphertexts(&f2, &ck)?)));
    let ((c1, s1), (c2, s2)) = match r {
        Ok(r) => r,
        Err(e) => return bad("format", e),
    };
    if s1 != s2 {
        return bad("document", format!("the document outside the encrypted values depends on the protected {}", PLACES[place].name));
    }
    if c1.len() != c2.len() {
        return bad("document", "the number of encrypted values depends on a value");
    }
    let xor = |p: &[u8], q: &[u8]| p.iter().zip(q).map(|(x, y)| x ^ y).collect::<Vec<u8>>();
    let want = xor(a, b);
    let changed: Vec<usize> = (0..c1.len()).filter(|i| c1[*i] != c2[*i]).collect();
    if a == b && changed.is_empty() {
        return trivial("same value", 0);
    }
    if changed.len() != 1 {
        return bad("document", format!("changing the protected {} changes {} encrypted values", PLACES[place].name, changed.len()));
    }
    let (x, y) = (&c1[changed[0]], &c2[changed[0]]);
    if x.len() != a.len() || xor(x, y) != want {
        return bad("document", format!("the protected {} is not encrypted with a stream of its own length", PLACES[place].name));
    }
    good_n("depends on nothing else", digest(&(place, a, b, gz)), 2)
}

fn put_lib(d: &mut Database, place: usize, v: &[u8]) {
    let e: &mut Entry = match place {
        0..=6 => &mut d.root_group.entries[0],
        7 => &mut d.root_group.entries[0].history[0],
        8 | 9 => &mut d.root_group.entries[0].history[1],
        10 => &mut d.root_group.entries[1],
        11 | 12 => &mut d.root_group.groups[0].groups[0].entries[0],
        _ => &mut d.root_group.groups[1].entries[0],
    };
    let k = match place {
        0 | 7 | 10 | 11 => StringKey::Password,
        1 | 13 => StringKey::Title,
        2 => StringKey::Username,
        3 => StringKey::Url,
        4 => StringKey::Notes,
        5 | 9 => StringKey::Other("Custom".into()),
        _ => {
            e.binaries.insert(BinaryKey("b".into()), BinaryValue::Protected(secstr::SecStr::new(v.to_vec())));
            return;
        }
    };
    e.strings.insert(k, StringValue::Protected(secstr::SecStr::new(v.to_vec())));
}

fn value_pairs(place: usize, thorough: bool) -> Vec<(Vec<u8>, Vec<u8>)> {
    let bin = PLACES[place].name.contains("attachment");
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    // every length around the block of the stream, and long ones
    let lens: Vec<usize> = (1..=ctx_len(thorough)).chain([255, 256, 257, 1000, 4096]).collect();
    for n in lens {
        let a: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let b: Vec<u8> = (0..n).map(|i| b'Z' - (i % 26) as u8).collect();
        v.push((a.clone(), b));
        let mut c = a.clone();
        c[n - 1] = b'!';
        v.push((a.clone(), c));
        let mut c = a.clone();
        c[0] = b'<';
        v.push((a, c));
    }
    // single characters
    for c in 0..128u8 {
        v.push((vec![b'q'], vec![c]));
    }
    for (a, b) in [("é", "ü"), ("  ", "ab"), ("\n", "a"), ("\0", "a"), ("]]>", "abc"), ("&amp;", "abcde"), ("True", "true"), ("日本", "本日"), ("\u{10ffff}", "abcd")] {
        v.push((a.as_bytes().to_vec(), b.as_bytes().to_vec()));
    }
    if bin {
        for c in 128..=255u8 {
            v.push((vec![c], vec![b'a']));
        }
        v.push((vec![0; 40], vec![255; 40]));
    }
    v
}
fn ctx_len(thorough: bool) -> usize {
    if thorough {
        200
    } else {
        70
    }
}

// ---------------------------------------------------------------- passwords set, values read

fn set_password(i: u64) -> Res {
    let texts = texts();
    let before = i % 4;
    let t = texts[(i / 4) as usize % texts.len()].clone();
    let mut e = Entry::new();
    match before {
        1 => {
            e.strings.insert(StringKey::Password, StringValue::Plain("was plain".into()));
        }
        2 => {
            e.set_password("was protected");
        }
        3 => {
            e.strings.insert(StringKey::Password, StringValue::new("was plain", false));
            e.set_title("t");
        }
        _ => {}
    }
    e.set_password(t.as_str());
    match e.strings.get(&StringKey::Password) {
        Some(StringValue::Protected(s)) if s.unsecure() == t.as_bytes() => {}
        x => return bad("set_password", format!("setting the password to {:?} stored {:?}", clip(&t), x)),
    }
    match StringValue::new(t.as_str(), true) {
        StringValue::Protected(s) if s.unsecure() == t.as_bytes() => {}
        x => return bad("StringValue::new", format!("{:?} gave {:?}", clip(&t), x)),
    }
    if e.strings.len() != if before == 3 { 2 } else { 1 } {
        return bad("set_password", "setting the password changed other strings");
    }
    good("protected", digest(&(before, t)))
}

/// Key files and composite keys: Debug output.
fn key_debug(i: u64) -> Res {
    let k = sentinel(i).into_bytes();
    let k: Vec<u8> = k.iter().cycle().take(32).copied().collect();
    let mut nd = Needles::new();
    nd.add("the key", &k);
    let pwd = sentinel(i + 50);
    nd.add("the password", pwd.as_bytes());
    nd.add("the hash of the password", &crate::refs::sha::sha256(pwd.as_bytes()));
    let mut shown = vec![];
    for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
        let f = kf(&k, t.clone());
        shown.push(format!("{:?} {:#?}", f, f));
        let mut b = vec![];
        if f.save(&mut b).is_ok() {
            match KeyFile::open(&mut &b[..]) {
                Ok(o) => shown.push(format!("{:?} {:#?}", o, o)),
                Err(e) => return bad("key file", format!("{:?}", e)),
            }
        }
        for c in [CompositeKey::from_password(pwd.as_str()), CompositeKey::from_key_file(f.clone()), CompositeKey::from_both(pwd.as_str(), f)] {
            nd.add("the composite key", &c.clone().unsecure());
            shown.push(format!("{:?} {:#?}", c, c));
            let d = Database::new(&c);
            shown.push(format!("{:?} {:#?}", d, d));
        }
    }
    for s in &shown {
        if let Some(x) = nd.find(s.as_bytes()) {
            return bad("debug", format!("Debug output shows {}: {}", x, clip400(s)));
        }
    }
    for f in [KeyFile::new_binary(), KeyFile::new_hex(), KeyFile::new_xml()].into_iter().flatten() {
        let mut nd = Needles::new();
        nd.add("the generated key", f.key.unsecure());
        if let Some(x) = nd.find(format!("{:?} {:#?}", f, f).as_bytes()) {
            return bad("debug", format!("Debug output shows {}", x));
        }
    }
    // two keys of a size look the same
    let other: Vec<u8> = k.iter().map(|b| b ^ 0x15).collect();
    for t in [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml] {
        let (a, b) = (kf(&k, t.clone()), kf(&other, t));
        if format!("{:?}", a) != format!("{:?}", b) {
            return bad("debug", "Debug output of a key file depends on its key");
        }
        let (a, b) = (CompositeKey::from_key_file(a), CompositeKey::from_key_file(b));
        if format!("{:?}", a) != format!("{:?}", b) {
            return bad("debug", "Debug output of a composite key depends on the key");
        }
    }
    good_n("hidden", digest(&i), 20)
}

// ---------------------------------------------------------------- histories

const OPS: [&str; 12] = ["set password", "copy into history", "reopen", "protect title", "flip protection flags", "add nested entry", "other compression", "protected attachment", "set password of nested entry", "save into a failing sink", "clone", "title set plain"];

fn history(ops: &[usize]) -> Res {
    let (key, ck, mut nd) = creds();
    let mut m = MDb::new(ck);
    m.rounds = 0;
    m.root.entries.push(MEntry::new(uid(1)));
    m.root.fix_parents(NIL);
    let mut d = build(&m, &key);
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut last = vec![];
    for (n, op) in ops.iter().enumerate() {
        let s = sentinel(500 + n as u64);
        match op {
            0 => {
                d.root_group.entries[0].set_password(s.as_str());
                nd.add("a password", s.as_bytes());
                m.root.entries[0].strings.insert(MKey::Password, SVal::Prot(s.into_bytes()));
            }
            1 => {
                let mut h = d.root_group.entries[0].clone();
                h.history.clear();
                h.parent = GroupUuid::nil();
                d.root_group.entries[0].history.push(h);
                let mut h = m.root.entries[0].clone();
                h.history.clear();
                h.parent = NIL;
                m.root.entries[0].history.push(h);
            }
            2 => {
                if !last.is_empty() {
                    d = match open(&last, &key) {
                        Ok(d) => d,
                        Err(e) => return bad("reopen", format!("{:?}", e)),
                    };
                    // what was saved last is the state before this step
                }
            }
            3 => {
                d.root_group.entries[0].strings.insert(StringKey::Title, StringValue::new(s.as_str(), true));
                nd.add("a protected title", s.as_bytes());
                m.root.entries[0].strings.insert(MKey::Title, SVal::Prot(s.into_bytes()));
            }
            4 => {
                for i in 0..5 {
                    m.prot[i] = !m.prot[i];
                }
                d.protect_notes = m.prot[0];
                d.protect_password = m.prot[1];
                d.protect_title = m.prot[2];
                d.protect_url = m.prot[3];
                d.protect_username = m.prot[4];
            }
            5 => {
                let mut g = MGroup::new(uid(40 + n as u32), "nested");
                g.entries.push(MEntry::new(uid(60 + n as u32)).p(MKey::Password, &s));
                nd.add("a nested password", s.as_bytes());
                g.fix_parents(m.root.uuid);
                d.root_group.add_group(build_group(&g));
                m.root.groups.push(g);
            }
            6 => {
                m.gzip = !m.gzip;
                d.compression = if m.gzip { Compression::GZip } else { Compression::None };
            }
            7 => {
                d.root_group.entries[0].binaries.insert(BinaryKey("b".into()), BinaryValue::Protected(secstr::SecStr::from(s.as_str())));
                nd.add("a protected attachment", s.as_bytes());
                m.root.entries[0].binaries.insert("b".into(), BVal::Prot(s.into_bytes()));
            }
            8 => {
                if let Some(g) = m.root.groups.last_mut() {
                    let u = EntryUuid(Uuid::from_bytes(g.entries[0].uuid));
                    if let Some(e) = d.get_entry_mut(u) {
                        e.set_password(s.as_str());
                    }
                    nd.add("a nested password", s.as_bytes());
                    g.entries[0].strings.insert(MKey::Password, SVal::Prot(s.into_bytes()));
                }
            }
            9 => {
                let sc = crate::faultio::Script::base(crate::faultio::Base::Limit(300, crate::faultio::Act::Dead(0)));
                let mut w = crate::faultio::Sink::new(&sc);
                let _ = d.save(&mut w);
                if let Some(x) = nd.find(&w.got) {
                    return bad("in file", format!("the part written before the sink failed shows {}", x));
                }
            }
            10 => d = d.clone(),
            _ => {
                d.root_group.entries[0].set_title("plain title");
                m.root.entries[0].strings.insert(MKey::Title, SVal::Plain("plain title".into()));
            }
        }
        let f = examine(&d, &m, &nd, &[]).map_err(|b| Bad { key: b.key, text: format!("after step {} ({}): {}", n + 1, OPS[*op], b.text) })?;
        // no stream byte is used for two files: the ciphertexts xor the values
        match crate::kdbx::open(&f, &ck) {
            Ok(p) => {
                let k = p.field(8).unwrap_or(&[]).to_vec();
                if let Some(o) = seen.insert(k, n) {
                    return bad("stream reused", format!("the files of steps {} and {} use the same inner stream", o + 1, n + 1));
                }
            }
            Err(e) => return bad("format", e),
        }
        last = f;
    }
    good_n("hidden throughout", digest(&ops), ops.len() as u64 * 3)
}

// ---------------------------------------------------------------- errors

fn error_forms(e: &Error) -> String {
    let mut t = format!("{} {:?} {:#?}", e, e, e);
    let mut c: Option<&dyn std::error::Error> = Some(e);
    while let Some(x) = c {
        t.push_str(&format!(" {} {:?}", x, x));
        c = x.source();
    }
    t
}

/// A document with a protected value at every place, the values, and how it is sealed.
fn secret_document() -> &'static (String, Needles, super::c03::Dialect) {
    static MADE: std::sync::OnceLock<(String, Needles, super::c03::Dialect)> = std::sync::OnceLock::new();
    MADE.get_or_init(|| {
        let (_, ck, mut nd) = creds();
        let mut m = bare(ck);
        for (i, p) in PLACES.iter().enumerate() {
            let s = sentinel(i as u64);
            (p.put)(&mut m, 2, s.as_bytes());
            nd.add(p.name, s.as_bytes());
        }
        let mut d = super::c03::dialect(ck);
        d.params.gzip = false;
        d.params.rounds = 0;
        d.style.pool = 4;
        let t = crate::xmlmodel::serialise(&super::c03::tree_of(&m, &d), &d.text, d.params.salsa());
        (t, nd, d)
    })
}
const SUBST: [&str; 9] = ["", "<", ">", "&", "\"", " ", "=", "A", "\u{1}"];

fn broken_document(i: u64) -> Res {
    let (t, nd, d) = secret_document();
    let k = SUBST.len() as u64 + 1;
    let p = (i / k) as usize;
    let x = match SUBST.get((i % k) as usize) {
        Some(x) => format!("{}{}{}", &t[..p], x, &t[p + 1..]),
        None => t[..p].to_string(),
    };
    match open(&super::c03::file_of_text(&x, d), &CompositeKey::from_both(PW, kf(sentinel(900).as_bytes(), KeyFileType::Xml))) {
        Ok(_) => trivial("opens all the same", digest(&i)),
        Err(e) => match nd.find(error_forms(&e).as_bytes()) {
            Some(x) => bad("error", format!("the error shows {}", x)),
            None => good(&format!("{:?}", e).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(), digest(&i)),
        },
    }
}

/// One protected value that is not text: opening and saving are refused, and say nothing about it.
fn not_text(i: u64) -> Res {
    const BAD: [&[u8]; 6] = [&[0xff], &[0x80], &[0xc3], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0x80]];
    let (key, ck, mut nd) = creds();
    let mut m = bare(ck);
    for (j, p) in PLACES.iter().enumerate() {
        let mut s = sentinel(j as u64).into_bytes();
        nd.add(p.name, &s);
        if j as u64 == i / 6 / 21 {
            let at = (i / 6 % 21) as usize;
            s.splice(at..at, BAD[(i % 6) as usize].iter().copied());
        }
        (p.put)(&mut m, 2, &s);
    }
    let mut shown = vec![];
    let mut d = super::c03::dialect(ck);
    d.params.gzip = i % 2 == 0;
    if let Err(e) = open(&super::c03::file_of(&m, &d), &key) {
        shown.push(("opening", error_forms(&e)));
    }
    let db = build(&m, &key);
    if let Err(e) = save(&db) {
        shown.push(("saving", error_forms(&e)));
    }
    for (n, t) in debug_forms(&db) {
        if let Some(x) = nd.find(t.as_bytes()) {
            return bad("debug", format!("{} shows {}", n, x));
        }
    }
    for (n, t) in &shown {
        if let Some(x) = nd.find(t.as_bytes()) {
            return bad("error", format!("the error of {} shows {}", n, x));
        }
    }
    if shown.is_empty() {
        return good("attachment", digest(&i));
    }
    good_n("refused", digest(&i), 2)
}

/// Key files that are refused.
fn broken_key_file(i: u64) -> Res {
    let k = sentinel(300).into_bytes();
    let k: Vec<u8> = k.iter().cycle().take(32).copied().collect();
    let mut nd = Needles::new();
    nd.add("the key", &k);
    let t = match i % 2 {
        0 => format!("<?xml version=\"1.0\" encoding=\"utf-8\"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>{}</Data></Key></KeyFile>", b64::enc(&k)),
        _ => b64::hex(&k),
    };
    let n = SUBST.len() as u64 + 1;
    let p = (i / 2 / n) as usize;
    if p >= t.len() {
        return trivial("beyond the end", i);
    }
    let x = match SUBST.get((i / 2 % n) as usize) {
        // 64 characters, or it would be a document
        Some(x) if i % 2 == 1 => format!("{}{}{}", &t[..p], if x.is_empty() { "g" } else { x }, &t[p + 1..]),
        Some(x) => format!("{}{}{}", &t[..p], x, &t[p + 1..]),
        None => t[..p].to_string(),
    };
    match KeyFile::open(&mut x.as_bytes()) {
        Ok(f) => match nd.find(format!("{:?} {:#?}", f, f).as_bytes()) {
            Some(x) => bad("debug", format!("Debug output shows {}", x)),
            None => trivial("opens all the same", digest(&x)),
        },
        Err(e) => match nd.find(error_forms(&e).as_bytes()) {
            Some(x) => bad("error", format!("the error shows {}", x)),
            None => good("refused", digest(&x)),
        },
    }
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    {
        let n = secret_document().0.len() as u64;
        let k = SUBST.len() as u64 + 1;
        v.push(
            Space::new(
                "errors of documents",
                "a document with a protected value at every place, cut at every character, and every character replaced by nothing, <, >, &, a quote, a space, =, A and a control character: the error shows no protected value",
                n * k,
                broken_document,
                move |i| format!("character {}: {:?}", i / k, SUBST.get((i % k) as usize).unwrap_or(&"cut")),
            )
            .into(),
        );
        v.push(Space::new("errors of values", "a protected value at every place with bytes that are not UTF-8 at every position: errors of opening and of saving", PLACES.len() as u64 * 6 * 21, not_text, |i| format!("{} at {} bytes {}", PLACES[(i / 126) as usize].name, i / 6 % 21, i % 6)).into());
        v.push(Space::new("errors of key files", "XML and hexadecimal key files cut and changed at every character", 2 * k * 170, broken_key_file, |i| format!("case {}", i)).into());
    }
    // every assignment of {absent, plain, protected} to the places: all of them for eight at a time
    let sets: [&'static [usize]; 2] = [&[0, 1, 5, 6, 7, 10, 11], &[0, 2, 4, 8, 9, 12, 13]];
    for (k, set) in sets.into_iter().enumerate() {
        let n = 3u64.pow(set.len() as u32) * 2;
        let of = move |i: u64| {
            let mut a = vec![0u8; PLACES.len()];
            for (j, p) in set.iter().enumerate() {
                a[*p] = (i / 2 / 3u64.pow(j as u32) % 3) as u8;
            }
            a
        };
        v.push(
            Space::new(
                &format!("places {}", k),
                "every assignment of absent, plain or protected to seven places in entries, history and nested groups, both compressions",
                n,
                move |i| places(&of(i), i % 2 == 0),
                move |i| format!("{:?} gzip {}", PLACES.iter().zip(of(i)).filter(|x| x.1 > 0).map(|x| (x.0.name, if x.1 == 2 { "protected" } else { "plain" })).collect::<Vec<_>>(), i % 2 == 0),
            )
            .into(),
        );
    }
    // every name at every place
    let keys = Arc::new(string_keys());
    let nk = keys.len() as u64 + 1;
    let np = ENTRY_PLACES.len() as u64;
    {
        let (k1, k2) = (keys.clone(), keys.clone());
        v.push(
            Space::new(
                "names",
                "a plain or protected value (one alone, short, long, not ASCII) under every standard and several other names, and as attachment, at every place of the tree and of histories; in a recycle bin or not, expired or not, with all protection flags or none, both compressions",
                np * nk * 2 * 3 * 16,
                move |i| {
                    let c = i % 16;
                    let shape = i / 16 % 3;
                    let prot = i / 48 % 2 == 1;
                    name_at(&[((i / 96 / nk % np) as usize, k1.get((i / 96 % nk) as usize).cloned(), prot, shape)], c)
                },
                move |i| format!("{}: {:?} protected={} shape {} context {}", ENTRY_PLACES[(i / 96 / nk % np) as usize], k2.get((i / 96 % nk) as usize), i / 48 % 2 == 1, i / 16 % 3, i % 16),
            )
            .into(),
        );
    }
    {
        // two of them; the quick run with the standard names and one other
        let few: Arc<Vec<(usize, Option<MKey>)>> = Arc::new((0..ENTRY_PLACES.len()).flat_map(|p| keys.iter().take(if ctx.thorough() { 99 } else { 7 }).cloned().map(Some).chain([None]).map(move |k| (p, k))).collect());
        let n = few.len() as u64;
        let f2 = few.clone();
        v.push(
            Space::new(
                "two names",
                "a protected value at one place with a plain or protected value at another, for all pairs of places and names",
                n * n * 2,
                move |i| {
                    let (a, b) = ((i / 2 % n) as usize, (i / 2 / n) as usize);
                    if a == b {
                        return trivial("same", i);
                    }
                    name_at(&[(few[a].0, few[a].1.clone(), true, 0), (few[b].0, few[b].1.clone(), i % 2 == 1, 0)], (a + b) as u64 % 16)
                },
                move |i| format!("{:?}; then {:?} protected={}", f2[(i / 2 % n) as usize], f2[(i / 2 / n) as usize], i % 2 == 1),
            )
            .into(),
        );
    }
    {
        let mut lens: Vec<usize> = (0..34).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32768, 65535, 65536, 65537, 100_000, 131_073]).collect();
        if ctx.thorough() {
            lens.extend(66..400);
            lens.extend([1 << 20, (1 << 20) + 1]);
        }
        let l2 = lens.clone();
        let n = PLACES.len() as u64;
        v.push(
            Space::new(
                "lengths",
                "a protected value of every length around the usual limits at every place, both compressions",
                lens.len() as u64 * n * 2,
                move |i| long_value((i / 2 % n) as usize, lens[(i / 2 / n) as usize], i % 2 == 0),
                move |i| format!("{} of {} bytes", PLACES[(i / 2 % n) as usize].name, l2[(i / 2 / n) as usize]),
            )
            .into(),
        );
        let mut counts: Vec<u64> = vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 21, 24, 25, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 513, 1000, 1025];
        if ctx.thorough() {
            counts = (1..300).chain([500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]).collect();
        }
        let c2 = counts.clone();
        v.push(
            Space::new(
                "counts",
                "many protected strings, attachments, history items, entries, groups side by side, groups nested: every number around the usual limits",
                counts.len() as u64 * 6,
                move |i| many_values((i % 6) as u8, counts[(i / 6) as usize]),
                move |i| format!("{} protected values, kind {}", c2[(i / 6) as usize], i % 6),
            )
            .into(),
        );
    }
    // memory-protection flags of the database against the marks of the values
    v.push(
        Space::new(
            "flags",
            "every set of the database's protection flags with every set of protected standard strings",
            1024 * 2,
            |i| {
                let (key, ck, mut nd) = creds();
                let mut m = bare(ck);
                m.gzip = i & 1 == 1;
                for j in 0..5 {
                    m.prot[j] = i >> (1 + j) & 1 == 1;
                    let s = sentinel(j as u64);
                    let p = i >> (6 + j) & 1 == 1;
                    (PLACES[j].put)(&mut m, if p { 2 } else { 1 }, s.as_bytes());
                    if p {
                        nd.add(PLACES[j].name, s.as_bytes());
                    }
                }
                examine(&build(&m, &key), &m, &nd, &[])?;
                good_n("hidden", digest(&i), 3)
            },
            |i| format!("flags {:05b} protected {:05b} gzip {}", i >> 1 & 31, i >> 6 & 31, i & 1),
        )
        .into(),
    );
    // values
    let pairs: Arc<Vec<(usize, Vec<u8>, Vec<u8>)>> = Arc::new((0..PLACES.len()).flat_map(|p| value_pairs(p, ctx.thorough()).into_iter().map(move |(a, b)| (p, a, b))).collect());
    let (p1, p2) = (pairs.clone(), pairs.clone());
    v.push(
        Space::new(
            "values",
            "pairs of values of one size (every size to 70, thorough 200; every ASCII character) at every place: nothing the library shows or writes may differ but the encrypted bytes of that value",
            pairs.len() as u64 * 2,
            move |i| {
                let (p, a, b) = &p1[(i / 2) as usize];
                interference(*p, a, b, i % 2 == 0)
            },
            move |i| {
                let (p, a, b) = &p2[(i / 2) as usize];
                format!("{}: {:?} and {:?}, gzip {}", PLACES[*p].name, clip(&String::from_utf8_lossy(a)), clip(&String::from_utf8_lossy(b)), i % 2 == 0)
            },
        )
        .into(),
    );
    v.push(Space::new("setting passwords", "every text over every earlier state of the password", texts().len() as u64 * 4, set_password, |i| format!("text {} over state {}", i / 4, i % 4)).into());
    v.push(Space::new("keys", "Debug output of key files, composite keys and new databases", 200, key_debug, |i| format!("key {}", i)).into());
    let k = OPS.len() as u64;
    for len in 1..=ctx.q(3u32, 4) {
        let ops = move |i: u64| (0..len).map(|j| (i / k.pow(j) % k) as usize).collect::<Vec<_>>();
        v.push(
            Space::new(
                &format!("histories of {}", len),
                "every history of edits, saves, reopens and clones; everything shown or written after each step searched",
                k.pow(len),
                move |i| history(&ops(i)),
                move |i| ops(i).iter().map(|o| OPS[*o]).collect::<Vec<_>>().join("; "),
            )
            .into(),
        );
    }
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C11",
        level: "exploration",
        rule: "every assignment, value pair and history of the listed spaces; searched for every eight-byte piece of every protected value in eleven encodings, and compared between values of one size; non-trivial: a distinct assignment, pair or history",
        items,
        assumptions: &["an encoded leak is in one of the eleven forms searched, or shows as a difference between two values of one size", "the length of a protected value is not a secret"],
    }
}
