//! Documents inside an intact container that need not be sound: refused, or read in full.
use super::c03::{dialect, file_of_text, tree_of, Dialect};
use crate::docread::{self, Verdict};
use crate::engine::*;
use crate::kdbx;
use crate::lk::*;
use crate::model::*;
use crate::xmlmodel::{self, Tx, X};
use std::sync::Arc;

/// Opens a file with this document and compares with what the second reader says of it.
fn judge(doc: &[u8], file: &[u8], d: &Dialect, key: &kpdb::CompositeKey, must_open: bool) -> Res {
    let got = open(file, key).map(|g| of(&g));
    let h = digest(&doc);
    match (docread::read(doc, &d.params, got.as_ref().ok()), got) {
        (Verdict::Open(t), _) => { if std::env::var("DBG").is_ok() { eprintln!("OPEN {}", t); } trivial("left open", h) }
        (Verdict::Defect(t), Ok(_)) => bad("opens", format!("a document with a defect ({}) opens", t)),
        (Verdict::Defect(t), Err(_)) => good(if t.starts_with("ill-formed") { "ill-formed, refused" } else { "defect, refused" }, h),
        (Verdict::Sound(_), Err(e)) if must_open => bad("refused", format!("a sound document is refused: {:?}", e)),
        (Verdict::Sound(_), Err(_)) => good("sound, refused", h),
        (Verdict::Sound(w), Ok(g)) => match diff(&w, &g) {
            None => good("sound, read in full", h),
            Some(x) => bad("content", format!("the document is read otherwise than it is written: {}", x)),
        },
    }
}

fn judge_text(s: &str, d: &Dialect, key: &kpdb::CompositeKey, must_open: bool) -> Res {
    judge(s.as_bytes(), &file_of_text(s, d), d, key, must_open)
}

/// One of everything, as little of it as possible.
pub fn little() -> MDb {
    let mut m = MDb::new([0; 32]);
    m.name = "N".into();
    m.rounds = 0;
    m.color = Some([1, 2, 0xab]);
    m.binaries.insert("0".into(), b"pool".to_vec());
    m.binaries.insert("1".into(), b"second".to_vec());
    m.custom_data.insert("k".into(), "v".into());
    m.custom_icons.insert(uid(900), vec![1, 2]);
    let mut e = MEntry::new(uid(5)).s(MKey::Title, "T").p(MKey::Password, "pw").p(MKey::Other("x".into()), "zwölf");
    e.fg = Some([9, 8, 7]);
    e.custom_icon = Some(uid(900));
    e.assoc.push(("s".into(), "w".into()));
    e.tags = "t".into();
    let mut h = e.clone();
    h.strings.insert(MKey::Password, SVal::Prot(b"old".to_vec()));
    e.binaries.insert("p".into(), BVal::Prot(b"secret".to_vec()));
    e.binaries.insert("r".into(), BVal::Ref("0".into()));
    e.binaries.insert("u".into(), BVal::Plain(b"plain".to_vec()));
    e.history = vec![h];
    m.root.entries.push(e);
    let mut g = MGroup::new(uid(7), "sub");
    g.enable_searching = Some(false);
    g.entries.push(MEntry::new(uid(8)).p(MKey::Password, "last"));
    m.root.groups.push(g);
    m.root.fix_parents(NIL);
    m
}

fn plain(ck: [u8; 32], m: &MDb) -> Dialect {
    let mut d = dialect(ck);
    d.params.gzip = false;
    d.params.version_of(m);
    d.params.rounds = 0;
    d.style.pool = 5;
    d.style.inline = 1;
    d
}

fn text_of(m: &MDb, d: &Dialect) -> String {
    xmlmodel::serialise(&tree_of(m, d), &d.text, d.params.salsa())
}
fn put(x: &X, d: &Dialect) -> String {
    xmlmodel::serialise(x, &d.text, d.params.salsa())
}

fn names(x: &X, v: &mut Vec<String>) {
    if !v.contains(&x.name) {
        v.push(x.name.clone());
    }
    x.kids.iter().for_each(|k| names(k, v));
}

/// Calls f with the children that hold element n (not the root) and its place among them.
fn at(x: &mut X, n: &mut usize, f: &mut dyn FnMut(&mut Vec<X>, usize)) -> bool {
    for i in 0..x.kids.len() {
        if *n == 0 {
            f(&mut x.kids, i);
            return true;
        }
        *n -= 1;
        if at(&mut x.kids[i], n, f) {
            return true;
        }
    }
    false
}

const EDITS: u64 = 9;
fn edit(x: &mut X, n: usize, how: u64) {
    let mut n = n;
    at(x, &mut n, &mut |v, i| match how {
        0 => {
            v.remove(i);
        }
        1 => {
            let k = v[i].clone();
            v.insert(i, k);
        }
        2 if i + 1 < v.len() => v.swap(i, i + 1),
        // its children take its place
        3 => {
            let k = v.remove(i);
            for (j, c) in k.kids.into_iter().enumerate() {
                v.insert(i + j, c);
            }
        }
        4 => {
            let k = v.remove(i);
            v.insert(i, xmlmodel::el("Unknown", vec![k]));
        }
        5 => {
            let k = v[i].clone();
            v[i].kids.push(k);
        }
        // into the element before it
        6 if i > 0 => {
            let k = v.remove(i);
            v[i - 1].kids.push(k);
        }
        7 => {
            v[i].kids.clear();
            v[i].text = Tx::None;
        }
        8 => v[i].attrs.clear(),
        _ => {}
    });
}

fn value_pool() -> Vec<String> {
    let mut v: Vec<String> = [
        // booleans
        "True", "False", "true", "false", "TRUE", "FALSE", "tRuE", "null", "Null", "NULL", "yes", "no", "1", "0", "T", "on", "Truee", "Tru", "True False", "nul", "none", " True ", "\n\tfalse\n",
        // numbers
        "-1", "-0", "00", "007", "+1", "2", "68", "69", "70", "100", "255", "256", "65535", "65536", "65537", "65604", "2147483647", "2147483648", "4294967295", "4294967296", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "99999999999999999999999",
        "1.0", "1e3", "0x10", "1 0", "1,000", "1_0", "_1", "1_", "1'000", "1e1", "0b1", "0o7", "1f", "1i32", "1.", ".1", "٣", "--1", "-", "+", "1-", " 12 ", "१", "１", "NaN", "inf",
        // times
        "2016-02-29T12:00:00Z", "2015-02-29T12:00:00Z", "2016-02-30T12:00:00Z", "2016-04-31T00:00:00Z", "2016-00-10T00:00:00Z", "2016-13-10T00:00:00Z", "2016-01-00T00:00:00Z", "2016-01-32T00:00:00Z", "2016-01-10T24:00:00Z", "2016-01-10T23:60:00Z", "2016-01-10T23:59:61Z",
        "2016-01-10T23:59:59Z", "2016-01-10T23:59:59", "2016-01-10", "23:59:59", "2016-01-10T23:59Z", "2016-01-10T23:59:59.5Z", "2016-01-10T23:59:59.123456789Z", "2016-01-10T23:59:59+00:00", "2016-01-10T23:59:59+01:30", "2016-01-10 23:59:59Z", "16-01-10T23:59:59Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z",
        "10000-01-01T00:00:00Z", "2016-01-10T23:59:59ZZ", "x2016-01-10T23:59:59Z", "2016-01-10T23:59:59Q", "10/01/2016", "1452470399", "AAAAAAAAAAA=", "2016-1-1T1:1:1Z", "2016-01-10T23:59:60Z", " 2016-01-10T23:59:59Z ",
        // identifiers and bytes
        "AAAAAAAAAAAAAAAAAAAAAQ==", "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAQ=", "AAAAAAAAAAAAAAAAAAAAAQ", "AAAAAAAAAAAAAAAAAAAAAQ===", "AAAAAAAAAAAAAAAAAAAAAR==", "AAAAAAAAAAAAAAAAAAAA AQ==", "AAAA\nAAAAAAAAAAAAAAAAAQ==", "AAAAAAAA*AAAAAAAAAAAAQ==", "AAAAAAAAAAAAAAAA==AAAAAQ==", "AAAAAAAAAAAAAAAAAAAA-_==", "00000000-0000-0000-0000-000000000001", "{00000000-0000-0000-0000-000000000001}", "00000000000000000000000000000001", "AAAA", "AAA", "AA==", "A===", "=", "====", "QQ==QQ==", "AAAA====", "AAAAAAAAAAAAAAAAAAAAAQ==AAAAAAAAAAAAAAAAAAAAAQ==",
        // colours
        "#000000", "#FFFFFF", "#ffffff", "#FfA01b", "#12345", "#1234567", "123456", "#12345g", "#+12345", "##12345", "# 12345", "#123 456", "red", "#fff", "#1234éé", "rgb(1,2,3)", " #102030 ",
        // texts
        "", " ", "\n", "\t \n", "text", "<", "]]>", "&amp;", "é", "\u{a0}", "\u{3000}1", "\u{feff}1", "Title", "title", "URL", "Url", "0x", "a:b",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    // compressed values: whole, cut, damaged
    let z = kdbx::gzip(b"other content");
    let e = crate::refs::b64::enc;
    v.push(e(&z));
    v.push(e(&z[..z.len() - 1]));
    v.push(e(&z[..z.len() - 8]));
    v.push(e(&z[..10]));
    let mut w = z.clone();
    let n = w.len();
    w[n - 1] ^= 1;
    v.push(e(&w));
    w[n - 1] ^= 1;
    w[n - 6] ^= 0x80;
    v.push(e(&w));
    v
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let (key, ck) = pw("c22");
    let key = Arc::new(key);
    let mut v: Vec<Item> = vec![];
    let mut rich_ = rich([0; 32]);
    rich_.rounds = 0;
    let docs: Arc<Vec<(&'static str, MDb, Dialect, String)>> = Arc::new(
        [("one of everything", little()), ("every field set", rich_)]
            .into_iter()
            .flat_map(|(n, m)| {
                (0..2).map(move |w| {
                    let mut d = plain(ck, &m);
                    if w == 1 {
                        d.text.indent = 0;
                        d.text.escape = 3;
                        d.text.self_close = false;
                        d.style.hash = false;
                        d.style.child_order = 1;
                    }
                    let t = text_of(&m, &d);
                    (n, m.clone(), d, t)
                })
            })
            .collect(),
    );
    // what is there ends early
    let ends: Arc<Vec<(usize, usize, bool)>> = Arc::new((0..docs.len()).flat_map(|k| (0..=docs[k].3.len()).flat_map(move |n| [(k, n, false), (k, n, true)])).filter(|(k, n, gz)| !gz || n % 7 == 0 || *k < 2).collect());
    let (a, e1, e2, k1) = (docs.clone(), ends.clone(), ends.clone(), key.clone());
    v.push(
        Space::new(
            "ends early",
            "four documents cut after every byte, each in an otherwise intact file, not compressed and compressed",
            ends.len() as u64,
            move |i| {
                let (k, n, gz) = e1[i as usize];
                let (_, _, d, t) = &a[k];
                let mut d = d.clone();
                d.params.gzip = gz;
                // the header hash is the other header's then
                let t = if gz { text_of(&a[k].1, &d) } else { t.clone() };
                let b = &t.as_bytes()[..n.min(t.len())];
                let z = if gz { kdbx::gzip(b) } else { b.to_vec() };
                let blocks: Vec<Vec<u8>> = if z.is_empty() { vec![] } else { vec![z] };
                judge(b, &d.params.seal(&kdbx::stream(&blocks)), &d, &k1, true)
            },
            move |i| format!("document {}, cut after {} bytes, gzip {}", e2[i as usize].0, e2[i as usize].1, e2[i as usize].2),
        )
        .into(),
    );
    // one character
    const SIGNS: [&str; 30] = ["<", ">", "/", "&", "\"", "'", "=", " ", "!", "?", "-", "]", ";", "#", "\0", "\u{1}", "\u{fffe}", "\r", "A", "z", "0", "9", "+", "é", "<!--", "-->", "]]>", "&bogus;", "&#0;", "<x>"];
    let nd = ctx.q(1, docs.len());
    let chars: Arc<Vec<(usize, usize)>> = Arc::new((0..nd).flat_map(|k| docs[k].3.char_indices().map(move |(p, _)| (k, p)).collect::<Vec<_>>()).collect());
    let per = 2 * SIGNS.len() as u64 + 3;
    let change = |t: &str, p: usize, how: u64| -> String {
        let c = t[p..].chars().next().unwrap_or(' ');
        let (a, b) = (&t[..p], &t[p + c.len_utf8().min(t.len() - p)..]);
        let n = SIGNS.len() as u64;
        match how {
            0 => format!("{}{}", a, b),
            1 => format!("{}{}{}{}", a, c, c, b),
            2 => format!("{}{}{}", a, if c.is_lowercase() { c.to_uppercase().to_string() } else { c.to_lowercase().to_string() }, b),
            h if h < 3 + n => format!("{}{}{}", a, SIGNS[(h - 3) as usize], b),
            h => format!("{}{}{}{}", a, SIGNS[(h - 3 - n) as usize], c, b),
        }
    };
    let (a, c1, c2, k1) = (docs.clone(), chars.clone(), chars.clone(), key.clone());
    v.push(
        Space::new(
            "one character",
            "every character of a document (thorough: of four) left out, doubled, put in the other case, and replaced by and preceded by each of 30 signs and fragments",
            chars.len() as u64 * per,
            move |i| {
                let (k, p) = c1[(i / per) as usize];
                let (_, _, d, t) = &a[k];
                let s = change(t, p, i % per);
                if p < t.find("?>").map_or(0, |x| x + 2) {
                    return trivial("declaration", digest(&s));
                }
                judge_text(&s, d, &k1, true)
            },
            move |i| format!("document {}, byte {}, change {}", c2[(i / per) as usize].0, c2[(i / per) as usize].1, i % per),
        )
        .into(),
    );
    // elements
    let trees: Arc<Vec<(X, Dialect)>> = Arc::new(docs.iter().map(|(_, m, d, _)| (tree_of(m, d), d.clone())).collect());
    let mut ns: Vec<String> = vec![];
    trees.iter().for_each(|t| names(&t.0, &mut ns));
    ns.extend(["Unknown".to_string(), "value".to_string(), "KEY".to_string(), "kpgroup".to_string(), "GROUP".to_string()]);
    let ns = Arc::new(ns);
    let which: &[usize] = ctx.q(&[0], &[0, 2]);
    let elems: Arc<Vec<(usize, usize)>> = Arc::new(which.iter().flat_map(|&k| (0..trees[k].0.count() - 1).map(move |n| (k, n))).collect());
    let per = EDITS + ns.len() as u64;
    let (a, n1, n2, e1, e2, k1) = (trees.clone(), ns.clone(), ns.clone(), elems.clone(), elems.clone(), key.clone());
    v.push(
        Space::new(
            "one element",
            "every element of a document (thorough: of two) removed, doubled, moved, unwrapped, wrapped, nested, emptied, stripped of its attributes, and given every other name",
            elems.len() as u64 * per,
            move |i| {
                let (k, n) = e1[(i / per) as usize];
                let (mut x, d) = a[k].clone();
                let how = i % per;
                if how < EDITS {
                    edit(&mut x, n, how);
                } else {
                    x.nth_mut(&mut (n + 1)).unwrap().name = n1[(how - EDITS) as usize].clone();
                }
                judge_text(&put(&x, &d), &d, &k1, true)
            },
            move |i| {
                let how = i % per;
                format!("document and element {:?}: {}", e2[(i / per) as usize], if how < EDITS { format!("edit {}", how) } else { n2[(how - EDITS) as usize].clone() })
            },
        )
        .into(),
    );
    // pairs of edits
    let pk = 0usize;
    let cnt = (trees[pk].0.count() - 1) as u64;
    let kinds: Vec<u64> = ctx.q(vec![0, 1, 3], vec![0, 1, 2, 3, 5, 6, 7]);
    let nk = kinds.len() as u64;
    let (a, k1) = (trees.clone(), key.clone());
    v.push(
        Space::new(
            "two elements",
            "every pair of elements of a document removed, doubled or unwrapped (thorough: also moved, nested, emptied)",
            cnt * nk * cnt * nk,
            move |i| {
                let (mut x, d) = a[pk].clone();
                let (p, q) = (i / (cnt * nk), i % (cnt * nk));
                if p / nk < q / nk {
                    return trivial("the same pair", 0);
                }
                edit(&mut x, (p / nk) as usize, kinds[(p % nk) as usize]);
                edit(&mut x, (q / nk) as usize, kinds[(q % nk) as usize]);
                judge_text(&put(&x, &d), &d, &k1, true)
            },
            move |i| format!("elements and edits {:?}", [i / (cnt * nk), i % (cnt * nk)].map(|p| (p / nk, p % nk))),
        )
        .into(),
    );
    // values
    let pool = Arc::new(value_pool());
    let slots: Arc<Vec<(usize, usize)>> = Arc::new(
        which
            .iter()
            .flat_map(|&k| {
                let mut x = trees[k].0.clone();
                (0..x.count()).filter(move |n| x.nth_mut(&mut n.clone()).map_or(false, |e| e.kids.is_empty())).map(move |n| (k, n)).collect::<Vec<_>>()
            })
            .collect(),
    );
    let np = pool.len() as u64 * 3;
    let (a, p1, p2, s1, s2, k1) = (trees.clone(), pool.clone(), pool.clone(), slots.clone(), slots.clone(), key.clone());
    v.push(
        Space::new(
            "values",
            "every value of a document (thorough: of two) replaced by each of a list of valid and invalid booleans, numbers, times, identifiers, base64, colours and texts: as text, as CDATA, and without its attributes",
            slots.len() as u64 * np,
            move |i| {
                let (k, n) = s1[(i / np) as usize];
                let (mut x, mut d) = a[k].clone();
                let val = &p1[(i % np / 3) as usize];
                let e = x.nth_mut(&mut { n }).unwrap();
                e.text = if val.is_empty() { Tx::None } else { Tx::Str(val.clone()) };
                match i % 3 {
                    1 => d.text.escape = 3,
                    2 => e.attrs.clear(),
                    _ => {}
                }
                let s = put(&x, &d);
                judge_text(&s, &d, &k1, true)
            },
            move |i| format!("document and element {:?}: {:?}, form {}", s2[(i / np) as usize], p2[(i % np / 3) as usize], i % 3),
        )
        .into(),
    );
    // attributes
    const NAMES: [&str; 9] = ["Protected", "protected", "PROTECTED", "Compressed", "ProtectInMemory", "Ref", "ID", "id", "Unknown"];
    const VALS: [&str; 14] = ["True", "true", "TRUE", "False", "", "1", "yes", " True", "null", "0", "Tru", "True ", "Falsee", "T"];
    let all: Arc<Vec<(usize, usize)>> = Arc::new(which.iter().flat_map(|&k| (0..trees[k].0.count()).map(move |n| (k, n))).collect());
    let per = (NAMES.len() * VALS.len()) as u64;
    let (a, s1, s2, k1) = (trees.clone(), all.clone(), all.clone(), key.clone());
    v.push(
        Space::new(
            "attributes",
            "every element of a document (thorough: of two) given every attribute of the format, in several cases, with each of 14 values",
            all.len() as u64 * per,
            move |i| {
                let (k, n) = s1[(i / per) as usize];
                let (mut x, d) = a[k].clone();
                let (nm, val) = (NAMES[(i % per) as usize / VALS.len()], VALS[(i % per) as usize % VALS.len()]);
                let e = x.nth_mut(&mut { n }).unwrap();
                e.attrs.retain(|a| a.0 != nm);
                e.attrs.push((nm.into(), val.into()));
                judge_text(&put(&x, &d), &d, &k1, true)
            },
            move |i| format!("document and element {:?}: {}={:?}", s2[(i / per) as usize], NAMES[(i % per) as usize / VALS.len()], VALS[(i % per) as usize % VALS.len()]),
        )
        .into(),
    );
    // damaged compression: of the document and of an attachment
    let t0 = {
        let mut d = docs[0].2.clone();
        d.params.gzip = true;
        text_of(&docs[0].1, &d)
    };
    let zs: Arc<Vec<Vec<u8>>> = Arc::new(vec![kdbx::gzip(t0.as_bytes()), kdbx::gzip_stored(t0.as_bytes(), None), kdbx::gzip_stored(t0.as_bytes(), Some("a.xml")), kdbx::gzip(b"pool of some bytes, some bytes"), kdbx::gzip_stored(b"pool", None)]);
    let muts: Arc<Vec<(usize, usize, u8)>> = Arc::new(zs.iter().enumerate().flat_map(|(k, z)| (0..z.len()).flat_map(move |p| (0..10u8).map(move |h| (k, p, h)))).collect());
    let (z1, m1, m2, dd, k1) = (zs.clone(), muts.clone(), muts.clone(), docs.clone(), key.clone());
    v.push(
        Space::new(
            "damaged compression",
            "the compressed document and compressed attachments with every bit changed, cut after every byte, every byte left out",
            muts.len() as u64,
            move |i| {
                let (k, p, h) = m1[i as usize];
                let mut z = z1[k].clone();
                match h {
                    8 => z.truncate(p),
                    9 => {
                        z.remove(p);
                    }
                    b => z[p] ^= 1 << b,
                }
                let verdict = docread::gzip_verdict(&z);
                if k < 3 {
                    let mut d = dd[0].2.clone();
                    d.params.gzip = true;
                    let f = d.params.seal(&kdbx::stream(&if z.is_empty() { vec![] } else { vec![z.clone()] }));
                    return match (verdict, open(&f, &k1).map(|g| of(&g))) {
                        (Some(false), Ok(_)) => bad("opens", "a document whose compression is damaged opens"),
                        (Some(false), Err(_)) => good("damaged, refused", digest(&z)),
                        (None, _) => trivial("left open", digest(&z)),
                        (Some(true), g) => {
                            let t = kdbx::gunzip(&z).unwrap_or_default();
                            match (docread::read(&t, &d.params, g.as_ref().ok()), g) {
                                (Verdict::Sound(w), Ok(g)) => match diff(&w, &g) {
                                    None => good("sound, read in full", digest(&z)),
                                    Some(x) => bad("content", x),
                                },
                                (Verdict::Defect(t), Ok(_)) => bad("opens", t),
                                (_, g) => good(if g.is_ok() { "opens" } else { "refused" }, digest(&z)),
                            }
                        }
                    };
                }
                let (mut x, d) = (tree_of(&dd[0].1, &dd[0].2), dd[0].2.clone());
                // the second attachment of the pool is the compressed one
                let mut n = 0;
                while x.nth_mut(&mut { n }).map_or(false, |e| e.name != "Binaries") {
                    n += 1;
                }
                let Some(b) = x.nth_mut(&mut n) else { return trivial("no pool", 0) };
                for e in &mut b.kids {
                    if e.attrs.iter().any(|a| a.0 == "Compressed") {
                        e.text = Tx::Str(crate::refs::b64::enc(&z));
                    }
                }
                judge_text(&put(&x, &d), &d, &k1, true)
            },
            move |i| format!("stream {}, byte {}, change {}", m2[i as usize].0, m2[i as usize].1, m2[i as usize].2),
        )
        .into(),
    );
    // unknown elements nested so deeply that they may be refused, but not misread
    let depths: Vec<usize> = ctx.q(vec![3, 100, 256, 257, 998, 999, 1000, 1001, 1002, 1003, 1500], (2..1010).step_by(9).chain(990..1012).chain([1023, 1024, 1025, 2000]).collect());
    let nests = depths.len() as u64;
    let count = trees[0].0.count() as u64;
    let (a, d1, d2, k1) = (trees.clone(), Arc::new(depths.clone()), depths, key.clone());
    v.push(
        Space::new(
            "deep unknown elements",
            "in every element of a document, unknown elements nested to depths around every limit, with every known element inside: refused, or read as if they were not there",
            count * nests,
            move |i| {
                let (n, depth) = ((i / nests) as usize, d1[(i % nests) as usize]);
                let (mut x, d) = a[0].clone();
                let mut deep = xmlmodel::unknown_elem(3);
                for _ in 1..depth {
                    deep = xmlmodel::el("Unknown", vec![deep]);
                }
                let e = x.nth_mut(&mut { n }).unwrap();
                e.kids.insert(0, deep);
                judge_text(&put(&x, &d), &d, &k1, depth < 900)
            },
            move |i| format!("element {}, depth {}", i / nests, d2[(i % nests) as usize]),
        )
        .into(),
    );
    // decrypted values that are no text
    const ILL: [&[u8]; 14] = [b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x92", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xfe\xff", b"\xf8\x88\x80\x80\x80", b"\xc3\x28", b"\xe2\x28\xa1", b"\xc3\xa9", b"\xf0\x9f\x92\xa9"];
    let lens: Vec<usize> = ctx.q(vec![0, 1, 2, 15, 16, 30, 31, 32, 60, 61, 62, 63, 64, 65, 100, 101, 127, 128, 255, 256, 1000, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, 70000], (0..300).chain([1000, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 65534, 65535, 65536, 70000, 1 << 20]).collect());
    let nl = lens.len() as u64;
    let l1 = Arc::new(lens);
    let l2 = l1.clone();
    let (a, k1) = (trees.clone(), key.clone());
    v.push(
        Space::new(
            "decrypted text",
            "an encrypted string value of every length around block sizes with each kind of ill-formed UTF-8 (and two sound characters) at its start, middle and end, alone and among sound characters of several bytes: refused, or exactly the text",
            nl * 14 * 3 * 2,
            move |i| {
                let (len, i) = (l1[(i % nl) as usize], i / nl);
                let (ill, i) = (ILL[(i % 14) as usize], i / 14);
                let (place, wide) = (i % 3, i / 3 == 1);
                let fill = |n: usize| -> Vec<u8> { if wide { "é".repeat(n / 2).into_bytes() } else { vec![b'a'; n] } };
                let b = match place {
                    0 => [ill, &fill(len)[..]].concat(),
                    1 => [&fill(len / 2)[..], ill, &fill(len - len / 2)[..]].concat(),
                    _ => [&fill(len)[..], ill].concat(),
                };
                let (mut x, d) = a[0].clone();
                let mut done = 0;
                x.walk_mut(
                    &mut |e, p| {
                        if done == 0 && e.name == "Value" && p.last().map_or(false, |p| p == "String") && matches!(e.text, Tx::Secret(_)) {
                            e.text = Tx::Secret(b.clone());
                            done = 1;
                        }
                    },
                    &mut vec![],
                );
                assert_eq!(done, 1);
                judge_text(&put(&x, &d), &d, &k1, true)
            },
            move |i| format!("length {}, bytes {:02x?}, place {} (start, middle, end; then among wide characters)", l2[(i % nl) as usize], ILL[(i / nl % 14) as usize], i / nl / 14),
        )
        .into(),
    );
    // around the document
    let around: Vec<(&str, String)> = {
        let t = &docs[0].3;
        let body = &t[t.find("?>").unwrap_or(0) + 2..];
        let mut v: Vec<(&str, String)> = vec![];
        for (n, s) in [("nothing", ""), ("white space", "\n \t"), ("a comment", "<!-- c -->"), ("text", "x"), ("an element", "<KeePassFile/>"), ("another element", "<Unknown></Unknown>"), ("an end tag", "</KeePassFile>"), ("a second document", body), ("zero bytes", "\0\0"), ("an open comment", "<!-- "), ("a reference", "&amp;"), ("CDATA", "<![CDATA[]]>")] {
            v.push((n, format!("{}{}", t, s)));
            v.push((n, format!("{}{}", s, body)));
            v.push((n, format!("{}{}{}", &t[..t.len() - body.len()], s, body)));
            v.push((n, s.to_string()));
        }
        for r in ["Database", "keepassfile", "KEEPASSFILE", "KeePassFile2", "Meta", "Root", "Group"] {
            v.push(("another root", t.replace("<KeePassFile>", &format!("<{}>", r)).replace("</KeePassFile>", &format!("</{}>", r))));
        }
        v
    };
    let around = Arc::new(around);
    let (a, b, dd, k1) = (around.clone(), around.clone(), docs.clone(), key.clone());
    v.push(
        Space::new(
            "around the document",
            "things before, after and in place of the document, and other document elements",
            around.len() as u64,
            move |i| judge_text(&a[i as usize].1, &dd[0].2, &k1, true),
            move |i| format!("{} ({})", b[i as usize].0, i),
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C22",
        level: "exploration",
        rule: "every edit of the listed kinds of the listed documents, in intact files, judged by a second reader: with a defect refused, sound read exactly as written; non-trivial: a distinct document the second reader has a verdict on",
        items,
        assumptions: &["where the format leaves open what a document means (elements or keys given twice, protected values inside unknown elements, unusual times), nothing is judged"],
    }
}
