//! Hostile input: every outer layer is valid, one thing inside is not.
use crate::engine::*;
use crate::env;
use crate::kdbx::{self, gzip, Params};
use crate::lk::*;
use crate::model::*;
use crate::refs::{aes, sha::sha256};
use crate::xmlmodel::{self, el, tx, Text, Tx, X};
use kpdb::{Color, CompositeKey, Database, KeyFile};
use std::sync::Arc;

fn key() -> (CompositeKey, [u8; 32]) {
    pw("c07")
}
fn params() -> Params {
    let mut p = Params::new(key().1);
    p.rounds = 0;
    p
}
fn flat() -> Text {
    Text { indent: 0, decl: 1, ..Default::default() }
}

/// Memory a run may take for this much input.
fn allowance(len: usize) -> usize {
    (2 << 20) + 400 * len
}

fn name<T>(r: std::result::Result<T, kpdb::Error>) -> String {
    match r {
        Ok(_) => "opens".into(),
        Err(e) => format!("{:?}", e).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(),
    }
}

/// Opens the file; a panic is caught by the engine, an abort by the supervisor. `expanded` is the
/// size of what compressed parts expand to.
fn run_db(f: &[u8], expanded: usize) -> Res {
    let (k, _) = key();
    let max = allowance(f.len() + expanded);
    let (c, m) = env::measured(max, || name(Database::open(&mut &f[..], &k)));
    if m.peak > max as i64 {
        return bad("memory", format!("takes {} bytes of memory for {} bytes of input", m.peak, f.len() + expanded));
    }
    good(&c, digest(&f))
}
fn run_kf(f: &[u8]) -> Res {
    let max = allowance(f.len());
    let (c, m) = env::measured(max, || name(KeyFile::open(&mut &f[..])));
    if m.peak > max as i64 {
        return bad("memory", format!("takes {} bytes of memory for {} bytes of input", m.peak, f.len()));
    }
    good(&format!("key file: {}", c), digest(&f))
}
fn run_color(s: &str) -> Res {
    let r = Color::from_hex_string(s);
    good(if r.is_ok() { "colour" } else { "no colour" }, digest(&s))
}
/// XML in a proper container.
fn run_xml(x: &[u8]) -> Res {
    let mut p = params();
    p.gzip = false;
    run_db(&p.file(x), x.len())
}
fn run_tree(x: &X) -> Res {
    run_xml(xmlmodel::serialise(x, &flat(), params().salsa()).as_bytes())
}

pub fn base_tree() -> X {
    let mut m = rich([0; 32]);
    m.root.groups.truncate(1);
    m.root.entries.truncate(1);
    m.root.entries[0].history.truncate(1);
    m.root.groups[0].entries.clear();
    m.root.groups[0].groups.clear();
    m.root.entries[0].strings.remove(&MKey::Url);
    m.root.entries[0].strings.remove(&MKey::Other("Custom field".into()));
    let h = &mut m.root.entries[0].history[0];
    h.strings.clear();
    h.assoc.clear();
    h.binaries.clear();
    let mut st = xmlmodel::Style::default();
    st.hash = false;
    xmlmodel::encode(&m, &st, &[0; 32])
}
fn base_xml() -> Vec<u8> {
    let (_, ck) = key();
    let mut m = small(ck);
    let e = &mut m.root.entries[0];
    e.bg = Some([1, 2, 3]);
    e.assoc = vec![("k".into(), "w".into())];
    e.binaries.insert("p".into(), BVal::Prot(vec![1, 2, 3]));
    e.binaries.insert("r".into(), BVal::Ref("0".into()));
    e.history = vec![MEntry::new(e.uuid).s(MKey::Title, "<old>")];
    m.binaries.insert("0".into(), vec![1, 2, 3]);
    m.custom_data.insert("a".into(), "b".into());
    let mut st = xmlmodel::Style::default();
    st.hash = false;
    st.omit_defaults = true;
    xmlmodel::serialise(&xmlmodel::encode(&m, &st, &[0; 32]), &flat(), params().salsa()).into_bytes()
}

pub fn kf_xml() -> Vec<u8> {
    br#"<?xml version="1.0" encoding="utf-8"?><KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8=</Data></Key></KeyFile>"#.to_vec()
}

const EDIT: &[u8] = b"<>&;/\"'=]!?-[ \n\0\xff\x80\xc3\xedA09T:#%x";

/// Text edits: replace, insert (each value), delete, cut, repeat.
fn edit(base: &[u8], i: u64, values: u64) -> Vec<u8> {
    let per = values * 2 + 4;
    let (p, k) = ((i / per) as usize, i % per);
    let val = |j: u64| if values == 256 { j as u8 } else { EDIT[j as usize] };
    let mut v = base.to_vec();
    if k < values {
        v[p] = val(k);
    } else if k < 2 * values {
        v.insert(p, val(k - values));
    } else {
        match k - 2 * values {
            0 => {
                v.remove(p);
            }
            1 => v.truncate(p),
            2 => {
                // without the stretch up to the next tag
                let e = base[p..].iter().position(|b| *b == b'>').map_or(base.len(), |x| p + x + 1);
                v.drain(p..e);
            }
            _ => {
                let e = base[p..].iter().position(|b| *b == b'>').map_or(base.len(), |x| p + x + 1);
                let c = base[p..e].to_vec();
                v.splice(p..p, c);
            }
        }
    }
    v
}
fn edits(base: &[u8], values: u64) -> u64 {
    base.len() as u64 * (values * 2 + 4)
}
fn show_edit(base: &[u8], i: u64, values: u64) -> String {
    let v = edit(base, i, values);
    let p = (i / (values * 2 + 4)) as usize;
    format!("edit {} at {}: {:?}", i % (values * 2 + 4), p, String::from_utf8_lossy(&v[p.saturating_sub(30).min(v.len())..(p + 30).min(v.len())]))
}

fn hostile() -> Vec<Tx> {
    let mut v: Vec<Tx> = [
        "", " ", "\t", "\u{a0}", "-", "+", "+1", "-0", "00", "0x10", "1e5", "1.5", "NaN", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
        "18446744073709551616", "99999999999999999999999999999999999999", "-99999999999999999999999999", "69", "-1", "68", "256", "２", "True", "tRUE", "yes", "1", "null", "Null", "nul", "İ", "ß",
        "=", "==", "====", "A", "AA", "AAA", "A===", "AA==", "AAA=", "AAAA=", "AAAA====", "AB==", "A A = =", "AAAA\u{200b}", "é===", "-_-_", "AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAAAAAAAAA=", "AAAAAAAAAAAAAAAAAAAA", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "H4sIAAAAAAAA", "H4sI", "H4sIAAAAAAAA/wMAAAAAAAAAAAA=", "H4sICAAAAAAA/2E=", "H4sIAAAAAAAA/////////w==",
        "#", "#12345", "#1234567", "#GGGGGG", "#é1234", "#1é234", "#123é4", "#12345é", "#😀00", "#0😀0", "123456", "#+1+1+1", "#-1-1-1", "# 1 1 1", "#１２３４５６", "#\u{301}12345",
        "2001-01-01T00:00:00Z", "2001-01-01", "T", "Z", "2001-13-01T00:00:00Z", "2001-02-30T00:00:00Z", "2001-01-01T25:00:00Z", "2001-01-01T23:59:60Z", "2001-01-01T23:59:61Z", "2001-01-01T00:00:00", "2001-01-01T00:00:00+99:99", "2001-01-01T00:00:00+24:00", "2001-01-01T00:00:00-23:59", "2001-01-01T00:00:00.999999999999999999999999Z",
        "0000-00-00T00:00:00Z", "0000-01-01T00:00:00+23:59", "-262144-01-01T00:00:00Z", "-262143-01-01T00:00:00+23:59", "+262142-12-31T23:59:59-23:59", "+262143-12-31T23:59:59Z", "999999999999-01-01T00:00:00Z", "-999999999999-01-01T00:00:00Z", "2001-01-01 00:00:00 UTC", "２００１-01-01T00:00:00Z", "2001-01-01T00:00:00\u{2212}01:00", "2001-01-01T00:00:00é",
        "URL", "url", "title", "\u{212a}", "\u{10ffff}", "a\u{301}",
    ]
    .iter()
    .map(|s| Tx::Str(s.to_string()))
    .collect();
    for r in [
        "<x/>", "a<x/>b", "<x>a</x>", "<![CDATA[]]>", "<![CDATA[<x>]]>", "<!-- -->", "<?pi?>", "&#0;", "&#x110000;", "&#xD800;", "&#x1F600;", "&#99999999999999999999;", "&#x;", "&#;", "&;", "&a;", "&amp", "&lt;x&gt;", "]]>", "\u{0}", "\u{1}", "\u{fffe}", "<", ">", "</x>", "</Value>", "<Value>", "<Key>Title</Key>", "<Group>",
        "<Entry/>", "<Group/>", "<History/>", "<!DOCTYPE a>", "<?xml version=\"1.0\"?>",
    ] {
        v.push(Tx::Raw(r.into()));
    }
    for n in [0usize, 1, 2, 3, 15, 16, 17, 33, 64, 65, 1000, 100_000] {
        v.push(Tx::Secret(vec![0xf0; n]));
        v.push(Tx::Str("A".repeat(n)));
    }
    v.push(Tx::None);
    v
}

/// Texts that come near a proper value, and texts with one character of several bytes at every place:
/// what a program must not do is cut a text where a character is not at an end.
fn near_texts(max: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let wide = ["\u{e9}", "\u{20ac}", "\u{1f600}"];
    for n in 0..=max {
        for p in 0..=n {
            for w in wide {
                v.push(format!("{}{}{}", "1".repeat(p), w, "1".repeat(n - p)));
            }
        }
    }
    for n in 0..=max {
        v.push("a".repeat(n));
        v.push("\u{e9}".repeat(n));
        v.push("\u{20ac}".repeat(n));
    }
    for base in [
        "2001-02-03T04:05:06Z", "2001-02-03T04:05:06.789Z", "2001-02-03T04:05:06+01:00", "AAECAwQFBgcICQoLDA0ODw==", "AAECAwQF", "H4sIAAAAAAAA/wMAAAAAAAAAAAA=", "2147483647", "-12", "#12aBeF", "True", "False", "null", "{USERNAME}", "Password",
    ] {
        let b: Vec<char> = base.chars().collect();
        for p in 0..=b.len() {
            let (l, r): (String, String) = (b[..p].iter().collect(), b[p..].iter().collect());
            v.push(l.clone());
            v.push(r.clone());
            let tail: String = b.iter().skip(p + 1).collect();
            v.push(format!("{}{}", l, tail));
            for c in wide.into_iter().chain([" ", "-", "+", ":", "T", "Z", "0", "9", "=", "#", ".", "\n", "\u{a0}", "\u{660}"]) {
                v.push(format!("{}{}{}", l, c, r));
                v.push(format!("{}{}{}", l, c, tail));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// The least document with one element of this path.
fn least(path: &[String], attrs: &[(String, String)], text: &str) -> X {
    let mut x = X { name: path[path.len() - 1].clone(), attrs: attrs.to_vec(), kids: vec![], text: Tx::Str(text.into()) };
    for p in path[..path.len() - 1].iter().rev() {
        x = X { name: p.clone(), attrs: vec![], kids: vec![x], text: Tx::None };
    }
    x
}
type Leaf = (Vec<String>, Vec<(String, String)>);
fn leaves(t: &X) -> Vec<Leaf> {
    let mut v: Vec<Leaf> = vec![];
    t.clone().walk_mut(
        &mut |x, p| {
            let mut q: Vec<String> = p.iter().map(|s| s.to_string()).collect();
            q.push(x.name.clone());
            if x.kids.is_empty() && !v.iter().any(|l| l.0 == q && l.1 == x.attrs) {
                v.push((q, x.attrs.clone()));
            }
        },
        &mut vec![],
    );
    v
}

fn paths(t: &X) -> Vec<String> {
    let mut v = vec![];
    t.clone().walk_mut(&mut |x, p| v.push(format!("{}/{}", p.join("/"), x.name)), &mut vec![]);
    v
}
fn names(t: &X) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    t.clone().walk_mut(
        &mut |x, _| {
            if !v.contains(&x.name) {
                v.push(x.name.clone())
            }
        },
        &mut vec![],
    );
    v.push("VerifUnknown".into());
    v.push("ns:Entry".into());
    v
}

fn with_nth(t: &X, n: usize, f: impl FnOnce(&mut X)) -> X {
    let mut t = t.clone();
    let mut n = n;
    if let Some(x) = t.nth_mut(&mut n) {
        f(x)
    }
    t
}

fn wrap(mut inner: String, tag: &str, n: usize) -> String {
    let mut s = String::with_capacity(n * (2 * tag.len() + 5) + inner.len());
    for _ in 0..n {
        s.push('<');
        s.push_str(tag);
        s.push('>');
    }
    s.push_str(&inner);
    inner.clear();
    for _ in 0..n {
        s.push_str("</");
        s.push_str(tag);
        s.push('>');
    }
    s
}

fn doc(meta: &str, root: &str) -> String {
    format!("<KeePassFile><Meta>{}</Meta><Root><Group>{}</Group></Root></KeePassFile>", meta, root)
}

/// Deeply nested documents.
fn deep() -> Vec<(String, String)> {
    let mut v = vec![];
    for n in [100usize, 1000, 20_000, 100_000] {
        for tag in ["VerifUnknown", "Group", "Entry", "History", "String", "Value", "Times", "AutoType", "Association", "Meta", "Root", "KeePassFile", "Binaries", "Name"] {
            let w = wrap(String::new(), tag, n);
            v.push((format!("{} x {} in the group", tag, n), doc("", &w)));
            v.push((format!("{} x {} in an entry", tag, n), doc("", &format!("<Entry>{}</Entry>", w))));
            v.push((format!("{} x {} in a history", tag, n), doc("", &format!("<Entry><History>{}</History></Entry>", w))));
            v.push((format!("{} x {} in a name", tag, n), doc("", &format!("<Name>{}</Name>", w))));
            v.push((format!("{} x {} in the description", tag, n), doc(&w, "")));
            v.push((format!("{} x {} as the document", tag, n), w));
        }
        let mut hist = String::new();
        for _ in 0..n {
            hist.push_str("<Entry><History>");
        }
        v.push((format!("entry/history x {} unclosed", n), doc("", &hist)));
        let mut closed = hist.clone();
        for _ in 0..n {
            closed.push_str("</History></Entry>");
        }
        v.push((format!("entry/history x {}", n), doc("", &closed)));
        v.push((format!("groups x {} with entries", n), doc("", &wrap("<Entry/>".into(), "Group", n))));
    }
    v
}

fn dtds() -> Vec<String> {
    let mut v = vec![];
    let body = |dtd: &str, r: &str| format!("<!DOCTYPE KeePassFile [{}]>{}", dtd, doc("", &format!("<Name>{}</Name>", r)));
    for n in [3usize, 10, 30, 1000] {
        for w in [2usize, 10] {
            let mut d = String::from("<!ENTITY a0 \"aaaaaaaaaa\">");
            for i in 1..n {
                d.push_str(&format!("<!ENTITY a{} \"{}\">", i, format!("&a{};", i - 1).repeat(w)));
            }
            v.push(body(&d, &format!("&a{};", n - 1)));
        }
    }
    v.push(body("<!ENTITY a \"&a;\">", "&a;"));
    v.push(body("<!ENTITY a \"&b;\"><!ENTITY b \"&a;\">", "&a;"));
    v.push(body("<!ENTITY a SYSTEM \"file:///etc/hostname\">", "&a;"));
    v.push(body("<!ENTITY % a SYSTEM \"file:///etc/hostname\"> %a;", "x"));
    v.push(body("<!ENTITY a \"<Group><Group>\">", "&a;"));
    v.push(body("<!ENTITY a \"</Name><Name>\">", "&a;"));
    v.push(body(&format!("<!ENTITY a \"{}\">", "x".repeat(50_000)), &"&a;".repeat(300)));
    v.push(body("<!ELEMENT a (b)><!ATTLIST a b CDATA #REQUIRED>", "x"));
    v.push(body("<![IGNORE[", "x"));
    v.push(body("<!--", "x"));
    v
}

/// The base64 of an id made from a number.
fn id64(i: usize) -> String {
    let mut u = [0x5au8; 16];
    u[4..12].copy_from_slice(&(i as u64).to_be_bytes());
    crate::refs::b64::enc(&u)
}

/// Flat documents: many of one thing. Large enough that quadratic handling shows.
fn wide() -> Vec<(&'static str, Box<dyn Fn(usize) -> String + Sync + Send>)> {
    fn many(pre: &'static str, f: fn(usize) -> String, post: &'static str) -> Box<dyn Fn(usize) -> String + Sync + Send> {
        Box::new(move |n| {
            let mut s = String::from(pre);
            for i in 0..n {
                s.push_str(&f(i));
            }
            s.push_str(post);
            s
        })
    }
    const G: &str = "<KeePassFile><Meta></Meta><Root><Group>";
    const GE: &str = "</Group></Root></KeePassFile>";
    const E: &str = "<KeePassFile><Root><Group><Entry>";
    const EE: &str = "</Entry></Group></Root></KeePassFile>";
    const M: &str = "<KeePassFile><Meta>";
    const ME: &str = "</Meta></KeePassFile>";
    vec![
        ("entries", many(G, |_| "<Entry/>".into(), GE)),
        ("groups", many(G, |_| "<Group/>".into(), GE)),
        ("entries with ids", many(G, |i| format!("<Entry><UUID>{}</UUID></Entry>", id64(i)), GE)),
        ("entries with one id", many(G, |_| format!("<Entry><UUID>{}</UUID></Entry>", id64(7)), GE)),
        ("full entries", many(G, |i| format!("<Entry><UUID>{}</UUID><CustomIconUUID>{}</CustomIconUUID><Tags>a;b</Tags><String><Key>Title</Key><Value>t{}</Value></String></Entry>", id64(i), id64(i), i), GE)),
        ("groups with ids", many(G, |i| format!("<Group><UUID>{}</UUID><Name>g{}</Name></Group>", id64(i), i), GE)),
        ("groups with one name", many(G, |_| format!("<Group><UUID>{}</UUID><Name>g</Name></Group>", id64(7)), GE)),
        ("history with ids", many("<KeePassFile><Root><Group><Entry><History>", |i| format!("<Entry><UUID>{}</UUID><Times><LastModificationTime>2001-01-01T00:00:{:02}Z</LastModificationTime></Times></Entry>", id64(i), i % 60), "</History></Entry></Group></Root></KeePassFile>")),
        ("attachments of one item", many(E, |i| format!("<Binary><Key>k{}</Key><Value Ref=\"1\"/></Binary>", i), EE)),
        ("attachments in entries", many(G, |i| format!("<Entry><Binary><Key>k{}</Key><Value>AAAA</Value></Binary></Entry>", i), GE)),
        ("icons with ids", many("<KeePassFile><Meta><CustomIcons>", |i| format!("<Icon><UUID>{}</UUID><Data>AAAA</Data></Icon>", id64(i)), "</CustomIcons></Meta></KeePassFile>")),
        ("strings of one key", many(E, |_| "<String><Key>k</Key><Value>v</Value></String>".into(), EE)),
        ("custom data of one key", many("<KeePassFile><Meta><CustomData>", |_| "<Item><Key>k</Key><Value>v</Value></Item>".into(), "</CustomData></Meta></KeePassFile>")),
        ("tags", many("<KeePassFile><Root><Group><Entry><Tags>", |i| format!("t{};", i), "</Tags></Entry></Group></Root></KeePassFile>")),
        ("deleted objects", many("<KeePassFile><Root><Group/><DeletedObjects>", |i| format!("<DeletedObject><UUID>{}</UUID><DeletionTime>2001-01-01T00:00:00Z</DeletionTime></DeletedObject>", id64(i)), "</DeletedObjects></Root></KeePassFile>")),
        ("strings", many(E, |i| format!("<String><Key>k{}</Key><Value>v</Value></String>", i), EE)),
        ("protected strings", many(E, |i| format!("<String><Key>k{}</Key><Value Protected=\"True\">AAAA</Value></String>", i), EE)),
        ("binaries", many(E, |i| format!("<Binary><Key>k{}</Key><Value Ref=\"{}\"/></Binary>", i, i), EE)),
        ("history", many("<KeePassFile><Root><Group><Entry><History>", |_| "<Entry/>".into(), "</History></Entry></Group></Root></KeePassFile>")),
        ("histories", many(E, |_| "<History><Entry/></History>".into(), EE)),
        ("associations", many("<KeePassFile><Root><Group><Entry><AutoType>", |_| "<Association><Window>w</Window><KeystrokeSequence>k</KeystrokeSequence></Association>".into(), "</AutoType></Entry></Group></Root></KeePassFile>")),
        ("unknown", many(G, |_| "<Unknown a=\"b\">x</Unknown>".into(), GE)),
        ("escapes", many("<KeePassFile><Root><Group><Name>", |_| "&amp;&#65;".into(), "</Name></Group></Root></KeePassFile>")),
        ("text", many("<KeePassFile><Root><Group><Name>", |_| "some text ".into(), "</Name></Group></Root></KeePassFile>")),
        ("cdata", many("<KeePassFile><Root><Group><Name>", |_| "<![CDATA[a]]>".into(), "</Name></Group></Root></KeePassFile>")),
        ("comments", many("<KeePassFile><Root><Group><Name>", |_| "a<!-- b -->".into(), "</Name></Group></Root></KeePassFile>")),
        ("instructions", many(G, |_| "<?a b?>".into(), GE)),
        ("white space", many(G, |_| " \n\t".into(), GE)),
        ("carriage returns", many("<KeePassFile><Root><Group><Name>", |_| "a\r\nb\r".into(), "</Name></Group></Root></KeePassFile>")),
        ("elements in a name", many("<KeePassFile><Root><Group><Name>", |_| "a<b/>".into(), "</Name></Group></Root></KeePassFile>")),
        ("custom data", many("<KeePassFile><Meta><CustomData>", |i| format!("<Item><Key>{}</Key><Value>v</Value></Item>", i), "</CustomData></Meta></KeePassFile>")),
        ("icons", many("<KeePassFile><Meta><CustomIcons>", |_| "<Icon><UUID>AAAAAAAAAAAAAAAAAAAAAA==</UUID><Data>AAAA</Data></Icon>".into(), "</CustomIcons></Meta></KeePassFile>")),
        ("pool", many("<KeePassFile><Meta><Binaries>", |i| format!("<Binary ID=\"{}\">AAAA</Binary>", i), "</Binaries></Meta></KeePassFile>")),
        ("metas", many("<KeePassFile>", |_| "<Meta><DatabaseName>a</DatabaseName></Meta>".into(), "</KeePassFile>")),
        ("roots", many("<KeePassFile>", |_| "<Root><Group/></Root>".into(), "</KeePassFile>")),
        ("documents", many("", |_| "<KeePassFile/>".into(), "")),
        ("names", many(M, |_| "<DatabaseName>abcdefgh</DatabaseName>".into(), ME)),
        ("long base64", many("<KeePassFile><Meta><CustomIcons><Icon><UUID>AAAAAAAAAAAAAAAAAAAAAA==</UUID><Data>", |_| "QUJD \n".into(), "</Data></Icon></CustomIcons></Meta></KeePassFile>")),
        ("long number", many("<KeePassFile><Meta><HistoryMaxItems>", |_| "1".into(), "</HistoryMaxItems></Meta></KeePassFile>")),
        ("long date", many("<KeePassFile><Meta><MasterKeyChanged>", |_| "1".into(), "</MasterKeyChanged></Meta></KeePassFile>")),
        ("long colour", many("<KeePassFile><Meta><Color>", |_| "#".into(), "</Color></Meta></KeePassFile>")),
        ("long attribute", many("<KeePassFile><Meta><Binaries><Binary ID=\"", |_| "a ".into(), "\"/></Binaries></Meta></KeePassFile>")),
        ("attributes", many("<KeePassFile ", |i| if i < 65_000 { format!("a{}=\"b\" ", i) } else { String::new() }, "/>")),
        ("declarations", many("<KeePassFile ", |i| if i < 65_000 { format!("xmlns:a{}=\"b\" ", i) } else { String::new() }, "/>")),
        ("open tags", many("<KeePassFile>", |_| "<a>".into(), "")),
        ("bytes below", many("", |_| "&lt;".into(), "")),
    ]
}

fn cpu_seconds() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

/// Runs in time: far below what quadratic behaviour would take, far above what linear does.
fn timed(limit: f64, what: &str, f: impl FnOnce() -> Res) -> Res {
    let t = cpu_seconds();
    let r = f();
    let t = cpu_seconds() - t;
    if t > limit {
        return bad("time", format!("{} takes {:.1} s", what, t));
    }
    r
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    v.push(
        Space::new(
            "tiny",
            "every input of up to two bytes, as a database, after a proper signature, as a key file and as a colour",
            65793 * 4,
            |i| {
                let (k, i) = (i % 4, i / 4);
                let b: Vec<u8> = if i == 0 {
                    vec![]
                } else if i <= 256 {
                    vec![(i - 1) as u8]
                } else {
                    vec![((i - 257) >> 8) as u8, (i - 257) as u8]
                };
                match k {
                    0 => run_db(&b, 0),
                    1 => run_db(&[&kdbx::SIG1[..], &kdbx::SIG2[..], &[1, 0, 3, 0], &b[..]].concat(), 0),
                    2 => run_kf(&b),
                    _ => match std::str::from_utf8(&b) {
                        Ok(s) => run_color(s),
                        Err(_) => trivial("no text", i),
                    },
                }
            },
            |i| format!("kind {} input {}", i % 4, i / 4),
        )
        .into(),
    );
    v.push(
        Space::new(
            "header fields",
            "every field id at every place of the header with every stated size of an alphabet and less, exactly or more data than stated",
            256 * 11 * 24 * 3,
            |i| {
                const S: [u32; 24] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 255, 256, 4096, 32767, 32768, 65534, 65535];
                let (id, at, s, k) = (i as u8, i / 256 % 11, S[(i / 256 / 11 % 24) as usize], i / 256 / 11 / 24);
                let p = params();
                let mut h = kdbx::header_bytes(3, 1, &p.fields()[..at as usize]);
                h.push(id);
                h.extend((s as u16).to_le_bytes());
                h.extend(vec![0u8; [s as usize / 2, s as usize, s as usize + 1][k as usize]]);
                let rest = kdbx::header_bytes(3, 1, &p.fields()[at as usize..]);
                h.extend(&rest[12..]);
                if super::c05::rounds_asked(&h) > 100_000 {
                    return trivial("rounds", i);
                }
                run_db(&p.seal_with(&h, &kdbx::stream(&[p.pack(b"<KeePassFile/>")])), 0)
            },
            |i| format!("id {} before field {} size {} data {}", i % 256, i / 256 % 11, i / 256 / 11 % 24, i / 256 / 11 / 24),
        )
        .into(),
    );
    v.push(
        Space::new(
            "payload lengths",
            "every length of the encrypted payload from 0 to 1200 bytes, of zeros, of noise, of proper ciphertext cut and extended",
            1200 * 4,
            |i| {
                let (n, k) = ((i / 4) as usize, i % 4);
                let p = params();
                let h = p.header();
                let whole = p.file(&base_xml());
                let mut f = h.clone();
                match k {
                    0 => f.extend(vec![0; n]),
                    1 => f.extend((0..n).map(|j| env::mix(j as u64) as u8)),
                    2 => f = whole[..(h.len() + n).min(whole.len())].to_vec(),
                    _ => {
                        f = whole.clone();
                        f.extend(vec![7; n]);
                    }
                }
                run_db(&f, 0)
            },
            |i| format!("{} bytes, kind {}", i / 4, i % 4),
        )
        .into(),
    );
    v.push(
        Space::new(
            "padding",
            "decrypted payloads of 0 to 20 cells whose last cell ends in every byte value, repeated 1 to 17 times; with and without proper start bytes",
            21 * 256 * 17 * 2,
            |i| {
                let (cells, val, rep, good_start) = ((i % 21) as usize, (i / 21) as u8, (i / 21 / 256 % 17 + 1) as usize, i / 21 / 256 / 17 == 1);
                let p = params();
                let mut plain = vec![0x33u8; cells * 16];
                if good_start {
                    for (a, b) in plain.iter_mut().zip(p.ssb) {
                        *a = b;
                    }
                    let fin = kdbx::final_block(0);
                    for (a, b) in plain.iter_mut().skip(32).zip(fin) {
                        *a = b;
                    }
                }
                let n = plain.len();
                let r = rep.min(n);
                plain[n - r..].fill(val);
                run_db(&p.seal_raw(&p.header(), &plain), 0)
            },
            |i| format!("{} cells, byte {:02x} x {}, start {}", i % 21, i / 21 % 256, i / 21 / 256 % 17 + 1, i / 21 / 256 / 17),
        )
        .into(),
    );
    v.push(
        Space::new(
            "block fields",
            "block streams whose number, hash and size fields take hostile values, with the data present in full, in part, or not at all",
            40 * 16 * 3 * 8,
            |i| {
                let sizes: [u32; 40] = [
                    0, 1, 2, 39, 40, 41, 255, 256, 4095, 4096, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 1 << 24, 1 << 26, 1 << 27, 1 << 28, 1 << 29, 1 << 30, (1 << 30) + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 3 << 30, u32::MAX - 64,
                    u32::MAX - 41, u32::MAX - 40, u32::MAX - 39, u32::MAX - 31, u32::MAX - 16, u32::MAX - 8, u32::MAX - 7, u32::MAX - 4, u32::MAX - 3, u32::MAX - 2, u32::MAX - 1, u32::MAX, 100,
                ];
                let size = sizes[(i % 40) as usize];
                let id = [0u32, 1, 2, 3, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 256, 65536, 0, 0, 0, 0, 0, 0][(i / 40 % 16) as usize];
                let hash: [u8; 32] = match i / 640 % 3 {
                    0 => [0; 32],
                    1 => [0xff; 32],
                    _ => sha256(&[0x20; 100]),
                };
                let data = vec![0x20; [0usize, 1, 16, 50, 99, 100, 101, 1000][(i / 1920) as usize]];
                let p = params();
                let mut s = vec![];
                if i / 40 % 16 > 10 {
                    s.extend(kdbx::good_block(0, b"<KeePassFile>"));
                }
                s.extend(kdbx::block(id, &hash, size, &data));
                s.extend(kdbx::final_block(1));
                run_db(&p.seal(&s), 0)
            },
            |i| format!("case {}", i),
        )
        .into(),
    );
    // the decrypted stream, byte by byte
    let st = Arc::new({
        let mut p = params();
        p.gzip = false;
        kdbx::stream(&[b"<KeePassFile><Meta/>".to_vec(), b"<Root/></KeePassFile>".to_vec()])
    });
    let s1 = st.clone();
    v.push(
        Space::new(
            "stream bytes",
            "every byte of the decrypted block stream replaced by every value",
            st.len() as u64 * 256,
            move |i| {
                let mut s = s1.to_vec();
                s[(i / 256) as usize] = i as u8;
                let mut p = params();
                p.gzip = false;
                run_db(&p.seal(&s), 0)
            },
            |i| format!("byte {} value {:02x}", i / 256, i % 256),
        )
        .into(),
    );
    // gzip
    let z = Arc::new(gzip(&doc("", "<Name>compressed</Name>").into_bytes()));
    let z1 = z.clone();
    v.push(
        Space::new(
            "gzip bytes",
            "every byte of the compressed document replaced by every value, and every cut, under a matching block hash",
            z.len() as u64 * 257,
            move |i| {
                let p = params();
                let mut s = z1.to_vec();
                let n = (i / 257) as usize;
                if i % 257 == 256 {
                    s.truncate(n);
                } else {
                    s[n] = i as u8;
                }
                run_db(&p.seal(&kdbx::stream(&[s])), 4096)
            },
            |i| format!("byte {} value {:x}", i / 257, i % 257),
        )
        .into(),
    );
    v.push(
        Space::new(
            "gzip shapes",
            "compressed documents that expand a lot, members in a row, flags and extra fields, as payload and as attachment",
            40,
            |i| {
                let p = params();
                let n = [1usize << 16, 1 << 20, 1 << 22, 1 << 24][(i % 4) as usize];
                let blank = vec![b' '; n];
                let m = gzip(b"<KeePassFile/>");
                let (z, x): (Vec<u8>, usize) = match i / 4 {
                    0 => (gzip(&blank), n),
                    1 => (gzip(&[b"<KeePassFile>".to_vec(), blank.clone(), b"</KeePassFile>".to_vec()].concat()), n),
                    2 => (gzip(doc("", &format!("<Name>{}</Name>", String::from_utf8(blank.clone()).unwrap())).as_bytes()), n),
                    3 => (gzip(&"<a>".repeat(n / 64).into_bytes()), n),
                    4 => (std::iter::repeat(m.clone()).take(n / 4096).flatten().collect(), n),
                    5 => ([gzip(&[]), gzip(&blank)].concat(), n),
                    6 => {
                        // an attachment of the pool
                        let b = crate::refs::b64::enc(&gzip(&blank));
                        (gzip(doc(&format!("<Binaries><Binary ID=\"0\" Compressed=\"True\">{}</Binary></Binaries>", b), "").as_bytes()), n)
                    }
                    7 => {
                        let mut g = gzip(&blank);
                        let l = g.len();
                        g[l - 4..].fill(0xff);
                        (g, n)
                    }
                    8 => {
                        let mut g = m.clone();
                        g[3] = 0x1f;
                        g.extend(vec![0u8; n]);
                        (g, n)
                    }
                    _ => (kdbx::gzip_stored(&blank, Some(&"n".repeat(n))), n),
                };
                run_db(&p.seal(&kdbx::stream(&[z])), x)
            },
            |i| format!("shape {} size {}", i / 4, i % 4),
        )
        .into(),
    );
    // XML text
    let values = ctx.q(EDIT.len() as u64, 256);
    let b = Arc::new(base_xml());
    let (b1, b2) = (b.clone(), b.clone());
    v.push(
        Space::new(
            "xml text",
            "the document with one character replaced by or preceded by each of 28 bytes (thorough: all 256) at every place, one removed, cut off, one stretch up to the next tag removed or repeated",
            edits(&b, values),
            move |i| run_xml(&edit(&b1, i, values)),
            move |i| show_edit(&b2, i, values),
        )
        .into(),
    );
    let t = Arc::new(base_tree());
    let n = t.count() as u64;
    let ps = Arc::new(paths(&t));
    let hs = Arc::new(hostile());
    let nh = hs.len() as u64;
    let (t1, h1, p2, h2) = (t.clone(), hs.clone(), ps.clone(), hs.clone());
    v.push(
        Space::new(
            "hostile texts",
            "the content of every element of a full document replaced by, or followed by, each hostile text",
            n * nh * 2,
            move |i| {
                let (e, h, k) = ((i / 2 / nh) as usize, (i / 2 % nh) as usize, i % 2);
                run_tree(&with_nth(&t1, e, |x| {
                    if k == 0 {
                        x.kids.clear();
                        x.text = h1[h].clone();
                    } else {
                        x.kids.push(X { name: x.name.clone(), attrs: x.attrs.clone(), kids: vec![], text: h1[h].clone() });
                    }
                }))
            },
            move |i| format!("{}: {}", p2[(i / 2 / nh) as usize], clip(&format!("{:?}", h2[(i / 2 % nh) as usize]))),
        )
        .into(),
    );
    {
        let ls = Arc::new(leaves(&t));
        let ts = Arc::new(near_texts(ctx.q(40, 64)));
        let k = ts.len() as u64;
        let (l2, t2, t3) = (ls.clone(), ts.clone(), ts.clone());
        v.push(
            Space::new(
                "near texts",
                "every kind of leaf element with texts near proper values (one character replaced, inserted, removed, cut) and with one character of 2, 3 or 4 bytes at every place of texts of every length to 40 (thorough 64)",
                ls.len() as u64 * k,
                move |i| {
                    let (p, a) = &ls[(i / k) as usize];
                    run_tree(&least(p, a, &ts[(i % k) as usize]))
                },
                move |i| format!("{}: {:?}", l2[(i / k) as usize].0.join("/"), t2[(i % k) as usize]),
            )
            .into(),
        );
        let t4 = t3.clone();
        v.push(
            Space::new(
                "near key files",
                "the same texts as a colour, as a whole key file, and as the data and version of an XML key file",
                k * 4,
                move |i| {
                    let t = &t3[(i / 4) as usize];
                    match i % 4 {
                        0 => run_color(t),
                        1 => run_kf(t.as_bytes()),
                        2 => run_kf(format!("<KeyFile><Meta><Version>1.00</Version></Meta><Key><Data>{}</Data></Key></KeyFile>", t).as_bytes()),
                        _ => run_kf(format!("<KeyFile><Meta><Version>{}</Version></Meta><Key><Data>AAEC</Data></Key></KeyFile>", t).as_bytes()),
                    }
                },
                move |i| format!("kind {}: {:?}", i % 4, t4[(i / 4) as usize]),
            )
            .into(),
        );
        // key files of about 64 characters
        v.push(
            Space::new(
                "hexadecimal key files",
                "64 hexadecimal digits, more or fewer, with one or two characters of 1 to 4 bytes in place of digits at every place",
                65 * 8 * 12,
                |i| {
                    let (p, w, d) = ((i % 65) as usize, ["\u{e9}", "\u{20ac}", "\u{1f600}", "g", "+", "-", " ", "\n"][(i / 65 % 8) as usize], (i / 520) as usize);
                    let mut s = "0aF1".repeat(18);
                    s.truncate(64 - w.len() - d % 6 + 3);
                    s.insert_str(p.min(s.len()), w);
                    if d >= 6 {
                        let q = s.char_indices().map(|x| x.0).nth(p / 2).unwrap_or(0);
                        s.insert_str(q, w);
                        while s.len() > 64 + d % 6 - 3 {
                            s.pop();
                        }
                    }
                    run_kf(s.as_bytes())
                },
                |i| format!("place {} character {} length {}", i % 65, i / 65 % 8, i / 520),
            )
            .into(),
        );
    }
    let attrs: Vec<(String, String)> = {
        let mut v = vec![];
        for a in ["Protected", "ProtectInMemory", "Compressed", "ID", "Ref", "protected", "PROTECTED", "ref", "xmlns", "xml:space", "xmlns:a", "a:b", "Unknown"] {
            for x in ["", "True", "False", "true", "TRUE", "1", "yes", "null", " True ", "\u{e9}", "0", "&#x0;", "99999999999999999999", "a\u{301}"] {
                v.push((a.to_string(), x.to_string()));
            }
        }
        v
    };
    let na = attrs.len() as u64;
    let attrs = Arc::new(attrs);
    let (t1, a1, a2, p2) = (t.clone(), attrs.clone(), attrs.clone(), ps.clone());
    v.push(
        Space::new(
            "attributes",
            "every element given each attribute and value, instead of or besides its own",
            n * na * 2,
            move |i| {
                let a = &a1[(i / 2 % na) as usize];
                run_tree(&with_nth(&t1, (i / 2 / na) as usize, |x| {
                    if i % 2 == 0 {
                        x.attrs.clear();
                    }
                    x.attrs.push(a.clone());
                }))
            },
            move |i| format!("{} {:?}", p2[(i / 2 / na) as usize], a2[(i / 2 % na) as usize]),
        )
        .into(),
    );
    let nm = Arc::new(names(&t));
    let k = nm.len() as u64;
    let (t1, n1, n2, p2) = (t.clone(), nm.clone(), nm.clone(), ps.clone());
    v.push(
        Space::new(
            "renamed",
            "every element renamed to every name of the format, wrapped in one, or given one (empty, or with text) as a child",
            n * k * 4,
            move |i| {
                let name = n1[(i / 4 % k) as usize].clone();
                run_tree(&with_nth(&t1, (i / 4 / k) as usize, |x| match i % 4 {
                    0 => x.name = name,
                    1 => {
                        let inner = x.clone();
                        *x = el(&name, vec![inner]);
                    }
                    2 => x.kids.insert(0, el(&name, vec![])),
                    _ => x.kids.push(tx(&name, "text")),
                }))
            },
            move |i| format!("{} -> {} kind {}", p2[(i / 4 / k) as usize], n2[(i / 4 % k) as usize], i % 4),
        )
        .into(),
    );
    let (t1, p2) = (t.clone(), ps.clone());
    v.push(
        Space::new(
            "moved",
            "every element removed, doubled, and a copy of every element placed in every other",
            n * (n + 2),
            move |i| {
                let (a, b) = ((i / (n + 2)) as usize, i % (n + 2));
                if b < n {
                    let c = {
                        let mut t = (*t1).clone();
                        let mut k = a;
                        t.nth_mut(&mut k).cloned()
                    };
                    return run_tree(&with_nth(&t1, b as usize, |x| x.kids.extend(c)));
                }
                // mark, then remove or double in the parent
                let mut t = (*t1).clone();
                let mut j = 0;
                fn go(x: &mut X, j: &mut usize, a: usize, double: bool) {
                    let mut k = 0;
                    while k < x.kids.len() {
                        *j += 1;
                        if *j == a {
                            if double {
                                let c = x.kids[k].clone();
                                x.kids.insert(k, c);
                            } else {
                                x.kids.remove(k);
                            }
                            *j += 1_000_000;
                            return;
                        }
                        go(&mut x.kids[k], j, a, double);
                        k += 1;
                    }
                }
                go(&mut t, &mut j, a, b == n + 1);
                run_tree(&t)
            },
            move |i| format!("{} into/removed/doubled {}", p2[(i / (n + 2)) as usize], i % (n + 2)),
        )
        .into(),
    );
    let ds = Arc::new(deep());
    let (d1, d2) = (ds.clone(), ds.clone());
    v.push(
        Space::new(
            "deep",
            "deeply nested documents in a thread with the stack Rust gives threads (2 MB)",
            ds.len() as u64,
            move |i| {
                on_thread(2 << 20, || {
                    no_panic(|| {
                        timed(10.0, "a deeply nested document", || {
                            let x = d1[i as usize].1.as_bytes();
                            let mut p = params();
                            p.gzip = false;
                            let f = p.file(x);
                            let (k, _) = key();
                            good(&name(Database::open(&mut &f[..], &k)), digest(&(x.len(), i)))
                        })
                    })
                    .unwrap_or_else(|m| bad("panic", m))
                })
            },
            move |i| d2[i as usize].0.clone(),
        )
        .into(),
    );
    let dt = Arc::new(dtds());
    let d1 = dt.clone();
    v.push(
        Space::new(
            "document types",
            "entity declarations that expand, recur or refer to files",
            dt.len() as u64,
            move |i| {
                timed(20.0, "a document with entities", || {
                    let x = d1[i as usize].as_bytes();
                    let mut p = params();
                    p.gzip = false;
                    run_db(&p.file(x), x.len() + (12 << 20))
                })
            },
            |i| format!("document {}", i),
        )
        .into(),
    );
    let ws = Arc::new(wide());
    let (w1, w2) = (ws.clone(), ws.clone());
    let big = ctx.q(240_000usize, 600_000);
    v.push(
        Space::new(
            "wide",
            "documents with very many of one thing: time and memory stay in proportion",
            ws.len() as u64,
            move |i| {
                let x = w1[i as usize].1(big);
                let mut p = params();
                p.gzip = false;
                let f = p.file(x.as_bytes());
                // a tenth of a second each MB is usual
                timed(2.0 + f.len() as f64 / 1e6 * 0.6, w1[i as usize].0, || run_db(&f, x.len()))
            },
            move |i| w2[i as usize].0.into(),
        )
        .into(),
    );
    v.push(
        Space::new(
            "many header fields and blocks",
            "very many comments in the header, very many blocks, very long trailing data",
            4,
            |i| {
                timed(20.0, "a file with many parts", || {
                    let mut p = params();
                    p.gzip = false;
                    match i {
                        0 => {
                            let mut fs: Vec<(u8, Vec<u8>)> = (0..100_000).map(|_| (1u8, vec![1u8; 20])).collect();
                            fs.extend(p.fields());
                            let h = kdbx::header_bytes(3, 1, &fs);
                            run_db(&p.seal_with(&h, &kdbx::stream(&[b"<KeePassFile/>".to_vec()])), 0)
                        }
                        1 => {
                            let mut fs: Vec<(u8, Vec<u8>)> = (0..100).map(|_| (1u8, vec![1u8; 65535])).collect();
                            fs.extend(p.fields());
                            let h = kdbx::header_bytes(3, 1, &fs);
                            run_db(&p.seal_with(&h, &kdbx::stream(&[b"<KeePassFile/>".to_vec()])), 0)
                        }
                        2 => {
                            let x = doc("", &"<Entry/>".repeat(20_000));
                            let bs: Vec<Vec<u8>> = x.bytes().map(|b| vec![b]).collect();
                            run_db(&p.seal(&kdbx::stream(&bs)), x.len())
                        }
                        _ => {
                            let mut s = kdbx::stream(&[b"<KeePassFile/>".to_vec()]);
                            s.extend(vec![0u8; 5 << 20]);
                            run_db(&p.seal(&s), 0)
                        }
                    }
                })
            },
            |i| format!("case {}", i),
        )
        .into(),
    );
    v.push(
        Space::new(
            "namespaces",
            "an element with very many namespace declarations and very many children",
            1,
            |_| {
                let x = format!("<KeePassFile {}>{}</KeePassFile>", (0..2000).map(|i| format!("xmlns:a{}=\"u{}\" ", i, i)).collect::<String>(), "<a/>".repeat(4_000));
                let r = timed(0.5, "a document with many namespace declarations", || run_xml(x.as_bytes()));
                r.map_err(|b| Bad { key: format!("namespaces-{}", b.key), text: b.text })
            },
            |_| "2000 declarations, 4000 children".into(),
        )
        .into(),
    );
    // key files
    let kb = Arc::new(kf_xml());
    let (k1, k2) = (kb.clone(), kb.clone());
    v.push(
        Space::new(
            "key file text",
            "an XML key file with every one-character change (all 256 values), cut, removal and repetition",
            edits(&kb, 256),
            move |i| run_kf(&edit(&k1, i, 256)),
            move |i| show_edit(&k2, i, 256),
        )
        .into(),
    );
    let hs2 = hs.clone();
    v.push(
        Space::new(
            "key file texts",
            "every element of a key file with every hostile text, and deep or wide key files",
            6 * nh + 30,
            move |i| {
                if i >= 6 * nh {
                    let j = i - 6 * nh;
                    let n = [1000usize, 20_000, 100_000][(j % 3) as usize];
                    let tags = ["KeyFile", "Key", "Data", "Meta", "Version"];
                    let x = if j < 15 {
                        wrap(String::new(), tags[(j / 3) as usize], n)
                    } else {
                        let t = tags[(j / 3 - 5) as usize];
                        format!("<KeyFile>{}</KeyFile>", format!("<{}>1.00</{}>", t, t).repeat(n))
                    };
                    return on_thread(2 << 20, || no_panic(|| timed(10.0, "a large key file", || run_kf(x.as_bytes()))).unwrap_or_else(|m| bad("panic", m)));
                }
                let mut t = el("KeyFile", vec![el("Meta", vec![tx("Version", "1.00")]), el("Key", vec![tx("Data", "AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8=")])]);
                let mut e = (i / nh) as usize;
                if let Some(x) = t.nth_mut(&mut e) {
                    x.kids.clear();
                    x.text = hs2[(i % nh) as usize].clone();
                }
                run_kf(xmlmodel::serialise(&t, &flat(), params().salsa()).as_bytes())
            },
            move |i| format!("element {} text {}", i / nh, i % nh),
        )
        .into(),
    );
    // colours
    const CA: [char; 7] = ['#', '0', 'f', 'G', 'é', '😀', '\u{301}'];
    let len = ctx.q(7u32, 8);
    v.push(
        Space::new(
            "colours",
            "every string of up to 7 (thorough: 8) characters over an alphabet with characters of one to four bytes",
            (0..=len).map(|l| 7u64.pow(l)).sum(),
            |mut i| {
                let mut l = 0;
                while i >= 7u64.pow(l) {
                    i -= 7u64.pow(l);
                    l += 1;
                }
                let mut s = String::new();
                for _ in 0..l {
                    s.push(CA[(i % 7) as usize]);
                    i /= 7;
                }
                run_color(&s)
            },
            |i| format!("number {}", i),
        )
        .into(),
    );
    let _ = aes::pad;
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C07",
        level: "exploration",
        rule: "hostile inputs of the listed kinds at every place, all layers outside the hostile one valid; each must give a value or an error without panic, abort or hang and within a memory allowance proportional to the input; non-trivial: a distinct input",
        items,
        assumptions: &[
            "the transformation rounds a header asks for are the file's own work factor and are kept small",
            "input size counts what compressed parts expand to; memory allowance is 2 MiB + 400 bytes per byte; time limits are far above linear and far below quadratic cost",
        ],
    }
}
