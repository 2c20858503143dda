//! Key files: every kind, every layout of the XML form, every near miss.
use crate::engine::*;
use crate::lk;
use crate::model::*;
use crate::refs::b64;
use crate::refs::xml as rx;
use kpdb::{Error, KeyFile, KeyFileType};
use std::sync::Arc;

fn kopen(b: &[u8]) -> std::result::Result<KeyFile, Error> {
    KeyFile::open(&mut &b[..])
}
fn kname(t: impl std::borrow::Borrow<KeyFileType>) -> &'static str {
    match t.borrow() {
        KeyFileType::Binary => "binary",
        KeyFileType::Hex => "hex",
        KeyFileType::Xml => "xml",
    }
}
fn shown(b: &[u8]) -> String {
    clip(&b.iter().flat_map(|c| std::ascii::escape_default(*c)).map(char::from).collect::<String>())
}
fn is(b: &[u8], t: KeyFileType, key: &[u8]) -> Res {
    match kopen(b) {
        Ok(k) if k.file_type == t && k.key.unsecure() == key => good(kname(&t), digest(&b)),
        Ok(k) => bad("content", format!("{:?} should open as {} key {}, it opens as {} key {}", shown(b), kname(&t), b64::hex(key), kname(&k.file_type), b64::hex(k.key.unsecure()))),
        Err(e) => bad("refused", format!("{:?} should open as {} key {}, it is refused: {:?}", shown(b), kname(&t), b64::hex(key), e)),
    }
}
fn refused(b: &[u8], why: &str) -> Res {
    match kopen(b) {
        Err(_) => good(&format!("refused: {}", why), digest(&b)),
        Ok(k) => bad("accepted", format!("{:?} ({}) should be refused, it opens as {} key {}", shown(b), why, kname(&k.file_type), b64::hex(k.key.unsecure()))),
    }
}
fn hexval(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}
/// What 64 bytes are.
fn hex_or_not(b: &[u8]) -> Res {
    let v: Option<Vec<u8>> = b.iter().map(|c| hexval(*c)).collect();
    match v {
        Some(v) => is(b, KeyFileType::Hex, &v.chunks(2).map(|p| p[0] << 4 | p[1]).collect::<Vec<_>>()),
        None => refused(b, "64 bytes, not hexadecimal"),
    }
}

fn bases32() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        vec![0; 32],
        vec![0xff; 32],
        (0..32).map(|i| (i * 37 + 11) as u8).collect(),
        b"0123456789abcdefABCDEF0123456789".to_vec(),
        b"<?xml version=\"1.0\"?><KeyFile></".to_vec(),
        b"\xef\xbb\xbf<KeyFile><Key><Data>AAAA</Dat".to_vec(),
        vec![b'\n'; 32],
        vec![b' '; 32],
    ];
    assert!(v.iter().all(|b| b.len() == 32));
    v.push((0..32).map(|i| if i % 2 == 0 { 0x80 } else { b'=' }).collect());
    v
}
fn bases64() -> Vec<Vec<u8>> {
    vec![
        vec![b'0'; 64],
        b"0123456789abcdef0123456789ABCDEF0123456789abcdefFEDCBA9876543210".to_vec(),
        vec![b'f'; 64],
        vec![b'A'; 64],
    ]
}

// ---------------------------------------------------------------- documents

/// A layout of the XML form. Every choice keeps the meaning.
#[derive(Clone, Debug, Default)]
struct Doc {
    decl: usize,
    gaps: Vec<(usize, usize)>, // place, item
    white: usize,
    attrs: Option<(usize, usize)>, // element, attribute
    data: usize,
    version: usize,
    order: usize,
    tags: usize,
    tail: usize,
}

const DECLS: [&str; 8] = [
    "<?xml version=\"1.0\" encoding=\"utf-8\"?>",
    "",
    "<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
    "<?xml version='1.0'?>",
    "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>",
    "\u{feff}<?xml version=\"1.0\" encoding=\"utf-8\"?>",
    "\u{feff}",
    "<?xml  version = \"1.0\"\r\n encoding = 'utf-8' ?>\r\n",
];
const WHITES: [&str; 7] = ["", "\n", "\r\n\t", "  ", "\n\t\n    ", "\r", " \n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n"];
/// Items that may stand between elements. The first three may stand outside the root as well.
const ITEMS: [&str; 17] = [
    "<!-- a comment with <Data>AAAA</Data> -->",
    "<?pi <Data>AAAA</Data> ?>",
    "\n\t ",
    "<Unknown/>",
    "<Unknown></Unknown>",
    "<Unknown>some text &amp; more</Unknown>",
    "<Unknown a='b'><Data>QUFBQQ==</Data><Version>9.99</Version></Unknown>",
    "<Unknown><KeyFile><Meta><Version>2.0</Version></Meta><Key><Data>QUFBQQ==</Data></Key></KeyFile></Unknown>",
    "<Unknown><Unknown><Key><Data>!!!</Data></Key></Unknown></Unknown>",
    "<Unknown><Meta/><Key/><KeyFile/></Unknown>",
    "<Unknown><![CDATA[</Unknown><Data>AAAA</Data>]]></Unknown>",
    "<data>QUFBQQ==</data>",
    "<DATA>QUFBQQ==</DATA>",
    "<Hash>QUFBQQ==</Hash>",
    "<KeyFil/><KeyFiles/>",
    "<!---->",
    "<version>2.0</version><key><data>AAAA</data></key><meta><version>7</version></meta>",
];
const OUTSIDE: [usize; 4] = [0, 1, 2, 15];
/// Places: 0 before the root, 1 in KeyFile first, 2 in Meta first, 3 Meta last, 4 between Meta and
/// Key, 5 in Key first, 6 Key last, 7 KeyFile last, 8 after the root.
const PLACES: usize = 9;
const ATTRS: [&str; 6] = [" a=\"b\"", " a='1' b='2'", " xml:space=\"preserve\"", " Data=\"AAAA\" Version=\"2.0\"", " xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xmlns:xsd=\"http://www.w3.org/2001/XMLSchema\"", "\n  Protected=\"True\" "];
const ELEMS: usize = 5;
const DATAS: usize = 12;
const VERSIONS: usize = 5;
const ORDERS: usize = 3;
const TAGS: usize = 4;
const TAILS: [&str; 5] = ["", "\n", "\r\n\r\n", "<!-- end -->", "\n<?end?>\n"];

fn data_text(key: &[u8], how: usize) -> String {
    let e = b64::enc(key);
    let lines = |n: usize, nl: &str| e.as_bytes().chunks(n).map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join(nl);
    match how {
        0 => e,
        1 => format!(" {} ", e),
        2 => format!("\n\t\t\t{}\n\t\t", e),
        3 => lines(16, "\n"),
        4 => lines(7, "\r\n  "),
        5 => format!("<![CDATA[{}]]>", e),
        6 => e.chars().map(|c| format!("&#{};", c as u32)).collect(),
        7 => e.chars().enumerate().map(|(i, c)| if i % 3 == 0 { format!("&#x{:X};", c as u32) } else { c.to_string() }).collect(),
        8 => {
            let (a, b) = e.split_at(e.len() / 2);
            format!("{}<!-- half -->{}", a, b)
        }
        9 => {
            let (a, b) = e.split_at(e.len() / 3);
            format!("<![CDATA[{}]]>{}<?pi?>", a, b)
        }
        10 => lines(1, "\t"),
        _ => {
            let (a, b) = e.split_at(1);
            format!("{}&#10;&#32;<![CDATA[ ]]>{}&#13;", a, b)
        }
    }
}
fn version_text(how: usize) -> &'static str {
    ["1.00", "<![CDATA[1.00]]>", "1&#46;00", "1.<!-- . -->00", "&#x31;.&#x30;0"][how]
}

impl Doc {
    fn write(&self, key: &[u8]) -> Vec<u8> {
        let w = WHITES[self.white];
        let gap = |p: usize| -> String { self.gaps.iter().filter(|g| g.0 == p).map(|g| format!("{}{}", w, ITEMS[g.1])).collect() };
        let at = |e: usize| -> &'static str { self.attrs.filter(|a| a.0 == e).map_or("", |a| ATTRS[a.1]) };
        let (o, c) = [("", ""), (" ", ""), ("", " "), ("\n", "\r\n")][self.tags];
        let start = |n: &str, e: usize| format!("<{}{}{}>", n, at(e), o);
        let end = |n: &str| format!("</{}{}>", n, c);
        let meta = format!("{w}{}{}{w}{}{}{}{}{w}{}", start("Meta", 1), gap(2), start("Version", 2), version_text(self.version), end("Version"), gap(3), end("Meta"));
        let keyx = format!("{w}{}{}{w}{}{}{}{}{w}{}", start("Key", 3), gap(5), start("Data", 4), data_text(key, self.data), end("Data"), gap(6), end("Key"));
        let inner = match self.order {
            0 => format!("{}{}{}", meta, gap(4), keyx),
            1 => format!("{}{}{}", keyx, gap(4), meta),
            _ => format!("{}{}", keyx, gap(4)),
        };
        format!("{}{}{}{}{}{}{w}{}{}{}", DECLS[self.decl], gap(0), if self.white > 0 && self.decl != 1 && self.decl != 6 { w } else { "" }, start("KeyFile", 0), gap(1), inner + &gap(7), end("KeyFile"), gap(8), TAILS[self.tail]).into_bytes()
    }
}

/// One choice that differs from the plain layout.
#[derive(Clone, Copy, Debug)]
enum Ch {
    Decl(usize),
    Gap(usize, usize),
    White(usize),
    Attr(usize, usize),
    Data(usize),
    Version(usize),
    Order(usize),
    Tags(usize),
    Tail(usize),
}
fn choices() -> Vec<Ch> {
    let mut v = vec![];
    v.extend((1..DECLS.len()).map(Ch::Decl));
    v.extend((1..WHITES.len()).map(Ch::White));
    for p in 0..PLACES {
        for i in 0..ITEMS.len() {
            if (1..8).contains(&p) || OUTSIDE.contains(&i) {
                v.push(Ch::Gap(p, i));
            }
        }
    }
    for e in 0..ELEMS {
        v.extend((0..ATTRS.len()).map(|a| Ch::Attr(e, a)));
    }
    v.extend((1..DATAS).map(Ch::Data));
    v.extend((1..VERSIONS).map(Ch::Version));
    v.extend((1..ORDERS).map(Ch::Order));
    v.extend((1..TAGS).map(Ch::Tags));
    v.extend((1..TAILS.len()).map(Ch::Tail));
    v
}
fn doc(cs: &[Ch]) -> Doc {
    let mut d = Doc::default();
    for c in cs {
        match *c {
            Ch::Decl(i) => d.decl = i,
            Ch::Gap(p, i) => d.gaps.push((p, i)),
            Ch::White(i) => d.white = i,
            Ch::Attr(e, a) => d.attrs = Some((e, a)),
            Ch::Data(i) => d.data = i,
            Ch::Version(i) => d.version = i,
            Ch::Order(i) => d.order = i,
            Ch::Tags(i) => d.tags = i,
            Ch::Tail(i) => d.tail = i,
        }
    }
    d
}

/// What this document is by the reference XML reader: a check of the harness's own documents.
fn reference(b: &[u8]) -> Option<Vec<u8>> {
    let e = rx::parse(b).ok()?;
    if e.name != "KeyFile" {
        return None;
    }
    let t: String = e.child("Key")?.child("Data")?.leaf().ok()?.chars().filter(|c| !c.is_whitespace()).collect();
    b64::dec(&t).ok()
}

fn layout(cs: &[Ch], key: &[u8]) -> Res {
    let b = doc(cs).write(key);
    if reference(&b).as_deref() != Some(key) {
        panic!("harness: {:?} is not a key file by the reference reader", shown(&b));
    }
    match b.len() {
        32 => is(&b, KeyFileType::Binary, &b),
        64 => hex_or_not(&b),
        _ => is(&b, KeyFileType::Xml, key),
    }
}

fn save(k: &KeyFile) -> std::result::Result<Vec<u8>, Bad> {
    let mut v = vec![];
    match k.save(&mut v) {
        Ok(()) => Ok(v),
        Err(e) => bad("save", format!("saving fails: {:?}", e)),
    }
}

/// Are these bytes the standard form of the kind?
fn standard(b: &[u8], t: KeyFileType, key: &[u8]) -> std::result::Result<(), Bad> {
    match t {
        KeyFileType::Binary => {
            if b != key {
                return bad("form", format!("a binary key file of {} is written as {}", b64::hex(key), b64::hex(b)));
            }
        }
        KeyFileType::Hex => {
            let h = b64::hex(key);
            if b != h.as_bytes() && b != h.to_uppercase().as_bytes() {
                return bad("form", format!("a hex key file of {} is written as {:?}", h, shown(b)));
            }
        }
        KeyFileType::Xml => {
            let f = || -> std::result::Result<(), String> {
                let e = rx::parse(b)?;
                let only = |e: &rx::Elem, names: &[&str]| -> std::result::Result<(), String> {
                    let n: Vec<&str> = e.children().map(|c| c.name.as_str()).collect();
                    if n == names {
                        Ok(())
                    } else {
                        Err(format!("{} holds {:?}", e.name, n))
                    }
                };
                if e.name != "KeyFile" {
                    return Err(format!("the root is {}", e.name));
                }
                only(&e, &["Meta", "Key"])?;
                let (m, k) = (e.child("Meta").unwrap(), e.child("Key").unwrap());
                only(m, &["Version"])?;
                only(k, &["Data"])?;
                let v = m.child("Version").unwrap().leaf()?;
                if v != "1.00" {
                    return Err(format!("the version is {:?}", v));
                }
                let d = k.child("Data").unwrap().leaf()?;
                if d.trim() != b64::enc(key) {
                    return Err(format!("the data is {:?}, the key {}", d, b64::enc(key)));
                }
                Ok(())
            };
            if let Err(m) = f() {
                return bad("form", format!("the XML key file {:?} is not of the standard form: {}", shown(b), m));
            }
        }
    }
    Ok(())
}

fn saved(key: &[u8], t: KeyFileType) -> Res {
    let k = lk::kf(key, t.clone());
    let b = save(&k)?;
    standard(&b, t.clone(), key)?;
    if save(&k)? != b {
        return bad("again", "saving twice gives different files");
    }
    let r = match kopen(&b) {
        Ok(r) => r,
        Err(e) => return bad("reopen", format!("a saved {} key file {} does not open: {:?}", kname(&t), b64::hex(key), e)),
    };
    if r.file_type != t || r.key.unsecure() != key || r != k {
        return bad("reopen", format!("a saved {} key file {} opens as {} {}", kname(&t), b64::hex(key), kname(&r.file_type), b64::hex(r.key.unsecure())));
    }
    if k.file_type != t || k.key.unsecure() != key {
        return bad("changed", "saving changes the key file");
    }
    good_n(kname(&t), digest(&b), 3)
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    let b32 = Arc::new(bases32());
    let nb = b32.len() as u64;
    let per = 32 * 256u64;
    let x = b32.clone();
    let cell = move |b: &[Vec<u8>], i: u64| -> Vec<u8> {
        let mut k = b[(i / per) as usize].clone();
        k[(i % per / 256) as usize] = (i % 256) as u8;
        k
    };
    v.push(
        Space::new(
            "save",
            "saving each kind with every byte value at every place of nine 32-byte keys: the bytes written, and reopening",
            nb * per * 3,
            move |i| saved(&cell(&x, i / 3), super::c04::kind((i % 3) as u8)),
            |i| format!("key file case {}", i),
        )
        .into(),
    );
    let x = b32.clone();
    v.push(
        Space::new(
            "binary",
            "every byte value at every place of nine files of 32 bytes (among them hex digits and XML)",
            nb * per,
            move |i| {
                let k = cell(&x, i);
                is(&k, KeyFileType::Binary, &k)
            },
            |i| format!("32 bytes, case {}", i),
        )
        .into(),
    );
    let b64s = Arc::new(bases64());
    let per64 = 64 * 256u64;
    let x = b64s.clone();
    v.push(
        Space::new(
            "hex",
            "every byte value at every place of four files of 64 hexadecimal digits",
            x.len() as u64 * per64,
            move |i| {
                let mut k = x[(i / per64) as usize].clone();
                k[(i % per64 / 256) as usize] = (i % 256) as u8;
                hex_or_not(&k)
            },
            |i| format!("64 bytes, case {}", i),
        )
        .into(),
    );
    // something around a file whose length decides its kind
    let (xs, ys) = (b32.clone(), b64s.clone());
    let outer: Arc<Vec<(Vec<u8>, Vec<u8>)>> = Arc::new({
        let mut o: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        for b in 0..=255u8 {
            o.push((vec![b], vec![]));
            o.push((vec![], vec![b]));
            o.push((vec![b], vec![b]));
        }
        for w in ["\r\n", "\n\n", "  ", "\u{feff}", "0x", "0X", "\0\0", "00", "\t\n", "\r\n\r\n"] {
            o.push((w.into(), vec![]));
            o.push((vec![], w.into()));
            o.push((w.into(), w.into()));
        }
        o.push((b"\"".to_vec(), b"\"\n".to_vec()));
        o.push(("\u{feff}".into(), b"\n".to_vec()));
        o.push(("\u{feff}".into(), b"\r\n".to_vec()));
        o
    });
    let (o1, o2) = (outer.clone(), outer.clone());
    let n_outer = outer.len() as u64;
    v.push(
        Space::new(
            "around",
            "nine files of 32 bytes and four of 64 hexadecimal digits with every byte, and line ends, marks and prefixes, in front, behind and on both sides: neither kind any more",
            n_outer * (nb + ys.len() as u64),
            move |i| {
                let (k, o) = ((i / n_outer) as usize, &o1[(i % n_outer) as usize]);
                let f = if k < xs.len() { &xs[k] } else { &ys[k - xs.len()] };
                let b = [&o.0[..], &f[..], &o.1[..]].concat();
                if [32, 64].contains(&b.len()) {
                    return trivial("of the length of another kind", i);
                }
                refused(&b, "neither 32 nor 64 bytes nor XML")
            },
            move |i| format!("file {} with {:?} around it", i / n_outer, o2[(i % n_outer) as usize]),
        )
        .into(),
    );
    // pairs of neighbouring digits, and of any two places
    const DIG: &[u8] = b"0123456789abcdefABCDEF";
    let x = b64s.clone();
    let pairs: Vec<(usize, usize)> = if ctx.thorough() { (0..64).flat_map(|a| (a + 1..64).map(move |b| (a, b))).collect() } else { (0..63).map(|a| (a, a + 1)).chain((1..64).map(|b| (0, b))).collect() };
    const ODD: &[u8] = b"0123456789abcdefABCDEFgG/:@`x +-_\n\0\xff\xc3\xa9";
    let m = ODD.len() as u64;
    v.push(
        Space::new(
            "hex-pairs",
            "every pair of digits and near-digits at pairs of places of a hexadecimal file",
            pairs.len() as u64 * m * m,
            move |i| {
                let mut k = x[1].clone();
                let (a, b) = pairs[(i / (m * m)) as usize];
                k[a] = ODD[(i / m % m) as usize];
                k[b] = ODD[(i % m) as usize];
                hex_or_not(&k)
            },
            |i| format!("digit pair {}", i),
        )
        .into(),
    );
    let texts64: Vec<Vec<u8>> = {
        let mut t: Vec<Vec<u8>> = vec![];
        t.push("ａ".repeat(21).into_bytes().into_iter().chain(*b"0").collect()); // fullwidth letters
        t.push("１".repeat(21).into_bytes().into_iter().chain(*b"1").collect());
        t.push("é".repeat(32).into_bytes());
        t.push("٣".repeat(32).into_bytes());
        t.push(vec![0; 64]);
        t.push([b"0x".to_vec(), vec![b'1'; 62]].concat());
        t.push([vec![b'1'; 62], b"\r\n".to_vec()].concat());
        t.push([vec![b'1'; 63], b"\n".to_vec()].concat());
        t.push([b"\xef\xbb\xbf".to_vec(), vec![b'1'; 61]].concat());
        // XML documents of exactly 64 bytes
        for pad in 0..24usize {
            let d = format!("<KeyFile><Key><Data>{}</Data></Key></KeyFile>", b64::enc(&vec![7u8; pad]));
            if d.len() <= 64 {
                let mut d = d.into_bytes();
                d.resize(64, b' ');
                t.push(d);
            }
        }
        for d in DIG {
            t.push(vec![*d; 64]);
        }
        t
    };
    let n = texts64.len() as u64;
    let tt = Arc::new(texts64);
    v.push(Space::new("64-bytes", "64 bytes of other text, XML documents of 64 bytes, one digit repeated", n, move |i| hex_or_not(&tt[i as usize]), |i| format!("text {}", i)).into());
    let fills: Vec<(&'static str, Vec<u8>)> = vec![
        ("digits", b"0123456789abcdef".to_vec()),
        ("zero bytes", vec![0]),
        ("0xff", vec![0xff]),
        ("spaces", vec![b' ']),
        ("line feeds", vec![b'\n']),
        ("base64", b"AAECAwQFBgcICQoL".to_vec()),
        ("open tags", b"<KeyFile>".to_vec()),
        ("letters", b"KeyFile".to_vec()),
    ];
    let nf = fills.len() as u64;
    let maxlen = ctx.q(300u64, 2000);
    v.push(
        Space::new(
            "lengths",
            "files of every length of digits, zeros, white space, base64 and other text: 32 bytes are a binary key, 64 digits a hex key, everything else is refused",
            nf * (maxlen + 1),
            move |i| {
                let (l, f) = ((i / nf) as usize, &fills[(i % nf) as usize].1);
                let b: Vec<u8> = f.iter().cycle().take(l).cloned().collect();
                match l {
                    32 => is(&b, KeyFileType::Binary, &b),
                    64 => hex_or_not(&b),
                    _ => refused(&b, "neither 32 nor 64 bytes nor XML"),
                }
            },
            |i| format!("length case {}", i),
        )
        .into(),
    );
    // XML layouts
    let cs = Arc::new(choices());
    let nc = cs.len() as u64;
    let key: Vec<u8> = (0..32).map(|i| (i * 29 + 3) as u8).collect();
    let (c1, k1) = (cs.clone(), key.clone());
    let c2 = cs.clone();
    v.push(
        Space::new(
            "layouts",
            "the XML form with every pair of layout choices: declaration, white space, comments, instructions, unknown elements, attributes, CDATA, character references, order, line breaks in the data",
            nc * nc,
            move |i| layout(&[c1[(i / nc) as usize], c1[(i % nc) as usize]], &k1),
            move |i| format!("{:?}", [c2[(i / nc) as usize], c2[(i % nc) as usize]]),
        )
        .into(),
    );
    // triples over a reduced list
    let red: Vec<Ch> = cs
        .iter()
        .filter(|c| {
            ctx.thorough()
                || match c {
                    Ch::Gap(_, i) => [0, 6, 7, 10].contains(i),
                    Ch::Attr(_, a) => *a == 3,
                    Ch::Decl(d) => [1, 5].contains(d),
                    Ch::White(w) => [2, 5].contains(w),
                    Ch::Data(d) => [3, 5, 6, 8].contains(d),
                    _ => true,
                }
        })
        .cloned()
        .collect();
    let nr = red.len() as u64;
    let red = Arc::new(red);
    let (r1, r2, k1) = (red.clone(), red.clone(), key.clone());
    v.push(
        Space::new(
            "layouts-3",
            "the XML form with every ordered triple of layout choices (of a reduced list in the quick run)",
            nr * nr * nr,
            move |i| layout(&[r1[(i / nr / nr) as usize], r1[(i / nr % nr) as usize], r1[(i % nr) as usize]], &k1),
            move |i| format!("{:?}", [r2[(i / nr / nr) as usize], r2[(i / nr % nr) as usize], r2[(i % nr) as usize]]),
        )
        .into(),
    );
    let (c1, c2) = (cs.clone(), cs.clone());
    let maxk = ctx.q(80u64, 300);
    v.push(
        Space::new(
            "key-lengths",
            "the XML form with every layout choice and keys of every length from 1",
            nc * maxk,
            move |i| {
                let l = (i % maxk) as usize + 1;
                let k: Vec<u8> = (0..l).map(|j| (j * 53 + l) as u8).collect();
                layout(&[c1[(i / maxk) as usize]], &k)
            },
            move |i| format!("{:?}, key of {} bytes", c2[(i / maxk) as usize], i % maxk + 1),
        )
        .into(),
    );
    // long documents and long keys
    let mut lens: Vec<usize> = (6..21).flat_map(|k| (1usize << k) - 1..(1usize << k) + 2).chain([999, 1000, 1001, 10_000, 100_000, 1_000_000]).collect();
    if ctx.thorough() {
        lens.extend(67..2000);
    }
    let l2 = lens.clone();
    const FORMS: u64 = 12;
    v.push(
        Space::new(
            "long documents",
            "the XML form with long white space, comments, unknown elements, attributes and keys: every length around powers of two to a million",
            lens.len() as u64 * FORMS,
            move |i| {
                let n = lens[(i / FORMS) as usize];
                let key: Vec<u8> = (0..32).map(|i| (i * 29 + 3) as u8).collect();
                let d = crate::refs::b64::enc(&key);
                let x = "x".repeat(n);
                let doc = |a: &str, b: &str, c: &str, e: &str| format!("<?xml version=\"1.0\"?>{}<KeyFile><Meta><Version>1.00</Version></Meta>{}<Key><Data>{}{}</Data></Key></KeyFile>{}", a, b, d, c, e).into_bytes();
                let b = match i % FORMS {
                    0 => doc(&" ".repeat(n), "", "", ""),
                    1 => doc(&format!("<!--{}-->", x), "", "", ""),
                    2 => doc("", &" ".repeat(n), "", ""),
                    3 => doc("", &format!("<Unknown>{}</Unknown>", x), "", ""),
                    4 => doc("", &format!("<Unknown a=\"{}\"/>", x), "", ""),
                    5 => doc("", &"<U/>".repeat(n.min(300_000) / 4), "", ""),
                    6 => doc("", "", &" ".repeat(n), ""),
                    7 => doc("", "", "", &"\n".repeat(n)),
                    8 => doc("", "", "", &format!("<!--{}-->", x)),
                    9 => super::c08::long_key_file(n, 1, &key),
                    form => {
                        // keys of this many bytes
                        let key: Vec<u8> = (0..n).map(|j| crate::env::mix(j as u64) as u8).collect();
                        if form == 10 {
                            let k = lk::kf(&key, KeyFileType::Xml);
                            let b = save(&k)?;
                            return is(&b, KeyFileType::Xml, &key);
                        }
                        let b = super::c08::long_key_file(5, 1, &key);
                        return is(&b, KeyFileType::Xml, &key);
                    }
                };
                if [32, 64].contains(&b.len()) {
                    return trivial("of the length of another kind", i);
                }
                is(&b, KeyFileType::Xml, &key)
            },
            move |i| format!("{} characters, form {}", l2[(i / FORMS) as usize], i % FORMS),
        )
        .into(),
    );
    let x = b32.clone();
    v.push(
        Space::new(
            "key-values",
            "the XML form with every byte value at every place of nine keys",
            nb * per,
            move |i| layout(&[], &cell(&x, i)),
            |i| format!("key {}", i),
        )
        .into(),
    );
    // versions
    let versions: Vec<String> = {
        let mut t: Vec<String> = ["", "0", "1", "1.0", "1.000", "1.01", "1.10", "2.0", "2.00", "0.99", "01.00", "1,00", "v1.00", "1.00a", "1.00 1.00", "-1.00", "1.00.0", "10.0", "100", "１.００", "1.00\u{0}"].iter().filter(|s| !s.contains('\0')).map(|s| s.to_string()).collect();
        // one character replaced, inserted or removed
        for p in 0..=4 {
            for c in "0123456789.,xA-".chars() {
                let mut a: Vec<char> = "1.00".chars().collect();
                if p < 4 {
                    a[p] = c;
                    t.push(a.iter().collect());
                }
                let mut a: Vec<char> = "1.00".chars().collect();
                a.insert(p, c);
                t.push(a.iter().collect());
            }
        }
        t.retain(|x| x != "1.00");
        t.sort();
        t.dedup();
        t
    };
    let nv = versions.len() as u64;
    let vs = Arc::new(versions);
    let (v1, k1) = (vs.clone(), key.clone());
    v.push(
        Space::new(
            "versions",
            "every version one edit away from 1.00 and others, before and after the key, with each way to write it",
            nv * 4,
            move |i| {
                let ver = &v1[(i / 4) as usize];
                let meta = format!("<Meta><Version>{}</Version></Meta>", if i % 2 == 1 { format!("<![CDATA[{}]]>", ver) } else { ver.clone() });
                let k = format!("<Key><Data>{}</Data></Key>", b64::enc(&k1));
                let d = if i % 4 < 2 { format!("<KeyFile>{}{}</KeyFile>", meta, k) } else { format!("<KeyFile>{}{}</KeyFile>", k, meta) };
                refused(d.as_bytes(), "another version")
            },
            move |i| format!("version {:?}", vs[(i / 4) as usize]),
        )
        .into(),
    );
    // documents without the key
    let k64 = b64::enc(&key);
    let m = "<Meta><Version>1.00</Version></Meta>";
    let nokey: Vec<String> = vec![
        "<KeyFile/>".into(),
        "<KeyFile></KeyFile>".into(),
        format!("<KeyFile>{}</KeyFile>", m),
        format!("<KeyFile>{}<Key/></KeyFile>", m),
        format!("<KeyFile>{}<Key></Key></KeyFile>", m),
        format!("<KeyFile>{}<Key>{}</Key></KeyFile>", m, k64),
        format!("<KeyFile>{}<Key><data>{}</data></Key></KeyFile>", m, k64),
        format!("<KeyFile>{}<Key><Hash>{}</Hash></Key></KeyFile>", m, k64),
        format!("<KeyFile>{}<Key><X><Data>{}</Data></X></Key></KeyFile>", m, k64),
        format!("<KeyFile>{}<X><Key><Data>{}</Data></Key></X></KeyFile>", m, k64),
        format!("<KeyFile>{}<Data>{}</Data></KeyFile>", m, k64),
        format!("<KeyFile><Meta><Version>1.00</Version><Key><Data>{}</Data></Key></Meta></KeyFile>", k64),
        format!("<KeyFile><Meta><Version>1.00</Version><Data>{}</Data></Meta></KeyFile>", k64),
        format!("<Root>{}<Key><Data>{}</Data></Key></Root>", m, k64),
        format!("<keyfile>{}<Key><Data>{}</Data></Key></keyfile>", m, k64),
        format!("<Key><Data>{}</Data></Key>", k64),
        format!("<Data>{}</Data>", k64),
        format!("<X><KeyFile>{}<Key><Data>{}</Data></Key></KeyFile></X>", m, k64),
        format!("<KeyFile><KeyFile>{}<Key><Data>{}</Data></Key></KeyFile></KeyFile>", m, k64),
        format!("<KeyFile>{}<!--<Key><Data>{}</Data></Key>--></KeyFile>", m, k64),
        format!("<KeyFile>{}<Key><!--<Data>{}</Data>--></Key></KeyFile>", m, k64),
        format!("<KeyFile>{}<![CDATA[<Key><Data>{}</Data></Key>]]></KeyFile>", m, k64),
        format!("<KeyFile Data=\"{}\">{}<Key Data=\"{}\"/></KeyFile>", k64, m, k64),
        "<?xml version=\"1.0\" encoding=\"utf-8\"?>".into(),
        "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n\n".into(),
        "<!-- only a comment -->".into(),
        "just some text that is no key at all".into(),
        // more than one document element, or anything else around it
        format!("<KeyFile>{0}<Key><Data>{1}</Data></Key></KeyFile><KeyFile>{0}<Key><Data>{1}</Data></Key></KeyFile>", m, k64),
        format!("<KeyFile>{}<Key><Data>{}</Data></Key></KeyFile><A/>", m, k64),
        format!("<KeyFile>{}<Key><Data>{}</Data></Key></KeyFile>text", m, k64),
        format!("<KeyFile>{}<Key><Data>{}</Data></Key></KeyFile></KeyFile>", m, k64),
        format!("<A/><KeyFile>{}<Key><Data>{}</Data></Key></KeyFile>", m, k64),
        format!("text<KeyFile>{}<Key><Data>{}</Data></Key></KeyFile>", m, k64),
        format!("<KeyFile/><KeyFile>{}<Key><Data>{}</Data></Key></KeyFile>", m, k64),
    ];
    let nn = nokey.len() as u64 * DECLS.len() as u64;
    let nk = Arc::new(nokey);
    let nk2 = nk.clone();
    v.push(
        Space::new(
            "no-key",
            "documents without key data where it belongs, or with more than one document element, under every declaration",
            nn,
            move |i| {
                let t = format!("{}{}", DECLS[i as usize % DECLS.len()], nk[i as usize / DECLS.len()]);
                if [32, 64].contains(&t.len()) {
                    return trivial("32 or 64 bytes", digest(&t));
                }
                refused(t.as_bytes(), "no key file")
            },
            move |i| nk2[i as usize / DECLS.len()].clone(),
        )
        .into(),
    );
    // base64 damage: every byte at every place
    let plain = doc(&[]).write(&key);
    let at = plain.windows(6).position(|w| w == b"<Data>").unwrap() + 6;
    let p1 = Arc::new(plain.clone());
    let p2 = p1.clone();
    let len64 = k64.len() as u64;
    v.push(
        Space::new(
            "base64",
            "every byte value in place of, and in front of, every character of the key data: exactly the decoded key, or refused",
            (len64 + 1) * 256 * 2,
            move |i| {
                let (ins, b, p) = (i % 2 == 1, (i / 2 % 256) as u8, (i / 512) as usize);
                let mut d = p1.to_vec();
                if ins {
                    d.insert(at + p, b);
                } else if p as u64 == len64 {
                    return trivial("nothing to replace", i);
                } else {
                    d[at + p] = b;
                }
                // what the data says now
                let end = at + len64 as usize + ins as usize;
                if matches!(b, b'<' | b'&') || b >= 0x80 || (b < 0x20 && !matches!(b, 9 | 10 | 13)) || b == 0x7f {
                    // not text any more, or beyond ASCII: never another key
                    return refused(&d, "the key data is damaged");
                }
                let t: Vec<u8> = d[at..end].iter().cloned().filter(|c| !matches!(c, b' ' | 9 | 10 | 13)).collect();
                let t = String::from_utf8(t).unwrap();
                match b64::dec(&t) {
                    Ok(k) if k.is_empty() => trivial("empty", i),
                    Ok(k) => is(&d, KeyFileType::Xml, &k),
                    Err(_) => {
                        // characters whose unused bits are set: other programs differ, only another key is wrong
                        let loose = t.trim_end_matches('=').len() % 4 != 1 && t.len() % 4 == 0 && t.trim_end_matches('=').chars().all(|c| c.is_ascii_alphanumeric() || c == '+' || c == '/') && t.len() - t.trim_end_matches('=').len() < 3;
                        if loose {
                            return trivial("unused bits", i);
                        }
                        refused(&d, "the key data is not base64")
                    }
                }
            },
            move |i| {
                let _ = &p2;
                format!("byte {:#04x} {} place {} of the key data", i / 2 % 256, if i % 2 == 1 { "before" } else { "at" }, i / 512)
            },
        )
        .into(),
    );
    // unfinished data and whole-file prefixes
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    for (j, c) in [vec![], vec![Ch::White(1)], vec![Ch::Order(1)], vec![Ch::Order(2), Ch::Data(5)], vec![Ch::Decl(5), Ch::Gap(6, 7)], vec![Ch::Tail(3)], vec![Ch::Data(6)], vec![Ch::Gap(8, 0), Ch::Gap(0, 0)]].into_iter().enumerate() {
        files.push((format!("layout {}", j), doc(&c).write(&key)));
    }
    files.push(("saved".into(), {
        let mut b = vec![];
        lk::kf(&key, KeyFileType::Xml).save(&mut b).expect("save");
        b
    }));
    let total: u64 = files.iter().map(|f| f.1.len() as u64).sum();
    let fs = Arc::new(files);
    let find = move |fs: &[(String, Vec<u8>)], mut i: u64| -> (usize, usize) {
        for (j, f) in fs.iter().enumerate() {
            if i < f.1.len() as u64 {
                return (j, i as usize);
            }
            i -= f.1.len() as u64;
        }
        unreachable!()
    };
    let (f1, f2, k1) = (fs.clone(), fs.clone(), key.clone());
    v.push(
        Space::new(
            "prefixes",
            "every prefix of nine XML key files: the key, once the document is complete, else refused",
            total,
            move |i| {
                let (j, n) = find(&f1, i);
                let b = &f1[j].1[..n];
                let close = b.windows(10).any(|w| w == b"</KeyFile>");
                match n {
                    32 => is(b, KeyFileType::Binary, b),
                    64 => refused(b, "64 bytes, not hexadecimal"),
                    _ if close && reference(b).is_some() => is(b, KeyFileType::Xml, &k1),
                    _ => refused(b, "the document is incomplete"),
                }
            },
            move |i| {
                let (j, n) = find(&f2, i);
                format!("{} cut to {} bytes", f2[j].0, n)
            },
        )
        .into(),
    );
    let (f1, f2) = (fs.clone(), fs.clone());
    v.push(
        Space::new(
            "tags",
            "every stretch that is one tag removed, doubled or renamed in nine XML key files: refused, or the key",
            fs.iter().map(|f| f.1.iter().filter(|b| **b == b'<').count() as u64 * 3).sum(),
            move |i| {
                let (mut j, mut k) = (0, i);
                loop {
                    let n = f1[j].1.iter().filter(|b| **b == b'<').count() as u64 * 3;
                    if k < n {
                        break;
                    }
                    k -= n;
                    j += 1;
                }
                let f = &f1[j].1;
                let s = f.iter().enumerate().filter(|x| *x.1 == b'<').nth((k / 3) as usize).unwrap().0;
                let e = s + f[s..].iter().position(|b| *b == b'>').unwrap() + 1;
                let d: Vec<u8> = match k % 3 {
                    0 => [&f[..s], &f[e..]].concat(),
                    1 => [&f[..e], &f[s..]].concat(),
                    _ => {
                        let mut t = f.to_vec();
                        let q = s + if f[s + 1] == b'/' { 2 } else { 1 };
                        t[q] = if t[q] == b'Z' { b'Y' } else { b'Z' };
                        t
                    }
                };
                if [32, 64].contains(&d.len()) {
                    return trivial("length", i);
                }
                match reference(&d) {
                    Some(k) => match kopen(&d) {
                        Ok(r) if r.key.unsecure() == &k[..] => good("still a key file", digest(&d)),
                        Ok(r) => bad("content", format!("{:?} opens with key {}, by the reference it holds {}", shown(&d), b64::hex(r.key.unsecure()), b64::hex(&k))),
                        Err(_) => trivial("refused", digest(&d)),
                    },
                    None => refused(&d, "a tag is broken"),
                }
            },
            move |i| format!("tag case {} of {} files", i, f2.len()),
        )
        .into(),
    );
    // generated key files
    v.push(
        Space::new(
            "new",
            "generated key files of each kind under many random streams: kind, length, saving and reopening",
            4 * ctx.q(2000, 20000),
            |i| {
                let (k, t) = match i % 4 {
                    0 => (KeyFile::new(), KeyFileType::Xml),
                    1 => (KeyFile::new_xml(), KeyFileType::Xml),
                    2 => (KeyFile::new_hex(), KeyFileType::Hex),
                    _ => (KeyFile::new_binary(), KeyFileType::Binary),
                };
                let k = match k {
                    Ok(k) => k,
                    Err(e) => return bad("new", format!("no key file: {:?}", e)),
                };
                if k.file_type != t || k.key.unsecure().len() != 32 {
                    return bad("new", format!("a new {} key file is {} with {} bytes", kname(&t), kname(&k.file_type), k.key.unsecure().len()));
                }
                saved(k.key.unsecure(), t)
            },
            |i| format!("generated key file {}", i),
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C14",
        level: "exploration",
        rule: "every file opens as the kind and key the reference reading gives, or is refused; saved files are the standard form and reopen",
        items,
        assumptions: &[
            "Trusts the harness's own XML reader and base64; every generated layout is first read with them.",
            "Not judged: an empty Data element, repeated Data or Key elements, text outside the root, base64 with unused bits set, the letter case of written hex digits.",
        ],
    }
}
