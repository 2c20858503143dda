//! Files of an independent encoder, under every freedom the format leaves to its writer.
use crate::engine::*;
use crate::kdbx::{self, Params};
use crate::lk::*;
use crate::model::*;
use crate::xmlmodel::{self, el, tx, Style, Text, Tx, X};
use std::sync::Arc;

#[derive(Clone)]
pub struct Dialect {
    pub style: Style,
    pub text: Text,
    pub params: Params,
    /// 0 one block, n > 0 blocks of n bytes, -1 two halves, -2 first byte apart, -3 last byte apart
    pub split: i64,
    /// 0 deflate fast, 1 stored with a file name, 2 deflate best
    pub gz: u8,
    /// index of element, position among its children (0 first, 1 last, 2 middle), kind
    pub unknown_at: Option<(usize, u8, u8)>,
    pub trailing: usize,
}

pub fn dialect(ck: [u8; 32]) -> Dialect {
    Dialect { style: Style::default(), text: Text::default(), params: Params::new(ck), split: 0, gz: 0, unknown_at: None, trailing: 0 }
}

type Apply = Box<dyn Fn(&mut Dialect) + Sync + Send>;
pub struct Freedom {
    pub dim: usize,
    pub name: String,
    pub f: Apply,
}

pub fn freedoms() -> Vec<Freedom> {
    let mut v: Vec<Freedom> = vec![];
    let mut dim = 0;
    macro_rules! d {
        ($($name:expr => $f:expr),+ $(,)?) => {{
            dim += 1;
            $( v.push(Freedom { dim, name: $name.into(), f: Box::new($f) }); )+
        }};
    }
    d!("lower-case booleans" => |d| d.style.bool_case = 1, "upper-case booleans" => |d| d.style.bool_case = 2);
    d!("Null" => |d| d.style.null_form = 1, "empty nullable booleans" => |d| d.style.null_form = 2);
    d!("lower-case attributes" => |d| d.style.attr_case = 1, "upper-case attributes" => |d| d.style.attr_case = 2);
    d!("children reversed" => |d| d.style.child_order = 1, "children rotated" => |d| d.style.child_order = 2, "children odd/even" => |d| d.style.child_order = 3);
    d!("defaults omitted" => |d| d.style.omit_defaults = true);
    d!("pool raw Compressed=False" => |d| d.style.pool = 1, "pool raw" => |d| d.style.pool = 2, "pool stored gzip" => |d| d.style.pool = 3,
       "pool protected" => |d| d.style.pool = 4, "pool half protected" => |d| d.style.pool = 5, "pool gzip in members" => |d| d.style.pool = 6);
    d!("attachments compressed in place" => |d| d.style.inline = 1, "attachments Compressed=False in place" => |d| d.style.inline = 2);
    d!("protected in memory only" => |d| d.style.prot = 1);
    d!("explicit Protected=False" => |d| d.style.explicit_false = true);
    d!("empty unknown elements everywhere" => |d| d.style.unknown = 1, "unknown texts everywhere" => |d| d.style.unknown = 2, "unknown nested elements everywhere" => |d| d.style.unknown = 3);
    d!("no header hash" => |d| d.style.hash = false);
    d!("lower-case colours" => |d| d.style.upper_hex_color = false);
    d!("other generator" => |d| d.style.generator = "KeePassXC <&> é".into(), "empty generator" => |d| d.style.generator = "".into());
    d!("dates +00:00" => |d| d.style.dates = 1, "dates +05:30" => |d| d.style.dates = 2, "dates -08:00" => |d| d.style.dates = 3, "dates with fractions" => |d| d.style.dates = 4);
    d!("leading zeros" => |d| d.style.zeros = true);
    d!("white space around values" => |d| d.style.room = 1, "base64 in lines" => |d| d.style.room = 2);
    d!("no indent" => |d| d.text.indent = 0, "indent CRLF" => |d| d.text.indent = 2);
    d!("no self-closing tags" => |d| d.text.self_close = false);
    d!("decimal references" => |d| d.text.escape = 1, "hex references" => |d| d.text.escape = 2, "CDATA" => |d| d.text.escape = 3, "split CDATA" => |d| d.text.escape = 4);
    d!("comments between elements" => |d| d.text.comments = 1, "comments inside texts" => |d| d.text.comments = 2);
    d!("no declaration" => |d| d.text.decl = 1, "BOM and other declaration" => |d| d.text.decl = 2);
    d!("single quotes" => |d| d.text.single_quotes = true);
    d!("white space in tags" => |d| d.text.tag_space = true);
    d!("attributes on the document element" => |d| d.text.extra_root_attrs = true);
    d!("CR LF line ends" => |d| d.text.eol = 1, "CR line ends" => |d| d.text.eol = 2);
    d!("not compressed" => |d| d.params.gzip = false, "stored gzip" => |d| d.gz = 1, "best gzip" => |d| d.gz = 2,
       "gzip in two members" => |d| d.gz = 3, "gzip in members of 100" => |d| d.gz = 4, "gzip with all header fields" => |d| d.gz = 5);
    d!("blocks of 1" => |d| d.split = 1, "blocks of 16" => |d| d.split = 16, "blocks of 100" => |d| d.split = 100, "blocks of 1024" => |d| d.split = 1024,
       "two halves" => |d| d.split = -1, "first byte apart" => |d| d.split = -2, "last byte apart" => |d| d.split = -3);
    d!("header reversed" => |d| d.params.order.reverse(), "header rotated" => |d| d.params.order.rotate_left(3), "header by id" => |d| d.params.order.sort());
    d!("comment" => |d| d.params.comment = Some(b"other comment".to_vec()), "empty comment" => |d| d.params.comment = Some(vec![]), "long comment" => |d| d.params.comment = Some(vec![7; 65535]), "no comment" => |d| d.params.comment = None);
    d!("empty end field" => |d| d.params.end_data = vec![], "long end field" => |d| d.params.end_data = vec![1; 300]);
    d!("rounds 0" => |d| d.params.rounds = 0, "rounds 7" => |d| d.params.rounds = 7, "rounds 6000" => |d| d.params.rounds = 6000);
    d!("version 3.0" => |d| d.params.minor = 0, "version 3.65535" => |d| d.params.minor = 0xffff);
    d!("secrets of zeros" => |d| { d.params.psk = [0; 32]; d.params.ssb = [0; 32]; d.params.iv = [0; 16]; d.params.master_seed = [0; 32]; d.params.transform_seed = [0; 32]; },
       "secrets of ones" => |d| { d.params.psk = [255; 32]; d.params.ssb = [255; 32]; d.params.iv = [255; 16]; });
    v
}

pub fn cut(z: &[u8], split: i64) -> Vec<Vec<u8>> {
    let n = z.len();
    match split {
        0 => vec![z.to_vec()],
        -1 => vec![z[..n / 2].to_vec(), z[n / 2..].to_vec()],
        -2 => vec![z[..1].to_vec(), z[1..].to_vec()],
        -3 => vec![z[..n - 1].to_vec(), z[n - 1..].to_vec()],
        k => z.chunks(k as usize).map(|c| c.to_vec()).collect(),
    }
}

pub fn tree_of(m: &MDb, d: &Dialect) -> X {
    let hash = crate::refs::sha::sha256(&d.params.header());
    let mut x = xmlmodel::encode(m, &d.style, &hash);
    if let Some((n, at, kind)) = d.unknown_at {
        let mut n = n;
        if let Some(e) = x.nth_mut(&mut n) {
            let pos = match at {
                0 => 0,
                1 => e.kids.len(),
                _ => e.kids.len() / 2,
            };
            e.kids.insert(pos, xmlmodel::unknown_elem(kind));
        }
    }
    x
}

pub fn file_of_text(s: &str, d: &Dialect) -> Vec<u8> {
    let z = if !d.params.gzip {
        s.as_bytes().to_vec()
    } else if d.gz == 1 {
        kdbx::gzip_stored(s.as_bytes(), Some("database.xml"))
    } else if d.gz == 3 {
        kdbx::gzip_members(s.as_bytes(), s.len() / 2)
    } else if d.gz == 4 {
        kdbx::gzip_members(s.as_bytes(), 100)
    } else if d.gz == 5 {
        kdbx::gzip_full(s.as_bytes())
    } else if d.gz == 2 {
        use std::io::Write;
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::best());
        e.write_all(s.as_bytes()).unwrap();
        e.finish().unwrap()
    } else {
        kdbx::gzip(s.as_bytes())
    };
    let blocks: Vec<Vec<u8>> = cut(&z, d.split).into_iter().filter(|b| !b.is_empty()).collect();
    let mut f = d.params.seal(&kdbx::stream(&blocks));
    f.extend(vec![0u8; d.trailing]);
    f
}

pub fn file_of(m: &MDb, d: &Dialect) -> Vec<u8> {
    file_of_text(&xmlmodel::serialise(&tree_of(m, d), &d.text, d.params.salsa()), d)
}

/// What reading the file must give.
pub fn expected(m: &MDb, d: &Dialect) -> MDb {
    let mut w = m.clone();
    let p = &d.params;
    w.ckey = p.ckey;
    w.comment = p.comment.clone();
    w.gzip = p.gzip;
    w.rounds = p.rounds;
    w.version = (p.major, p.minor);
    w.generator = d.style.generator.clone();
    w.root.fix_parents(NIL);
    w
}

pub fn judge(m: &MDb, d: &Dialect, key: &kpdb::CompositeKey) -> Res {
    judge_file(m, d, key, file_of(m, d))
}

fn judge_file(m: &MDb, d: &Dialect, key: &kpdb::CompositeKey, f: Vec<u8>) -> Res {
    let got = match open(&f, key) {
        Ok(g) => of(&g),
        Err(e) => return bad("refused", format!("a conforming file does not open: {:?}", e)),
    };
    if let Some(x) = diff(&expected(m, d), &got) {
        return bad("content", format!("the file is read wrongly: {}", x));
    }
    good(if d.params.gzip { "read, gzip" } else { "read, plain" }, digest(&f))
}

/// One large model as KeePass writes it, in blocks of a megabyte or (uncompressed) in one.
fn massive(m: &MDb) -> Res {
    let (key, ck) = pw("c03");
    let mut d = dialect(ck);
    d.params.gzip = m.gzip;
    d.params.version_of(m);
    if m.gzip {
        d.split = 1 << 20;
    }
    judge(m, &d, &key)
}

/// A model as three other writers put it.
fn sized(m: &MDb) -> Res {
    let (key, ck) = pw("c03");
    if unrepresentable(m) || has_far_date(m) {
        return trivial("not representable", m.root.entries.len() as u64);
    }
    let mut h = vec![];
    for w in 0..3 {
        let mut d = dialect(ck);
        d.params.gzip = m.gzip != (w == 1);
        d.params.version_of(m);
        match w {
            1 => {
                d.style.child_order = 1;
                d.style.pool = 1;
                d.split = 65_536;
                d.text.indent = 2;
            }
            2 => {
                d.style.prot = 1;
                d.style.omit_defaults = true;
                d.text.eol = 2;
                d.text.escape = 1;
                d.split = 1000;
            }
            _ => {}
        }
        judge(m, &d, &key)?;
        h.push(digest(&file_of(m, &d)));
    }
    good_n("read", digest(&h), 3)
}

fn has_far_date(m: &MDb) -> bool {
    let far = |t: &T| t.0 < -62_167_219_200 || t.0 >= 253_402_300_800 || t.1 >= 1_000_000_000;
    fn times(t: &MTimes) -> [T; 5] {
        [t.creation, t.expiry, t.access, t.modification, t.location]
    }
    fn entry(e: &MEntry, v: &mut Vec<T>) {
        v.extend(times(&e.times));
        e.history.iter().for_each(|h| entry(h, v));
    }
    fn group(g: &MGroup, v: &mut Vec<T>) {
        v.extend(times(&g.times));
        g.entries.iter().for_each(|e| entry(e, v));
        g.groups.iter().for_each(|s| group(s, v));
    }
    let mut v = vec![m.def_username_changed, m.description_changed, m.templates_changed, m.mk_changed, m.name_changed, m.bin_changed];
    group(&m.root, &mut v);
    v.iter().any(far)
}

fn contents() -> Vec<(&'static str, MDb)> {
    let mut lines = MDb::new([0; 32]);
    lines.gzip = true;
    lines.name = "\n\n".into();
    lines.description = " a\n b\t\n".into();
    lines.custom_data.insert("\n".into(), " \n ".into());
    lines.binaries.insert("0".into(), (0..200).map(|i| (i * 31) as u8).collect());
    let mut e = MEntry::new(uid(5)).s(MKey::Notes, "first\nsecond\n\nfourth ]]> <b>&amp;</b> \r end\n").s(MKey::Title, " ").p(MKey::Password, "\n\r\n ").s(MKey::Url, "").p(MKey::Username, "");
    e.strings.insert(MKey::Other("".into()), SVal::Plain("empty key".into()));
    e.strings.insert(MKey::Other("multi\nline".into()), SVal::Plain("\u{10ffff}\u{e000}\u{fffd}".into()));
    e.binaries.insert("".into(), BVal::Plain(vec![]));
    e.binaries.insert("p".into(), BVal::Prot(vec![]));
    e.binaries.insert("long".into(), BVal::Plain((0..700).map(|i| (i * 13) as u8).collect()));
    e.history = vec![e.clone()];
    lines.root.entries.push(e);
    lines.root.notes = "\n".into();
    lines.root.name = "".into();
    lines.root.fix_parents(NIL);
    vec![("every field set", rich([0; 32])), ("a small database", small([0; 32])), ("an empty database", MDb::new([0; 32])), ("line ends and white space", lines)]
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    let fr = Arc::new(freedoms());
    let cs = Arc::new(contents());
    let nc = cs.len() as u64;
    // combos of up to 2 (3) freedoms of different dimensions
    let k = fr.len();
    let mut combos: Vec<Vec<u16>> = vec![vec![]];
    for a in 0..k {
        combos.push(vec![a as u16]);
        for b in a + 1..k {
            if fr[a].dim != fr[b].dim {
                combos.push(vec![a as u16, b as u16]);
                if ctx.thorough() {
                    for c in b + 1..k {
                        if fr[c].dim != fr[b].dim {
                            combos.push(vec![a as u16, b as u16, c as u16]);
                        }
                    }
                }
            }
        }
    }
    let combos = Arc::new(combos);
    let n = combos.len() as u64 * nc;
    let (f1, c1, m1) = (fr.clone(), cs.clone(), combos.clone());
    let (f2, c2, m2) = (fr.clone(), cs.clone(), combos.clone());
    v.push(
        Space::new(
            "freedoms",
            "four contents under every freedom of the format and every pair of them (thorough: triple)",
            n,
            move |i| {
                let (key, ck) = pw("c03");
                let mut d = dialect(ck);
                for &x in &m1[(i / nc) as usize] {
                    (f1[x as usize].f)(&mut d);
                }
                judge(&c1[(i % nc) as usize].1, &d, &key)
            },
            move |i| format!("{}: {}", c2[(i % nc) as usize].0, m2[(i / nc) as usize].iter().map(|&x| f2[x as usize].name.as_str()).collect::<Vec<_>>().join(" + ")),
        )
        .into(),
    );
    // every value of every field in four dialects
    // (history inside a history item is nothing the format has)
    let ms: Arc<Vec<Mutator>> = Arc::new(mutators().into_iter().filter(|m| !m.0.starts_with(ENTRY_PLACES[11])).collect());
    let (a, b) = (ms.clone(), ms.clone());
    // dates beyond four-digit years and leap seconds have no standard form
    let reps = |m: &MDb| unrepresentable(m) || has_far_date(m);
    v.push(
        Space::new(
            "values",
            "every value of every field, in four dialects (plain, defaults omitted, everything unusual, protected in memory only)",
            ms.len() as u64 * 4,
            move |i| {
                let (key, ck) = pw("c03");
                let mut m = rich([0; 32]);
                (a[(i / 4) as usize].1)(&mut m);
                if reps(&m) {
                    return trivial("not representable", digest(&i));
                }
                let mut d = dialect(ck);
                d.params.gzip = i % 2 == 0;
                match i % 4 {
                    1 => d.style.omit_defaults = true,
                    2 => {
                        d.style = Style { bool_case: 1, null_form: 2, attr_case: 1, child_order: 1, omit_defaults: true, pool: 2, inline: 0, prot: 0, explicit_false: true, unknown: if i % 16 == 2 { 3 } else { 2 }, hash: false, upper_hex_color: false, generator: "x".into(), dates: 2, zeros: true, room: 1 };
                        d.text = Text { indent: 2, self_close: false, escape: 4, comments: 2, decl: 2, single_quotes: true, tag_space: true, extra_root_attrs: true, eol: 1 };
                        d.split = 777;
                    }
                    3 => {
                        d.style.prot = 1;
                        d.style.pool = 1;
                        d.text.eol = 2;
                        d.text.escape = 1;
                    }
                    _ => {}
                }
                d.params.version_of(&m);
                judge(&m, &d, &key)
            },
            move |i| format!("{}, dialect {}", b[(i / 4) as usize].0, i % 4),
        )
        .into(),
    );
    v.extend(super::spaces::sizes(ctx, sized));
    v.push(super::spaces::huge(ctx, massive));
    v.push(super::spaces::near(sized));
    // an unknown element at every position
    let elems: Vec<usize> = cs.iter().map(|c| tree_of(&c.1, &dialect([0; 32])).count()).collect();
    let mut where_: Vec<(usize, usize, u8, u8)> = vec![];
    for (c, n) in elems.iter().enumerate() {
        if c == 2 {
            continue;
        }
        for e in 0..*n {
            for at in 0..3 {
                for kind in 1..=3 {
                    where_.push((c, e, at, kind));
                }
            }
        }
    }
    let where_ = Arc::new(where_);
    let (w1, w2) = (where_.clone(), where_.clone());
    let (c1, c2) = (cs.clone(), cs.clone());
    v.push(
        Space::new(
            "unknown",
            "one unknown element (empty, with text, with nested elements of known names) at the start, middle and end of every element, of those with text only too",
            where_.len() as u64,
            move |i| {
                let (key, ck) = pw("c03");
                let (c, e, at, kind) = w1[i as usize];
                let mut d = dialect(ck);
                d.params.gzip = i % 2 == 0;
                let m = &c1[c].1;
                let mut x = tree_of(m, &d);
                let mut n = e;
                match x.nth_mut(&mut n) {
                    Some(t) if !t.kids.is_empty() => {}
                    Some(t) => {
                        // beside or amid the text of an element without children
                        let s = match &t.text {
                            Tx::None => String::new(),
                            Tx::Str(s) => s.clone(),
                            _ => return trivial("encrypted", i),
                        };
                        let cut = match at {
                            0 => 0,
                            1 => s.len(),
                            _ => (0..=s.len() / 2).rev().find(|n| s.is_char_boundary(*n)).unwrap(),
                        };
                        let u = xmlmodel::serialise(&xmlmodel::unknown_elem(kind), &Text { decl: 1, ..d.text.clone() }, d.params.salsa());
                        t.text = Tx::Raw(format!("{}{}{}", xmlmodel::esc_min(&s[..cut]), u, xmlmodel::esc_min(&s[cut..])));
                        let f = file_of_text(&xmlmodel::serialise(&x, &d.text, d.params.salsa()), &d);
                        return judge_file(m, &d, &key, f);
                    }
                    _ => return trivial("no such element", i),
                }
                d.unknown_at = Some((e, at, kind));
                judge(m, &d, &key)
            },
            move |i| {
                let (c, e, at, kind) = w2[i as usize];
                format!("{}: unknown element kind {} in element {} at {}", c2[c].0, kind, e, ["start", "end", "middle"][at as usize])
            },
        )
        .into(),
    );
    // header orders: every exchange of two fields, every rotation, every placement of one field
    let mut orders: Vec<Vec<u8>> = vec![];
    let base: Vec<u8> = vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    for a in 0..10 {
        let mut r = base.clone();
        r.rotate_left(a);
        orders.push(r.clone());
        r.reverse();
        orders.push(r);
        for b in 0..10 {
            if a < b {
                let mut o = base.clone();
                o.swap(a, b);
                orders.push(o);
            }
            let mut o = base.clone();
            let x = o.remove(a);
            o.insert(b, x);
            orders.push(o);
        }
    }
    if ctx.thorough() {
        // all orders in which pairs of pairs are exchanged
        let swaps: Vec<(usize, usize)> = (0..10).flat_map(|a| (a + 1..10).map(move |b| (a, b))).collect();
        for x in &swaps {
            for y in &swaps {
                for z in &swaps {
                    let mut o = base.clone();
                    o.swap(x.0, x.1);
                    o.swap(y.0, y.1);
                    o.swap(z.0, z.1);
                    orders.push(o);
                }
            }
        }
    }
    orders.sort();
    orders.dedup();
    let orders = Arc::new(orders);
    let (o1, o2) = (orders.clone(), orders.clone());
    v.push(
        Space::new(
            "header orders",
            "orders of the header fields: every rotation and its reverse, every exchange of two fields, every move of one field (thorough: every composition of three exchanges)",
            orders.len() as u64 * 2,
            move |i| {
                let (key, ck) = pw("c03");
                let mut d = dialect(ck);
                d.params.order = o1[(i / 2) as usize].clone();
                d.params.comment = Some(b"c".to_vec());
                d.style.hash = i % 2 == 0;
                judge(&small([0; 32]), &d, &key)
            },
            move |i| format!("order {:?}, header hash {}", o2[(i / 2) as usize], i % 2 == 0),
        )
        .into(),
    );
    // group trees
    let maxn = ctx.q(4, 5);
    let shapes: Arc<Vec<Vec<usize>>> = Arc::new((1..=maxn).flat_map(trees).collect());
    let (s1, s2) = (shapes.clone(), shapes.clone());
    v.push(
        Space::new(
            "trees",
            "every tree of groups up to the bound, with entries before, after and between the groups",
            shapes.len() as u64 * 4,
            move |i| {
                let (key, ck) = pw("c03");
                let mut d = dialect(ck);
                d.style.child_order = (i % 4) as u8;
                let mut m = MDb::new([0; 32]);
                m.root = tree_group(&s1[(i / 4) as usize], &|g| {
                    let mut x = MGroup::new(uid(g as u32 + 1), &format!("G{}", g));
                    for e in 0..2 {
                        let mut en = MEntry::new(uid(100 + 2 * g as u32 + e)).p(MKey::Password, &format!("p{}.{}", g, e)).s(MKey::Title, &format!("t{}.{}", g, e));
                        en.history = (0..e).map(|h| MEntry::new(en.uuid).p(MKey::Password, &format!("old{}", h))).collect();
                        en.assoc = (0..2).map(|h| (format!("k{}", h), format!("w{}", h))).collect();
                        x.entries.push(en);
                    }
                    x
                });
                judge(&m, &d, &key)
            },
            move |i| format!("tree {:?}, order {}", s2[(i / 4) as usize], i % 4),
        )
        .into(),
    );
    // inner stream positions: protected values of every length pair
    v.push(
        Space::new(
            "protected lengths",
            "three protected values of every combination of lengths around the inner cipher's block size",
            11 * 11 * 11,
            move |i| {
                const L: [usize; 11] = [0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 200];
                let (key, ck) = pw("c03");
                let d = dialect(ck);
                let mut m = MDb::new([0; 32]);
                let l = [L[(i % 11) as usize], L[(i / 11 % 11) as usize], L[(i / 121) as usize]];
                let s = |n: usize| -> String { (0..n).map(|j| (b'a' + (j % 26) as u8) as char).collect() };
                let mut e = MEntry::new(uid(1)).p(MKey::Password, &s(l[0])).p(MKey::Title, &s(l[1]));
                e.binaries.insert("b".into(), BVal::Prot(s(l[2]).into_bytes()));
                let mut e2 = MEntry::new(uid(2)).p(MKey::Password, "last");
                e2.history = vec![e.clone()];
                m.root.entries = vec![e, e2];
                judge(&m, &d, &key)
            },
            move |i| format!("lengths code {}", i),
        )
        .into(),
    );
    // the attributes of a string value
    const PS: [&str; 6] = ["", "True", "true", "TRUE", "False", "false"];
    const EXTRA: [&str; 8] = ["", "xml:space", "ProtectedX", "IsProtected", "ProtectInMemoryX", "Protect", "InMemory", "Encoding"];
    const TEXTS: [&str; 4] = ["value", "", "VmFsdWU=", "  <&> é "];
    const VALS: [&str; 3] = ["True", "False", ""];
    let n_attr = (6 * 6 * 2 * 8 * 3 * 3 * 4 * 2) as u64;
    let acase = |mut i: u64| {
        let mut k = |n: usize| {
            let r = (i % n as u64) as usize;
            i /= n as u64;
            r
        };
        (k(6), k(6), k(2), k(8), k(3), k(3), k(4), k(2))
    };
    v.push(
        Space::new(
            "value attributes",
            "a string value with every combination of Protected and ProtectInMemory (absent, or with each spelling of a boolean), in both orders, with every letter case and every extra attribute of another name in front: an encrypted value follows",
            n_attr,
            move |i| {
                let (p, m, order, extra, ev, case, text, place) = acase(i);
                if extra == 0 && ev > 0 {
                    return trivial("no extra attribute", i);
                }
                let (key, ck) = pw("c03");
                let d = dialect(ck);
                let (prot, mem) = ((1..4).contains(&p), (1..4).contains(&m));
                let mut model = small([0; 32]);
                let k = if place == 0 { MKey::Title } else { MKey::Other("of the user".into()) };
                let mut e = MEntry::new(uid(90)).p(MKey::Password, "after it");
                e.strings.insert(k.clone(), SVal::Plain("THE PLACE".into()));
                model.root.entries.insert(0, e);
                let mut x = tree_of(&model, &d);
                let mut done = 0;
                x.walk_mut(
                    &mut |e, _| {
                        if e.name != "Value" || e.text != Tx::Str("THE PLACE".into()) {
                            return;
                        }
                        done += 1;
                        let name = |n: &str| match case {
                            0 => n.to_string(),
                            1 => n.to_lowercase(),
                            _ => n.to_uppercase(),
                        };
                        e.attrs.clear();
                        if extra > 0 {
                            e.attrs.push((EXTRA[extra].into(), VALS[ev].into()));
                        }
                        let mut a = vec![];
                        if p > 0 {
                            a.push((name("Protected"), PS[p].to_string()));
                        }
                        if m > 0 {
                            a.push((name("ProtectInMemory"), PS[m].to_string()));
                        }
                        if order == 1 {
                            a.reverse();
                        }
                        e.attrs.extend(a);
                        let t = TEXTS[text];
                        e.text = match (prot, t) {
                            (true, t) => Tx::Secret(t.as_bytes().to_vec()),
                            (false, "") => Tx::None,
                            (false, t) => Tx::Str(t.into()),
                        };
                    },
                    &mut vec![],
                );
                assert_eq!(done, 1);
                let t = TEXTS[text].to_string();
                model.root.entries[0].strings.insert(k, if prot || mem { SVal::Prot(t.into()) } else { SVal::Plain(t.into()) });
                judge_file(&model, &d, &key, file_of_text(&xmlmodel::serialise(&x, &d.text, d.params.salsa()), &d))
            },
            move |i| {
                let (p, m, order, extra, ev, case, text, place) = acase(i);
                format!("Protected {:?}, ProtectInMemory {:?}, order {}, extra {:?}={:?}, letter case {}, text {:?}, {}", PS[p], PS[m], order, EXTRA[extra], VALS[ev], case, TEXTS[text], if place == 0 { "Title" } else { "a string of the user" })
            },
        )
        .into(),
    );
    // encrypted values where the library does not look
    let places: Vec<(usize, u8)> = {
        let d = dialect([0; 32]);
        let mut t = tree_of(&small([0; 32]), &d);
        (0..t.count()).filter(|&n| t.nth_mut(&mut { n }).map_or(false, |e| !e.kids.is_empty())).collect::<Vec<_>>().into_iter().flat_map(|n| (0..3).map(move |at| (n, at))).collect()
    };
    let places = Arc::new(places);
    let (p1, p2) = (places.clone(), places.clone());
    const LEN: [usize; 5] = [0, 1, 33, 64, 100];
    v.push(
        Space::new(
            "protected in unknown",
            "one unknown element holding an encrypted value (or an element with one, or such an element and a history of a history item) at every place of the document",
            places.len() as u64 * 5 * 3,
            move |i| {
                let (key, ck) = pw("c03");
                let (n, at) = p1[(i / 15) as usize];
                let d = dialect(ck);
                let m = small([0; 32]);
                let secret = X { text: Tx::Secret(vec![7; LEN[(i % 5) as usize]]), ..el("VerifSecret", vec![]).with("Protected", "True") };
                let add = match i / 5 % 3 {
                    0 => secret,
                    1 => el("VerifUnknown", vec![secret]),
                    _ => el("VerifUnknown", vec![tx("A", "a"), el("String", vec![tx("Key", "Password"), X { name: "Value".into(), ..secret }])]),
                };
                let mut x = tree_of(&m, &d);
                let mut k = n;
                let e = x.nth_mut(&mut k).unwrap();
                let pos = [0, e.kids.len() / 2, e.kids.len()][at as usize];
                e.kids.insert(pos, add);
                let f = file_of_text(&xmlmodel::serialise(&x, &d.text, d.params.salsa()), &d);
                let hide = |m: &MDb| {
                    let mut m = m.clone();
                    m.root.each_entry_mut(&mut |e| {
                        for v in e.strings.values_mut() {
                            if let SVal::Prot(b) = v {
                                b.clear();
                            }
                        }
                        for v in e.binaries.values_mut() {
                            if let BVal::Prot(b) = v {
                                b.clear();
                            }
                        }
                    });
                    m
                };
                let want = expected(&m, &d);
                match open(&f, &key) {
                    Err(kpdb::Error::XmlError(t)) if t.contains("UTF8") => bad("protected-in-unknown", "does not open: the encrypted value inside the unknown element was not counted in the inner stream"),
                    Err(e) => bad("refused", format!("a conforming file does not open: {:?}", e)),
                    Ok(g) => {
                        let got = of(&g);
                        match diff(&want, &got) {
                            None => good("opens", digest(&f)),
                            Some(why) => match diff(&hide(&want), &hide(&got)) {
                                None => bad("protected-in-unknown", format!("protected values after an unknown element with an encrypted value are read wrongly: {}", why)),
                                Some(why) => bad("content", format!("the file is read wrongly: {}", why)),
                            },
                        }
                    }
                }
            },
            move |i| format!("element {} at {}, length {}, kind {}", p2[(i / 15) as usize].0, p2[(i / 15) as usize].1, LEN[(i % 5) as usize], i / 5 % 3),
        )
        .into(),
    );
    // documents with almost nothing
    let minimal: Vec<(&'static str, X)> = vec![
        ("only the document element", el("KeePassFile", vec![])),
        ("empty Meta and Root", el("KeePassFile", vec![el("Meta", vec![]), el("Root", vec![])])),
        ("empty group", el("KeePassFile", vec![el("Root", vec![el("Group", vec![])])])),
        ("empty entry", el("KeePassFile", vec![el("Root", vec![el("Group", vec![el("Entry", vec![])])])])),
        ("name only", el("KeePassFile", vec![el("Meta", vec![tx("DatabaseName", "n")]), el("Root", vec![el("Group", vec![tx("Name", "g")])])])),
        ("deleted objects", el("KeePassFile", vec![el("Root", vec![el("Group", vec![tx("Name", "g")]), el("DeletedObjects", vec![el("DeletedObject", vec![tx("UUID", "AAAAAAAAAAAAAAAAAAAAAQ=="), tx("DeletionTime", "2016-01-01T00:00:00Z")])])])])),
    ];
    let minimal = Arc::new(minimal);
    let (x1, x2) = (minimal.clone(), minimal.clone());
    v.push(
        Space::new(
            "minimal",
            "documents in which nearly everything is absent open, with what is there",
            minimal.len() as u64 * 2,
            move |i| {
                let (key, ck) = pw("c03");
                let mut d = dialect(ck);
                d.params.gzip = i % 2 == 0;
                let (name, x) = &x1[(i / 2) as usize];
                let f = file_of_text(&xmlmodel::serialise(x, &d.text, d.params.salsa()), &d);
                let g = match open(&f, &key) {
                    Ok(g) => of(&g),
                    Err(e) => return bad("refused", format!("{}: {:?}", name, e)),
                };
                let ok = match i / 2 {
                    3 => g.root.entries.len() == 1 && g.root.entries[0].strings.is_empty() && g.root.groups.is_empty(),
                    4 => g.name == "n" && g.root.name == "g",
                    5 => g.root.name == "g" && g.root.entries.is_empty() && g.root.groups.is_empty(),
                    _ => g.root.entries.is_empty() && g.root.groups.is_empty() && g.name.is_empty(),
                };
                if !ok {
                    return bad("content", format!("{}: read as {}", name, clip400(&format!("{:?}", g))));
                }
                good("minimal", digest(&f))
            },
            move |i| x2[(i / 2) as usize].0.to_string(),
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C03",
        level: "model_checking",
        rule: "an independent encoder writes model databases under each enumerated dialect (single freedoms, pairs, thorough: triples; unknown elements at every position; header orders); the library opens each file and the result is compared with the model; a case is non-trivial if the file differs from the others",
        items,
        assumptions: &["the enumerated freedoms are those KDBX 3.1 writers use; numbers stay within 32 bits and icons within the standard set, as the library's types do"],
    }
}
