//! Conversions, over their whole ranges.
use crate::engine::*;
use crate::lk::*;
use crate::model::*;
use crate::xmlmodel::{self, X, Tx};
use kpdb::*;
use std::sync::Arc;

const HOSTILE: &[char] = &[
    '0', '9', 'a', 'f', 'A', 'F', 'g', 'G', '/', ':', '@', '`', '#', '+', '-', ' ', '\0', '\n', 'x', '_', '.', 'é', '٣', '０', 'Ａ', '\u{200b}', '\u{301}', '😀', '\u{ff}', 'l', 'O',
];

fn color_ref(s: &str) -> std::result::Result<(u8, u8, u8), Vec<ColorError>> {
    let c: Vec<char> = s.chars().collect();
    if c.len() < 7 {
        return Err(vec![ColorError::HexStringTooShort]);
    }
    if c.len() > 7 {
        return Err(vec![ColorError::HexStringTooLong]);
    }
    let mut e = vec![];
    if c[0] != '#' {
        e.push(ColorError::HexStringNoHashSign);
    }
    let mut v = [0u8; 3];
    for i in 0..3 {
        let p = &c[1 + 2 * i..3 + 2 * i];
        if p.iter().all(|c| c.is_ascii_hexdigit()) {
            v[i] = (p[0].to_digit(16).unwrap() * 16 + p[1].to_digit(16).unwrap()) as u8;
        } else {
            e.push([ColorError::InvalidRedValue, ColorError::InvalidGreenValue, ColorError::InvalidBlueValue][i].clone_());
        }
    }
    if e.is_empty() {
        Ok((v[0], v[1], v[2]))
    } else {
        Err(e)
    }
}
trait CloneErr {
    fn clone_(&self) -> ColorError;
}
impl CloneErr for ColorError {
    fn clone_(&self) -> ColorError {
        match self {
            ColorError::InvalidRedValue => ColorError::InvalidRedValue,
            ColorError::InvalidGreenValue => ColorError::InvalidGreenValue,
            _ => ColorError::InvalidBlueValue,
        }
    }
}

fn color(s: &str) -> Res {
    match (Color::from_hex_string(s), color_ref(s)) {
        (Ok(c), Ok(r)) if (c.red, c.green, c.blue) == r => {
            let back = c.to_hex_string();
            if back.to_lowercase() != s.to_lowercase() {
                return bad("color", format!("{:?} is shown as {:?}", s, back));
            }
            good("valid", digest(&s))
        }
        (Err(e), Err(l)) if l.contains(&e) => good(&format!("{:?}", e), digest(&s)),
        (g, w) => bad("color", format!("{:?} gives {:?}, by definition {:?}", s, g, w)),
    }
}

fn ranges(name: &str, what: &str, f: fn(i32) -> Option<String>) -> Item<'static> {
    // every 32-bit number, in 4096 pieces
    Space::new(
        name,
        what,
        4096,
        move |i| {
            let base = (i as u32) << 20;
            for j in 0..1u32 << 20 {
                if let Some(t) = f((base | j) as i32) {
                    return bad("number", t);
                }
            }
            good_n("2^20 numbers", i, 1 << 20)
        },
        |i| format!("numbers from {}", ((i as u32) << 20) as i32),
    )
    .into()
}

pub fn items(_ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![
        ranges("icons", "every 32-bit icon number", |n| {
            let r = Icon::from_i32(n);
            if (0..69).contains(&n) {
                let want = ICONS[n as usize];
                if r != Ok(want) || want.to_i32() != n {
                    return Some(format!("icon {} gives {:?}; {:?} gives {}", n, r, want, want.to_i32()));
                }
                None
            } else if r.is_err() {
                None
            } else {
                Some(format!("icon {} gives {:?}", n, r))
            }
        }),
        ranges("obfuscations", "every 32-bit obfuscation number", |n| {
            let r = Obfuscation::from_i32(n);
            let want = match n {
                0 => Some(Obfuscation::None),
                1 => Some(Obfuscation::UseClipboard),
                _ => None,
            };
            match want {
                Some(o) if r == Ok(o) && o.to_i32() == n => None,
                None if r == Err(ObfuscationError::InvalidValue) => None,
                _ => Some(format!("obfuscation {} gives {:?}", n, r)),
            }
        }),
    ];
    v.push(
        Space::new(
            "icon error",
            "numbers around the range give the documented error",
            400,
            |i| {
                let n = i as i32 - 200;
                if (0..69).contains(&n) {
                    return trivial("valid", i);
                }
                match Icon::from_i32(n) {
                    Err(IconError::InvalidIconId) => good("invalid value", i),
                    r => bad("number", format!("icon {} gives {:?}", n, r)),
                }
            },
            |i| format!("{}", i as i64 - 200),
        )
        .into(),
    );
    v.push(
        Space::new(
            "colours",
            "every colour: its text form, and its text form in upper and mixed case back",
            256,
            |i| {
                let red = i as u8;
                for gb in 0..=0xffffu32 {
                    let (g, b) = ((gb >> 8) as u8, gb as u8);
                    let c = Color { red, green: g, blue: b };
                    let s = c.to_hex_string();
                    let want = format!("#{:02x}{:02x}{:02x}", red, g, b);
                    if s.to_lowercase() != want {
                        return bad("color", format!("{:?} is written {}", c, s));
                    }
                    let upper = want.to_uppercase();
                    let mixed: String = want.chars().enumerate().map(|(i, c)| if (i as u32 + gb) % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
                    for t in [&s, &want, &upper, &mixed] {
                        match Color::from_hex_string(t) {
                            Ok(d) if d == c => {}
                            r => return bad("color", format!("{:?} gives {:?}", t, r)),
                        }
                    }
                }
                good_n("65536 colours", i, 65536 * 4)
            },
            |i| format!("red {}", i),
        )
        .into(),
    );
    // pairs of positions
    let bases = ["#12abEF", "#000000", "#ffffff"];
    let h = HOSTILE.len() as u64;
    v.push(
        Space::new(
            "colour texts",
            "the form of a colour with every pair of positions replaced by every pair of hostile characters",
            3 * 7 * 7 * h * h,
            move |i| {
                let (a, r) = (i % h, i / h);
                let (b, r) = (r % h, r / h);
                let (x, r) = (r % 7, r / 7);
                let (y, r) = (r % 7, r / 7);
                let mut c: Vec<char> = bases[r as usize].chars().collect();
                c[x as usize] = HOSTILE[a as usize];
                c[y as usize] = HOSTILE[b as usize];
                color(&c.into_iter().collect::<String>())
            },
            |i| format!("colour text {}", i),
        )
        .into(),
    );
    v.push(
        Space::new(
            "colour lengths",
            "texts of every length 0..40 of one character, with and without a hash sign; multi-byte characters making up the byte length",
            41 * h * 2,
            move |i| {
                let c = HOSTILE[(i % h) as usize];
                let n = (i / h / 2) as usize;
                let mut s: String = std::iter::repeat(c).take(n).collect();
                if i / h % 2 == 1 {
                    s.insert(0, '#');
                }
                color(&s)
            },
            |i| format!("length case {}", i),
        )
        .into(),
    );
    // string keys
    let names = [("Notes", StringKey::Notes), ("Password", StringKey::Password), ("Title", StringKey::Title), ("URL", StringKey::Url), ("UserName", StringKey::Username)];
    let mut texts: Vec<(String, Option<usize>)> = vec![];
    for (n, (name, _)) in names.iter().enumerate() {
        let c: Vec<char> = name.chars().collect();
        for bits in 0..1u32 << c.len() {
            texts.push((c.iter().enumerate().map(|(i, c)| if bits >> i & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(), Some(n)));
        }
        for i in 0..=c.len() {
            for x in HOSTILE.iter().chain(&['s', 'S', '\u{17f}', 'ı', 'İ', '\u{212a}', 'e', 'е', 'о', 'а']) {
                let mut t = c.clone();
                t.insert(i, *x);
                texts.push((t.iter().collect(), None));
                if i < c.len() {
                    let mut t = c.clone();
                    t[i] = *x;
                    let s: String = t.iter().collect();
                    if s.to_lowercase() != name.to_lowercase() {
                        texts.push((s, None));
                    }
                }
            }
            if i < c.len() {
                let mut t = c.clone();
                t.remove(i);
                texts.push((t.iter().collect(), None));
            }
        }
        texts.push((format!("{}{}", name, name), None));
        for (m, _) in &names {
            texts.push((format!("{} {}", name, m), None));
        }
    }
    v.push(
        Space::new(
            "string key characters",
            "every standard name with every Unicode character before, behind or inside it, around it, or in place of one of its characters",
            272 * 5,
            |i| {
                let (name, key) = &[("Notes", StringKey::Notes), ("Password", StringKey::Password), ("Title", StringKey::Title), ("URL", StringKey::Url), ("UserName", StringKey::Username)][(i % 5) as usize];
                let c: Vec<char> = name.chars().collect();
                let mut n = 0;
                for x in (i / 5 * 4096..(i / 5 + 1) * 4096).filter_map(|x| char::from_u32(x as u32)) {
                    let mut ts: Vec<(String, bool)> = vec![(format!("{}{}", x, name), false), (format!("{}{}", name, x), false), (format!("{}{}{}", x, name, x), false), (format!("{}{}{}", &name[..2], x, &name[2..]), false)];
                    for k in 0..c.len() {
                        let mut t = c.clone();
                        t[k] = x;
                        ts.push((t.iter().collect(), x.eq_ignore_ascii_case(&c[k])));
                    }
                    for (t, is) in ts {
                        let want = if is { key.clone() } else { StringKey::Other(t.clone()) };
                        if StringKey::from_string(&t) != want || (!is && want.to_string() != t) {
                            return bad("string key", format!("{:?} gives {:?}", t, StringKey::from_string(&t)));
                        }
                        n += 1;
                    }
                }
                good_n("kept or recognised", digest(&i), n.max(1))
            },
            |i| format!("name {} characters from {:x}", i % 5, i / 5 * 4096),
        )
        .into(),
    );
    for t in ["", "user", "Comment", "Note", "PIN", "Other(\"x\")", "notes:"] {
        texts.push((t.into(), None));
    }
    let texts = Arc::new(texts);
    let t2 = texts.clone();
    v.push(
        Space::new(
            "string keys",
            "every case variant of the standard names, and names differing by one inserted, changed or missing character",
            texts.len() as u64,
            move |i| {
                let (t, n) = &texts[i as usize];
                let names = [("Notes", StringKey::Notes), ("Password", StringKey::Password), ("Title", StringKey::Title), ("URL", StringKey::Url), ("UserName", StringKey::Username)];
                let got = StringKey::from_string(t);
                let want = match n {
                    Some(n) => names[*n].1.clone(),
                    None => StringKey::Other(t.clone()),
                };
                if got != want {
                    return bad("string key", format!("{:?} gives {:?}", t, got));
                }
                let s = want.to_string();
                let ws = match n {
                    Some(n) => names[*n].0,
                    None => t.as_str(),
                };
                if s != ws {
                    return bad("string key", format!("{:?} is written {:?}", want, s));
                }
                good(if n.is_some() { "standard" } else { "other" }, digest(t))
            },
            move |i| format!("{:?}", t2[i as usize].0),
        )
        .into(),
    );
    // the same conversions on the way through files
    let nums: Vec<i64> = (-3..75).chain([127, 128, 255, 256, 257, 300, 324, 65535, 65536, 65537, i32::MAX as i64, i32::MIN as i64, -255, -256]).collect();
    let nn = nums.len() as u64;
    v.push(
        Space::new(
            "in files",
            "files stating every icon number, obfuscation number around the range: valid ones are read as that value, others refused",
            nn * 3,
            move |i| {
                let n = nums[(i % nn) as usize];
                let what = i / nn;
                let (key, ck) = pw("k");
                let mut d = super::c03::dialect(ck);
                d.params.gzip = false;
                let mut m = MDb::new(ck);
                m.root.entries.push(MEntry::new(uid(3)));
                let mut x = super::c03::tree_of(&m, &d);
                let mut done = false;
                x.walk_mut(
                    &mut |e: &mut X, path: &[String]| {
                        let parent = path.last().map(|s| s.as_str()).unwrap_or("");
                        let hit = match what {
                            0 => e.name == "IconID" && parent == "Group",
                            1 => e.name == "IconID" && parent == "Entry",
                            _ => e.name == "DataTransferObfuscation",
                        };
                        if hit && !done {
                            e.text = Tx::Str(n.to_string());
                            done = true;
                        }
                    },
                    &mut vec![],
                );
                if !done {
                    return bad("harness", "element not found");
                }
                let f = super::c03::file_of_text(&xmlmodel::serialise(&x, &d.text, d.params.salsa()), &d);
                let max = if what == 2 { 2 } else { 69 };
                match (open(&f, &key), (0..max).contains(&n)) {
                    (Ok(db), true) => {
                        let g = of(&db);
                        let got = match what {
                            0 => g.root.icon,
                            1 => g.root.entries[0].icon,
                            _ => g.root.entries[0].at_obf,
                        };
                        if got as i64 != n {
                            return bad("number", format!("{} is read as {}", n, got));
                        }
                        good("read", digest(&(what, n)))
                    }
                    (Err(_), false) => good("refused", digest(&(what, n))),
                    (r, _) => bad("number", format!("a file with {} {} gives {:?}", ["group icon", "entry icon", "obfuscation"][what as usize], n, r.map(|_| "a database"))),
                }
            },
            |i| format!("case {}", i),
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C18",
        level: "exploration",
        rule: "whole ranges: all 32-bit icon and obfuscation numbers, all 2^24 colours, all pairs of hostile characters in a colour, all case variants and near misses of key names; compared with tables and rules written independently; non-trivial: a distinct input (number ranges count as one case per 2^20 numbers)",
        items,
        assumptions: &["when several parts of a colour are wrong, naming any one of them is right"],
    }
}
