//! Thin access to the library under test, and shared fixtures.
use crate::model::*;
use crate::refs::sha;
use kpdb::*;
type Result<A, B> = std::result::Result<A, B>;
use secstr::SecStr;

pub fn save(db: &Database) -> Result<Vec<u8>, Error> {
    let mut v = Vec::new();
    db.save(&mut v)?;
    Ok(v)
}
pub fn open(bytes: &[u8], key: &CompositeKey) -> Result<Database, Error> {
    Database::open(&mut &bytes[..], key)
}
pub fn pw_ref(pw: &str) -> [u8; 32] {
    sha::sha256(&sha::sha256(pw.as_bytes()))
}
pub fn pw(s: &str) -> (CompositeKey, [u8; 32]) {
    (CompositeKey::from_password(s), pw_ref(s))
}
pub fn kf(key: &[u8], t: KeyFileType) -> KeyFile {
    KeyFile { key: SecStr::new(key.to_vec()), file_type: t }
}

pub fn is_xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}
pub fn xml_ok(s: &str) -> bool {
    s.chars().all(is_xml_char)
}

fn entry_unrep(e: &MEntry) -> bool {
    let t = |s: &str| !xml_ok(s);
    e.assoc.iter().any(|a| t(&a.0) || t(&a.1))
        || t(&e.at_seq)
        || t(&e.override_url)
        || t(&e.tags)
        || e.binaries.iter().any(|(k, v)| t(k) || matches!(v, BVal::Ref(r) if t(r)))
        || e.strings.iter().any(|(k, v)| {
            t(&k.name())
                || match v {
                    SVal::Plain(s) => t(s),
                    SVal::Prot(b) => std::str::from_utf8(b).is_err(),
                }
        })
        || e.history.iter().any(entry_unrep)
}
fn group_unrep(g: &MGroup) -> bool {
    !xml_ok(&g.name) || !xml_ok(&g.notes) || !xml_ok(&g.at_seq) || g.entries.iter().any(entry_unrep) || g.groups.iter().any(group_unrep)
}
/// The content cannot be carried by the format, so saving may fail.
pub fn unrepresentable(m: &MDb) -> bool {
    let t = |s: &str| !xml_ok(s);
    m.comment.as_ref().map_or(false, |c| c.len() > 65535)
        || m.binaries.keys().any(|k| t(k))
        || m.custom_data.iter().any(|(k, v)| t(k) || t(v))
        || t(&m.def_username)
        || t(&m.description)
        || t(&m.name)
        || group_unrep(&m.root)
        || group_depth(&m.root) > 256
}
fn group_depth(g: &MGroup) -> usize {
    1 + g.groups.iter().map(group_depth).max().unwrap_or(0)
}
/// A chain of nested groups.
pub fn chain(depth: usize) -> MGroup {
    let mut g = MGroup::new(uid(depth as u32), "deepest");
    for d in (1..depth).rev() {
        let mut p = MGroup::new(uid(d as u32), &format!("level {}", d));
        p.entries.push(MEntry::new(uid(10_000 + d as u32)).p(MKey::Password, &format!("pw {}", d)));
        p.groups.push(g);
        g = p;
    }
    g
}

// ---------------------------------------------------------------- fixtures

fn tm(n: i64) -> T {
    T(1_400_000_000 + n * 86_461, 0)
}
fn times(n: i64) -> MTimes {
    MTimes { creation: tm(n), expiry: tm(n + 1), expires: n % 2 == 0, access: tm(n + 2), modification: tm(n + 3), location: tm(n + 4), usage: 5 + n as i32 }
}

pub fn full_entry(n: u32) -> MEntry {
    let mut e = MEntry::new(uid(n));
    e.assoc = vec![(format!("{{USERNAME}}{}", n), format!("Window {}", n)), ("k2".into(), "w2".into())];
    e.at_seq = format!("seq{}", n);
    e.at_enabled = false;
    e.at_obf = 1;
    e.bg = Some([1, 0xab, n as u8]);
    e.fg = Some([0xfe, 2, 3]);
    e.binaries.insert("plain.bin".into(), BVal::Plain(vec![0, 1, 2, 255, n as u8]));
    e.binaries.insert("prot.bin".into(), BVal::Prot(format!("secret attachment {}", n).into_bytes()));
    e.binaries.insert("pool".into(), BVal::Ref("0".into()));
    e.custom_icon = Some(uid(900));
    e.icon = (n % 69) as i32;
    e.override_url = format!("cmd://{}", n);
    e.tags = format!("tag{};b", n);
    e.times = times(n as i64);
    e.s(MKey::Title, &format!("Title {}", n))
        .s(MKey::Username, &format!("user{}", n))
        .p(MKey::Password, &format!("pässword-{}", n))
        .s(MKey::Url, &format!("https://{}.example/?a=1&b=2", n))
        .s(MKey::Notes, "line one\nline <two> & \"three\"")
        .p(MKey::Other("PIN".into()), &format!("{}", 10000 + n))
        .s(MKey::Other("Custom field".into()), "value")
}

/// A database in which every field has a value of its own.
pub fn rich(ckey: [u8; 32]) -> MDb {
    let mut m = MDb::new(ckey);
    m.comment = Some(b"a comment".to_vec());
    m.rounds = 2;
    m.binaries.insert("0".into(), b"pool zero pool zero pool zero".to_vec());
    m.binaries.insert("1".into(), vec![]);
    m.binaries.insert("seven".into(), (0..=255).collect());
    m.color = Some([0x12, 0x9a, 0xff]);
    m.custom_data.insert("plugin.a".into(), "on".into());
    m.custom_data.insert("plugin.b".into(), "x < y".into());
    m.custom_icons.insert(uid(900), vec![0x89, b'P', b'N', b'G']);
    m.custom_icons.insert(uid(901), vec![1]);
    m.def_username = "default user".into();
    m.def_username_changed = tm(1);
    m.description = "The description".into();
    m.description_changed = tm(2);
    m.templates_changed = tm(3);
    m.templates_uuid = uid(801);
    m.history_max_items = 11;
    m.history_max_size = 12;
    m.last_selected = uid(802);
    m.last_top_group = uid(803);
    m.maintenance_days = 13;
    m.mk_change_force = 14;
    m.mk_change_rec = 15;
    m.mk_changed = tm(4);
    m.name = "Database name".into();
    m.name_changed = tm(5);
    m.prot = [true, false, true, true, false];
    m.bin_changed = tm(6);
    m.bin_enabled = false;
    m.bin_uuid = uid(804);
    let mut root = MGroup::new(uid(1), "Root group");
    root.notes = "root notes".into();
    root.icon = 49;
    root.custom_icon = Some(uid(901));
    root.at_seq = "{PASSWORD}".into();
    root.enable_auto_type = Some(true);
    root.enable_searching = Some(false);
    root.is_expanded = false;
    root.last_top = uid(101);
    root.times = times(7);
    let mut e = full_entry(101);
    e.history = vec![full_entry(101), full_entry(101)];
    e.history[0].times = times(50);
    e.history[0].strings.insert(MKey::Title, SVal::Plain("older".into()));
    e.history[1].strings.insert(MKey::Password, SVal::Prot(b"old".to_vec()));
    root.entries = vec![e, full_entry(102)];
    let mut sub = MGroup::new(uid(2), "Sub");
    sub.enable_auto_type = Some(false);
    sub.times = times(9);
    sub.entries = vec![full_entry(103)];
    let mut subsub = MGroup::new(uid(3), "SubSub");
    subsub.enable_searching = Some(true);
    subsub.entries = vec![full_entry(104).p(MKey::Notes, "protected notes")];
    sub.groups = vec![subsub];
    let mut sib = MGroup::new(uid(4), "Sibling");
    sib.times = times(20);
    root.groups = vec![sub, sib];
    m.root = root;
    m.root.fix_parents(NIL);
    m
}

/// A small database with one of everything that matters to the container.
pub fn small(ckey: [u8; 32]) -> MDb {
    let mut m = MDb::new(ckey);
    m.name = "small".into();
    m.rounds = 1;
    m.root.entries.push(MEntry::new(uid(10)).s(MKey::Title, "T").p(MKey::Password, "hunter2"));
    m.root.fix_parents(NIL);
    m
}

pub type Mutator = (String, Box<dyn Fn(&mut MDb) + Sync + Send>);

pub fn texts() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "a", " ", "  ", "\t", "\n", "\r", "\r\n", "a\nb", "a\rb", "a\r\nb", " lead", "trail ", "\nx\n", "\u{a0}", "\u{85}", "\u{2028}",
        "\u{3000}", "<", ">", "&", "\"", "'", "]]>", "]]", "<![CDATA[x]]>", "&amp;", "&#65;", "<!-- c -->", "<?p?>", "</Value>", "ä",
        "e\u{301}", "\u{feff}x", "\u{1f600}", "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{10ffff}", "\u{10000}", "\u{7f}", "\u{80}", "null", "true",
        "İ", "ß", "=", "AA==", "#123456", "{USERNAME}{TAB}", "a;b,c",
        // not representable in XML
        "\0", "\u{1}", "a\u{b}b", "\u{1f}", "\u{fffe}", "\u{ffff}", "\u{8}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push("long ".repeat(4000));
    v.push("ä€😀".repeat(700));
    v
}

fn ent(m: &mut MDb, which: usize) -> &mut MEntry {
    match which {
        0 => &mut m.root.entries[0],
        1 => &mut m.root.entries[0].history[0],
        _ => &mut m.root.groups[0].groups[0].entries[0],
    }
}
fn grp(m: &mut MDb, which: usize) -> &mut MGroup {
    match which {
        0 => &mut m.root,
        _ => &mut m.root.groups[0].groups[0],
    }
}

type Setter = fn(&mut MDb, String);

/// Every place that holds text.
pub fn text_slots() -> Vec<(&'static str, Setter)> {
    vec![
        ("name", |m, s| m.name = s),
        ("description", |m, s| m.description = s),
        ("def_username", |m, s| m.def_username = s),
        ("custom_data.key", |m, s| {
            m.custom_data.insert(s, "v".into());
        }),
        ("custom_data.value", |m, s| {
            m.custom_data.insert("slot".into(), s);
        }),
        ("binaries.id", |m, s| {
            m.binaries.insert(s, b"data".to_vec());
        }),
        ("group.name", |m, s| grp(m, 0).name = s),
        ("group.notes", |m, s| grp(m, 0).notes = s),
        ("group.at_seq", |m, s| grp(m, 0).at_seq = s),
        ("deep.name", |m, s| grp(m, 1).name = s),
        ("deep.notes", |m, s| grp(m, 1).notes = s),
        ("deep.at_seq", |m, s| grp(m, 1).at_seq = s),
        ("entry.at_seq", |m, s| ent(m, 0).at_seq = s),
        ("entry.override_url", |m, s| ent(m, 0).override_url = s),
        ("entry.tags", |m, s| ent(m, 0).tags = s),
        ("entry.assoc.window", |m, s| ent(m, 0).assoc[0].1 = s),
        ("entry.assoc.keys", |m, s| ent(m, 0).assoc[0].0 = s),
        ("entry.string.plain", |m, s| {
            ent(m, 0).strings.insert(MKey::Other("slot".into()), SVal::Plain(s));
        }),
        ("entry.string.protected", |m, s| {
            ent(m, 0).strings.insert(MKey::Other("slot".into()), SVal::Prot(s.into_bytes()));
        }),
        ("entry.title", |m, s| {
            ent(m, 0).strings.insert(MKey::Title, SVal::Plain(s));
        }),
        ("entry.password.plain", |m, s| {
            ent(m, 0).strings.insert(MKey::Password, SVal::Plain(s));
        }),
        ("entry.password.protected", |m, s| {
            ent(m, 0).strings.insert(MKey::Password, SVal::Prot(s.into_bytes()));
        }),
        ("entry.notes.protected", |m, s| {
            ent(m, 0).strings.insert(MKey::Notes, SVal::Prot(s.into_bytes()));
        }),
        ("entry.string.key", |m, s| {
            ent(m, 0).strings.insert(MKey::Other(s), SVal::Plain("v".into()));
        }),
        ("entry.string.key.protected", |m, s| {
            ent(m, 0).strings.insert(MKey::Other(s), SVal::Prot(b"v".to_vec()));
        }),
        ("entry.binary.key", |m, s| {
            ent(m, 0).binaries.insert(s, BVal::Plain(vec![1]));
        }),
        ("entry.binary.ref", |m, s| {
            ent(m, 0).binaries.insert("slot".into(), BVal::Ref(s));
        }),
        ("history.string.plain", |m, s| {
            ent(m, 1).strings.insert(MKey::Other("slot".into()), SVal::Plain(s));
        }),
        ("history.tags", |m, s| ent(m, 1).tags = s),
        ("history.string.protected", |m, s| {
            ent(m, 1).strings.insert(MKey::Other("slot".into()), SVal::Prot(s.into_bytes()));
        }),
        ("deep.string.plain", |m, s| {
            ent(m, 2).strings.insert(MKey::Title, SVal::Plain(s));
        }),
        ("deep.string.protected", |m, s| {
            ent(m, 2).strings.insert(MKey::Title, SVal::Prot(s.into_bytes()));
        }),
    ]
}

pub fn moments() -> Vec<T> {
    vec![
        T(0, 0),
        T(-1, 0),
        T(1, 1),
        T(1_500_000_000, 999_999_999),
        T(1_500_000_000, 500_000_000),
        T(1_500_000_000, 123_000),
        T(951_782_400, 0),       // 2000-02-29
        T(1_709_210_096, 0),     // 2024-02-29
        T(-2_208_988_800, 0),    // 1900
        T(253_402_300_799, 0),   // 9999-12-31T23:59:59
        T(253_402_300_800, 0),   // 10000
        T(-62_135_596_800, 0),   // 0001
        T(-62_167_219_200, 0),   // 0000
        T(-62_167_219_201, 0),   // -0001
        T(1_483_228_799, 1_000_000_000), // leap second
        T(4_102_444_800, 0),
        T(8_000_000_000_000, 7),
        T(-8_000_000_000_000, 7),
    ]
}

pub fn ints() -> Vec<i32> {
    vec![0, 1, -1, 2, 9, 10, 48, 100, 127, 128, 255, 256, -128, 32767, 32768, 65535, 65536, 1 << 24, i32::MAX, i32::MIN, i32::MIN + 1]
}

type TimeSetter = fn(&mut MDb, T);
pub fn time_slots() -> Vec<(&'static str, TimeSetter)> {
    vec![
        ("def_username_changed", |m, t| m.def_username_changed = t),
        ("description_changed", |m, t| m.description_changed = t),
        ("templates_changed", |m, t| m.templates_changed = t),
        ("mk_changed", |m, t| m.mk_changed = t),
        ("name_changed", |m, t| m.name_changed = t),
        ("bin_changed", |m, t| m.bin_changed = t),
        ("group.creation", |m, t| grp(m, 0).times.creation = t),
        ("group.expiry", |m, t| grp(m, 0).times.expiry = t),
        ("group.access", |m, t| grp(m, 0).times.access = t),
        ("group.modification", |m, t| grp(m, 0).times.modification = t),
        ("group.location", |m, t| grp(m, 0).times.location = t),
        ("entry.creation", |m, t| ent(m, 0).times.creation = t),
        ("entry.expiry", |m, t| ent(m, 0).times.expiry = t),
        ("entry.access", |m, t| ent(m, 0).times.access = t),
        ("entry.modification", |m, t| ent(m, 0).times.modification = t),
        ("entry.location", |m, t| ent(m, 0).times.location = t),
        ("history.modification", |m, t| ent(m, 1).times.modification = t),
        ("deep.creation", |m, t| grp(m, 1).times.creation = t),
        ("deep.entry.expiry", |m, t| ent(m, 2).times.expiry = t),
    ]
}

type IntSetter = fn(&mut MDb, i32);
pub fn int_slots() -> Vec<(&'static str, IntSetter)> {
    vec![
        ("history_max_items", |m, v| m.history_max_items = v),
        ("history_max_size", |m, v| m.history_max_size = v),
        ("maintenance_days", |m, v| m.maintenance_days = v),
        ("mk_change_force", |m, v| m.mk_change_force = v),
        ("mk_change_rec", |m, v| m.mk_change_rec = v),
        ("group.usage", |m, v| grp(m, 0).times.usage = v),
        ("entry.usage", |m, v| ent(m, 0).times.usage = v),
        ("history.usage", |m, v| ent(m, 1).times.usage = v),
        ("deep.usage", |m, v| grp(m, 1).times.usage = v),
    ]
}

/// Other slots: (name, value name, setter).
pub fn other_slots() -> Vec<Mutator> {
    let mut v: Vec<Mutator> = vec![];
    fn add(v: &mut Vec<Mutator>, n: &str, f: impl Fn(&mut MDb) + Sync + Send + 'static) {
        v.push((n.to_string(), Box::new(f)));
    }
    for b in [false, true] {
        add(&mut v, &format!("gzip={}", b), move |m| m.gzip = b);
        add(&mut v, &format!("bin_enabled={}", b), move |m| m.bin_enabled = b);
        for i in 0..5 {
            add(&mut v, &format!("prot[{}]={}", i, b), move |m| m.prot[i] = b);
        }
        for w in 0..2 {
            add(&mut v, &format!("group{}.is_expanded={}", w, b), move |m| grp(m, w).is_expanded = b);
            add(&mut v, &format!("group{}.expires={}", w, b), move |m| grp(m, w).times.expires = b);
        }
        for w in 0..3 {
            add(&mut v, &format!("entry{}.expires={}", w, b), move |m| ent(m, w).times.expires = b);
            add(&mut v, &format!("entry{}.at_enabled={}", w, b), move |m| ent(m, w).at_enabled = b);
            add(&mut v, &format!("entry{}.obf={}", w, b), move |m| ent(m, w).at_obf = b as i32);
        }
    }
    for o in [None, Some(false), Some(true)] {
        for w in 0..2 {
            add(&mut v, &format!("group{}.enable_auto_type={:?}", w, o), move |m| grp(m, w).enable_auto_type = o);
            add(&mut v, &format!("group{}.enable_searching={:?}", w, o), move |m| grp(m, w).enable_searching = o);
        }
    }
    for r in [0u64, 1, 2, 3, 7, 255, 256, 1000, 65536] {
        add(&mut v, &format!("rounds={}", r), move |m| m.rounds = r);
    }
    for (a, b) in [(3, 1), (3, 0), (3, 65535), (2, 20), (0, 0), (258, 772)] {
        add(&mut v, &format!("version={}.{}", a, b), move |m| m.version = (a, b));
    }
    for n in [0usize, 1, 2, 255, 256, 4096, 65534, 65535, 65536, 70000] {
        add(&mut v, &format!("comment of {} bytes", n), move |m| m.comment = Some((0..n).map(|i| (i * 7) as u8).collect()));
    }
    add(&mut v, "comment=None", |m| m.comment = None);
    let us = [NIL, [0xff; 16], uid(77), [0x3e; 16]];
    for (i, u) in us.into_iter().enumerate() {
        add(&mut v, &format!("templates_uuid={}", i), move |m| m.templates_uuid = u);
        add(&mut v, &format!("last_selected={}", i), move |m| m.last_selected = u);
        add(&mut v, &format!("last_top_group={}", i), move |m| m.last_top_group = u);
        add(&mut v, &format!("bin_uuid={}", i), move |m| m.bin_uuid = u);
        for w in 0..2 {
            add(&mut v, &format!("group{}.uuid={}", w, i), move |m| grp(m, w).uuid = u);
            add(&mut v, &format!("group{}.last_top={}", w, i), move |m| grp(m, w).last_top = u);
            add(&mut v, &format!("group{}.custom_icon=Some({})", w, i), move |m| grp(m, w).custom_icon = Some(u));
        }
        for w in 0..3 {
            add(&mut v, &format!("entry{}.uuid={}", w, i), move |m| ent(m, w).uuid = u);
            add(&mut v, &format!("entry{}.custom_icon=Some({})", w, i), move |m| ent(m, w).custom_icon = Some(u));
        }
        add(&mut v, &format!("custom_icons key {}", i), move |m| {
            m.custom_icons.insert(u, vec![9, 8, 7]);
        });
    }
    for w in 0..2 {
        add(&mut v, &format!("group{}.custom_icon=None", w), move |m| grp(m, w).custom_icon = None);
    }
    for w in 0..3 {
        add(&mut v, &format!("entry{}.custom_icon=None", w), move |m| ent(m, w).custom_icon = None);
    }
    for c in [None, Some([0, 0, 0]), Some([255, 255, 255]), Some([1, 2, 3]), Some([0xa0, 0, 0x0f]), Some([0, 0xb0, 0])] {
        add(&mut v, &format!("color={:?}", c), move |m| m.color = c);
        for w in 0..3 {
            add(&mut v, &format!("entry{}.bg={:?}", w, c), move |m| ent(m, w).bg = c);
            add(&mut v, &format!("entry{}.fg={:?}", w, c), move |m| ent(m, w).fg = c);
        }
    }
    for i in 0..69 {
        add(&mut v, &format!("group.icon={}", i), move |m| grp(m, 0).icon = i);
        add(&mut v, &format!("entry.icon={}", i), move |m| ent(m, 0).icon = i);
    }
    for (n, d) in blobs() {
        let (a, b, c, e) = (d.clone(), d.clone(), d.clone(), d.clone());
        add(&mut v, &format!("pool data {}", n), move |m| {
            m.binaries.insert("slot".into(), a.clone());
        });
        add(&mut v, &format!("custom icon data {}", n), move |m| {
            m.custom_icons.insert(uid(905), b.clone());
        });
        add(&mut v, &format!("plain attachment {}", n), move |m| {
            ent(m, 0).binaries.insert("slot".into(), BVal::Plain(c.clone()));
        });
        add(&mut v, &format!("protected attachment {}", n), move |m| {
            ent(m, 0).binaries.insert("slot".into(), BVal::Prot(e.clone()));
            ent(m, 2).binaries.insert("slot".into(), BVal::Prot(e.clone()));
        });
        if std::str::from_utf8(&d).is_err() {
            add(&mut v, &format!("protected string of invalid UTF-8 {}", n), move |m| {
                ent(m, 0).strings.insert(MKey::Other("slot".into()), SVal::Prot(d.clone()));
            });
        }
    }
    for n in 0..4usize {
        for w in 0..3 {
            add(&mut v, &format!("entry{}.assoc x{}", w, n), move |m| {
                ent(m, w).assoc = (0..n).map(|i| (format!("k{}", n - i), format!("w{}", i))).collect()
            });
            add(&mut v, &format!("entry{}.strings x{}", w, n), move |m| {
                ent(m, w).strings = (0..n).map(|i| (MKey::Other(format!("x{}", i)), if i % 2 == 0 { SVal::Prot(format!("p{}", i).into_bytes()) } else { SVal::Plain("q".into()) })).collect()
            });
            add(&mut v, &format!("entry{}.binaries x{}", w, n), move |m| {
                ent(m, w).binaries = (0..n).map(|i| (format!("x{}", i), if i % 2 == 0 { BVal::Prot(vec![i as u8; 5]) } else { BVal::Plain(vec![3]) })).collect()
            });
        }
        add(&mut v, &format!("history x{}", n), move |m| {
            let h = m.root.entries[0].history[0].clone();
            m.root.entries[0].history = (0..n)
                .map(|i| {
                    let mut h = h.clone();
                    h.times.usage = 50 - i as i32;
                    h.strings.insert(MKey::Password, SVal::Prot(format!("past {}", i).into_bytes()));
                    h
                })
                .collect();
            if n == 0 {
                // keep the slot the other mutators use
                m.root.entries[0].history.push(h);
            }
        });
        add(&mut v, &format!("pool x{}", n), move |m| m.binaries = (0..n).map(|i| (i.to_string(), vec![i as u8; i])).collect());
        add(&mut v, &format!("custom_data x{}", n), move |m| m.custom_data = (0..n).map(|i| (format!("k{}", i), format!("v{}", i))).collect());
        add(&mut v, &format!("custom_icons x{}", n), move |m| m.custom_icons = (0..n).map(|i| (uid(i as u32), vec![i as u8])).collect());
    }
    // fields that name groups and entries there are
    for g in 1..5u32 {
        add(&mut v, &format!("templates_uuid names group {}", g), move |m| m.templates_uuid = uid(g));
        add(&mut v, &format!("last_selected names group {}", g), move |m| m.last_selected = uid(g));
        add(&mut v, &format!("last_top_group names group {}", g), move |m| m.last_top_group = uid(g));
        add(&mut v, &format!("bin_uuid names group {}", g), move |m| m.bin_uuid = uid(g));
        add(&mut v, &format!("bin_uuid names group {}, enabled", g), move |m| {
            m.bin_uuid = uid(g);
            m.bin_enabled = true;
        });
        for w in 0..2 {
            add(&mut v, &format!("group{}.last_top names entry {}", w, 100 + g), move |m| grp(m, w).last_top = uid(100 + g));
        }
    }
    add(&mut v, "protected title", |m| {
        ent(m, 0).strings.insert(MKey::Title, SVal::Prot(b"hidden".to_vec()));
    });
    add(&mut v, "generator", |m| m.generator = "other".into());
    v
}

pub fn blobs() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![
        ("empty".into(), vec![]),
        ("00".into(), vec![0]),
        ("ff".into(), vec![0xff]),
        ("two".into(), vec![0xc3, 0x28]),
        ("three".into(), vec![1, 2, 3]),
        ("bytes".into(), (0..=255).collect()),
        ("gzip magic".into(), vec![0x1f, 0x8b, 8, 0, 0]),
        ("spaces".into(), b"   ".to_vec()),
    ];
    v.push(("64 bytes".into(), vec![0xa5; 64]));
    v.push(("65 bytes".into(), (0..65).collect()));
    v.push(("100 kB".into(), (0..100_000u32).map(|i| (env_mix(i) >> 3) as u8).collect()));
    v
}
fn env_mix(i: u32) -> u64 {
    crate::env::mix(i as u64)
}

/// Places of entries in a database like `rich`: made when missing.
pub const ENTRY_PLACES: [&str; 12] = [
    "first entry", "its first history item", "its second history item", "second entry", "second entry's history item", "nested entry", "nested entry's history item", "deeper entry", "deeper entry's history item", "sibling's entry",
    "sibling's entry's second history item", "history item of a history item",
];
pub fn entry_at(m: &mut MDb, place: usize) -> &mut MEntry {
    fn nth(v: &mut Vec<MEntry>, n: usize, base: u32) -> &mut MEntry {
        while v.len() <= n {
            let k = v.len() as u32;
            v.push(MEntry::new(uid(base + k)).s(MKey::Title, &format!("made {}", base + k)).p(MKey::Password, &format!("made secret {}", base + k)));
        }
        &mut v[n]
    }
    fn hist(e: &mut MEntry, n: usize) -> &mut MEntry {
        let u = e.uuid;
        while e.history.len() <= n {
            let k = e.history.len();
            e.history.push(MEntry::new(u).s(MKey::Title, &format!("past {}", k)).p(MKey::Password, &format!("past secret {}", k)));
        }
        &mut e.history[n]
    }
    fn group(v: &mut Vec<MGroup>, n: usize, base: u32) -> &mut MGroup {
        while v.len() <= n {
            let k = v.len() as u32;
            v.push(MGroup::new(uid(base + k), &format!("made group {}", base + k)));
        }
        &mut v[n]
    }
    let r = &mut m.root;
    match place {
        0 => nth(&mut r.entries, 0, 2100),
        1 => hist(nth(&mut r.entries, 0, 2100), 0),
        2 => hist(nth(&mut r.entries, 0, 2100), 1),
        3 => nth(&mut r.entries, 1, 2100),
        4 => hist(nth(&mut r.entries, 1, 2100), 0),
        5 => nth(&mut group(&mut r.groups, 0, 2200).entries, 0, 2300),
        6 => hist(nth(&mut group(&mut r.groups, 0, 2200).entries, 0, 2300), 0),
        7 => nth(&mut group(&mut group(&mut r.groups, 0, 2200).groups, 0, 2400).entries, 0, 2500),
        8 => hist(nth(&mut group(&mut group(&mut r.groups, 0, 2200).groups, 0, 2400).entries, 0, 2500), 0),
        9 => nth(&mut group(&mut r.groups, 1, 2200).entries, 0, 2600),
        10 => hist(nth(&mut group(&mut r.groups, 1, 2200).entries, 0, 2600), 1),
        _ => hist(hist(nth(&mut r.entries, 0, 2100), 0), 0),
    }
}
pub const GROUP_PLACES: [&str; 5] = ["root group", "nested group", "deeper group", "sibling group", "group in the sibling"];
pub fn group_at(m: &mut MDb, place: usize) -> &mut MGroup {
    fn nth(v: &mut Vec<MGroup>, n: usize, base: u32) -> &mut MGroup {
        while v.len() <= n {
            let k = v.len() as u32;
            v.push(MGroup::new(uid(base + k), &format!("made group {}", base + k)));
        }
        &mut v[n]
    }
    let r = &mut m.root;
    match place {
        0 => r,
        1 => nth(&mut r.groups, 0, 2200),
        2 => nth(&mut nth(&mut r.groups, 0, 2200).groups, 0, 2400),
        3 => nth(&mut r.groups, 1, 2200),
        _ => nth(&mut nth(&mut r.groups, 1, 2200).groups, 0, 2700),
    }
}

/// The names strings of entries are kept under: the standard ones, and others that programs give a meaning.
pub fn string_keys() -> Vec<MKey> {
    let mut v = vec![MKey::Title, MKey::Username, MKey::Password, MKey::Url, MKey::Notes];
    for n in ["Custom", "TOTP Seed", "TOTP Settings", "otp", "TimeOtp-Secret-Base32", "PIN", "KP2A_URL", "Password 2", "_LAST_MODIFIED", "", " "] {
        v.push(MKey::Other(n.into()));
    }
    v
}

/// Every change of one field of one entry or group, at every place.
pub fn placed_mutators() -> Vec<Mutator> {
    let mut v: Vec<Mutator> = vec![];
    type EF = Box<dyn Fn(&mut MEntry) + Sync + Send>;
    type GF = Box<dyn Fn(&mut MGroup) + Sync + Send>;
    let entry_fields = || -> Vec<(String, EF)> {
        let mut f: Vec<(String, EF)> = vec![];
        for k in string_keys() {
            for (n, val) in [
                ("absent", None),
                ("plain", Some(SVal::Plain("in the open".into()))),
                ("plain empty", Some(SVal::Plain("".into()))),
                ("protected", Some(SVal::Prot("hidden \u{e4}".into()))),
                ("protected empty", Some(SVal::Prot(vec![]))),
            ] {
                let k = k.clone();
                f.push((
                    format!("{} {}", k.name(), n),
                    Box::new(move |e| match &val {
                        None => {
                            e.strings.remove(&k);
                        }
                        Some(x) => {
                            e.strings.insert(k.clone(), x.clone());
                        }
                    }),
                ));
            }
        }
        for (n, val) in [("plain", BVal::Plain(vec![7, 8, 9])), ("protected", BVal::Prot(vec![7, 8, 9])), ("protected empty", BVal::Prot(vec![])), ("plain empty", BVal::Plain(vec![])), ("reference", BVal::Ref("1".into())), ("dangling reference", BVal::Ref("none".into()))] {
            f.push((
                format!("attachment {}", n),
                Box::new(move |e| {
                    e.binaries.insert("placed".into(), val.clone());
                }),
            ));
        }
        f.push(("no attachments".into(), Box::new(|e| e.binaries.clear())));
        f.push(("no strings".into(), Box::new(|e| e.strings.clear())));
        f.push(("no associations".into(), Box::new(|e| e.assoc.clear())));
        f.push(("two associations".into(), Box::new(|e| e.assoc = vec![("z".into(), "a".into()), ("".into(), "".into())])));
        for t in ["", "changed text"] {
            f.push((format!("sequence {:?}", t), Box::new(move |e| e.at_seq = t.into())));
            f.push((format!("override URL {:?}", t), Box::new(move |e| e.override_url = t.into())));
            f.push((format!("tags {:?}", t), Box::new(move |e| e.tags = t.into())));
        }
        for b in [false, true] {
            f.push((format!("auto-type {}", b), Box::new(move |e| e.at_enabled = b)));
            f.push((format!("expires {}", b), Box::new(move |e| e.times.expires = b)));
            f.push((format!("obfuscation {}", b), Box::new(move |e| e.at_obf = b as i32)));
        }
        for c in [None, Some([0x0a, 0xb0, 0xff])] {
            f.push((format!("foreground {:?}", c), Box::new(move |e| e.fg = c)));
            f.push((format!("background {:?}", c), Box::new(move |e| e.bg = c)));
        }
        for i in [0, 1, 68] {
            f.push((format!("icon {}", i), Box::new(move |e| e.icon = i)));
        }
        for u in [None, Some(uid(901)), Some(NIL)] {
            f.push((format!("custom icon {:?}", u.map(|x| x[0])), Box::new(move |e| e.custom_icon = u)));
        }
        f.push(("uuid".into(), Box::new(|e| e.uuid = uid(990))));
        f.push(("uuid nil".into(), Box::new(|e| e.uuid = NIL)));
        f.push(("usage".into(), Box::new(|e| e.times.usage = -3)));
        for t in [T(0, 0), T(1_500_000_000, 123_456_789), T(1_600_000_000, 0)] {
            f.push((format!("created {:?}", t), Box::new(move |e| e.times.creation = t)));
            f.push((format!("expiry {:?}", t), Box::new(move |e| e.times.expiry = t)));
            f.push((format!("accessed {:?}", t), Box::new(move |e| e.times.access = t)));
            f.push((format!("modified {:?}", t), Box::new(move |e| e.times.modification = t)));
            f.push((format!("moved {:?}", t), Box::new(move |e| e.times.location = t)));
        }
        f
    };
    for p in 0..ENTRY_PLACES.len() {
        for (n, f) in entry_fields() {
            v.push((format!("{}: {}", ENTRY_PLACES[p], n), Box::new(move |m: &mut MDb| f(entry_at(m, p)))));
        }
    }
    let group_fields = || -> Vec<(String, GF)> {
        let mut f: Vec<(String, GF)> = vec![];
        for t in ["", "changed text"] {
            f.push((format!("name {:?}", t), Box::new(move |g| g.name = t.into())));
            f.push((format!("notes {:?}", t), Box::new(move |g| g.notes = t.into())));
            f.push((format!("sequence {:?}", t), Box::new(move |g| g.at_seq = t.into())));
        }
        for b in [false, true] {
            f.push((format!("expanded {}", b), Box::new(move |g| g.is_expanded = b)));
            f.push((format!("expires {}", b), Box::new(move |g| g.times.expires = b)));
        }
        for o in [None, Some(false), Some(true)] {
            f.push((format!("auto-type {:?}", o), Box::new(move |g| g.enable_auto_type = o)));
            f.push((format!("searching {:?}", o), Box::new(move |g| g.enable_searching = o)));
        }
        for i in [0, 48, 49, 68] {
            f.push((format!("icon {}", i), Box::new(move |g| g.icon = i)));
        }
        for u in [None, Some(uid(901)), Some(NIL)] {
            f.push((format!("custom icon {:?}", u.map(|x| x[0])), Box::new(move |g| g.custom_icon = u)));
        }
        for u in [uid(990), NIL] {
            f.push((format!("uuid {:?}", u[0]), Box::new(move |g| g.uuid = u)));
            f.push((format!("last top {:?}", u[0]), Box::new(move |g| g.last_top = u)));
        }
        f.push(("usage".into(), Box::new(|g| g.times.usage = -3)));
        for t in [T(0, 0), T(1_500_000_000, 123_456_789), T(1_600_000_000, 0)] {
            f.push((format!("created {:?}", t), Box::new(move |g| g.times.creation = t)));
            f.push((format!("expiry {:?}", t), Box::new(move |g| g.times.expiry = t)));
            f.push((format!("accessed {:?}", t), Box::new(move |g| g.times.access = t)));
            f.push((format!("modified {:?}", t), Box::new(move |g| g.times.modification = t)));
            f.push((format!("moved {:?}", t), Box::new(move |g| g.times.location = t)));
        }
        f.push(("no entries".into(), Box::new(|g| g.entries.clear())));
        f.push(("no groups".into(), Box::new(|g| g.groups.clear())));
        f
    };
    for p in 0..GROUP_PLACES.len() {
        for (n, f) in group_fields() {
            v.push((format!("{}: {}", GROUP_PLACES[p], n), Box::new(move |m: &mut MDb| f(group_at(m, p)))));
        }
    }
    v
}

/// Every single-slot change.
pub fn mutators() -> Vec<Mutator> {
    let mut v: Vec<Mutator> = vec![];
    let ts = texts();
    for (n, f) in text_slots() {
        for (i, t) in ts.iter().enumerate() {
            let t = t.clone();
            v.push((format!("{} = {:?}", n, clip(&t)), Box::new(move |m: &mut MDb| f(m, t.clone()))));
            let _ = i;
        }
    }
    for (n, f) in time_slots() {
        for t in moments() {
            v.push((format!("{} = {:?}", n, t), Box::new(move |m: &mut MDb| f(m, t))));
        }
    }
    for (n, f) in int_slots() {
        for i in ints() {
            v.push((format!("{} = {}", n, i), Box::new(move |m: &mut MDb| f(m, i))));
        }
    }
    v.extend(other_slots());
    v.extend(placed_mutators());
    v
}

/// A reduced set for pairs: few values per slot.
pub fn mutators_reduced() -> Vec<Mutator> {
    let mut v: Vec<Mutator> = vec![];
    for (n, f) in text_slots() {
        for t in ["", " ", "<&>\n"] {
            v.push((format!("{} = {:?}", n, t), Box::new(move |m: &mut MDb| f(m, t.to_string()))));
        }
    }
    for (n, f) in time_slots() {
        for t in [T(0, 0), T(1_500_000_000, 5)] {
            v.push((format!("{} = {:?}", n, t), Box::new(move |m: &mut MDb| f(m, t))));
        }
    }
    for (n, f) in int_slots() {
        v.push((format!("{} = -7", n), Box::new(move |m: &mut MDb| f(m, -7))));
    }
    v.extend(other_slots().into_iter().filter(|x| !x.0.contains("icon=") || x.0.contains("custom") || x.0.ends_with("=0")).filter(|x| !x.0.contains("100 kB") && !x.0.contains("rounds=65536") && !x.0.contains("70000")));
    v
}

/// All ordered rooted trees with n nodes, as parent lists (parent index < own index, in the order of
/// a depth-first walk).
pub fn trees(n: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, cur: &mut Vec<usize>, stack: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() + 1 == n {
            out.push(cur.clone());
            return;
        }
        let me = cur.len() + 1;
        let saved = stack.clone();
        while let Some(&p) = stack.last() {
            cur.push(p);
            stack.push(me);
            rec(n, cur, stack, out);
            stack.pop();
            cur.pop();
            stack.pop();
        }
        *stack = saved;
    }
    let mut out = vec![];
    rec(n, &mut vec![], &mut vec![0], &mut out);
    out
}

/// The group tree with these parents; `f` fills in node i.
pub fn tree_group(parents: &[usize], f: &dyn Fn(usize) -> MGroup) -> MGroup {
    fn make(i: usize, parents: &[usize], f: &dyn Fn(usize) -> MGroup) -> MGroup {
        let mut g = f(i);
        for (j, p) in parents.iter().enumerate() {
            if *p == i {
                g.groups.push(make(j + 1, parents, f));
            }
        }
        g
    }
    make(0, parents, f)
}
