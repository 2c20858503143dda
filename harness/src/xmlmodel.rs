//! Model <-> KDBX XML, written from the format description: a tree form with typed text (so that
//! protected values are encrypted in document order when the tree is written), a serialiser with
//! all the freedoms XML gives, and a strict decoder.
use crate::model::*;
use crate::refs::{b64, salsa::Salsa20, xml};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Tx {
    None,
    Str(String),
    /// protected bytes: base64 of the bytes xored with the inner stream
    Secret(Vec<u8>),
    /// verbatim markup
    Raw(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct X {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<X>,
    pub text: Tx,
}

pub fn el(name: &str, kids: Vec<X>) -> X {
    X { name: name.into(), attrs: vec![], kids, text: Tx::None }
}
pub fn tx(name: &str, t: &str) -> X {
    X { name: name.into(), attrs: vec![], kids: vec![], text: if t.is_empty() { Tx::None } else { Tx::Str(t.into()) } }
}
impl X {
    pub fn with(mut self, a: &str, v: &str) -> X {
        self.attrs.push((a.into(), v.into()));
        self
    }
    /// Visits every element in document order with its path.
    pub fn walk_mut(&mut self, f: &mut dyn FnMut(&mut X, &[String]), path: &mut Vec<String>) {
        f(self, path);
        path.push(self.name.clone());
        for k in &mut self.kids {
            k.walk_mut(f, path);
        }
        path.pop();
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    /// n-th element in document order.
    pub fn nth_mut(&mut self, n: &mut usize) -> Option<&mut X> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        for k in &mut self.kids {
            if let Some(x) = k.nth_mut(n) {
                return Some(x);
            }
        }
        None
    }
}

pub fn iso(t: T) -> String {
    let (mut days, secs) = (t.0.div_euclid(86400), t.0.rem_euclid(86400));
    // civil from days
    days += 719468;
    let era = days.div_euclid(146097);
    let doe = days.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    let mut s = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", y, m, d, secs / 3600, secs / 60 % 60, secs % 60);
    if t.1 != 0 {
        let f = format!("{:09}", t.1);
        s.push('.');
        s.push_str(f.trim_end_matches('0'));
    }
    s.push('Z');
    s
}

/// Parses `[+-]Y…Y-MM-DDTHH:MM:SS[.f]Z`.
pub fn parse_iso(s: &str) -> Result<T, String> {
    let bad = || format!("time {:?}", s);
    let body = s.strip_suffix('Z').ok_or_else(bad)?;
    let (date, time) = body.split_once('T').ok_or_else(bad)?;
    let (neg, date) = match date.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, date.strip_prefix('+').unwrap_or(date)),
    };
    let d: Vec<&str> = date.split('-').collect();
    let (hms, frac) = match time.split_once('.') {
        Some((a, b)) => (a, b),
        None => (time, ""),
    };
    let h: Vec<&str> = hms.split(':').collect();
    if d.len() != 3 || h.len() != 3 || d[0].len() < 4 || frac.len() > 9 {
        return Err(bad());
    }
    let num = |x: &str| -> Result<i64, String> {
        if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) {
            return Err(bad());
        }
        x.parse().map_err(|_| bad())
    };
    let (y, m, dd) = (num(d[0])? * if neg { -1 } else { 1 }, num(d[1])?, num(d[2])?);
    let (hh, mi, mut ss) = (num(h[0])?, num(h[1])?, num(h[2])?);
    if d[1].len() != 2 || d[2].len() != 2 || h.iter().any(|x| x.len() != 2) || !(1..=12).contains(&m) || !(1..=31).contains(&dd) || hh > 23 || mi > 59 || ss > 60 {
        return Err(bad());
    }
    let mut nanos: u32 = if frac.is_empty() { 0 } else { num(frac)? as u32 * 10u32.pow(9 - frac.len() as u32) };
    if ss == 60 {
        ss = 59;
        nanos += 1_000_000_000;
    }
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2.rem_euclid(400);
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5 + dd - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    let days = era * 146097 + doe - 719468;
    Ok(T(days * 86400 + hh * 3600 + mi * 60 + ss, nanos))
}

// ---------------------------------------------------------------- encoding

/// Freedoms at the level of the document tree.
#[derive(Clone, Debug, PartialEq)]
pub struct Style {
    /// 0 "True"/"False", 1 lower case, 2 upper case
    pub bool_case: u8,
    /// 0 null, 1 Null, 2 empty
    pub null_form: u8,
    /// 0 as in the standard, 1 lower case, 2 upper case
    pub attr_case: u8,
    /// 0 standard, 1 reversed, 2 rotated by one, 3 odd/even split: order of children without meaning
    pub child_order: u8,
    /// leave out elements whose value is the default
    pub omit_defaults: bool,
    /// 0 gzip + Compressed, 1 raw with Compressed=False, 2 raw without attribute, 3 stored gzip with name,
    /// 4 Protected=True (encrypted), 5 every second one protected, 6 gzip in several members
    pub pool: u8,
    /// unprotected attachments within entries: 0 raw, 1 gzip + Compressed, 2 raw with Compressed=False
    pub inline: u8,
    /// 0 Protected=True (encrypted); 1 protected strings as ProtectInMemory=True plain text
    pub prot: u8,
    /// explicit Protected="False" on plain values
    pub explicit_false: bool,
    /// unknown children inserted into every element with children: 0 none, 1 empty, 2 text,
    /// 3 nested elements that carry known names
    pub unknown: u8,
    /// write the header hash
    pub hash: bool,
    pub upper_hex_color: bool,
    pub generator: String,
    /// 0 "…Z", 1 "…+00:00", 2 "…+05:30", 3 "…-08:00", 4 "….000Z"
    pub dates: u8,
    /// leading zeros before numbers
    pub zeros: bool,
    /// 0 none, 1 white space around values that are no text, 2 base64 in lines
    pub room: u8,
}

impl Default for Style {
    fn default() -> Style {
        Style {
            bool_case: 0,
            null_form: 0,
            attr_case: 0,
            child_order: 0,
            omit_defaults: false,
            pool: 0,
            inline: 0,
            prot: 0,
            explicit_false: false,
            unknown: 0,
            hash: true,
            upper_hex_color: true,
            generator: "KeePass".into(),
            dates: 0,
            zeros: false,
            room: 0,
        }
    }
}

struct Enc<'a> {
    st: &'a Style,
}

impl<'a> Enc<'a> {
    fn b(&self, n: &str, v: bool) -> X {
        let s = if v { "True" } else { "False" };
        let s = match self.st.bool_case {
            0 => s.to_string(),
            1 => s.to_lowercase(),
            _ => s.to_uppercase(),
        };
        tx(n, &s)
    }
    fn nb(&self, n: &str, v: Option<bool>) -> X {
        match v {
            None => tx(n, ["null", "Null", ""][self.st.null_form as usize]),
            Some(true) => tx(n, ["true", "true", "True"][self.st.bool_case as usize]),
            Some(false) => tx(n, ["false", "false", "False"][self.st.bool_case as usize]),
        }
    }
    fn i(&self, n: &str, v: i64) -> X {
        tx(n, &v.to_string())
    }
    fn t(&self, n: &str, v: T) -> X {
        tx(n, &iso(v))
    }
    fn u(&self, n: &str, v: &U) -> X {
        tx(n, &b64::enc(v))
    }
    fn ou(&self, n: &str, v: &Option<U>) -> Option<X> {
        match v {
            Some(u) => Some(self.u(n, u)),
            None if self.st.omit_defaults => None,
            None => Some(tx(n, "")),
        }
    }
    fn color(&self, n: &str, v: &Option<Rgb>) -> Option<X> {
        match v {
            Some(c) => {
                let s = format!("#{:02x}{:02x}{:02x}", c[0], c[1], c[2]);
                Some(tx(n, &if self.st.upper_hex_color { s.to_uppercase() } else { s }))
            }
            None if self.st.omit_defaults => None,
            None => Some(tx(n, "")),
        }
    }
    fn s(&self, n: &str, v: &str) -> Option<X> {
        if v.is_empty() && self.st.omit_defaults {
            None
        } else {
            Some(tx(n, v))
        }
    }
    fn an(&self, n: &str) -> String {
        match self.st.attr_case {
            0 => n.into(),
            1 => n.to_lowercase(),
            _ => n.to_uppercase(),
        }
    }
    fn truth(&self, v: bool) -> String {
        match (self.st.bool_case, v) {
            (0, true) => "True".into(),
            (0, false) => "False".into(),
            (1, v) => v.to_string(),
            (_, v) => v.to_string().to_uppercase(),
        }
    }
    fn times(&self, t: &MTimes) -> X {
        el(
            "Times",
            vec![
                self.t("LastModificationTime", t.modification),
                self.t("CreationTime", t.creation),
                self.t("LastAccessTime", t.access),
                self.t("ExpiryTime", t.expiry),
                self.b("Expires", t.expires),
                self.i("UsageCount", t.usage as i64),
                self.t("LocationChanged", t.location),
            ],
        )
    }
    fn value(&self, v: Result<&[u8], &str>, prot: bool, in_memory_only: bool) -> X {
        // v: Ok(bytes) for binary, Err(str) for text
        let mut x = el("Value", vec![]);
        if prot && in_memory_only {
            x = x.with(&self.an("ProtectInMemory"), &self.truth(true));
            x.text = match v {
                Err("") => Tx::None,
                Err(s) => Tx::Str(s.into()),
                Ok(_) => unreachable!(),
            };
        } else if prot {
            x = x.with(&self.an("Protected"), &self.truth(true));
            x.text = match v {
                Ok(b) => Tx::Secret(b.to_vec()),
                Err(s) => Tx::Secret(s.as_bytes().to_vec()),
            };
        } else {
            if self.st.explicit_false {
                x = x.with(&self.an("Protected"), &self.truth(false));
            }
            x.text = match v {
                Ok(b) if b.is_empty() => Tx::None,
                Ok(b) => Tx::Str(b64::enc(b)),
                Err("") => Tx::None,
                Err(s) => Tx::Str(s.into()),
            };
        }
        x
    }
    fn entry(&self, e: &MEntry, is_history: bool) -> X {
        let mut k = vec![self.u("UUID", &e.uuid), self.i("IconID", e.icon as i64)];
        k.extend(self.ou("CustomIconUUID", &e.custom_icon));
        k.extend(self.color("ForegroundColor", &e.fg));
        k.extend(self.color("BackgroundColor", &e.bg));
        k.extend(self.s("OverrideURL", &e.override_url));
        k.extend(self.s("Tags", &e.tags));
        k.push(self.times(&e.times));
        for (key, v) in &e.strings {
            let val = match v {
                SVal::Plain(s) => self.value(Err(s), false, false),
                SVal::Prot(b) => match std::str::from_utf8(b) {
                    Ok(s) if self.st.prot == 1 && crate::lk::xml_ok(s) => self.value(Err(s), true, true),
                    _ => self.value(Ok(b), true, false),
                },
            };
            k.push(el("String", self.order(vec![tx("Key", &key.name()), val])));
        }
        for (key, v) in &e.binaries {
            let val = match v {
                BVal::Plain(b) if self.st.inline == 1 => {
                    X { text: Tx::Str(b64::enc(&crate::kdbx::gzip(b))), ..el("Value", vec![]).with(&self.an("Compressed"), &self.truth(true)) }
                }
                BVal::Plain(b) if self.st.inline == 2 => self.value(Ok(b), false, false).with(&self.an("Compressed"), &self.truth(false)),
                BVal::Plain(b) => self.value(Ok(b), false, false),
                BVal::Prot(b) => self.value(Ok(b), true, false),
                BVal::Ref(r) => el("Value", vec![]).with(&self.an("Ref"), r),
            };
            k.push(el("Binary", self.order(vec![tx("Key", key), val])));
        }
        let mut a = vec![self.b("Enabled", e.at_enabled), self.i("DataTransferObfuscation", e.at_obf as i64)];
        a.extend(self.s("DefaultSequence", &e.at_seq));
        for (ks, w) in &e.assoc {
            a.push(el("Association", self.order(vec![tx("Window", w), tx("KeystrokeSequence", ks)])));
        }
        k.push(el("AutoType", self.order(a)));
        if !is_history {
            if !(e.history.is_empty() && self.st.omit_defaults) {
                k.push(el("History", e.history.iter().map(|h| self.entry(h, true)).collect()));
            }
        }
        el("Entry", self.order(k))
    }
    fn group(&self, g: &MGroup) -> X {
        let mut k = vec![self.u("UUID", &g.uuid), tx("Name", &g.name)];
        k.extend(self.s("Notes", &g.notes));
        k.push(self.i("IconID", g.icon as i64));
        k.extend(self.ou("CustomIconUUID", &g.custom_icon));
        k.push(self.times(&g.times));
        k.push(self.b("IsExpanded", g.is_expanded));
        k.extend(self.s("DefaultAutoTypeSequence", &g.at_seq));
        if !(self.st.omit_defaults && g.enable_auto_type.is_none()) {
            k.push(self.nb("EnableAutoType", g.enable_auto_type));
        }
        if !(self.st.omit_defaults && g.enable_searching.is_none()) {
            k.push(self.nb("EnableSearching", g.enable_searching));
        }
        if !(self.st.omit_defaults && g.last_top == NIL) {
            k.push(self.u("LastTopVisibleEntry", &g.last_top));
        }
        for e in &g.entries {
            k.push(self.entry(e, false));
        }
        for s in &g.groups {
            k.push(self.group(s));
        }
        el("Group", self.order(k))
    }
    /// Reorders children; elements of the same name keep their relative order (it has meaning).
    fn order(&self, k: Vec<X>) -> Vec<X> {
        let n = k.len();
        let idx: Vec<usize> = match self.st.child_order {
            0 => return k,
            1 => (0..n).rev().collect(),
            2 => (1..n).chain(0..1.min(n)).collect(),
            _ => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect(),
        };
        let names: Vec<String> = idx.iter().map(|&i| k[i].name.clone()).collect();
        let mut by: BTreeMap<String, std::collections::VecDeque<X>> = BTreeMap::new();
        for x in k {
            by.entry(x.name.clone()).or_default().push_back(x);
        }
        names.iter().map(|n| by.get_mut(n).unwrap().pop_front().unwrap()).collect()
    }
    fn db(&self, m: &MDb, hash: &[u8]) -> X {
        let mut k = vec![tx("Generator", &self.st.generator)];
        if self.st.hash {
            k.push(tx("HeaderHash", &b64::enc(hash)));
        }
        k.extend(self.s("DatabaseName", &m.name));
        k.push(self.t("DatabaseNameChanged", m.name_changed));
        k.extend(self.s("DatabaseDescription", &m.description));
        k.push(self.t("DatabaseDescriptionChanged", m.description_changed));
        k.extend(self.s("DefaultUserName", &m.def_username));
        k.push(self.t("DefaultUserNameChanged", m.def_username_changed));
        let dflt = |v: i32, d: i32| self.st.omit_defaults && v == d;
        if !dflt(m.maintenance_days, 365) {
            k.push(self.i("MaintenanceHistoryDays", m.maintenance_days as i64));
        }
        k.extend(self.color("Color", &m.color));
        k.push(self.t("MasterKeyChanged", m.mk_changed));
        if !dflt(m.mk_change_rec, -1) {
            k.push(self.i("MasterKeyChangeRec", m.mk_change_rec as i64));
        }
        if !dflt(m.mk_change_force, -1) {
            k.push(self.i("MasterKeyChangeForce", m.mk_change_force as i64));
        }
        if !(self.st.omit_defaults && m.prot == [false, true, false, false, false]) {
            k.push(el(
                "MemoryProtection",
                self.order(vec![
                    self.b("ProtectTitle", m.prot[2]),
                    self.b("ProtectUserName", m.prot[4]),
                    self.b("ProtectPassword", m.prot[1]),
                    self.b("ProtectURL", m.prot[3]),
                    self.b("ProtectNotes", m.prot[0]),
                ]),
            ));
        }
        if !(self.st.omit_defaults && m.custom_icons.is_empty()) {
            k.push(el(
                "CustomIcons",
                m.custom_icons
                    .iter()
                    .map(|(u, d)| el("Icon", self.order(vec![self.u("UUID", u), tx("Data", &b64::enc(d))])))
                    .collect(),
            ));
        }
        if !(self.st.omit_defaults && m.bin_enabled) {
            k.push(self.b("RecycleBinEnabled", m.bin_enabled));
        }
        let mut un = |n: &str, u: &U| {
            if !(self.st.omit_defaults && *u == NIL) {
                k.push(self.u(n, u));
            }
        };
        un("RecycleBinUUID", &m.bin_uuid);
        un("EntryTemplatesGroup", &m.templates_uuid);
        un("LastSelectedGroup", &m.last_selected);
        un("LastTopVisibleGroup", &m.last_top_group);
        k.push(self.t("RecycleBinChanged", m.bin_changed));
        k.push(self.t("EntryTemplatesGroupChanged", m.templates_changed));
        if !dflt(m.history_max_items, 10) {
            k.push(self.i("HistoryMaxItems", m.history_max_items as i64));
        }
        if !dflt(m.history_max_size, 6291456) {
            k.push(self.i("HistoryMaxSize", m.history_max_size as i64));
        }
        if !(self.st.omit_defaults && m.binaries.is_empty()) {
            let pool = m
                .binaries
                .iter()
                .enumerate()
                .map(|(n, (id, d))| {
                    let x = tx("Binary", "").with(&self.an("ID"), id);
                    let kind = match self.st.pool {
                        5 if n % 2 == 0 => 4,
                        5 => 0,
                        k => k,
                    };
                    match kind {
                        4 => X { text: Tx::Secret(d.clone()), ..x.with(&self.an("Protected"), &self.truth(true)) },
                        0 => X { text: Tx::Str(b64::enc(&crate::kdbx::gzip(d))), ..x.with(&self.an("Compressed"), &self.truth(true)) },
                        3 => X { text: Tx::Str(b64::enc(&crate::kdbx::gzip_stored(d, Some("bin")))), ..x.with(&self.an("Compressed"), &self.truth(true)) },
                        6 => X { text: Tx::Str(b64::enc(&crate::kdbx::gzip_members(d, d.len() / 2))), ..x.with(&self.an("Compressed"), &self.truth(true)) },
                        1 => X { text: if d.is_empty() { Tx::None } else { Tx::Str(b64::enc(d)) }, ..x.with(&self.an("Compressed"), &self.truth(false)) },
                        _ => X { text: if d.is_empty() { Tx::None } else { Tx::Str(b64::enc(d)) }, ..x },
                    }
                })
                .collect();
            k.push(el("Binaries", pool));
        }
        if !(self.st.omit_defaults && m.custom_data.is_empty()) {
            k.push(el(
                "CustomData",
                m.custom_data.iter().map(|(a, b)| el("Item", self.order(vec![tx("Key", a), tx("Value", b)]))).collect(),
            ));
        }
        let meta = el("Meta", self.order(k));
        let root = el("Root", vec![self.group(&m.root), el("DeletedObjects", vec![])]);
        let mut d = el("KeePassFile", self.order(vec![meta, root]));
        restyle(&mut d, "", self.st);
        if self.st.unknown > 0 {
            insert_unknown(&mut d, self.st.unknown);
        }
        d
    }
}

/// An unknown element; kind 3 nests elements that have known names, with poisoned values.
pub fn unknown_elem(kind: u8) -> X {
    match kind {
        1 => el("VerifUnknown", vec![]),
        2 => tx("VerifUnknown", "some text").with("Protected", "False"),
        _ => el(
            "VerifUnknown",
            [
                "Name", "Notes", "Tags", "OverrideURL", "DatabaseName", "DatabaseDescription", "DefaultUserName",
                "DefaultSequence", "DefaultAutoTypeSequence", "Key", "Value", "Window", "KeystrokeSequence",
            ]
            .iter()
            .map(|n| tx(n, "poison"))
            .chain(["IconID", "UsageCount", "HistoryMaxItems", "HistoryMaxSize", "MaintenanceHistoryDays", "DataTransferObfuscation", "MasterKeyChangeRec", "MasterKeyChangeForce"].iter().map(|n| tx(n, "1")))
            .chain(["Expires", "Enabled", "EnableSearching", "EnableAutoType", "IsExpanded", "RecycleBinEnabled", "ProtectTitle", "ProtectNotes"].iter().map(|n| tx(n, "True")))
            .chain(["UUID", "CustomIconUUID", "RecycleBinUUID", "LastSelectedGroup", "LastTopVisibleGroup", "LastTopVisibleEntry", "EntryTemplatesGroup"].iter().map(|n| tx(n, "AAAAAAAAAAAAAAAAAAAAAQ==")))
            .chain(["CreationTime", "ExpiryTime", "LastAccessTime", "LastModificationTime", "LocationChanged", "DatabaseNameChanged", "MasterKeyChanged"].iter().map(|n| tx(n, "2001-01-01T00:00:00Z")))
            .chain(["Color", "ForegroundColor", "BackgroundColor"].iter().map(|n| tx(n, "#010203")))
            .chain(vec![
                el("String", vec![tx("Key", "Title"), tx("Value", "poison")]),
                el("Binary", vec![tx("Key", "k"), tx("Value", "AAAA")]),
                el("Times", vec![tx("UsageCount", "7")]),
                el("AutoType", vec![el("Association", vec![tx("Window", "w"), tx("KeystrokeSequence", "k")])]),
                el("Item", vec![tx("Key", "poison"), tx("Value", "poison")]),
                el("Icon", vec![tx("UUID", "AAAAAAAAAAAAAAAAAAAAAQ=="), tx("Data", "AAAA")]),
                el("Entry", vec![tx("UUID", "AAAAAAAAAAAAAAAAAAAAAQ=="), el("History", vec![el("Entry", vec![])])]),
                el("Group", vec![tx("UUID", "AAAAAAAAAAAAAAAAAAAAAQ=="), tx("Name", "poison")]),
                el("VerifUnknown", vec![tx("Name", "deep"), el("VerifUnknown", vec![])]),
                el("Meta", vec![tx("DatabaseName", "poison")]),
                el("Root", vec![]),
            ])
            .collect(),
        ),
    }
}

/// Other forms of the same dates, numbers and base64, by the names of the elements.
fn restyle(x: &mut X, parent: &str, st: &Style) {
    if st.dates == 0 && !st.zeros && st.room == 0 {
        return;
    }
    let n = x.name.clone();
    if let Tx::Str(t) = &mut x.text {
        let date = parent == "Times" && (n.ends_with("Time") || n == "LocationChanged") || parent == "Meta" && n.ends_with("Changed");
        let number = ["IconID", "UsageCount", "MaintenanceHistoryDays", "MasterKeyChangeRec", "MasterKeyChangeForce", "HistoryMaxItems", "HistoryMaxSize", "DataTransferObfuscation"].contains(&n.as_str());
        let truth = ["Expires", "IsExpanded", "Enabled", "EnableAutoType", "EnableSearching", "RecycleBinEnabled"].contains(&n.as_str()) || parent == "MemoryProtection";
        let colour = n.ends_with("Color");
        let base64 = n.ends_with("UUID") || n.starts_with("LastTop") || n == "LastSelectedGroup" || n == "EntryTemplatesGroup" || n == "HeaderHash" || parent == "Icon" || parent == "Binaries" || parent == "Binary" && n == "Value";
        if date {
            if let Ok(v) = parse_iso(t) {
                let shifted = |secs: i64, zone: &str| {
                    let s = iso(T(v.0 + secs, v.1));
                    // only within four-digit years
                    if (-62_135_596_800..253_402_300_800).contains(&(v.0 + secs)) {
                        s.replace('Z', zone)
                    } else {
                        iso(v)
                    }
                };
                *t = match st.dates {
                    1 => shifted(0, "+00:00"),
                    2 => shifted(19_800, "+05:30"),
                    3 => shifted(-28_800, "-08:00"),
                    4 if v.1 == 0 => t.replace('Z', ".000Z"),
                    _ => t.clone(),
                };
            }
        }
        if number && st.zeros {
            *t = match t.strip_prefix('-') {
                Some(d) => format!("-00{}", d),
                None => format!("00{}", t),
            };
        }
        if base64 && st.room == 2 {
            *t = t.as_bytes().chunks(20).map(|c| String::from_utf8_lossy(c).into_owned()).collect::<Vec<_>>().join("\r\n\t ");
        }
        if (date || number || truth || colour || base64) && st.room == 1 && !t.is_empty() {
            *t = format!("\n\t {} \n", t);
        }
    }
    for k in &mut x.kids {
        restyle(k, &n, st);
    }
}

fn insert_unknown(x: &mut X, kind: u8) {
    for k in &mut x.kids {
        insert_unknown(k, kind);
    }
    if !x.kids.is_empty() {
        let mid = x.kids.len() / 2;
        x.kids.insert(mid, unknown_elem(kind));
        x.kids.insert(0, unknown_elem(kind));
        x.kids.push(unknown_elem(kind));
    }
}

pub fn encode(m: &MDb, st: &Style, hash: &[u8; 32]) -> X {
    Enc { st }.db(m, hash)
}

pub fn encode_with_hash(m: &MDb, st: &Style, hash: &[u8]) -> X {
    Enc { st }.db(m, hash)
}

/// Freedoms at the level of the text.
#[derive(Clone, Debug, PartialEq)]
pub struct Text {
    /// 0 none, 1 tabs and \n, 2 spaces and \r\n
    pub indent: u8,
    /// write <A/> for empty elements
    pub self_close: bool,
    /// 0 minimal, 1 decimal references for non-alphanumerics, 2 hex references, 3 CDATA, 4 CDATA split in the middle
    pub escape: u8,
    /// comments and processing instructions: 0 none, 1 between elements, 2 also inside text
    pub comments: u8,
    /// 0 declaration, 1 none, 2 BOM + declaration with single quotes and standalone
    pub decl: u8,
    pub single_quotes: bool,
    /// blanks inside tags
    pub tag_space: bool,
    /// an xml:space attribute / namespace declarations on the document element
    pub extra_root_attrs: bool,
    /// line ends of the document, including those inside texts: 0 LF, 1 CR LF, 2 CR
    pub eol: u8,
}

impl Default for Text {
    fn default() -> Text {
        Text { indent: 1, self_close: true, escape: 0, comments: 0, decl: 0, single_quotes: false, tag_space: false, extra_root_attrs: false, eol: 0 }
    }
}

pub struct Ser<'a> {
    pub tx: &'a Text,
    pub salsa: Salsa20,
    pub out: String,
}

pub fn serialise(x: &X, t: &Text, salsa: Salsa20) -> String {
    let mut s = Ser { tx: t, salsa, out: String::new() };
    match t.decl {
        0 => s.out.push_str("<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\n"),
        1 => {}
        _ => s.out.push_str("\u{feff}<?xml version='1.0' encoding='UTF-8'?>"),
    }
    if t.comments > 0 {
        s.out.push_str("<!-- head <Meta> --><?pi data?>");
    }
    s.elem(x, 0);
    if t.comments > 0 {
        s.out.push_str("<!-- tail -->\n");
    }
    match t.eol {
        0 => s.out,
        e => s.out.replace("\r\n", "\n").replace('\n', if e == 1 { "\r\n" } else { "\r" }),
    }
}

impl<'a> Ser<'a> {
    fn nl(&mut self, depth: usize) {
        match self.tx.indent {
            0 => {}
            1 => {
                self.out.push('\n');
                for _ in 0..depth {
                    self.out.push('\t');
                }
            }
            _ => {
                self.out.push_str("\r\n");
                for _ in 0..depth {
                    self.out.push_str("  ");
                }
            }
        }
    }

    fn esc(&mut self, s: &str) {
        match self.tx.escape {
            1 | 2 => {
                for c in s.chars() {
                    if c.is_ascii_alphanumeric() {
                        self.out.push(c);
                    } else if self.tx.escape == 1 {
                        self.out.push_str(&format!("&#{};", c as u32));
                    } else {
                        self.out.push_str(&format!("&#x{:x};", c as u32));
                    }
                }
            }
            3 | 4 if !s.contains('\r') => {
                let cut = if self.tx.escape == 4 {
                    let n = s.chars().count() / 2;
                    s.char_indices().nth(n).map_or(0, |x| x.0)
                } else {
                    0
                };
                let (a, b) = s.split_at(cut);
                for p in [a, b] {
                    if p.is_empty() {
                        continue;
                    }
                    self.out.push_str("<![CDATA[");
                    self.out.push_str(&p.replace("]]>", "]]]]><![CDATA[>"));
                    self.out.push_str("]]>");
                }
            }
            _ => self.out.push_str(&esc_min(s)),
        }
    }

    fn elem(&mut self, x: &X, depth: usize) {
        self.out.push('<');
        self.out.push_str(&x.name);
        let q = if self.tx.single_quotes { '\'' } else { '"' };
        let mut attrs = x.attrs.clone();
        if depth == 0 && self.tx.extra_root_attrs {
            attrs.push(("xmlns:xsi".into(), "http://www.w3.org/2001/XMLSchema-instance".into()));
            attrs.push(("xml:space".into(), "preserve".into()));
        }
        for (k, v) in &attrs {
            self.out.push_str(if self.tx.tag_space { "\n  " } else { " " });
            self.out.push_str(k);
            self.out.push_str(if self.tx.tag_space { " = " } else { "=" });
            self.out.push(q);
            self.out.push_str(&esc_attr(v));
            self.out.push(q);
        }
        if self.tx.tag_space {
            self.out.push(' ');
        }
        let body = match &x.text {
            Tx::None => None,
            Tx::Secret(b) => {
                let c = self.salsa.apply(b);
                if c.is_empty() {
                    None
                } else {
                    Some(b64::enc(&c))
                }
            }
            Tx::Str(s) => Some(s.clone()),
            Tx::Raw(_) => None,
        };
        let raw = if let Tx::Raw(r) = &x.text { Some(r.clone()) } else { None };
        if x.kids.is_empty() && body.is_none() && raw.is_none() && self.tx.self_close {
            self.out.push_str("/>");
            return;
        }
        self.out.push('>');
        if let Some(r) = raw {
            self.out.push_str(&r);
        }
        if let Some(b) = body {
            if self.tx.comments == 2 {
                self.out.push_str("<!-- in text -->");
                let n = b.chars().count() / 2;
                let cut = b.char_indices().nth(n).map_or(0, |x| x.0);
                let (l, r) = b.split_at(cut);
                self.esc(l);
                self.out.push_str("<!-- & <x> -->");
                self.esc(r);
                self.out.push_str("<?pi?>");
            } else {
                self.esc(&b);
            }
        }
        for k in &x.kids {
            self.nl(depth + 1);
            if self.tx.comments > 0 {
                self.out.push_str("<!-- <Group> -->");
            }
            self.elem(k, depth + 1);
        }
        if !x.kids.is_empty() {
            self.nl(depth);
        }
        self.out.push_str("</");
        self.out.push_str(&x.name);
        if self.tx.tag_space {
            self.out.push('\n');
        }
        self.out.push('>');
    }
}

pub fn esc_min(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}

pub fn esc_attr(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&#39;"),
            '\r' | '\n' | '\t' => o.push_str(&format!("&#{};", c as u32)),
            c => o.push(c),
        }
    }
    o
}

// ---------------------------------------------------------------- decoding (strict)

type R<V> = Result<V, String>;

/// Turns a parsed document into the tree form, decrypting protected values in document order.
pub fn decrypt_tree(e: &xml::Elem, salsa: &mut Salsa20) -> R<X> {
    let mut x = X { name: e.name.clone(), attrs: e.attrs.clone(), kids: vec![], text: Tx::None };
    let protected = e.attr("Protected") == Some("True");
    if protected {
        x.text = Tx::Secret(salsa.apply(&b64::dec(&e.leaf()?)?));
        return Ok(x);
    }
    let mut s = String::new();
    for n in &e.nodes {
        match n {
            xml::Node::Text(t) => s.push_str(t),
            xml::Node::Elem(k) => x.kids.push(decrypt_tree(k, salsa)?),
        }
    }
    if x.kids.is_empty() {
        if !s.is_empty() {
            x.text = Tx::Str(s);
        }
    } else if !s.trim().is_empty() {
        return Err(format!("text between the children of <{}>", x.name));
    }
    Ok(x)
}

fn one<'a>(x: &'a X, n: &str) -> R<Option<&'a X>> {
    let mut it = x.kids.iter().filter(|k| k.name == n);
    let r = it.next();
    if it.next().is_some() {
        return Err(format!("<{}> twice in <{}>", n, x.name));
    }
    Ok(r)
}
fn must<'a>(x: &'a X, n: &str) -> R<&'a X> {
    one(x, n)?.ok_or_else(|| format!("<{}> missing in <{}>", n, x.name))
}
fn text(x: &X) -> R<&str> {
    if !x.kids.is_empty() {
        return Err(format!("children in <{}>", x.name));
    }
    match &x.text {
        Tx::None => Ok(""),
        Tx::Str(s) => Ok(s),
        _ => Err(format!("unexpected protection of <{}>", x.name)),
    }
}
fn d_str(x: &X, n: &str) -> R<String> {
    match one(x, n)? {
        Some(k) => Ok(text(k)?.to_string()),
        None => Ok(String::new()),
    }
}
fn d_bool(x: &X, n: &str) -> R<bool> {
    match text(must(x, n)?)? {
        "True" => Ok(true),
        "False" => Ok(false),
        t => Err(format!("boolean <{}> is {:?}", n, t)),
    }
}
fn d_nbool(x: &X, n: &str) -> R<Option<bool>> {
    match one(x, n)? {
        None => Ok(None),
        Some(k) => match text(k)?.to_lowercase().as_str() {
            "null" | "" => Ok(None),
            "true" => Ok(Some(true)),
            "false" => Ok(Some(false)),
            t => Err(format!("nullable boolean <{}> is {:?}", n, t)),
        },
    }
}
fn d_i32(x: &X, n: &str) -> R<i32> {
    let t = text(must(x, n)?)?;
    let ok = t.strip_prefix('-').unwrap_or(t);
    if ok.is_empty() || !ok.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("number <{}> is {:?}", n, t));
    }
    t.parse().map_err(|_| format!("number <{}> is {:?}", n, t))
}
fn d_time(x: &X, n: &str) -> R<T> {
    parse_iso(text(must(x, n)?)?)
}
fn d_uuid_of(k: &X) -> R<U> {
    b64::dec(text(k)?)?.try_into().map_err(|_| format!("uuid length in <{}>", k.name))
}
fn d_uuid(x: &X, n: &str) -> R<U> {
    d_uuid_of(must(x, n)?)
}
fn d_ouuid(x: &X, n: &str) -> R<Option<U>> {
    match one(x, n)? {
        Some(k) if !text(k)?.is_empty() => Ok(Some(d_uuid_of(k)?)),
        _ => Ok(None),
    }
}
fn d_color(x: &X, n: &str) -> R<Option<Rgb>> {
    match one(x, n)? {
        Some(k) if !text(k)?.is_empty() => {
            let t = text(k)?;
            let h = t.strip_prefix('#').filter(|h| h.len() == 6 && h.bytes().all(|b| b.is_ascii_hexdigit()));
            let h = h.ok_or_else(|| format!("colour {:?}", t))?;
            let v = b64::unhex(h);
            Ok(Some([v[0], v[1], v[2]]))
        }
        _ => Ok(None),
    }
}
fn d_times(x: &X) -> R<MTimes> {
    let t = must(x, "Times")?;
    Ok(MTimes {
        creation: d_time(t, "CreationTime")?,
        expiry: d_time(t, "ExpiryTime")?,
        expires: d_bool(t, "Expires")?,
        access: d_time(t, "LastAccessTime")?,
        modification: d_time(t, "LastModificationTime")?,
        location: d_time(t, "LocationChanged")?,
        usage: d_i32(t, "UsageCount")?,
    })
}

fn d_entry(x: &X, is_history: bool) -> R<MEntry> {
    let at = must(x, "AutoType")?;
    let mut e = MEntry::new(d_uuid(x, "UUID")?);
    e.at_enabled = d_bool(at, "Enabled")?;
    e.at_obf = d_i32(at, "DataTransferObfuscation")?;
    e.at_seq = d_str(at, "DefaultSequence")?;
    for a in at.kids.iter().filter(|k| k.name == "Association") {
        e.assoc.push((text(must(a, "KeystrokeSequence")?)?.into(), text(must(a, "Window")?)?.into()));
    }
    e.bg = d_color(x, "BackgroundColor")?;
    e.fg = d_color(x, "ForegroundColor")?;
    e.custom_icon = d_ouuid(x, "CustomIconUUID")?;
    e.icon = d_i32(x, "IconID")?;
    e.override_url = d_str(x, "OverrideURL")?;
    e.tags = d_str(x, "Tags")?;
    e.times = d_times(x)?;
    for s in x.kids.iter().filter(|k| k.name == "String") {
        let k = MKey::of_name(text(must(s, "Key")?)?);
        let v = must(s, "Value")?;
        let v = match &v.text {
            Tx::Secret(b) => SVal::Prot(b.clone()),
            _ => SVal::Plain(text(v)?.into()),
        };
        if e.strings.insert(k, v).is_some() {
            return Err("string key twice".into());
        }
    }
    for s in x.kids.iter().filter(|k| k.name == "Binary") {
        let k: String = text(must(s, "Key")?)?.into();
        let v = must(s, "Value")?;
        let r = v.attrs.iter().find(|a| a.0 == "Ref");
        let v = match (&v.text, r) {
            (Tx::None, Some(r)) => BVal::Ref(r.1.clone()),
            (_, Some(_)) => return Err("Ref with content".into()),
            (Tx::Secret(b), _) => BVal::Prot(b.clone()),
            _ => BVal::Plain(b64::dec(text(v)?)?),
        };
        if e.binaries.insert(k, v).is_some() {
            return Err("binary key twice".into());
        }
    }
    match one(x, "History")? {
        Some(h) if !is_history => {
            for k in h.kids.iter().filter(|k| k.name == "Entry") {
                e.history.push(d_entry(k, true)?);
            }
        }
        Some(_) => return Err("history inside history".into()),
        None => {}
    }
    Ok(e)
}

fn d_group(x: &X) -> R<MGroup> {
    let mut g = MGroup::new(d_uuid(x, "UUID")?, &d_str(x, "Name")?);
    g.notes = d_str(x, "Notes")?;
    g.icon = d_i32(x, "IconID")?;
    g.custom_icon = d_ouuid(x, "CustomIconUUID")?;
    g.at_seq = d_str(x, "DefaultAutoTypeSequence")?;
    g.enable_auto_type = d_nbool(x, "EnableAutoType")?;
    g.enable_searching = d_nbool(x, "EnableSearching")?;
    g.is_expanded = d_bool(x, "IsExpanded")?;
    g.last_top = d_uuid(x, "LastTopVisibleEntry")?;
    g.times = d_times(x)?;
    for k in &x.kids {
        match k.name.as_str() {
            "Entry" => g.entries.push(d_entry(k, false)?),
            "Group" => g.groups.push(d_group(k)?),
            _ => {}
        }
    }
    Ok(g)
}

/// Decodes the document of a file taken apart by `kdbx::open`, checking the header hash.
pub fn decode(parts: &crate::kdbx::Parts) -> R<MDb> {
    Ok(decode_full(parts)?.0)
}

/// As `decode`, also giving the tree and the number of inner-stream bytes used.
pub fn decode_full(parts: &crate::kdbx::Parts) -> R<(MDb, X, u64)> {
    let e = xml::parse(&parts.xml)?;
    if e.name != "KeePassFile" {
        return Err(format!("document element <{}>", e.name));
    }
    let mut salsa = parts.params.salsa();
    let x = decrypt_tree(&e, &mut salsa)?;
    let p = &parts.params;
    let meta = must(&x, "Meta")?;
    let mut m = MDb::new(p.ckey);
    m.comment = p.comment.clone();
    m.gzip = p.gzip;
    m.rounds = p.rounds;
    m.version = (p.major, p.minor);
    m.generator = d_str(meta, "Generator")?;
    let hash = b64::dec(text(must(meta, "HeaderHash")?)?)?;
    if hash != crate::refs::sha::sha256(&parts.header) {
        return Err("header hash does not match the header".into());
    }
    for b in must(meta, "Binaries").map(|b| &b.kids[..]).unwrap_or(&[]) {
        let id = &b.attrs.iter().find(|a| a.0 == "ID").ok_or("binary without ID")?.1;
        let raw = b64::dec(text(b)?)?;
        let d = match b.attrs.iter().find(|a| a.0 == "Compressed").map(|a| a.1.as_str()) {
            Some("True") => crate::kdbx::gunzip(&raw)?,
            Some("False") | None => raw,
            Some(v) => return Err(format!("Compressed={:?}", v)),
        };
        if m.binaries.insert(id.clone(), d).is_some() {
            return Err("binary id twice".into());
        }
    }
    m.color = d_color(meta, "Color")?;
    for it in one(meta, "CustomData")?.map(|b| &b.kids[..]).unwrap_or(&[]) {
        let k: String = text(must(it, "Key")?)?.into();
        if m.custom_data.insert(k, text(must(it, "Value")?)?.into()).is_some() {
            return Err("custom data key twice".into());
        }
    }
    for it in one(meta, "CustomIcons")?.map(|b| &b.kids[..]).unwrap_or(&[]) {
        if m.custom_icons.insert(d_uuid(it, "UUID")?, b64::dec(text(must(it, "Data")?)?)?).is_some() {
            return Err("custom icon twice".into());
        }
    }
    m.def_username = d_str(meta, "DefaultUserName")?;
    m.def_username_changed = d_time(meta, "DefaultUserNameChanged")?;
    m.description = d_str(meta, "DatabaseDescription")?;
    m.description_changed = d_time(meta, "DatabaseDescriptionChanged")?;
    m.templates_changed = d_time(meta, "EntryTemplatesGroupChanged")?;
    m.templates_uuid = d_uuid(meta, "EntryTemplatesGroup")?;
    m.history_max_items = d_i32(meta, "HistoryMaxItems")?;
    m.history_max_size = d_i32(meta, "HistoryMaxSize")?;
    m.last_selected = d_uuid(meta, "LastSelectedGroup")?;
    m.last_top_group = d_uuid(meta, "LastTopVisibleGroup")?;
    m.maintenance_days = d_i32(meta, "MaintenanceHistoryDays")?;
    m.mk_change_force = d_i32(meta, "MasterKeyChangeForce")?;
    m.mk_change_rec = d_i32(meta, "MasterKeyChangeRec")?;
    m.mk_changed = d_time(meta, "MasterKeyChanged")?;
    m.name = d_str(meta, "DatabaseName")?;
    m.name_changed = d_time(meta, "DatabaseNameChanged")?;
    let mp = must(meta, "MemoryProtection")?;
    m.prot = [
        d_bool(mp, "ProtectNotes")?,
        d_bool(mp, "ProtectPassword")?,
        d_bool(mp, "ProtectTitle")?,
        d_bool(mp, "ProtectURL")?,
        d_bool(mp, "ProtectUserName")?,
    ];
    m.bin_changed = d_time(meta, "RecycleBinChanged")?;
    m.bin_enabled = d_bool(meta, "RecycleBinEnabled")?;
    m.bin_uuid = d_uuid(meta, "RecycleBinUUID")?;
    m.root = d_group(must(must(&x, "Root")?, "Group")?)?;
    m.root.fix_parents(NIL);
    Ok((m, x, salsa.used))
}
