//! A second reader of KDBX documents, for documents that need not be sound: it tells whether a
//! document has a defect (must be refused), is sound (and what it says), or is in an area the
//! format leaves open. It works on the tree of the strict XML parser and shares nothing with the
//! library.
use crate::kdbx::Params;
use crate::model::*;
use crate::refs::{b64, salsa::Salsa20, xml, xml::Elem};

#[derive(Clone, Debug)]
pub enum Verdict {
    /// the document must be refused
    Defect(String),
    /// the document says this
    Sound(MDb),
    /// nothing to judge
    Open(String),
}

struct Rd<'a> {
    salsa: Salsa20,
    defects: Vec<String>,
    /// defects of decrypted text: only there if the inner stream is where it should be
    soft: Vec<String>,
    open: Vec<String>,
    p: &'a Params,
}

fn ci<'e>(e: &'e Elem, n: &str) -> Vec<&'e str> {
    e.attrs.iter().filter(|a| a.0.eq_ignore_ascii_case(n)).map(|a| a.1.as_str()).collect()
}

fn says_protected(e: &Elem) -> bool {
    ci(e, "Protected").iter().any(|v| v.eq_ignore_ascii_case("true"))
}

fn has_secrets(e: &Elem) -> bool {
    says_protected(e) && e.nodes.iter().any(|n| matches!(n, xml::Node::Text(t) if !t.trim().is_empty())) || e.children().any(has_secrets)
}

const XML_WS: [char; 4] = [' ', '\t', '\n', '\r'];

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

impl<'a> Rd<'a> {
    fn defect<V>(&mut self, t: String) -> Option<V> {
        self.defects.push(t);
        None
    }
    fn open_<V>(&mut self, t: String) -> Option<V> {
        self.open.push(t);
        None
    }
    fn ignored(&mut self, e: &Elem) {
        if has_secrets(e) {
            self.open.push(format!("protected values inside <{}>, which is ignored", e.name));
        }
    }
    /// The text of a value; elements inside it have no effect.
    fn text(&mut self, e: &Elem, may_be_protected: bool) -> String {
        if !may_be_protected && says_protected(e) {
            self.open.push(format!("<{}> is protected", e.name));
        }
        let mut s = String::new();
        for n in &e.nodes {
            match n {
                xml::Node::Text(t) => s.push_str(t),
                xml::Node::Elem(k) => self.ignored(k),
            }
        }
        s
    }
    fn word(&mut self, e: &Elem) -> String {
        let t = self.text(e, false);
        let w = t.trim();
        if t.trim_matches(&XML_WS[..]) != w {
            self.open.push(format!("unusual white space in <{}>", e.name));
        }
        w.to_string()
    }
    fn base64(&mut self, name: &str, t: &str) -> Option<Vec<u8>> {
        if t.chars().any(|c| c.is_whitespace() && !XML_WS.contains(&c)) {
            return self.open_(format!("unusual white space in <{}>", name));
        }
        let s: String = t.chars().filter(|c| !XML_WS.contains(c)).collect();
        match b64::dec(&s) {
            Ok(b) => Some(b),
            Err(e) if e.contains("trailing bits") => self.open_(format!("<{}>: {}", name, e)),
            Err(e) => self.defect(format!("<{}>: {}", name, e)),
        }
    }
    fn bytes(&mut self, e: &Elem) -> Option<Vec<u8>> {
        let t = self.text(e, false);
        self.base64(&e.name, &t)
    }
    /// None: absent
    fn uuid_opt(&mut self, e: &Elem) -> Option<Option<U>> {
        let b = self.bytes(e)?;
        if b.is_empty() {
            return Some(None);
        }
        match b.try_into() {
            Ok(u) => Some(Some(u)),
            Err(_) => self.defect(format!("<{}>: not 16 bytes", e.name)),
        }
    }
    fn uuid(&mut self, e: &Elem) -> Option<U> {
        match self.uuid_opt(e)? {
            Some(u) => Some(u),
            None => self.defect(format!("<{}>: empty", e.name)),
        }
    }
    fn bool_opt(&mut self, e: &Elem) -> Option<Option<bool>> {
        let w = self.word(e);
        match w.to_ascii_lowercase().as_str() {
            "true" => Some(Some(true)),
            "false" => Some(Some(false)),
            "null" | "" => Some(None),
            _ => self.defect(format!("<{}>: {:?} is no boolean", e.name, w)),
        }
    }
    fn bool(&mut self, e: &Elem) -> Option<bool> {
        match self.bool_opt(e)? {
            Some(b) => Some(b),
            None => self.defect(format!("<{}>: no value", e.name)),
        }
    }
    fn i32(&mut self, e: &Elem) -> Option<i32> {
        let w = self.word(e);
        if let Some(p) = w.strip_prefix('+') {
            if digits(p) {
                return self.open_(format!("<{}>: {:?}", e.name, w));
            }
        }
        let d = w.strip_prefix('-').unwrap_or(&w);
        if !digits(d) {
            return self.defect(format!("<{}>: {:?} is no number", e.name, w));
        }
        match w.parse() {
            Ok(n) => Some(n),
            Err(_) => self.defect(format!("<{}>: {:?} does not fit", e.name, w)),
        }
    }
    fn within(&mut self, e: &Elem, max: i32) -> Option<i32> {
        let n = self.i32(e)?;
        if n < 0 || n > max {
            return self.defect(format!("<{}>: {} is not one of its values", e.name, n));
        }
        Some(n)
    }
    fn color(&mut self, e: &Elem) -> Option<Option<Rgb>> {
        let w = self.word(e);
        if w.is_empty() {
            return Some(None);
        }
        let h: Vec<u8> = w.bytes().collect();
        if h.len() != 7 || h[0] != b'#' || !h[1..].iter().all(|c| c.is_ascii_hexdigit()) {
            return self.defect(format!("<{}>: {:?} is no colour", e.name, w));
        }
        let v = b64::unhex(&w[1..]);
        Some(Some([v[0], v[1], v[2]]))
    }
    fn time(&mut self, e: &Elem) -> Option<T> {
        let w = self.word(e);
        let m = |s: &str| format!("<{}>: {:?} {}", e.name, w, s);
        if let Some((y, _)) = w.split_once('-') {
            if y.len() == 4 && digits(y) {
                if let Ok(t) = crate::xmlmodel::parse_iso(&w) {
                    let ok = t.1 < 1_000_000_000 && t == crate::xmlmodel::parse_iso(&crate::xmlmodel::iso(t)).unwrap_or(T(0, 0));
                    // days past the end of the month come out as another date
                    let same = crate::xmlmodel::iso(t).get(..19) == w.get(..19);
                    return match (ok, same) {
                        (true, true) => Some(t),
                        (true, false) => self.defect(m("is no date")),
                        _ => self.open_(m("leap second")),
                    };
                }
            }
        }
        // what no reading of the standard's forms allows
        let lower = w.to_ascii_lowercase();
        let odd = lower.bytes().any(|b| !(b.is_ascii_digit() || b"tzutc:.+- \n\t\r".contains(&b)));
        if !odd && w.contains(char::is_whitespace) {
            return self.open_(m("has white space inside"));
        }
        let d: Vec<&str> = w.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
        let n = |i: usize| d.get(i).and_then(|x| x.parse::<u32>().ok());
        if odd || d.len() < 6 {
            return self.defect(m("is no time"));
        }
        if n(1).map_or(true, |x| x == 0 || x > 12) || n(2).map_or(true, |x| x == 0 || x > 31) || n(3).map_or(true, |x| x > 23) || n(4).map_or(true, |x| x > 59) || n(5).map_or(true, |x| x > 60) {
            return self.defect(m("is no time"));
        }
        self.open_(m("is an unusual time"))
    }
    fn flag(&mut self, e: &Elem, n: &str) -> bool {
        let v = ci(e, n);
        if v.len() > 1 {
            self.open.push(format!("{} twice on <{}>", n, e.name));
        }
        match v.first() {
            None => false,
            Some(v) => match v.to_ascii_lowercase().as_str() {
                "true" => true,
                "false" => false,
                t if t.trim() == "true" || t.trim() == "false" => {
                    self.open.push(format!("{}={:?}", n, v));
                    false
                }
                _ => {
                    self.defects.push(format!("{}={:?} on <{}>", n, v, e.name));
                    false
                }
            },
        }
    }
    fn secret(&mut self, e: &Elem, t: &str) -> Option<Vec<u8>> {
        let b = self.base64(&e.name, t)?;
        Some(self.salsa.apply(&b))
    }
    fn unpacked(&mut self, e: &Elem, t: &str) -> Option<Vec<u8>> {
        let z = self.base64(&e.name, t)?;
        if z.is_empty() {
            return Some(vec![]);
        }
        self.gunzip(&e.name, &z)
    }
    fn gunzip(&mut self, name: &str, z: &[u8]) -> Option<Vec<u8>> {
        match gzip_verdict(z) {
            Some(true) => gunzip_all(z),
            Some(false) => self.defect(format!("<{}>: damaged compression", name)),
            None => self.open_(format!("<{}>: unusual compression", name)),
        }
    }
    fn value(&mut self, v: &Elem) -> Option<SVal> {
        let mem = self.flag(v, "ProtectInMemory");
        let prot = self.flag(v, "Protected");
        let t = self.text(v, true);
        if prot {
            let b = self.secret(v, &t)?;
            if std::str::from_utf8(&b).is_err() {
                self.soft.push("a protected text is not UTF-8".into());
                return None;
            }
            return Some(SVal::Prot(b));
        }
        Some(if mem { SVal::Prot(t.into_bytes()) } else { SVal::Plain(t) })
    }
    fn attachment(&mut self, v: &Elem) -> Option<BVal> {
        let r = ci(v, "Ref");
        let (z, p) = (self.flag(v, "Compressed"), self.flag(v, "Protected"));
        let t = self.text(v, true);
        if !r.is_empty() {
            if r.len() > 1 || z || p || !t.trim().is_empty() {
                self.open.push("a reference with content".into());
            }
            return Some(BVal::Ref(r[0].to_string()));
        }
        if z && p {
            return self.open_("compressed and protected".into());
        }
        Some(match (z, p) {
            (true, _) => BVal::Plain(self.unpacked(v, &t)?),
            (_, true) => BVal::Prot(self.secret(v, &t)?),
            _ => BVal::Plain(self.base64("Value", &t)?),
        })
    }
    /// The children of a container by name; `many`: those that may be there more than once.
    fn kids<'e>(&mut self, e: &'e Elem, many: &[&str]) -> Vec<&'e Elem> {
        if says_protected(e) {
            self.open.push(format!("<{}> is protected", e.name));
        }
        let mut seen: Vec<&str> = vec![];
        let mut v = vec![];
        for k in e.children() {
            if seen.contains(&k.name.as_str()) && !many.contains(&k.name.as_str()) {
                self.open.push(format!("<{}> twice in <{}>", k.name, e.name));
            }
            seen.push(&k.name);
            v.push(k);
        }
        v
    }
    fn times(&mut self, e: &Elem, t: &mut MTimes) {
        for k in self.kids(e, &[]) {
            macro_rules! put {
                ($f:ident, $v:expr) => {
                    if let Some(v) = $v {
                        t.$f = v;
                    }
                };
            }
            match k.name.as_str() {
                "CreationTime" => put!(creation, self.time(k)),
                "ExpiryTime" => put!(expiry, self.time(k)),
                "Expires" => put!(expires, self.bool(k)),
                "LastAccessTime" => put!(access, self.time(k)),
                "LastModificationTime" => put!(modification, self.time(k)),
                "LocationChanged" => put!(location, self.time(k)),
                "UsageCount" => put!(usage, self.i32(k)),
                _ => self.ignored(k),
            }
        }
    }
    fn pair<'e>(&mut self, e: &'e Elem, a: &str, b: &str) -> (Option<&'e Elem>, Option<&'e Elem>) {
        let (mut x, mut y) = (None, None);
        for k in self.kids(e, &[]) {
            if k.name == a {
                x = Some(k);
            } else if k.name == b {
                y = Some(k);
            } else {
                self.ignored(k);
            }
        }
        (x, y)
    }
    fn entry(&mut self, e: &Elem, like: Option<&MEntry>, is_history: bool) -> MEntry {
        let mut n = like.cloned().unwrap_or_else(|| MEntry::new(NIL));
        n.history.clear();
        n.assoc.clear();
        n.strings.clear();
        n.binaries.clear();
        macro_rules! put {
            ($f:ident, $v:expr) => {
                if let Some(v) = $v {
                    n.$f = v;
                }
            };
        }
        for k in self.kids(e, &["String", "Binary"]) {
            match k.name.as_str() {
                "UUID" => put!(uuid, self.uuid(k)),
                "IconID" => put!(icon, self.within(k, 68)),
                "CustomIconUUID" => put!(custom_icon, self.uuid_opt(k)),
                "ForegroundColor" => put!(fg, self.color(k)),
                "BackgroundColor" => put!(bg, self.color(k)),
                "OverrideURL" => n.override_url = self.text(k, false),
                "Tags" => n.tags = self.text(k, false),
                "Times" => self.times(k, &mut n.times),
                "String" => {
                    let (key, v) = self.pair(k, "Key", "Value");
                    // the value uses the inner stream wherever the key stands
                    let v = v.map(|v| self.value(v));
                    let key = key.map(|x| self.text(x, false));
                    match (key, v) {
                        (Some(key), Some(v)) => {
                            let std = ["Notes", "Password", "Title", "URL", "UserName"];
                            let name = std.iter().find(|s| s.eq_ignore_ascii_case(&key)).map(|s| s.to_string()).unwrap_or_else(|| key.clone());
                            if name != key {
                                self.open.push(format!("key {:?}", key));
                            }
                            if let Some(v) = v {
                                if n.strings.insert(MKey::of_name(&name), v).is_some() {
                                    self.open.push(format!("string {:?} twice", key));
                                }
                            }
                        }
                        _ => self.defects.push("a string without key or value".into()),
                    }
                }
                "Binary" => {
                    let (key, v) = self.pair(k, "Key", "Value");
                    let v = v.map(|v| self.attachment(v));
                    let key = key.map(|x| self.text(x, false));
                    match (key, v) {
                        (Some(key), Some(v)) => {
                            if let Some(v) = v {
                                if n.binaries.insert(key.clone(), v).is_some() {
                                    self.open.push(format!("attachment {:?} twice", key));
                                }
                            }
                        }
                        _ => self.defects.push("an attachment without key or value".into()),
                    }
                }
                "AutoType" => {
                    for a in self.kids(k, &["Association"]) {
                        match a.name.as_str() {
                            "Enabled" => put!(at_enabled, self.bool(a)),
                            "DataTransferObfuscation" => put!(at_obf, self.within(a, 1)),
                            "DefaultSequence" => n.at_seq = self.text(a, false),
                            "Association" => {
                                let (w, s) = self.pair(a, "Window", "KeystrokeSequence");
                                let (w, s) = (w.map(|x| self.text(x, false)), s.map(|x| self.text(x, false)));
                                match (w, s) {
                                    (Some(w), Some(s)) => n.assoc.push((s, w)),
                                    _ => self.open.push("an incomplete association".into()),
                                }
                            }
                            _ => self.ignored(a),
                        }
                    }
                }
                "History" if !is_history => {
                    for h in self.kids(k, &["Entry"]) {
                        if h.name == "Entry" {
                            let l = like.and_then(|l| l.history.get(n.history.len())).cloned();
                            let x = self.entry(h, l.as_ref(), true);
                            n.history.push(x);
                        } else {
                            self.ignored(h);
                        }
                    }
                }
                _ => self.ignored(k),
            }
        }
        n
    }
    fn group(&mut self, e: &Elem, like: Option<&MGroup>) -> MGroup {
        let mut g = like.cloned().unwrap_or_else(|| MGroup::new(NIL, ""));
        g.entries.clear();
        g.groups.clear();
        macro_rules! put {
            ($f:ident, $v:expr) => {
                if let Some(v) = $v {
                    g.$f = v;
                }
            };
        }
        for k in self.kids(e, &["Entry", "Group"]) {
            match k.name.as_str() {
                "UUID" => put!(uuid, self.uuid(k)),
                "Name" => g.name = self.text(k, false),
                "Notes" => g.notes = self.text(k, false),
                "IconID" => put!(icon, self.within(k, 68)),
                "CustomIconUUID" => put!(custom_icon, self.uuid_opt(k)),
                "Times" => self.times(k, &mut g.times),
                "IsExpanded" => put!(is_expanded, self.bool(k)),
                "DefaultAutoTypeSequence" => g.at_seq = self.text(k, false),
                "EnableAutoType" => put!(enable_auto_type, self.bool_opt(k)),
                "EnableSearching" => put!(enable_searching, self.bool_opt(k)),
                "LastTopVisibleEntry" => put!(last_top, self.uuid(k)),
                "Entry" => {
                    let l = like.and_then(|l| l.entries.get(g.entries.len())).cloned();
                    let x = self.entry(k, l.as_ref(), false);
                    g.entries.push(x);
                }
                "Group" => {
                    let l = like.and_then(|l| l.groups.get(g.groups.len())).cloned();
                    let x = self.group(k, l.as_ref());
                    g.groups.push(x);
                }
                _ => self.ignored(k),
            }
        }
        g
    }
    fn meta(&mut self, e: &Elem, m: &mut MDb, header: &[u8]) {
        macro_rules! put {
            ($f:ident, $v:expr) => {
                if let Some(v) = $v {
                    m.$f = v;
                }
            };
        }
        for k in self.kids(e, &[]) {
            match k.name.as_str() {
                "Generator" => m.generator = self.text(k, false),
                "HeaderHash" => {
                    if let Some(b) = self.bytes(k) {
                        if b != crate::refs::sha::sha256(header) {
                            self.defects.push("another header's hash".into());
                        }
                    }
                }
                "DatabaseName" => m.name = self.text(k, false),
                "DatabaseNameChanged" => put!(name_changed, self.time(k)),
                "DatabaseDescription" => m.description = self.text(k, false),
                "DatabaseDescriptionChanged" => put!(description_changed, self.time(k)),
                "DefaultUserName" => m.def_username = self.text(k, false),
                "DefaultUserNameChanged" => put!(def_username_changed, self.time(k)),
                "MaintenanceHistoryDays" => put!(maintenance_days, self.i32(k)),
                "Color" => put!(color, self.color(k)),
                "MasterKeyChanged" => put!(mk_changed, self.time(k)),
                "MasterKeyChangeRec" => put!(mk_change_rec, self.i32(k)),
                "MasterKeyChangeForce" => put!(mk_change_force, self.i32(k)),
                "MemoryProtection" => {
                    for p in self.kids(k, &[]) {
                        let at = ["ProtectNotes", "ProtectPassword", "ProtectTitle", "ProtectURL", "ProtectUserName"].iter().position(|x| *x == p.name);
                        match at {
                            Some(i) => {
                                if let Some(b) = self.bool(p) {
                                    m.prot[i] = b;
                                }
                            }
                            None => self.ignored(p),
                        }
                    }
                }
                "CustomIcons" => {
                    m.custom_icons.clear();
                    for i in self.kids(k, &["Icon"]) {
                        if i.name != "Icon" {
                            self.ignored(i);
                            continue;
                        }
                        match self.pair(i, "UUID", "Data") {
                            (Some(u), Some(d)) => {
                                let (u, d) = (self.uuid(u), self.bytes(d));
                                if let (Some(u), Some(d)) = (u, d) {
                                    if m.custom_icons.insert(u, d).is_some() {
                                        self.open.push("icon twice".into());
                                    }
                                }
                            }
                            _ => self.defects.push("an icon without id or data".into()),
                        }
                    }
                }
                "RecycleBinEnabled" => put!(bin_enabled, self.bool(k)),
                "RecycleBinUUID" => put!(bin_uuid, self.uuid(k)),
                "RecycleBinChanged" => put!(bin_changed, self.time(k)),
                "EntryTemplatesGroup" => put!(templates_uuid, self.uuid(k)),
                "EntryTemplatesGroupChanged" => put!(templates_changed, self.time(k)),
                "LastSelectedGroup" => put!(last_selected, self.uuid(k)),
                "LastTopVisibleGroup" => put!(last_top_group, self.uuid(k)),
                "HistoryMaxItems" => put!(history_max_items, self.i32(k)),
                "HistoryMaxSize" => put!(history_max_size, self.i32(k)),
                "Binaries" => {
                    m.binaries.clear();
                    for b in self.kids(k, &["Binary"]) {
                        if b.name != "Binary" {
                            self.ignored(b);
                            continue;
                        }
                        let id = ci(b, "ID");
                        let (z, p) = (self.flag(b, "Compressed"), self.flag(b, "Protected"));
                        let t = self.text(b, true);
                        if z && p {
                            self.open.push("compressed and protected".into());
                        }
                        let d = match (z, p) {
                            (_, true) => self.secret(b, &t),
                            (true, _) => self.unpacked(b, &t),
                            _ => self.base64("Binary", &t),
                        };
                        match &id[..] {
                            [] => self.defects.push("an attachment of the pool without id".into()),
                            [id] => {
                                if let Some(d) = d {
                                    if m.binaries.insert(id.to_string(), d).is_some() {
                                        self.open.push("pool id twice".into());
                                    }
                                }
                            }
                            _ => self.open.push("two ids".into()),
                        }
                    }
                }
                "CustomData" => {
                    m.custom_data.clear();
                    for i in self.kids(k, &["Item"]) {
                        if i.name != "Item" {
                            self.ignored(i);
                            continue;
                        }
                        match self.pair(i, "Key", "Value") {
                            (Some(a), Some(b)) => {
                                let (a, b) = (self.text(a, false), self.text(b, false));
                                if m.custom_data.insert(a, b).is_some() {
                                    self.open.push("custom data twice".into());
                                }
                            }
                            _ => self.defects.push("custom data without key or value".into()),
                        }
                    }
                }
                _ => self.ignored(k),
            }
        }
    }
}

/// Some(true): whole and sound; Some(false): damaged; None: in an area left open.
pub fn gzip_verdict(z: &[u8]) -> Option<bool> {
    use std::io::Read;
    if z.len() < 18 || z[..2] != [0x1f, 0x8b] {
        return Some(false);
    }
    if z[2] != 8 || z[3] & 0xe0 != 0 {
        return None;
    }
    if z[3] != 0 {
        // optional fields: only our own form, a file name
        if z[3] != 8 {
            return None;
        }
    }
    let body = if z[3] == 8 { 10 + z[10..].iter().position(|b| *b == 0)? + 1 } else { 10 };
    if body >= z.len() {
        return Some(false);
    }
    let mut out = vec![];
    let mut d = flate2::bufread::DeflateDecoder::new(&z[body..]);
    if d.read_to_end(&mut out).is_err() {
        return Some(false);
    }
    let used = d.total_in() as usize;
    let tail = &z[body + used..];
    if tail.len() < 8 {
        return Some(false);
    }
    let mut crc = !0u32;
    for b in &out {
        crc ^= *b as u32;
        for _ in 0..8 {
            crc = (crc >> 1) ^ (if crc & 1 == 1 { 0xedb88320 } else { 0 });
        }
    }
    if tail[..4] != (!crc).to_le_bytes() || tail[4..8] != (out.len() as u32).to_le_bytes() {
        return Some(false);
    }
    // another member, or something else that the statement does not speak of
    match &tail[8..] {
        [] => Some(true),
        [0x1f, 0x8b, ..] => gzip_verdict(&tail[8..]),
        _ => None,
    }
}

/// `like`: what the library made of the document; what the document does not say is taken from it.
pub fn read(doc: &[u8], p: &Params, like: Option<&MDb>) -> Verdict {
    let e = match xml::parse(doc) {
        Ok(e) => e,
        Err(t) => {
            if let Ok(s) = std::str::from_utf8(doc) {
                if s.match_indices("<!").any(|(i, _)| !s[i..].starts_with("<!--") && !s[i..].starts_with("<![CDATA[") && s[i..].len() > 9) {
                    return Verdict::Open("a declaration".into());
                }
            }
            return Verdict::Defect(format!("ill-formed: {}", t));
        }
    };
    fn spaces(e: &Elem) -> bool {
        e.name.contains(':') || e.attrs.iter().any(|a| a.0.contains(':') || a.0.starts_with("xmlns")) || e.children().any(spaces)
    }
    fn deep(e: &Elem, of: &str) -> usize {
        e.children().map(|k| deep(k, of)).max().unwrap_or(0) + (of.is_empty() || e.name == of) as usize
    }
    // a line end in an attribute is a space to XML, but not to the library's parser
    fn blank(e: &Elem) -> bool {
        e.attrs.iter().any(|a| a.1.contains(' ') && ["id", "ref"].contains(&a.0.to_ascii_lowercase().as_str())) || e.children().any(blank)
    }
    if blank(&e) {
        return Verdict::Open("white space in an id".into());
    }
    if spaces(&e) {
        return Verdict::Open("names with a colon".into());
    }
    if deep(&e, "Group") > 256 {
        return Verdict::Open("nested very deeply".into());
    }
    if e.name != "KeePassFile" {
        return Verdict::Defect(format!("the document is a <{}>", e.name));
    }
    let header = p.header();
    let mut r = Rd { salsa: p.salsa(), defects: vec![], soft: vec![], open: vec![], p };
    let mut m = like.cloned().unwrap_or_else(|| MDb::new(p.ckey));
    m.comment = r.p.comment.clone();
    m.ckey = p.ckey;
    m.gzip = p.gzip;
    m.rounds = p.rounds;
    m.version = (p.major, p.minor);
    m.binaries.clear();
    m.custom_data.clear();
    m.custom_icons.clear();
    let like_root = like.map(|l| l.root.clone());
    m.root.entries.clear();
    m.root.groups.clear();
    for k in r.kids(&e, &[]) {
        match k.name.as_str() {
            "Meta" => r.meta(k, &mut m, &header),
            "Root" => {
                for g in r.kids(k, &[]) {
                    if g.name == "Group" {
                        m.root = r.group(g, like_root.as_ref());
                    } else {
                        r.ignored(g);
                    }
                }
            }
            _ => r.ignored(k),
        }
    }
    if let Some(d) = r.defects.first() {
        return Verdict::Defect(d.clone());
    }
    if let Some(t) = r.open.first() {
        return Verdict::Open(t.clone());
    }
    if let Some(d) = r.soft.first() {
        return Verdict::Defect(d.clone());
    }
    m.root.fix_parents(NIL);
    Verdict::Sound(m)
}

fn gunzip_all(z: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut out = vec![];
    flate2::bufread::MultiGzDecoder::new(z).read_to_end(&mut out).ok()?;
    Some(out)
}
