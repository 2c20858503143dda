//! Reference model of a database: plain data, compared field by field.
use chrono::{DateTime, Utc};
use kpdb::*;
use secstr::SecStr;
use std::collections::BTreeMap;
use uuid::Uuid;

/// A moment: seconds since 1970 and nanoseconds (>= 10^9 inside a leap second).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct T(pub i64, pub u32);

impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "T({}, {})", self.0, self.1)
    }
}

impl T {
    pub fn of(d: DateTime<Utc>) -> T {
        T(d.timestamp(), d.timestamp_subsec_nanos())
    }
    pub fn dt(self) -> DateTime<Utc> {
        DateTime::from_timestamp(self.0, self.1).expect("model time in range")
    }
}

pub type U = [u8; 16];
pub type Rgb = [u8; 3];

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SVal {
    Plain(String),
    Prot(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum BVal {
    Plain(Vec<u8>),
    Prot(Vec<u8>),
    Ref(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MKey {
    Notes,
    Password,
    Title,
    Url,
    Username,
    Other(String),
}

impl MKey {
    /// The name the format uses.
    pub fn name(&self) -> String {
        match self {
            MKey::Notes => "Notes".into(),
            MKey::Password => "Password".into(),
            MKey::Title => "Title".into(),
            MKey::Url => "URL".into(),
            MKey::Username => "UserName".into(),
            MKey::Other(s) => s.clone(),
        }
    }
    pub fn of_name(s: &str) -> MKey {
        match s {
            "Notes" => MKey::Notes,
            "Password" => MKey::Password,
            "Title" => MKey::Title,
            "URL" => MKey::Url,
            "UserName" => MKey::Username,
            _ => MKey::Other(s.into()),
        }
    }
    pub fn to_lib(&self) -> StringKey {
        match self {
            MKey::Notes => StringKey::Notes,
            MKey::Password => StringKey::Password,
            MKey::Title => StringKey::Title,
            MKey::Url => StringKey::Url,
            MKey::Username => StringKey::Username,
            MKey::Other(s) => StringKey::Other(s.clone()),
        }
    }
    pub fn of_lib(k: &StringKey) -> MKey {
        match k {
            StringKey::Notes => MKey::Notes,
            StringKey::Password => MKey::Password,
            StringKey::Title => MKey::Title,
            StringKey::Url => MKey::Url,
            StringKey::Username => MKey::Username,
            StringKey::Other(s) => MKey::Other(s.clone()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MTimes {
    pub creation: T,
    pub expiry: T,
    pub expires: bool,
    pub access: T,
    pub modification: T,
    pub location: T,
    pub usage: i32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MEntry {
    pub uuid: U,
    pub parent: U,
    pub assoc: Vec<(String, String)>,
    pub at_seq: String,
    pub at_enabled: bool,
    pub at_obf: i32,
    pub bg: Option<Rgb>,
    pub fg: Option<Rgb>,
    pub binaries: BTreeMap<String, BVal>,
    pub custom_icon: Option<U>,
    pub history: Vec<MEntry>,
    pub icon: i32,
    pub override_url: String,
    pub strings: BTreeMap<MKey, SVal>,
    pub tags: String,
    pub times: MTimes,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MGroup {
    pub uuid: U,
    pub parent: U,
    pub name: String,
    pub notes: String,
    pub icon: i32,
    pub custom_icon: Option<U>,
    pub at_seq: String,
    pub enable_auto_type: Option<bool>,
    pub enable_searching: Option<bool>,
    pub is_expanded: bool,
    pub last_top: U,
    pub times: MTimes,
    pub entries: Vec<MEntry>,
    pub groups: Vec<MGroup>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MDb {
    pub comment: Option<Vec<u8>>,
    pub ckey: [u8; 32],
    pub gzip: bool,
    pub rounds: u64,
    pub version: (u16, u16),
    pub binaries: BTreeMap<String, Vec<u8>>,
    pub color: Option<Rgb>,
    pub custom_data: BTreeMap<String, String>,
    pub custom_icons: BTreeMap<U, Vec<u8>>,
    pub def_username: String,
    pub def_username_changed: T,
    pub description: String,
    pub description_changed: T,
    pub templates_changed: T,
    pub templates_uuid: U,
    pub generator: String,
    pub history_max_items: i32,
    pub history_max_size: i32,
    pub last_selected: U,
    pub last_top_group: U,
    pub maintenance_days: i32,
    pub mk_change_force: i32,
    pub mk_change_rec: i32,
    pub mk_changed: T,
    pub name: String,
    pub name_changed: T,
    pub prot: [bool; 5], // notes, password, title, url, username
    pub bin_changed: T,
    pub bin_enabled: bool,
    pub bin_uuid: U,
    pub root: MGroup,
}

pub const NIL: U = [0; 16];
pub const T0: T = T(1_500_000_000, 0);

pub fn times0() -> MTimes {
    MTimes { creation: T0, expiry: T0, expires: false, access: T0, modification: T0, location: T0, usage: 0 }
}

pub fn uid(n: u32) -> U {
    let mut u = [0x40u8; 16];
    u[12..].copy_from_slice(&n.to_be_bytes());
    u[0] = 0xa0 ^ n as u8;
    u
}

impl MEntry {
    pub fn new(uuid: U) -> MEntry {
        MEntry {
            uuid,
            parent: NIL,
            assoc: vec![],
            at_seq: String::new(),
            at_enabled: true,
            at_obf: 0,
            bg: None,
            fg: None,
            binaries: BTreeMap::new(),
            custom_icon: None,
            history: vec![],
            icon: 0,
            override_url: String::new(),
            strings: BTreeMap::new(),
            tags: String::new(),
            times: times0(),
        }
    }
    pub fn s(mut self, k: MKey, v: &str) -> MEntry {
        self.strings.insert(k, SVal::Plain(v.into()));
        self
    }
    pub fn p(mut self, k: MKey, v: &str) -> MEntry {
        self.strings.insert(k, SVal::Prot(v.as_bytes().to_vec()));
        self
    }
}

impl MGroup {
    pub fn new(uuid: U, name: &str) -> MGroup {
        MGroup {
            uuid,
            parent: NIL,
            name: name.into(),
            notes: String::new(),
            icon: 48,
            custom_icon: None,
            at_seq: String::new(),
            enable_auto_type: None,
            enable_searching: None,
            is_expanded: true,
            last_top: NIL,
            times: times0(),
            entries: vec![],
            groups: vec![],
        }
    }
    /// Every entry, with its history.
    pub fn each_entry_mut(&mut self, f: &mut dyn FnMut(&mut MEntry)) {
        for e in &mut self.entries {
            f(e);
            e.history.iter_mut().for_each(&mut *f);
        }
        for g in &mut self.groups {
            g.each_entry_mut(f);
        }
    }
    pub fn fix_parents(&mut self, parent: U) {
        self.parent = parent;
        for e in &mut self.entries {
            e.parent = self.uuid;
            for h in &mut e.history {
                h.parent = NIL;
            }
        }
        let u = self.uuid;
        for g in &mut self.groups {
            g.fix_parents(u);
        }
    }
    fn drop_nested_history(&mut self) {
        for e in &mut self.entries {
            for h in &mut e.history {
                h.history.clear();
            }
        }
        for g in &mut self.groups {
            g.drop_nested_history();
        }
    }
}

impl MDb {
    pub fn new(ckey: [u8; 32]) -> MDb {
        MDb {
            comment: None,
            ckey,
            gzip: true,
            rounds: 1,
            version: (3, 1),
            binaries: BTreeMap::new(),
            color: None,
            custom_data: BTreeMap::new(),
            custom_icons: BTreeMap::new(),
            def_username: String::new(),
            def_username_changed: T0,
            description: String::new(),
            description_changed: T0,
            templates_changed: T0,
            templates_uuid: NIL,
            generator: "rust-kpdb".into(),
            history_max_items: 10,
            history_max_size: 6291456,
            last_selected: NIL,
            last_top_group: NIL,
            maintenance_days: 365,
            mk_change_force: -1,
            mk_change_rec: -1,
            mk_changed: T0,
            name: String::new(),
            name_changed: T0,
            prot: [false, true, false, false, false],
            bin_changed: T0,
            bin_enabled: true,
            bin_uuid: NIL,
            root: MGroup::new(uid(1), "Root"),
        }
    }

    /// What a save followed by an open is specified to give.
    pub fn after_reopen(&self) -> MDb {
        let mut m = self.clone();
        m.generator = "rust-kpdb".into();
        m.root.drop_nested_history();
        m.root.fix_parents(NIL);
        m
    }
}

fn rgb(c: &Option<Rgb>) -> Option<Color> {
    c.map(|c| Color { red: c[0], green: c[1], blue: c[2] })
}
fn of_rgb(c: &Option<Color>) -> Option<Rgb> {
    c.as_ref().map(|c| [c.red, c.green, c.blue])
}
fn obf(n: i32) -> Obfuscation {
    match n {
        0 => Obfuscation::None,
        1 => Obfuscation::UseClipboard,
        _ => unreachable!("model obfuscation"),
    }
}

pub fn icon(n: i32) -> Icon {
    ICONS[n as usize]
}
pub fn of_icon(i: Icon) -> i32 {
    ICONS.iter().position(|x| *x == i).expect("icon known to the model") as i32
}

fn put_times<X: Times>(x: &mut X, t: &MTimes) {
    x.set_creation_time(t.creation.dt());
    x.set_expiry_time(t.expiry.dt());
    x.set_expires(t.expires);
    x.set_last_accessed(t.access.dt());
    x.set_last_modified(t.modification.dt());
    x.set_location_changed(t.location.dt());
    x.set_usage_count(t.usage);
}

pub fn build_entry(m: &MEntry) -> Entry {
    let mut e = Entry::default();
    e.uuid = EntryUuid(Uuid::from_bytes(m.uuid));
    e.parent = GroupUuid(Uuid::from_bytes(m.parent));
    for (k, w) in &m.assoc {
        e.associations.push(Association { keystroke_sequence: k.clone(), window: w.clone() });
    }
    e.auto_type_def_sequence = m.at_seq.clone();
    e.auto_type_enabled = m.at_enabled;
    e.auto_type_obfuscation = obf(m.at_obf);
    e.background_color = rgb(&m.bg);
    e.foreground_color = rgb(&m.fg);
    for (k, v) in &m.binaries {
        let v = match v {
            BVal::Plain(b) => BinaryValue::Plain(b.clone()),
            BVal::Prot(b) => BinaryValue::Protected(SecStr::new(b.clone())),
            BVal::Ref(r) => BinaryValue::Ref(BinaryId(r.clone())),
        };
        e.binaries.insert(BinaryKey(k.clone()), v);
    }
    e.custom_icon_uuid = m.custom_icon.map(|u| CustomIconUuid(Uuid::from_bytes(u)));
    e.history = m.history.iter().map(build_entry).collect();
    e.icon = icon(m.icon);
    e.override_url = m.override_url.clone();
    for (k, v) in &m.strings {
        let v = match v {
            SVal::Plain(s) => StringValue::Plain(s.clone()),
            SVal::Prot(b) => StringValue::Protected(SecStr::new(b.clone())),
        };
        e.strings.insert(k.to_lib(), v);
    }
    e.tags = m.tags.clone();
    e.creation_time = m.times.creation.dt();
    e.expiry_time = m.times.expiry.dt();
    e.expires = m.times.expires;
    e.last_accessed = m.times.access.dt();
    e.last_modified = m.times.modification.dt();
    e.location_changed = m.times.location.dt();
    e.usage_count = m.times.usage;
    e
}

pub fn build_group(m: &MGroup) -> Group {
    let mut g = Group::default();
    g.uuid = GroupUuid(Uuid::from_bytes(m.uuid));
    g.parent = GroupUuid(Uuid::from_bytes(m.parent));
    g.name = m.name.clone();
    g.notes = m.notes.clone();
    g.icon = icon(m.icon);
    g.custom_icon_uuid = m.custom_icon.map(|u| CustomIconUuid(Uuid::from_bytes(u)));
    g.def_auto_type_sequence = m.at_seq.clone();
    g.enable_auto_type = m.enable_auto_type;
    g.enable_searching = m.enable_searching;
    g.is_expanded = m.is_expanded;
    g.last_top_visible_entry = EntryUuid(Uuid::from_bytes(m.last_top));
    g.creation_time = m.times.creation.dt();
    g.expiry_time = m.times.expiry.dt();
    g.expires = m.times.expires;
    g.last_accessed = m.times.access.dt();
    g.last_modified = m.times.modification.dt();
    g.location_changed = m.times.location.dt();
    g.usage_count = m.times.usage;
    g.entries = m.entries.iter().map(build_entry).collect();
    g.groups = m.groups.iter().map(build_group).collect();
    g
}

/// Sets the times through the trait (used where the trait itself is under test).
pub fn put_times_via_trait<X: Times>(x: &mut X, t: &MTimes) {
    put_times(x, t)
}

/// A composite key with given bytes cannot be made through the public API, so databases are built
/// for a `CompositeKey` value; `m.ckey` must be its bytes.
pub fn build(m: &MDb, key: &CompositeKey) -> Database {
    let mut d = Database::new(key);
    d.comment = m.comment.clone().map(Comment);
    d.compression = if m.gzip { Compression::GZip } else { Compression::None };
    d.transform_rounds = TransformRounds(m.rounds);
    d.version = Version { major: m.version.0, minor: m.version.1 };
    d.binaries = m.binaries.iter().map(|(k, v)| (BinaryId(k.clone()), v.clone())).collect();
    d.color = rgb(&m.color);
    d.custom_data = m.custom_data.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    d.custom_icons = m.custom_icons.iter().map(|(k, v)| (CustomIconUuid(Uuid::from_bytes(*k)), v.clone())).collect();
    d.def_username = m.def_username.clone();
    d.def_username_changed = m.def_username_changed.dt();
    d.description = m.description.clone();
    d.description_changed = m.description_changed.dt();
    d.entry_templates_group_changed = m.templates_changed.dt();
    d.entry_templates_group_uuid = GroupUuid(Uuid::from_bytes(m.templates_uuid));
    d.generator = m.generator.clone();
    d.history_max_items = m.history_max_items;
    d.history_max_size = m.history_max_size;
    d.last_selected_group = GroupUuid(Uuid::from_bytes(m.last_selected));
    d.last_top_visible_group = GroupUuid(Uuid::from_bytes(m.last_top_group));
    d.maintenance_history_days = m.maintenance_days;
    d.master_key_change_force = m.mk_change_force;
    d.master_key_change_rec = m.mk_change_rec;
    d.master_key_changed = m.mk_changed.dt();
    d.name = m.name.clone();
    d.name_changed = m.name_changed.dt();
    d.protect_notes = m.prot[0];
    d.protect_password = m.prot[1];
    d.protect_title = m.prot[2];
    d.protect_url = m.prot[3];
    d.protect_username = m.prot[4];
    d.recycle_bin_changed = m.bin_changed.dt();
    d.recycle_bin_enabled = m.bin_enabled;
    d.recycle_bin_uuid = GroupUuid(Uuid::from_bytes(m.bin_uuid));
    d.root_group = build_group(&m.root);
    d
}

pub fn entry_of(e: &Entry) -> MEntry {
    MEntry {
        uuid: *e.uuid.0.as_bytes(),
        parent: *e.parent.0.as_bytes(),
        assoc: e.associations.iter().map(|a| (a.keystroke_sequence.clone(), a.window.clone())).collect(),
        at_seq: e.auto_type_def_sequence.clone(),
        at_enabled: e.auto_type_enabled,
        at_obf: match e.auto_type_obfuscation {
            Obfuscation::None => 0,
            Obfuscation::UseClipboard => 1,
        },
        bg: of_rgb(&e.background_color),
        fg: of_rgb(&e.foreground_color),
        binaries: e
            .binaries
            .iter()
            .map(|(k, v)| {
                let v = match v {
                    BinaryValue::Plain(b) => BVal::Plain(b.clone()),
                    BinaryValue::Protected(s) => BVal::Prot(s.unsecure().to_vec()),
                    BinaryValue::Ref(r) => BVal::Ref(r.0.clone()),
                };
                (k.0.clone(), v)
            })
            .collect(),
        custom_icon: e.custom_icon_uuid.map(|u| *u.0.as_bytes()),
        history: e.history.iter().map(entry_of).collect(),
        icon: of_icon(e.icon),
        override_url: e.override_url.clone(),
        strings: e
            .strings
            .iter()
            .map(|(k, v)| {
                let v = match v {
                    StringValue::Plain(s) => SVal::Plain(s.clone()),
                    StringValue::Protected(s) => SVal::Prot(s.unsecure().to_vec()),
                };
                (MKey::of_lib(k), v)
            })
            .collect(),
        tags: e.tags.clone(),
        times: MTimes {
            creation: T::of(e.creation_time),
            expiry: T::of(e.expiry_time),
            expires: e.expires,
            access: T::of(e.last_accessed),
            modification: T::of(e.last_modified),
            location: T::of(e.location_changed),
            usage: e.usage_count,
        },
    }
}

pub fn group_of(g: &Group) -> MGroup {
    MGroup {
        uuid: *g.uuid.0.as_bytes(),
        parent: *g.parent.0.as_bytes(),
        name: g.name.clone(),
        notes: g.notes.clone(),
        icon: of_icon(g.icon),
        custom_icon: g.custom_icon_uuid.map(|u| *u.0.as_bytes()),
        at_seq: g.def_auto_type_sequence.clone(),
        enable_auto_type: g.enable_auto_type,
        enable_searching: g.enable_searching,
        is_expanded: g.is_expanded,
        last_top: *g.last_top_visible_entry.0.as_bytes(),
        times: MTimes {
            creation: T::of(g.creation_time),
            expiry: T::of(g.expiry_time),
            expires: g.expires,
            access: T::of(g.last_accessed),
            modification: T::of(g.last_modified),
            location: T::of(g.location_changed),
            usage: g.usage_count,
        },
        entries: g.entries.iter().map(entry_of).collect(),
        groups: g.groups.iter().map(group_of).collect(),
    }
}

pub fn of(d: &Database) -> MDb {
    MDb {
        comment: d.comment.as_ref().map(|c| c.0.clone()),
        ckey: d.composite_key.unsecure(),
        gzip: d.compression == Compression::GZip,
        rounds: d.transform_rounds.0,
        version: (d.version.major, d.version.minor),
        binaries: d.binaries.iter().map(|(k, v)| (k.0.clone(), v.clone())).collect(),
        color: of_rgb(&d.color),
        custom_data: d.custom_data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        custom_icons: d.custom_icons.iter().map(|(k, v)| (*k.0.as_bytes(), v.clone())).collect(),
        def_username: d.def_username.clone(),
        def_username_changed: T::of(d.def_username_changed),
        description: d.description.clone(),
        description_changed: T::of(d.description_changed),
        templates_changed: T::of(d.entry_templates_group_changed),
        templates_uuid: *d.entry_templates_group_uuid.0.as_bytes(),
        generator: d.generator.clone(),
        history_max_items: d.history_max_items,
        history_max_size: d.history_max_size,
        last_selected: *d.last_selected_group.0.as_bytes(),
        last_top_group: *d.last_top_visible_group.0.as_bytes(),
        maintenance_days: d.maintenance_history_days,
        mk_change_force: d.master_key_change_force,
        mk_change_rec: d.master_key_change_rec,
        mk_changed: T::of(d.master_key_changed),
        name: d.name.clone(),
        name_changed: T::of(d.name_changed),
        prot: [d.protect_notes, d.protect_password, d.protect_title, d.protect_url, d.protect_username],
        bin_changed: T::of(d.recycle_bin_changed),
        bin_enabled: d.recycle_bin_enabled,
        bin_uuid: *d.recycle_bin_uuid.0.as_bytes(),
        root: group_of(&d.root_group),
    }
}

/// First difference between two models, as text.
pub fn diff(expected: &MDb, actual: &MDb) -> Option<String> {
    if expected == actual {
        return None;
    }
    Some(diff_text(&format!("{:#?}", expected), &format!("{:#?}", actual)))
}

pub fn diff_text(a: &str, b: &str) -> String {
    let (la, lb): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    let mut path: Vec<(usize, String)> = vec![];
    for i in 0..la.len().max(lb.len()) {
        let x = la.get(i).copied().unwrap_or("<end>");
        let y = lb.get(i).copied().unwrap_or("<end>");
        if x != y {
            let p: Vec<String> = path.iter().map(|p| p.1.clone()).collect();
            return format!("at {}: expected `{}`, got `{}`", p.join("/"), clip(x.trim()), clip(y.trim()));
        }
        let ind = x.len() - x.trim_start().len();
        while path.last().map_or(false, |p| p.0 >= ind) {
            path.pop();
        }
        if x.ends_with('{') || x.ends_with('[') || x.ends_with('(') {
            path.push((ind, clip(x.trim().trim_end_matches(['{', '[', '(', ' ', ':'])).to_string()));
        }
    }
    "differs".into()
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 120 {
        let mut t: String = s.chars().take(120).collect();
        t.push('…');
        t
    } else {
        s.into()
    }
}

/// The standard icons in the order the format numbers them (KeePass' PwIcon enumeration).
pub const ICONS: [Icon; 69] = [
    Icon::Key,
    Icon::World,
    Icon::Warning,
    Icon::Server,
    Icon::MarkedDirectory,
    Icon::UserCommunication,
    Icon::Parts,
    Icon::Notepad,
    Icon::WorldSocket,
    Icon::Identity,
    Icon::PaperReady,
    Icon::Digicam,
    Icon::IRCommunication,
    Icon::MultipleKeys,
    Icon::Energy,
    Icon::Scanner,
    Icon::WorldStar,
    Icon::CDRom,
    Icon::Monitor,
    Icon::Email,
    Icon::Configuration,
    Icon::ClipboardReady,
    Icon::PaperNew,
    Icon::Screen,
    Icon::EnergyCareful,
    Icon::Inbox,
    Icon::Disk,
    Icon::Drive,
    Icon::QuickTime,
    Icon::EncryptedTerminal,
    Icon::Console,
    Icon::Printer,
    Icon::Icons,
    Icon::Run,
    Icon::Settings,
    Icon::WorldComputer,
    Icon::Archive,
    Icon::Banking,
    Icon::Smb,
    Icon::Clock,
    Icon::EmailSearch,
    Icon::PaperFlag,
    Icon::Memory,
    Icon::RecycleBin,
    Icon::Note,
    Icon::Expired,
    Icon::Info,
    Icon::Package,
    Icon::Folder,
    Icon::FolderOpen,
    Icon::FolderPackage,
    Icon::LockOpen,
    Icon::PaperLocked,
    Icon::Checked,
    Icon::Pen,
    Icon::Thumbnail,
    Icon::Book,
    Icon::Listing,
    Icon::UserKey,
    Icon::Tool,
    Icon::Home,
    Icon::Star,
    Icon::Tux,
    Icon::Feather,
    Icon::Apple,
    Icon::Wikipedia,
    Icon::Money,
    Icon::Certificate,
    Icon::Phone,
];

pub fn clip400(s: &str) -> String {
    if s.chars().count() > 400 {
        let mut t: String = s.chars().take(400).collect();
        t.push('…');
        t
    } else {
        s.into()
    }
}
