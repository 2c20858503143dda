//! Histories: edits, searches, saves, reopens, clones and failures, in lockstep with a model.
use super::c04::Cred;
use super::c12::battery;
use super::c13;
use crate::engine::*;
use crate::env;
use crate::faultio::*;
use crate::kdbx;
use crate::lk::open;
use crate::lk::*;
use crate::model::*;
use crate::xmlmodel;
use kpdb::*;
use std::sync::Arc;

fn creds() -> Vec<Cred> {
    vec![Cred::Pw("one".into()), Cred::Pw("two".into()), Cred::Both("one".into(), (1..33).collect(), 2)]
}

#[derive(Clone)]
struct Side {
    d: Database,
    m: MDb,
    key: usize,
    /// how the object came about: 0 built, 1 reopened, 2 clone
    origin: u8,
}
#[derive(Clone)]
struct File {
    bytes: Arc<Vec<u8>>,
    m: MDb,
    key: usize,
}
#[derive(Clone)]
pub struct St {
    live: Side,
    other: Option<Side>,
    file: Option<File>,
    last: u8,
}
unsafe impl Send for St {}
unsafe impl Sync for St {}

#[derive(Clone, Debug)]
enum Op {
    Edit(c13::Op),
    Field(usize),
    Key,
    Save,
    SaveTwice,
    Reopen,
    SaveReopen,
    Clone,
    Swap,
    DropOther,
    Search,
    /// the sink fails after this many calls
    FailSink(u64),
    FailRng(u64),
    FailType,
    WrongKey,
    Cut(usize),
    FailSource(u64),
}

type Field = (&'static str, fn(&mut Database, &mut MDb));

fn entry<'a>(d: &'a mut Database, m: &'a mut MDb) -> Option<(&'a mut Entry, &'a mut MEntry)> {
    // the first entry of the root group
    Some((d.root_group.entries.first_mut()?, m.root.entries.first_mut()?))
}

fn fields() -> Vec<Field> {
    vec![
        ("comment", |d, m| {
            m.comment = match &m.comment {
                None => Some(b"first".to_vec()),
                Some(c) if c == b"first" => Some(vec![]),
                _ => None,
            };
            d.comment = m.comment.clone().map(Comment);
        }),
        ("compression", |d, m| {
            m.gzip = !m.gzip;
            d.compression = if m.gzip { Compression::GZip } else { Compression::None };
        }),
        ("rounds", |d, m| {
            m.rounds = (m.rounds + 1) % 3;
            d.transform_rounds = TransformRounds(m.rounds);
        }),
        ("name", |d, m| {
            m.name = if m.name == "a name" { String::new() } else { "a name".into() };
            d.name = m.name.clone();
        }),
        ("description", |d, m| {
            m.description = format!("{}d", if m.description.len() > 2 { "" } else { &m.description });
            d.description = m.description.clone();
        }),
        ("custom data", |d, m| {
            if m.custom_data.remove("k").is_some() {
                d.custom_data.remove("k");
            } else {
                m.custom_data.insert("k".into(), "v".into());
                d.custom_data.insert("k".into(), "v".into());
            }
        }),
        ("pool", |d, m| {
            let k = m.binaries.len().to_string();
            if m.binaries.len() < 2 {
                m.binaries.insert(k.clone(), vec![7; 20]);
                d.binaries.insert(BinaryId(k), vec![7; 20]);
            } else {
                m.binaries.clear();
                d.binaries.clear();
            }
        }),
        ("icons", |d, m| {
            let u = uid(40 + m.custom_icons.len() as u32);
            if m.custom_icons.len() < 2 {
                m.custom_icons.insert(u, vec![1, 2, 3]);
                d.custom_icons.insert(CustomIconUuid(uuid::Uuid::from_bytes(u)), vec![1, 2, 3]);
            } else {
                m.custom_icons.clear();
                d.custom_icons.clear();
            }
        }),
        ("memory protection", |d, m| {
            m.prot[2] = !m.prot[2];
            d.protect_title = m.prot[2];
        }),
        ("history", |d, m| {
            if let Some((e, x)) = entry(d, m) {
                if x.history.len() < 2 {
                    let mut h = e.clone();
                    h.history.clear();
                    e.history.push(h);
                    let mut h = x.clone();
                    h.history.clear();
                    x.history.push(h);
                } else {
                    x.history.clear();
                    e.history.clear();
                }
            }
        }),
        ("attachment", |d, m| {
            if let Some((e, x)) = entry(d, m) {
                let v = match x.binaries.get("file") {
                    None => BVal::Plain(vec![0, 1, 2]),
                    Some(BVal::Plain(_)) => BVal::Prot(b"protected file".to_vec()),
                    Some(BVal::Prot(_)) => BVal::Ref("0".into()),
                    Some(BVal::Ref(_)) => {
                        x.binaries.clear();
                        e.binaries.clear();
                        return;
                    }
                };
                x.binaries.insert("file".into(), v);
                let b = build_entry(x);
                e.binaries = b.binaries;
            }
        }),
        ("protected string", |d, m| {
            if let Some((e, x)) = entry(d, m) {
                let k = MKey::Other("PIN".into());
                if x.strings.remove(&k).is_some() {
                    e.strings.remove(&k.to_lib());
                } else {
                    x.strings.insert(k.clone(), SVal::Prot(b"1234".to_vec()));
                    e.strings.insert(k.to_lib(), StringValue::new("1234", true));
                }
            }
        }),
        ("associations and tags", |d, m| {
            if let Some((e, x)) = entry(d, m) {
                if x.assoc.len() < 2 {
                    x.assoc.push((format!("w{}", x.assoc.len()), "k".into()));
                    x.tags = "t;u".into();
                } else {
                    x.assoc.clear();
                    x.tags = String::new();
                }
                let b = build_entry(x);
                e.associations = b.associations;
                e.tags = b.tags;
            }
        }),
        ("a title no file can hold", |d, m| {
            if let Some((e, x)) = entry(d, m) {
                x.strings.insert(MKey::Title, SVal::Plain("\u{1}".into()));
                e.set_title("\u{1}");
            }
        }),
        ("recycle bin", |d, m| {
            m.bin_enabled = !m.bin_enabled;
            d.recycle_bin_enabled = m.bin_enabled;
            m.bin_uuid = if m.bin_enabled { NIL } else { uid(2) };
            d.recycle_bin_uuid = GroupUuid(uuid::Uuid::from_bytes(m.bin_uuid));
        }),
    ]
}

fn ops() -> Vec<Op> {
    let (r, a, b) = (uid(1), uid(11), uid(12));
    let mut v: Vec<Op> = [
        c13::Op::AddEntry(r, b, c13::How::Get),
        c13::Op::RemoveEntry(r, a, c13::How::Get),
        c13::Op::AddGroup(r, uid(2), c13::How::Get),
        c13::Op::AddGroup(uid(2), uid(3), c13::How::IterMut),
        c13::Op::RemoveGroup(r, uid(2), c13::How::Path),
        c13::Op::AddEntry(uid(2), a, c13::How::Find),
        c13::Op::MoveGroup(r, uid(2), uid(3)),
        c13::Op::MoveEntry(r, uid(2), b),
        c13::Op::Title(a, "one", c13::How::Find),
        c13::Op::Password(a, "secret", c13::How::Get),
        c13::Op::Rename(uid(2), "renamed", c13::How::Get),
        c13::Op::NotesOfMatching("ONE", "noted"),
        c13::Op::TouchAll(3),
    ]
    .into_iter()
    .map(Op::Edit)
    .collect();
    v.extend((0..fields().len()).map(Op::Field));
    v.extend([
        Op::Key,
        Op::Save,
        Op::SaveTwice,
        Op::Reopen,
        Op::SaveReopen,
        Op::Clone,
        Op::Swap,
        Op::DropOther,
        Op::Search,
        Op::FailSink(0),
        Op::FailSink(1),
        Op::FailRng(0),
        Op::FailRng(2),
        Op::FailType,
        Op::WrongKey,
        Op::Cut(100),
        Op::FailSource(3),
    ]);
    v
}
fn show_op(op: &Op) -> String {
    match op {
        Op::Edit(o) => format!("{:?}", o),
        Op::Field(n) => format!("Field({})", fields()[*n].0),
        o => format!("{:?}", o),
    }
}

/// What saving this model is specified to put into a file.
fn in_file(m: &MDb) -> MDb {
    m.after_reopen()
}

/// Checks the file by an independent reader; None if the library rightly refused.
fn save_checked(s: &Side) -> std::result::Result<Option<Vec<u8>>, Bad> {
    let r = save(&s.d);
    if unrepresentable(&s.m) {
        return match r {
            Err(_) => Ok(None),
            Ok(_) => bad("accepted", "content no file can hold was saved"),
        };
    }
    let bytes = match r {
        Ok(b) => b,
        Err(e) => return bad("refused", format!("saving fails: {:?}", e)),
    };
    let p = match kdbx::open(&bytes, &s.m.ckey) {
        Ok(p) => p,
        Err(e) => return bad("file", format!("an independent reader refuses the file: {}", e)),
    };
    let got = match xmlmodel::decode(&p) {
        Ok(g) => g,
        Err(e) => return bad("file", format!("an independent reader refuses the document: {}", e)),
    };
    let mut want = in_file(&s.m);
    want.generator = got.generator.clone();
    if let Some(x) = diff(&want, &got) {
        return bad("file", format!("the file holds something else: {}", x));
    }
    Ok(Some(bytes))
}

fn reopened(f: &File) -> std::result::Result<Side, Bad> {
    let d = match open(&f.bytes, &creds()[f.key].key()) {
        Ok(d) => d,
        Err(e) => return bad("reopen", format!("the saved file does not open: {:?}", e)),
    };
    let got = of(&d);
    let mut m = in_file(&f.m);
    m.generator = got.generator.clone();
    if let Some(x) = diff(&m, &got) {
        return bad("reopen", format!("reopened: {}", x));
    }
    Ok(Side { d, m, key: f.key, origin: 1 })
}

/// None: not applicable.
fn apply(s: &mut St, op: &Op) -> std::result::Result<bool, Bad> {
    match op {
        Op::Edit(o) => {
            if !c13::apply(&mut s.live.d, &mut s.live.m, o)? {
                return Ok(false);
            }
        }
        Op::Field(n) => (fields()[*n].1)(&mut s.live.d, &mut s.live.m),
        Op::Key => {
            s.live.key = (s.live.key + 1) % creds().len();
            let c = &creds()[s.live.key];
            s.live.d.composite_key = c.key();
            s.live.m.ckey = c.reference();
        }
        Op::Save | Op::SaveTwice | Op::SaveReopen => {
            let Some(b) = save_checked(&s.live)? else {
                s.last = 1;
                return Ok(true);
            };
            if let Op::SaveTwice = op {
                save_checked(&s.live)?;
            }
            for (i, c) in creds().iter().enumerate() {
                if i != s.live.key && open(&b, &c.key()).is_ok() {
                    return bad("credentials", format!("a file saved under credentials {} opens under {}", s.live.key, i));
                }
            }
            s.file = Some(File { bytes: Arc::new(b), m: s.live.m.clone(), key: s.live.key });
            if let Op::SaveReopen = op {
                s.live = reopened(s.file.as_ref().unwrap())?;
            }
        }
        Op::Reopen => match &s.file {
            Some(f) => s.live = reopened(f)?,
            None => return Ok(false),
        },
        Op::Clone => {
            let mut o = s.live.clone();
            o.origin = 2;
            s.other = Some(o);
        }
        Op::Swap => match s.other.take() {
            Some(o) => s.other = Some(std::mem::replace(&mut s.live, o)),
            None => return Ok(false),
        },
        Op::DropOther => {
            if s.other.take().is_none() {
                return Ok(false);
            }
        }
        Op::Search => {
            battery(&mut s.live.d, &s.live.m, &[uid(1), uid(2), uid(11), NIL], &["", "one", "N", "secret", "renamed"])?;
        }
        Op::FailSink(n) => {
            let sc = Script::acts(&[(*n, Act::Fail(0))]);
            let mut k = Sink::new(&sc);
            let r = s.live.d.save(&mut k);
            if r.is_ok() && (k.failed() || unrepresentable(&s.live.m)) {
                return bad("failed save", "saving to a failing sink reports success");
            }
        }
        Op::FailRng(n) => {
            env::rng(env::Rng::FailAfter(*n, *n));
            let r = no_panic(|| {
                let mut v = vec![];
                s.live.d.save(&mut v).is_ok()
            });
            env::rng(env::Rng::Stream(*n));
            if r == Ok(true) && *n == 0 {
                return bad("failed save", "saving without randomness reports success");
            }
        }
        Op::FailType => {
            let t = std::mem::replace(&mut s.live.d.db_type, DbType::Kdb1);
            let mut v = vec![];
            let r = s.live.d.save(&mut v);
            s.live.d.db_type = t;
            if r.is_ok() || !v.is_empty() {
                return bad("failed save", "saving an unsupported type succeeds or writes");
            }
        }
        Op::WrongKey => match &s.file {
            Some(f) => {
                if open(&f.bytes, &creds()[(f.key + 1) % 3].key()).is_ok() {
                    return bad("failed open", "a wrong key opens the file");
                }
            }
            None => return Ok(false),
        },
        Op::Cut(n) => match &s.file {
            Some(f) => {
                if open(&f.bytes[..f.bytes.len().saturating_sub(*n)], &creds()[f.key].key()).is_ok() {
                    return bad("failed open", "a cut file opens");
                }
            }
            None => return Ok(false),
        },
        Op::FailSource(n) => match &s.file {
            Some(f) => {
                let sc = Script::acts(&[(*n, Act::Fail(0))]);
                let mut src = Source::new(&f.bytes, &sc);
                if Database::open(&mut src, &creds()[f.key].key()).is_ok() && src.failed() {
                    return bad("failed open", "a failing source gives a database");
                }
            }
            None => return Ok(false),
        },
    }
    s.last = match op {
        Op::Edit(_) | Op::Field(_) | Op::Key => 0,
        Op::Save | Op::SaveTwice => 2,
        Op::Reopen | Op::SaveReopen => 3,
        Op::Clone | Op::Swap | Op::DropOther => 4,
        Op::Search => 5,
        Op::FailSink(_) | Op::FailRng(_) | Op::FailType => 6,
        Op::WrongKey | Op::Cut(_) | Op::FailSource(_) => 7,
    };
    Ok(true)
}

fn judge(s: &St, op: &Op) -> std::result::Result<(), Bad> {
    if let Some(x) = diff(&s.live.m, &of(&s.live.d)) {
        return bad("altered", format!("after {}: {}", show_op(op), x));
    }
    if let Some(o) = &s.other {
        if let Some(x) = diff(&o.m, &of(&o.d)) {
            return bad("clone", format!("after {} the other copy: {}", show_op(op), x));
        }
    }
    Ok(())
}

fn start(n: usize) -> St {
    let c = &creds()[0];
    let mut m = MDb::new(c.reference());
    if n == 0 {
        m.root = MGroup::new(uid(1), "Top");
        m.root.entries.push(MEntry::new(uid(11)).s(MKey::Title, "first"));
        m.root.groups.push(MGroup::new(uid(2), "sub"));
        m.root.fix_parents(NIL);
        return St { live: Side { d: build(&m, &c.key()), m, key: 0, origin: 0 }, other: None, file: None, last: 0 };
    }
    if n == 1 {
        // as the library makes it
        let mut d = Database::new(&c.key());
        d.root_group.uuid = GroupUuid(uuid::Uuid::from_bytes(uid(1)));
        let m = of(&d);
        return St { live: Side { d, m, key: 0, origin: 0 }, other: None, file: None, last: 0 };
    }
    let mut m = rich(c.reference());
    // within what the edits allow, so that they apply
    m.root.groups.truncate(1);
    m.root.entries.truncate(1);
    m.root.groups[0].groups.clear();
    m.rounds = 1;
    St { live: Side { d: build(&m, &c.key()), m, key: 0, origin: 0 }, other: None, file: None, last: 0 }
}
const STARTS: [&str; 3] = ["a small tree", "Database::new", "a database with everything"];

struct M {
    ops: Vec<Op>,
    starts: Vec<usize>,
}
impl Machine for M {
    type S = St;
    fn inits(&self) -> Vec<St> {
        self.starts.iter().map(|s| start(*s)).collect()
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn show_init(&self, i: usize) -> String {
        STARTS[self.starts[i]].into()
    }
    fn show_op(&self, op: usize) -> String {
        show_op(&self.ops[op])
    }
    fn step(&self, s: &St, op: usize) -> std::result::Result<Option<St>, Bad> {
        let mut n = s.clone();
        if !apply(&mut n, &self.ops[op])? {
            return Ok(None);
        }
        judge(&n, &self.ops[op])?;
        if let Some(x) = diff(&s.live.m, &of(&s.live.d)) {
            return bad("clone", format!("{} on a clone changed its original: {}", show_op(&self.ops[op]), x));
        }
        Ok(Some(n))
    }
    fn canon(&self, s: &St) -> u128 {
        digest128(&(
            &s.live.m,
            s.live.origin,
            s.other.as_ref().map(|o| (&o.m, o.origin)),
            s.file.as_ref().map(|f| (&f.m, f.key)),
            s.last,
        ))
    }
}

/// One word of operations, repeated; equal states are not merged.
fn word(start_: usize, w: &[&Op], times: usize) -> Res {
    let mut s = start(start_);
    let mut n = 0;
    for t in 0..times {
        for op in w {
            match apply(&mut s, op) {
                Ok(false) => {}
                Ok(true) => {
                    n += 1;
                    if let Err(b) = judge(&s, op) {
                        return bad(&b.key, format!("pass {}: {}", t + 1, b.text));
                    }
                }
                Err(b) => return bad(&b.key, format!("pass {}, {}: {}", t + 1, show_op(op), b.text)),
            }
        }
    }
    // and the end of it all is saved and read again
    apply(&mut s, &Op::SaveReopen)?;
    judge(&s, &Op::SaveReopen)?;
    good_n(if times > 1 { "loop as the model" } else { "sequence as the model" }, digest(&(&s.live.m, &s.other.as_ref().map(|o| &o.m), n)), n + 1)
}

// ---------------------------------------------------------------- the whole of a rich database

/// Makes on the object the changes that lead from model `a` to model `b`.
fn transplant(d: &mut Database, a: &MDb, b: &MDb, key: &CompositeKey) {
    let n = build(b, key);
    macro_rules! f {
        ($($m:ident => $($l:ident),+);* $(;)?) => { $( if a.$m != b.$m { $( d.$l = n.$l.clone(); )+ } )* };
    }
    f! {
        comment => comment; gzip => compression; rounds => transform_rounds; version => version; binaries => binaries;
        color => color; custom_data => custom_data; custom_icons => custom_icons; def_username => def_username;
        def_username_changed => def_username_changed; description => description; description_changed => description_changed;
        templates_changed => entry_templates_group_changed; templates_uuid => entry_templates_group_uuid; generator => generator;
        history_max_items => history_max_items; history_max_size => history_max_size; last_selected => last_selected_group;
        last_top_group => last_top_visible_group; maintenance_days => maintenance_history_days; mk_change_force => master_key_change_force;
        mk_change_rec => master_key_change_rec; mk_changed => master_key_changed; name => name; name_changed => name_changed;
        prot => protect_notes, protect_password, protect_title, protect_url, protect_username;
        bin_changed => recycle_bin_changed; bin_enabled => recycle_bin_enabled; bin_uuid => recycle_bin_uuid;
    }
    fn group(g: &mut Group, n: Group, a: &MGroup, b: &MGroup) {
        if a == b {
            return;
        }
        if a.groups.len() != b.groups.len() || a.entries.len() != b.entries.len() {
            *g = n;
            return;
        }
        let (kids, entries) = (std::mem::take(&mut g.groups), std::mem::take(&mut g.entries));
        let mut n = n;
        let (nk, ne) = (std::mem::take(&mut n.groups), std::mem::take(&mut n.entries));
        *g = n;
        for (i, (mut k, n)) in kids.into_iter().zip(nk).enumerate() {
            group(&mut k, n, &a.groups[i], &b.groups[i]);
            g.groups.push(k);
        }
        for (i, (e, n)) in entries.into_iter().zip(ne).enumerate() {
            g.entries.push(if a.entries[i] == b.entries[i] { e } else { n });
        }
    }
    group(&mut d.root_group, n.root_group, &a.root, &b.root);
}

fn two_changes(x: &Mutator, y: &Mutator) -> Res {
    let (key, ck) = pw("c19");
    let mut m = rich(ck);
    m.rounds = 1;
    (x.1)(&mut m);
    let d = build(&m, &key);
    let rep = !unrepresentable(&m);
    let b1 = match save(&d) {
        Ok(b) => b,
        Err(_) if !rep => {
            return match diff(&m, &of(&d)) {
                Some(x) => bad("altered", format!("a refused save changed the database: {}", x)),
                None => trivial("not representable", digest(&m)),
            }
        }
        Err(e) => return bad("refused", format!("saving fails: {:?}", e)),
    };
    if let Some(x) = diff(&m, &of(&d)) {
        return bad("altered", format!("saving changed the database: {}", x));
    }
    let mut r = match open(&b1, &key) {
        Ok(d) => d,
        Err(e) => return bad("reopen", format!("{:?}", e)),
    };
    let mut m1 = m.after_reopen();
    m1.generator = r.generator.clone();
    if let Some(x) = diff(&m1, &of(&r)) {
        return bad("reopen", x);
    }
    let copy = r.clone();
    let mut m2 = m1.clone();
    if no_panic(|| (y.1)(&mut m2)).is_err() {
        // the first change took away what the second changes
        return trivial("not both", digest(&m1));
    }
    transplant(&mut r, &m1, &m2, &key);
    if let Some(x) = diff(&m2, &of(&r)) {
        return bad("edit", format!("editing the reopened database: {}", x));
    }
    match save(&r) {
        Ok(b2) => {
            let d2 = match open(&b2, &key) {
                Ok(d) => d,
                Err(e) => return bad("reopen", format!("the second file: {:?}", e)),
            };
            let mut want = m2.after_reopen();
            want.generator = d2.generator.clone();
            if let Some(x) = diff(&want, &of(&d2)) {
                return bad("reopen", format!("the second file: {}", x));
            }
        }
        Err(_) if unrepresentable(&m2) => {}
        Err(e) => return bad("refused", format!("the second save fails: {:?}", e)),
    }
    if let Some(x) = diff(&m1, &of(&copy)) {
        return bad("clone", format!("a copy changed with its original: {}", x));
    }
    if let Some(x) = diff(&m2, &of(&r)) {
        return bad("altered", format!("the second save changed the database: {}", x));
    }
    good_n("two changes", digest(&(&m1, &m2)), 5)
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    let all = Arc::new(ops());
    let k = all.len() as u64;
    for len in 1..=ctx.q(3u32, 4) {
        let (a, b) = (all.clone(), all.clone());
        let ns = if len < ctx.q(3, 4) { 3 } else { 1 };
        v.push(
            Space::new(
                &format!("sequences of {}", len),
                "every sequence of that many operations (edits, saves, reopens, clones, searches, failures), from each start, no merging; saved and reopened at the end",
                k.pow(len) * ns,
                move |i| {
                    let (st, i) = ((i % ns) as usize, i / ns);
                    let w: Vec<&Op> = (0..len).map(|j| &a[(i / k.pow(j) % k) as usize]).collect();
                    word(st, &w, 1)
                },
                move |i| {
                    let (st, i) = ((i % ns) as usize, i / ns);
                    format!("{}: {}", STARTS[st], (0..len).map(|j| show_op(&b[(i / k.pow(j) % k) as usize])).collect::<Vec<_>>().join("; "))
                },
            )
            .into(),
        );
    }
    for len in 1..=ctx.q(2u32, 3) {
        let (a, b) = (all.clone(), all.clone());
        let times = ctx.q([0, 40, 12], [0, 400, 40])[len.min(2) as usize];
        v.push(
            Space::new(
                &format!("loops of {}", len),
                "every word of that many operations, repeated many times on the same objects, each time also saving and reopening",
                k.pow(len),
                move |i| {
                    let mut w: Vec<&Op> = (0..len).map(|j| &a[(i / k.pow(j) % k) as usize]).collect();
                    w.push(&Op::SaveReopen);
                    word(0, &w, times)
                },
                move |i| format!("({})*", (0..len).map(|j| show_op(&b[(i / k.pow(j) % k) as usize])).collect::<Vec<_>>().join("; ")),
            )
            .into(),
        );
    }
    let red = Arc::new(mutators_reduced());
    let full: Arc<Vec<Mutator>> = if ctx.thorough() { Arc::new(mutators()) } else { Arc::new(mutators_reduced().into_iter().filter(|m| !m.0.starts_with("comment of 6") && !m.0.starts_with("comment of 4096")).collect()) };
    // in the quick run, one change of each slot as the second
    let red = if ctx.thorough() {
        red
    } else {
        let mut seen = std::collections::HashSet::new();
        Arc::new(mutators_reduced().into_iter().filter(|m| !m.0.starts_with("comment of 6") && !m.0.starts_with("comment of 4096")).filter(|m| seen.insert(m.0.split('=').next().unwrap().trim().split(" x").next().unwrap().to_string())).collect::<Vec<_>>())
    };
    let (nf, nr) = (full.len() as u64, red.len() as u64);
    let (f1, r1) = (full.clone(), red.clone());
    v.push(
        Space::new(
            "two changes",
            "every ordered pair of single-field changes to a full database: change, save, reopen, change the reopened one, save, reopen; a copy kept aside",
            nf * nr,
            {
                let (f, r) = (full.clone(), red.clone());
                move |i| two_changes(&f[(i / nr) as usize], &r[(i % nr) as usize])
            },
            move |i| format!("{}; save, reopen; {}", f1[(i / nr) as usize].0, r1[(i % nr) as usize].0),
        )
        .into(),
    );
    {
        let ps = Arc::new(mutators());
        let p2 = ps.clone();
        v.push(
            Space::new(
                "any change",
                "every single-field change with every value, to a full database before the first save and after a reopen",
                ps.len() as u64 * 2,
                move |i| {
                    let none: Mutator = (String::new(), Box::new(|_| ()));
                    let p = &ps[(i / 2) as usize];
                    if i % 2 == 0 {
                        two_changes(p, &none)
                    } else {
                        two_changes(&none, p)
                    }
                },
                move |i| format!("{} {}", p2[(i / 2) as usize].0, if i % 2 == 0 { "before the first save" } else { "after a reopen" }),
            )
            .into(),
        );
    }
    {
        let ps = Arc::new(placed_mutators());
        let p2 = ps.clone();
        v.push(
            Space::new(
                "placed changes",
                "every change of one field at every place of the tree, before the first save and after a reopen",
                ps.len() as u64 * 2,
                move |i| {
                    let none: Mutator = (String::new(), Box::new(|_| ()));
                    let p = &ps[(i / 2) as usize];
                    if i % 2 == 0 {
                        two_changes(p, &none)
                    } else {
                        two_changes(&none, p)
                    }
                },
                move |i| format!("{} {}", p2[(i / 2) as usize].0, if i % 2 == 0 { "before the first save" } else { "after a reopen" }),
            )
            .into(),
        );
    }
    v.push(machine("histories", "all states (live database, second copy, last file, kind of the last operation) reached by the operations; equal states merged", M { ops: ops(), starts: vec![0, 1] }, ctx.q(4, 8), ctx.q(60_000, 1_000_000)));
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C19",
        level: "model_checking",
        rule: "every history of operations up to the stated lengths is executed on real objects; after every operation all live databases equal the model, every saved file is read by an independent reader, and every reopened database equals what was saved; non-trivial: a distinct end state",
        items,
        assumptions: &["the order of hash maps does not influence content (histories are run under one order each)"],
    }
}
