//! Editing: a machine of edits in lockstep with a model, and every setter over every state.
use super::c12::bfs;
use crate::engine::*;
use crate::lk::*;
use crate::model::*;
use kpdb::*;
use std::sync::Arc;
use uuid::Uuid;

fn gu(u: U) -> GroupUuid {
    GroupUuid(Uuid::from_bytes(u))
}
fn eu(u: U) -> EntryUuid {
    EntryUuid(Uuid::from_bytes(u))
}

// ---------------------------------------------------------------- the machine

#[derive(Clone)]
pub struct St {
    d: Database,
    m: MDb,
}
unsafe impl Send for St {}
unsafe impl Sync for St {}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Get,
    IterMut,
    Find,
    Path,
}

#[derive(Clone, Debug)]
pub enum Op {
    AddEntry(U, U, How),
    AddGroup(U, U, How),
    RemoveEntry(U, U, How),
    RemoveGroup(U, U, How),
    /// takes the first direct child out of one group and adds it to another
    MoveEntry(U, U, U),
    MoveGroup(U, U, U),
    Title(U, &'static str, How),
    Password(U, &'static str, How),
    NotesOfMatching(&'static str, &'static str),
    Rename(U, &'static str, How),
    RenameAll(&'static str),
    TouchAll(i32),
    ClearMatching(&'static str),
}

pub fn ops() -> Vec<Op> {
    let g: [U; 3] = [uid(1), uid(2), uid(3)];
    let e: [U; 2] = [uid(11), uid(12)];
    let hows = [How::Get, How::IterMut, How::Find];
    let mut v = vec![];
    let mut k = 0;
    for t in g {
        for c in e {
            v.push(Op::AddEntry(t, c, hows[k % 3]));
            v.push(Op::RemoveEntry(t, c, hows[(k + 1) % 3]));
            k += 1;
        }
        for c in [g[1], g[2]] {
            v.push(Op::AddGroup(t, c, hows[k % 3]));
            v.push(Op::RemoveGroup(t, c, hows[(k + 1) % 3]));
            k += 1;
        }
    }
    v.push(Op::AddEntry(g[0], e[0], How::Path));
    v.push(Op::RemoveEntry(g[0], e[1], How::Path));
    v.push(Op::AddGroup(g[0], g[1], How::Path));
    v.push(Op::RemoveGroup(g[0], g[2], How::Path));
    v.push(Op::RemoveEntry(g[0], NIL, How::Path));
    v.push(Op::RemoveGroup(g[0], g[0], How::Path));
    v.push(Op::MoveEntry(g[0], g[1], e[0]));
    v.push(Op::MoveEntry(g[1], g[0], e[1]));
    v.push(Op::MoveGroup(g[0], g[1], g[2]));
    v.push(Op::MoveGroup(g[1], g[0], g[2]));
    for (i, t) in ["one", "two"].into_iter().enumerate() {
        v.push(Op::Title(e[0], t, hows[i]));
        v.push(Op::Title(e[1], t, hows[i + 1]));
    }
    v.push(Op::Password(e[0], "pw", How::Get));
    v.push(Op::Password(e[1], "", How::IterMut));
    v.push(Op::NotesOfMatching("ONE", "noted"));
    v.push(Op::ClearMatching("noted"));
    v.push(Op::Rename(g[1], "A group", How::Get));
    v.push(Op::Rename(g[2], "B group", How::IterMut));
    v.push(Op::Rename(g[0], "C", How::Find));
    v.push(Op::RenameAll("all the same"));
    v.push(Op::TouchAll(7));
    v
}

fn with_group<R>(d: &mut Database, m: &MDb, u: U, how: How, f: impl FnOnce(&mut Group) -> R) -> Option<R> {
    match how {
        How::Get => d.get_group_mut(gu(u)).map(f),
        How::IterMut => d.root_group.iter_mut().find(|g| g.uuid == gu(u)).map(f),
        How::Path => Some(f(&mut d.root_group)),
        How::Find => {
            let name = bfs(&m.root).iter().find(|g| g.uuid == u)?.name.clone();
            d.find_groups_mut(name).into_iter().find(|g| g.uuid == gu(u)).map(f)
        }
    }
}
fn path_of(g: &MGroup, u: U) -> Option<Vec<usize>> {
    // first breadth first
    let mut todo: std::collections::VecDeque<(&MGroup, Vec<usize>)> = [(g, vec![])].into();
    while let Some((g, p)) = todo.pop_front() {
        if g.uuid == u {
            return Some(p);
        }
        for (i, c) in g.groups.iter().enumerate() {
            let mut q = p.clone();
            q.push(i);
            todo.push_back((c, q));
        }
    }
    None
}
fn at<'a>(g: &'a mut MGroup, p: &[usize]) -> &'a mut MGroup {
    p.iter().fold(g, |g, i| &mut g.groups[*i])
}
fn m_group<'a>(m: &'a mut MDb, u: U) -> Option<&'a mut MGroup> {
    let p = path_of(&m.root, u)?;
    Some(at(&mut m.root, &p))
}
fn m_entry<'a>(m: &'a mut MDb, u: U) -> Option<&'a mut MEntry> {
    let mut todo: std::collections::VecDeque<(&MGroup, Vec<usize>)> = [(&m.root, vec![])].into();
    let mut hit = None;
    while let Some((g, p)) = todo.pop_front() {
        if let Some(i) = g.entries.iter().position(|e| e.uuid == u) {
            hit = Some((p, i));
            break;
        }
        for (i, c) in g.groups.iter().enumerate() {
            let mut q = p.clone();
            q.push(i);
            todo.push_back((c, q));
        }
    }
    let (p, i) = hit?;
    Some(&mut at(&mut m.root, &p).entries[i])
}
fn with_entry<R>(d: &mut Database, u: U, how: How, f: impl FnOnce(&mut Entry) -> R) -> Option<R> {
    match how {
        How::Get | How::Path => d.get_entry_mut(eu(u)).map(f),
        How::IterMut => {
            for g in d.root_group.iter_mut() {
                for e in g.entries.iter_mut() {
                    if e.uuid == eu(u) {
                        return Some(f(e));
                    }
                }
            }
            None
        }
        How::Find => d.find_entries_mut("").into_iter().find(|e| e.uuid == eu(u)).map(f),
    }
}
fn all_entries(g: &mut MGroup, f: &mut dyn FnMut(&mut MEntry)) {
    g.entries.iter_mut().for_each(|e| f(e));
    g.groups.iter_mut().for_each(|g| all_entries(g, f));
}
fn all_groups(g: &mut MGroup, f: &mut dyn FnMut(&mut MGroup)) {
    f(g);
    g.groups.iter_mut().for_each(|g| all_groups(g, f));
}
fn plain_match(e: &MEntry, q: &str) -> bool {
    e.strings.values().any(|s| matches!(s, SVal::Plain(s) if s.to_lowercase().contains(&q.to_lowercase())))
}

pub const MAX_GROUPS: usize = 5;
pub const MAX_ENTRIES: usize = 4;

/// Both sides of one edit. None: not applicable.
pub fn apply(d: &mut Database, m: &mut MDb, op: &Op) -> std::result::Result<bool, Bad> {
    let ng = bfs(&m.root).len();
    let ne: usize = bfs(&m.root).iter().map(|g| g.entries.len()).sum();
    fn same<T: std::fmt::Debug + PartialEq>(what: &str, want: T, got: T) -> std::result::Result<(), Bad> {
        if want == got {
            return Ok(());
        }
        bad("wrong result", format!("{}: {} instead of {}", what, clip400(&format!("{:?}", got)), clip400(&format!("{:?}", want))))
    }
    match op {
        Op::AddEntry(t, c, how) => {
            if ne >= MAX_ENTRIES {
                return Ok(false);
            }
            let mut e = MEntry::new(*c).s(MKey::Title, "new");
            e.parent = uid(99);
            let r = with_group(d, m, *t, *how, |g| g.add_entry(build_entry(&e)));
            same("reaching the group", m_group(m, *t).map(|g| g.entries.push(e)), r)?;
        }
        Op::AddGroup(t, c, how) => {
            if ng >= MAX_GROUPS {
                return Ok(false);
            }
            let g = MGroup::new(*c, "group");
            let r = with_group(d, m, *t, *how, |x| x.add_group(build_group(&g)));
            same("reaching the group", m_group(m, *t).map(|x| x.groups.push(g)), r)?;
        }
        Op::RemoveEntry(t, c, how) => {
            let r = with_group(d, m, *t, *how, |g| g.remove_entry(eu(*c)).map(|e| entry_of(&e)));
            let w = m_group(m, *t).map(|g| g.entries.iter().position(|e| e.uuid == *c).map(|i| g.entries.remove(i)));
            same("removing an entry", w, r)?;
        }
        Op::RemoveGroup(t, c, how) => {
            let r = with_group(d, m, *t, *how, |g| g.remove_group(gu(*c)).map(|e| group_of(&e)));
            let w = m_group(m, *t).map(|g| g.groups.iter().position(|e| e.uuid == *c).map(|i| g.groups.remove(i)));
            same("removing a group", w, r)?;
        }
        Op::MoveEntry(a, b, c) => {
            if path_of(&m.root, *a).is_none() || path_of(&m.root, *b).is_none() {
                return Ok(false);
            }
            let e = d.get_group_mut(gu(*a)).and_then(|g| g.remove_entry(eu(*c)));
            let w = m_group(m, *a).and_then(|g| g.entries.iter().position(|e| e.uuid == *c).map(|i| g.entries.remove(i)));
            same("removing an entry", w.clone(), e.as_ref().map(entry_of))?;
            if let (Some(e), Some(w)) = (e, w) {
                d.get_group_mut(gu(*b)).map(|g| g.add_entry(e));
                m_group(m, *b).map(|g| g.entries.push(w));
            }
        }
        Op::MoveGroup(a, b, c) => {
            if path_of(&m.root, *a).is_none() {
                return Ok(false);
            }
            let e = d.get_group_mut(gu(*a)).and_then(|g| g.remove_group(gu(*c)));
            let w = m_group(m, *a).and_then(|g| g.groups.iter().position(|e| e.uuid == *c).map(|i| g.groups.remove(i)));
            same("removing a group", w.clone(), e.as_ref().map(group_of))?;
            if let (Some(e), Some(w)) = (e, w) {
                // dropped with it if the other group went with it
                d.get_group_mut(gu(*b)).map(|g| g.add_group(e));
                m_group(m, *b).map(|g| g.groups.push(w));
            }
        }
        Op::Title(u, t, how) => {
            let r = with_entry(d, *u, *how, |e| e.set_title(*t));
            // an entry that matches nothing is not reached by searching
            let w = m_entry(m, *u).map(|e| e.strings.insert(MKey::Title, SVal::Plain(t.to_string()))).map(|_| ());
            same("reaching the entry", w, r)?;
        }
        Op::Password(u, t, how) => {
            let r = with_entry(d, *u, *how, |e| e.set_password(*t));
            let w = m_entry(m, *u).map(|e| e.strings.insert(MKey::Password, SVal::Prot(t.as_bytes().to_vec()))).map(|_| ());
            same("reaching the entry", w, r)?;
        }
        Op::NotesOfMatching(q, t) => {
            for e in d.find_entries_mut(*q) {
                e.set_notes(*t);
            }
            all_entries(&mut m.root, &mut |e| {
                if plain_match(e, q) {
                    e.strings.insert(MKey::Notes, SVal::Plain(t.to_string()));
                }
            });
        }
        Op::ClearMatching(q) => {
            for g in d.root_group.iter_mut() {
                g.entries.retain(|e| e.notes().map_or(true, |n| n != *q));
            }
            all_groups(&mut m.root, &mut |g| g.entries.retain(|e| e.strings.get(&MKey::Notes) != Some(&SVal::Plain(q.to_string()))));
        }
        Op::Rename(u, t, how) => {
            let r = with_group(d, m, *u, *how, |g| g.name = t.to_string());
            same("reaching the group", m_group(m, *u).map(|g| g.name = t.to_string()), r)?;
        }
        Op::RenameAll(t) => {
            for g in d.root_group.iter_mut() {
                g.name = t.to_string();
            }
            all_groups(&mut m.root, &mut |g| g.name = t.to_string());
        }
        Op::TouchAll(n) => {
            for g in d.root_group.iter_mut() {
                g.set_usage_count(*n);
                for e in g.entries.iter_mut() {
                    e.set_usage_count(*n);
                }
            }
            all_groups(&mut m.root, &mut |g| {
                g.times.usage = *n;
                g.entries.iter_mut().for_each(|e| e.times.usage = *n);
            });
        }
    }
    Ok(true)
}

fn start() -> St {
    let (key, ck) = pw("c13");
    let mut m = MDb::new(ck);
    m.root = MGroup::new(uid(1), "Top");
    m.root.entries.push(MEntry::new(uid(11)).s(MKey::Title, "first"));
    m.root.groups.push(MGroup::new(uid(2), "sub"));
    m.root.fix_parents(NIL);
    St { d: build(&m, &key), m }
}

fn step_both(s: &St, op: &Op) -> std::result::Result<Option<St>, Bad> {
    let mut n = s.clone();
    if !apply(&mut n.d, &mut n.m, op)? {
        return Ok(None);
    }
    if let Some(x) = diff(&n.m, &of(&n.d)) {
        return bad("altered", format!("after {:?}: {}", op, x));
    }
    if let Some(x) = diff(&s.m, &of(&s.d)) {
        return bad("altered", format!("{:?} on a clone changed its original: {}", op, x));
    }
    Ok(Some(n))
}

struct M {
    ops: Vec<Op>,
}
impl Machine for M {
    type S = St;
    fn inits(&self) -> Vec<St> {
        let (key, ck) = pw("c13");
        let e = MDb::new(ck);
        vec![start(), St { d: build(&e, &key), m: e }]
    }
    fn nops(&self) -> usize {
        self.ops.len()
    }
    fn show_init(&self, i: usize) -> String {
        ["a small tree", "an empty database"][i].into()
    }
    fn show_op(&self, op: usize) -> String {
        format!("{:?}", self.ops[op])
    }
    fn step(&self, s: &St, op: usize) -> std::result::Result<Option<St>, Bad> {
        step_both(s, &self.ops[op])
    }
    fn canon(&self, s: &St) -> u128 {
        digest128(&s.m)
    }
}

// ---------------------------------------------------------------- setters

type SetS = (&'static str, MKey, fn(&mut Entry, String), fn(&Entry) -> Option<String>);
fn own(x: Option<&str>) -> Option<String> {
    x.map(|s| s.to_string())
}
fn setters() -> Vec<SetS> {
    vec![
        ("set_notes", MKey::Notes, |e, s| e.set_notes(s), |e| own(e.notes())),
        ("set_password", MKey::Password, |e, s| e.set_password(s), |e| own(e.password())),
        ("set_title", MKey::Title, |e, s| e.set_title(s), |e| own(e.title())),
        ("set_url", MKey::Url, |e, s| e.set_url(s), |e| own(e.url())),
        ("set_username", MKey::Username, |e, s| e.set_username(s), |e| own(e.username())),
        ("set_other Notes", MKey::Notes, |e, s| e.set_other(StringKey::Notes, s), |e| own(e.other(StringKey::Notes))),
        ("set_other Password", MKey::Password, |e, s| e.set_other(StringKey::Password, s), |e| own(e.other(StringKey::Password))),
        ("set_other Title", MKey::Title, |e, s| e.set_other(StringKey::Title, s), |e| own(e.other(StringKey::Title))),
        ("set_other Url", MKey::Url, |e, s| e.set_other(StringKey::Url, s), |e| own(e.other(StringKey::Url))),
        ("set_other Username", MKey::Username, |e, s| e.set_other(StringKey::Username, s), |e| own(e.other(StringKey::Username))),
        ("set_other X", MKey::Other("X".into()), |e, s| e.set_other(StringKey::Other("X".into()), s), |e| own(e.other(StringKey::Other("X".into())))),
        ("set_other x", MKey::Other("x".into()), |e, s| e.set_other(StringKey::Other("x".into()), s), |e| own(e.other(StringKey::Other("x".into())))),
        ("set_other empty name", MKey::Other("".into()), |e, s| e.set_other(StringKey::Other("".into()), s), |e| own(e.other(StringKey::Other("".into())))),
        ("set_other PIN", MKey::Other("PIN".into()), |e, s| e.set_other(StringKey::Other("PIN".into()), s), |e| own(e.other(StringKey::Other("PIN".into())))),
    ]
}

fn readable(v: Option<&SVal>) -> Option<String> {
    match v {
        None => None,
        Some(SVal::Plain(s)) => Some(s.clone()),
        Some(SVal::Prot(b)) => String::from_utf8(b.clone()).ok(),
    }
}

fn entry_states() -> Vec<(&'static str, MEntry)> {
    let mut prot = full_entry(3);
    for k in [MKey::Notes, MKey::Password, MKey::Title, MKey::Url, MKey::Username, MKey::Other("X".into()), MKey::Other("x".into())] {
        prot.strings.insert(k.clone(), SVal::Prot(format!("protected {}", k.name()).into_bytes()));
    }
    let mut plain = full_entry(4);
    for k in [MKey::Notes, MKey::Password, MKey::Title, MKey::Url, MKey::Username, MKey::Other("X".into()), MKey::Other("x".into())] {
        plain.strings.insert(k.clone(), SVal::Plain(format!("plain {}", k.name())));
    }
    let mut hist = full_entry(5);
    hist.history = vec![full_entry(5), full_entry(5)];
    let mut nou = full_entry(6);
    nou.strings.insert(MKey::Password, SVal::Prot(vec![0xff, 0xfe]));
    vec![("empty", MEntry::new(uid(1))), ("full", full_entry(2)), ("all protected", prot), ("all plain", plain), ("with history", hist), ("password not UTF-8", nou)]
}

/// One setter on both sides: set_password stores protected, every other setter plain.
fn set_both(e: &mut Entry, m: &mut MEntry, s: &SetS, v: &str) -> std::result::Result<(), Bad> {
    (s.2)(e, v.to_string());
    let now = entry_of(e);
    let val = match s.0 {
        "set_password" => SVal::Prot(v.as_bytes().to_vec()),
        _ => SVal::Plain(v.to_string()),
    };
    m.strings.insert(s.1.clone(), val);
    if now != *m {
        return bad("setter", format!("{} to {:?}: {}", s.0, clip(v), diff_text(&format!("{:#?}", m), &format!("{:#?}", now))));
    }
    for t in setters() {
        let (w, g) = (readable(m.strings.get(&t.1)), (t.3)(e));
        if w != g {
            return bad("getter", format!("after {} to {:?} the getter of {} gives {:?} instead of {:?}", s.0, clip(v), t.0, g, w));
        }
    }
    Ok(())
}

trait TimesObj {
    fn t(&mut self) -> MTimes;
    fn set(&mut self, n: usize, v: i64);
}
fn read_times<X: Times>(x: &X) -> MTimes {
    MTimes {
        creation: T::of(x.creation_time()),
        expiry: T::of(x.expiry_time()),
        expires: x.expires(),
        access: T::of(x.last_accessed()),
        modification: T::of(x.last_modified()),
        location: T::of(x.location_changed()),
        usage: x.usage_count(),
    }
}
fn put<X: Times>(x: &mut X, n: usize, v: i64) {
    let d = T(v, (v.unsigned_abs() % 1_000_000_000) as u32).dt();
    match n {
        0 => x.set_creation_time(d),
        1 => x.set_expiry_time(d),
        2 => x.set_expires(v % 2 != 0),
        3 => x.set_last_accessed(d),
        4 => x.set_last_modified(d),
        5 => x.set_location_changed(d),
        _ => x.set_usage_count(v as i32),
    }
}
impl TimesObj for Entry {
    fn t(&mut self) -> MTimes {
        read_times(self)
    }
    fn set(&mut self, n: usize, v: i64) {
        put(self, n, v)
    }
}
impl TimesObj for Group {
    fn t(&mut self) -> MTimes {
        read_times(self)
    }
    fn set(&mut self, n: usize, v: i64) {
        put(self, n, v)
    }
}
fn put_m(t: &mut MTimes, n: usize, v: i64) {
    let d = T(v, (v.unsigned_abs() % 1_000_000_000) as u32);
    match n {
        0 => t.creation = d,
        1 => t.expiry = d,
        2 => t.expires = v % 2 != 0,
        3 => t.access = d,
        4 => t.modification = d,
        5 => t.location = d,
        _ => t.usage = v as i32,
    }
}
const TIMES: [i64; 9] = [0, 1, -1, 1_500_000_001, 253_402_300_799, -62_135_596_800, 2_147_483_647, -2_147_483_648, 4_294_967_296];

fn times_case(i: u64) -> Res {
    let (n1, v1, n2, v2, what) = ((i % 7) as usize, TIMES[(i / 7 % 9) as usize], (i / 63 % 7) as usize, TIMES[(i / 441 % 9) as usize], i / 3969);
    if what == 0 {
        let mut m = full_entry(5);
        m.history = vec![full_entry(5)];
        let mut e = build_entry(&m);
        for (n, v) in [(n1, v1), (n2, v2)] {
            e.set(n, v);
            put_m(&mut m.times, n, v);
            if e.t() != m.times || entry_of(&e) != m {
                return bad("times", format!("setter {} to {} on an entry: {:?} instead of {:?}", n, v, e.t(), m.times));
            }
        }
    } else {
        let mut m = rich([0; 32]).root;
        let mut g = build_group(&m);
        for (n, v) in [(n1, v1), (n2, v2)] {
            g.set(n, v);
            put_m(&mut m.times, n, v);
            if g.t() != m.times || group_of(&g) != m {
                return bad("times", format!("setter {} to {} on a group: {:?} instead of {:?}", n, v, g.t(), m.times));
            }
        }
    }
    good_n("only its own field", digest(&i), 2)
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    // setters over states and values
    let ts = Arc::new(texts());
    let (ns, nst) = (setters().len() as u64, entry_states().len() as u64);
    let (a, b) = (ts.clone(), ts.clone());
    v.push(
        Space::new(
            "setters",
            "every setter of an entry with every text over every earlier state of the entry; every getter read afterwards",
            ns * nst * ts.len() as u64,
            move |i| {
                let s = &setters()[(i % ns) as usize];
                let (_, mut m) = entry_states().swap_remove((i / ns % nst) as usize);
                let mut e = build_entry(&m);
                set_both(&mut e, &mut m, s, &a[(i / ns / nst) as usize])?;
                good("only its own field", digest(&i))
            },
            move |i| format!("{} on {} entry to {:?}", setters()[(i % ns) as usize].0, entry_states()[(i / ns % nst) as usize].0, clip(&b[(i / ns / nst) as usize])),
        )
        .into(),
    );
    for len in 2..=ctx.q(3u32, 4) {
        v.push(
            Space::new(
                &format!("{} setters", len),
                "every sequence of that many setters with two values each, on an empty and a full entry",
                (2 * ns).pow(len) * 2,
                move |i| {
                    let (_, mut m) = entry_states().swap_remove((i % 2) as usize);
                    let mut e = build_entry(&m);
                    let all = setters();
                    for j in 0..len {
                        let k = i / 2 / (2 * ns).pow(j) % (2 * ns);
                        set_both(&mut e, &mut m, &all[(k / 2) as usize], ["value", ""][(k % 2) as usize])?;
                    }
                    good_n("only their own fields", digest(&(len, i)), len as u64)
                },
                move |i| format!("sequence {}", i),
            )
            .into(),
        );
    }
    v.push(Space::new("times", "every pair of setters of times, expiry and usage count with every value, on entries and groups", 3969 * 2, times_case, |i| format!("case {}", i)).into());
    // lists
    for n in 0..=ctx.q(6u32, 8) {
        v.push(
            Space::new(
                &format!("lists of {}", n),
                "every list of entries and groups of that length over three ids; each id removed in turn, twice, with an addition between",
                3u64.pow(n) * 9,
                move |i| {
                    let ids: Vec<U> = (0..n).map(|j| uid((i / 9 / 3u64.pow(j) % 3) as u32 + 1)).collect();
                    let mut g = MGroup::new(uid(50), "g");
                    for (j, u) in ids.iter().enumerate() {
                        g.entries.push(MEntry::new(*u).s(MKey::Title, &j.to_string()));
                        let mut c = MGroup::new(*u, &j.to_string());
                        // the same ids one level below are no direct children
                        c.entries.push(MEntry::new(uid(1)));
                        c.groups.push(MGroup::new(uid(2), "below"));
                        g.groups.push(c);
                    }
                    let mut l = build_group(&g);
                    for (k, u) in [uid((i % 3) as u32 + 1), uid((i / 3 % 3) as u32 + 2)].into_iter().enumerate() {
                        let r = l.remove_entry(eu(u)).map(|e| entry_of(&e));
                        let w = g.entries.iter().position(|e| e.uuid == u).map(|p| g.entries.remove(p));
                        if r != w {
                            return bad("remove", format!("removing entry {:02x?} of {:?} gave {:?}", u, ids, r));
                        }
                        let r = l.remove_group(gu(u)).map(|e| group_of(&e));
                        let w = g.groups.iter().position(|e| e.uuid == u).map(|p| g.groups.remove(p));
                        if r != w {
                            return bad("remove", format!("removing group {:02x?} of {:?} gave {:?}", u, ids, r));
                        }
                        if group_of(&l) != g {
                            return bad("remove", format!("after removing: {}", diff_text(&format!("{:#?}", g), &format!("{:#?}", group_of(&l)))));
                        }
                        let e = MEntry::new(uid(1)).s(MKey::Title, &format!("added {}", k));
                        l.add_entry(build_entry(&e));
                        g.entries.push(e);
                        let c = MGroup::new(uid(2), &format!("added {}", k));
                        l.add_group(build_group(&c));
                        g.groups.push(c);
                        if group_of(&l) != g {
                            return bad("add", format!("after adding: {}", diff_text(&format!("{:#?}", g), &format!("{:#?}", group_of(&l)))));
                        }
                    }
                    good_n("as asked", digest(&(n, i)), 8)
                },
                move |i| format!("list {} removing {} and {}", i / 9, i % 3 + 1, i / 3 % 3 + 2),
            )
            .into(),
        );
    }
    // large lists
    v.push(
        Space::new(
            "long lists",
            "lists of up to 300 children; every position removed",
            300,
            |i| {
                let n = [10usize, 33, 300][(i % 3) as usize];
                let p = (i as usize * 7) % n;
                let mut g = MGroup::new(uid(0), "g");
                for j in 0..n {
                    g.entries.push(MEntry::new(uid(1000 + j as u32)));
                    g.groups.push(MGroup::new(uid(5000 + j as u32), "c"));
                }
                let mut l = build_group(&g);
                let e = l.remove_entry(eu(uid(1000 + p as u32))).map(|e| entry_of(&e));
                let c = l.remove_group(gu(uid(5000 + p as u32))).map(|e| group_of(&e));
                if e != Some(g.entries.remove(p)) || c != Some(g.groups.remove(p)) || group_of(&l) != g {
                    return bad("remove", format!("removing child {} of {}", p, n));
                }
                good_n("as asked", digest(&(n, p)), 2)
            },
            |i| format!("case {}", i),
        )
        .into(),
    );
    // every sequence of edits, no states merged
    let all = Arc::new(ops());
    let k = all.len() as u64;
    for len in 1..=ctx.q(3u32, 4) {
        let (a, b) = (all.clone(), all.clone());
        v.push(
            Space::new(
                &format!("sequences of {}", len),
                "every sequence of that many edits from a small tree (no merging of states)",
                k.pow(len),
                move |i| {
                    let mut s = start();
                    let mut n = 0;
                    for j in 0..len {
                        let op = &a[(i / k.pow(j) % k) as usize];
                        if apply(&mut s.d, &mut s.m, op)? {
                            n += 1;
                            if let Some(x) = diff(&s.m, &of(&s.d)) {
                                return bad("altered", format!("after step {}, {:?}: {}", j + 1, op, x));
                            }
                        }
                    }
                    good_n("as the model", digest(&s.m), n)
                },
                move |i| (0..len).map(|j| format!("{:?}", b[(i / k.pow(j) % k) as usize])).collect::<Vec<_>>().join("; "),
            )
            .into(),
        );
    }
    v.push(machine("edits", "all states reached by edits (additions, removals, moves, setters, through lookups, searches, traversals and paths), of up to 5 groups and 4 entries; equal states merged", M { ops: ops() }, ctx.q(5, 9), ctx.q(250_000, 3_000_000)));
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C13",
        level: "model_checking",
        rule: "every reachable state of the editing machine up to the depth, every unmerged sequence up to its length, every setter over every state; the whole database compared with the model after every step; non-trivial: a distinct state or case",
        items,
        assumptions: &["whether a setter other than that of the password marks its value as protected is not judged"],
    }
}
