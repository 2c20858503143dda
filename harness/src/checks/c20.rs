//! Mutable traversal: every small tree, every program of edits made during it, under an allocator
//! that keeps freed memory and sees writes to it, double frees and leaks.
use crate::engine::*;
use crate::env;
use crate::lk::{pw, trees};
use crate::model::{uid, NIL};
use kpdb::*;
use std::collections::VecDeque;
use std::sync::Arc;
use uuid::Uuid;

// ---------------------------------------------------------------- the model

/// A group: its number, its children, the numbers of its entries.
#[derive(Clone, Debug, PartialEq, Hash)]
struct N {
    id: u32,
    name: u32,
    kids: Vec<N>,
    entries: Vec<(u32, u32)>,
}
impl N {
    fn new(id: u32) -> N {
        N { id, name: id, kids: vec![], entries: vec![] }
    }
}
/// Every fourth group has no name.
fn name_of(n: u32) -> String {
    if n % 4 == 3 {
        String::new()
    } else {
        format!("group {}", n)
    }
}
fn lib_group(n: &N) -> Group {
    let mut g = Group::new(name_of(n.name));
    // nothing else about a group matters to the traversal
    g.enable_searching = [Some(false), None, Some(true)][n.id as usize % 3];
    g.enable_auto_type = [None, Some(false)][n.id as usize % 2];
    g.is_expanded = n.id % 2 == 1;
    g.expires = n.id % 3 == 2;
    g.usage_count = n.id as i32 % 3;
    if n.id % 4 == 2 {
        g.notes = "notes".into();
        g.custom_icon_uuid = Some(CustomIconUuid(Uuid::from_bytes(uid(n.id))));
    }
    g.uuid = GroupUuid(Uuid::from_bytes(uid(n.id)));
    g.groups = n.kids.iter().map(lib_group).collect();
    g.entries = n.entries.iter().map(|e| lib_entry(*e)).collect();
    g
}
fn lib_entry(e: (u32, u32)) -> Entry {
    let mut x = Entry::new();
    x.uuid = EntryUuid(Uuid::from_bytes(uid(e.0)));
    x.set_title(format!("entry {}", e.1));
    x
}
fn num(u: &[u8; 16]) -> u32 {
    if *u == NIL {
        return u32::MAX;
    }
    (0..100_000).find(|n| uid(*n) == *u).unwrap_or(u32::MAX)
}
fn same(n: &N, g: &Group) -> std::result::Result<(), String> {
    if env::is_freed(g as *const Group as usize) {
        return Err(format!("group {} lies in freed memory", n.id));
    }
    if g.uuid.0.as_bytes() != &uid(n.id) {
        return Err(format!("group {} is expected, there is {}", n.id, num(g.uuid.0.as_bytes())));
    }
    if env::is_freed(g.name.as_ptr() as usize) || g.name.len() > 40 || g.name != name_of(n.name) {
        return Err(format!("the name of group {} is not {:?}", n.id, name_of(n.name)));
    }
    if g.groups.len() != n.kids.len() || g.entries.len() != n.entries.len() {
        return Err(format!("group {} has {} groups and {} entries instead of {} and {}", n.id, g.groups.len(), g.entries.len(), n.kids.len(), n.entries.len()));
    }
    for (x, e) in n.entries.iter().zip(&g.entries) {
        if env::is_freed(e as *const Entry as usize) || e.uuid.0.as_bytes() != &uid(x.0) || e.title() != Some(&format!("entry {}", x.1)) {
            return Err(format!("entry {} of group {} is another or has another title", x.0, n.id));
        }
    }
    n.kids.iter().zip(&g.groups).try_for_each(|(n, g)| same(n, g))
}

// ---------------------------------------------------------------- edits of the element at hand

const ACTS: [&str; 20] = [
    "nothing",
    "add a group",
    "add nine groups",
    "remove the first group",
    "remove the last group",
    "clear the groups",
    "add an entry",
    "remove the first entry",
    "reverse the groups",
    "take the groups and push them back",
    "replace the groups by two new ones",
    "reserve room for the groups",
    "put the groups below a new group",
    "lift the groups of the groups",
    "rename",
    "remove the first group and add it again",
    "insert a group in front",
    "clear the groups of the groups",
    "replace the whole group by a new one",
    "swap the first two groups",
];

/// `fresh` numbers new elements; both sides count alike.
fn act_lib(a: usize, g: &mut Group, fresh: &mut u32) {
    let mut new = || {
        *fresh += 1;
        *fresh
    };
    match a {
        1 => g.add_group(lib_group(&N::new(new()))),
        2 => (0..9).for_each(|_| g.add_group(lib_group(&N::new(new())))),
        3 => {
            if let Some(u) = g.groups.first().map(|c| c.uuid) {
                drop(g.remove_group(u));
            }
        }
        4 => drop(g.groups.pop()),
        5 => g.groups.clear(),
        6 => {
            let n = new();
            g.add_entry(lib_entry((n, n)))
        }
        7 => {
            if let Some(u) = g.entries.first().map(|c| c.uuid) {
                drop(g.remove_entry(u));
            }
        }
        8 => g.groups.reverse(),
        9 => {
            let v = std::mem::take(&mut g.groups);
            v.into_iter().for_each(|c| g.add_group(c));
        }
        10 => g.groups = vec![lib_group(&N::new(new())), lib_group(&N::new(new()))],
        11 => {
            g.groups.shrink_to_fit();
            g.groups.reserve(50);
        }
        12 => {
            let mut n = lib_group(&N::new(new()));
            n.groups = std::mem::take(&mut g.groups);
            g.add_group(n);
        }
        13 => {
            let v = std::mem::take(&mut g.groups);
            for mut c in v {
                g.groups.append(&mut c.groups);
            }
        }
        14 => g.name = name_of(new()),
        15 => {
            if let Some(u) = g.groups.first().map(|c| c.uuid) {
                let c = g.remove_group(u);
                c.map(|c| g.add_group(c));
            }
        }
        16 => g.groups.insert(0, lib_group(&N::new(new()))),
        17 => g.groups.iter_mut().for_each(|c| c.groups.clear()),
        18 => *g = lib_group(&N::new(new())),
        19 => {
            if g.groups.len() > 1 {
                g.groups.swap(0, 1);
            }
        }
        _ => {}
    }
}
fn act_model(a: usize, g: &mut N, fresh: &mut u32) {
    let mut new = || {
        *fresh += 1;
        *fresh
    };
    match a {
        1 => g.kids.push(N::new(new())),
        2 => (0..9).for_each(|_| g.kids.push(N::new(new()))),
        3 => {
            if !g.kids.is_empty() {
                g.kids.remove(0);
            }
        }
        4 => drop(g.kids.pop()),
        5 => g.kids.clear(),
        6 => {
            let n = new();
            g.entries.push((n, n))
        }
        7 => {
            if !g.entries.is_empty() {
                g.entries.remove(0);
            }
        }
        8 => g.kids.reverse(),
        10 => g.kids = vec![N::new(new()), N::new(new())],
        12 => {
            let mut n = N::new(new());
            n.kids = std::mem::take(&mut g.kids);
            g.kids.push(n);
        }
        13 => g.kids = std::mem::take(&mut g.kids).into_iter().flat_map(|c| c.kids).collect(),
        14 => g.name = new(),
        15 => {
            if !g.kids.is_empty() {
                g.kids.rotate_left(1);
            }
        }
        16 => g.kids.insert(0, N::new(new())),
        17 => g.kids.iter_mut().for_each(|c| c.kids.clear()),
        18 => *g = N::new(new()),
        19 => {
            if g.kids.len() > 1 {
                g.kids.swap(0, 1);
            }
        }
        _ => {}
    }
}

/// The traversal of the model: breadth first, the children of an element as they are when the
/// traversal leaves it.
struct Walk {
    todo: VecDeque<Vec<usize>>,
    at: Option<Vec<usize>>,
    started: bool,
}
fn at<'a>(n: &'a mut N, p: &[usize]) -> &'a mut N {
    p.iter().fold(n, |n, i| &mut n.kids[*i])
}
impl Walk {
    fn new() -> Walk {
        Walk { todo: VecDeque::new(), at: None, started: false }
    }
    fn next<'a>(&mut self, root: &'a mut N) -> Option<&'a mut N> {
        if !self.started {
            self.started = true;
            self.at = Some(vec![]);
        } else {
            let cur = self.at.take()?;
            for i in 0..at(root, &cur).kids.len() {
                let mut q = cur.clone();
                q.push(i);
                self.todo.push_back(q);
            }
            self.at = self.todo.pop_front();
        }
        self.at.as_ref().map(|p| at(root, p))
    }
}

/// Follows the real traversal and checks each reference it hands out.
struct Pair<'m> {
    m: &'m mut N,
    w: Walk,
    lib_fresh: u32,
    m_fresh: u32,
    seen: u32,
    err: Option<(&'static str, String)>,
}
impl<'m> Pair<'m> {
    fn new(m: &'m mut N) -> Pair<'m> {
        Pair { m, w: Walk::new(), lib_fresh: 100, m_fresh: 100, seen: 0, err: None }
    }
    fn fail(&mut self, k: &'static str, t: String) {
        if self.err.is_none() {
            self.err = Some((k, t));
        }
    }
    /// the traversal handed out g; a: what to do with it. False: stop.
    fn visit(&mut self, g: &mut Group, a: usize) -> bool {
        if self.err.is_some() {
            return false;
        }
        self.seen += 1;
        let seen = self.seen;
        if env::is_freed(g as *const Group as usize) {
            self.fail("dangling", format!("element {} of the traversal is a reference into freed memory", seen));
            return false;
        }
        let e = match self.w.next(self.m) {
            None => Some(format!("the traversal hands out element {}, though there are no more", seen)),
            Some(n) => same(n, g).err().map(|e| format!("element {} of the traversal: {}", seen, e)),
        };
        if let Some(e) = e {
            self.fail("traversal", e);
            return false;
        }
        self.act(g, a);
        true
    }
    fn act(&mut self, g: &mut Group, a: usize) {
        act_lib(a, g, &mut self.lib_fresh);
        let p = self.w.at.clone().unwrap();
        act_model(a, at(self.m, &p), &mut self.m_fresh);
    }
    /// the model goes on without the library
    fn skip(&mut self) -> bool {
        self.seen += 1;
        self.w.next(self.m).is_some()
    }
    fn end(&mut self) {
        if self.err.is_none() && self.w.next(self.m).is_some() {
            let n = self.seen;
            self.fail("traversal", format!("the traversal ends after {} elements, too early", n));
        }
    }
}

const DRIVERS: [&str; 18] = [
    "for loop",
    "next by next, size_hint asked between, and next after the end",
    "for_each",
    "map and collect of plain numbers",
    "by_ref().take(2), then the same iterator on",
    "broken off after one element, then a second pass",
    "broken off after two elements, then a second pass",
    "nth(0) each time",
    "skip(1)",
    "step_by(2)",
    "peekable: peek, then next",
    "fold",
    "iterator forgotten after two elements, then a second pass",
    "panic at the second element, then a second pass",
    "count after one element",
    "last",
    "a traversal of the element at hand inside, its second element edited",
    "chain of two passes over two trees",
];

fn drive(driver: usize, g: &mut Group, p: &mut Pair, prog: &[usize]) {
    let act = |i: u32| prog.get(i as usize).copied().unwrap_or(0);
    match driver {
        0 => {
            for x in g.iter_mut() {
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
            }
            p.end();
        }
        1 => {
            let mut it = g.iter_mut();
            loop {
                let (lo, hi) = it.size_hint();
                if hi.map_or(false, |h| h < lo) {
                    return p.fail("traversal", "size_hint is inconsistent".into());
                }
                let Some(x) = it.next() else { break };
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
            }
            p.end();
            if it.next().is_some() || it.next().is_some() {
                p.fail("traversal", "the traversal goes on after its end".into());
            }
        }
        2 => {
            g.iter_mut().for_each(|x| {
                let a = act(p.seen);
                p.visit(x, a);
            });
            p.end();
        }
        3 => {
            let n = g
                .iter_mut()
                .map(|x| {
                    let a = act(p.seen);
                    p.visit(x, a)
                })
                .filter(|x| *x)
                .collect::<Vec<bool>>()
                .len();
            if p.err.is_none() && n as u32 != p.seen {
                p.fail("traversal", "lost elements".into());
            }
            p.end();
        }
        4 => {
            let mut it = g.iter_mut();
            for x in it.by_ref().take(2) {
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
            }
            for x in it {
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
            }
            p.end();
        }
        5 | 6 => {
            for (i, x) in g.iter_mut().enumerate() {
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
                if i + 5 == driver {
                    break;
                }
            }
            again(g, p, prog);
        }
        7 => {
            let mut it = g.iter_mut();
            while let Some(x) = it.nth(0) {
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
            }
            p.end();
        }
        8 => {
            p.skip();
            for x in g.iter_mut().skip(1) {
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
            }
            p.end();
        }
        9 => {
            for x in g.iter_mut().step_by(2) {
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
                // step_by takes the next one on coming back; until then nothing moves
                p.skip();
            }
            let _ = p.w.at.take();
            if p.err.is_none() && !p.w.todo.is_empty() {
                p.fail("traversal", "step_by ends too early".into());
            }
        }
        10 => {
            let mut it = g.iter_mut().peekable();
            while it.peek().is_some() {
                let x = it.next().unwrap();
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
            }
            p.end();
        }
        11 => {
            let n = g.iter_mut().fold(0u32, |n, x| {
                let a = act(p.seen);
                p.visit(x, a);
                n + 1
            });
            if p.err.is_none() && n != p.seen {
                p.fail("traversal", "fold counts otherwise".into());
            }
            p.end();
        }
        12 => {
            let mut it = g.iter_mut();
            for _ in 0..2 {
                if let Some(x) = it.next() {
                    let a = act(p.seen);
                    if !p.visit(x, a) {
                        return;
                    }
                }
            }
            // its queue is leaked, which is what forgetting asks for; nothing else may be
            std::mem::forget(it);
            again(g, p, prog);
        }
        13 => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                for (i, x) in g.iter_mut().enumerate() {
                    let a = act(p.seen);
                    if !p.visit(x, a) {
                        return;
                    }
                    if i == 1 {
                        std::panic::resume_unwind(Box::new(()));
                    }
                }
            }));
            drop(r);
            again(g, p, prog);
        }
        14 => {
            let mut it = g.iter_mut();
            if let Some(x) = it.next() {
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
            }
            let n = it.count();
            let mut w = 0;
            while p.skip() {
                w += 1;
            }
            if n != w {
                p.fail("traversal", format!("count gives {} instead of {}", n, w));
            }
        }
        15 => {
            let mut m = p.m.clone();
            let mut w = Walk::new();
            let mut last = 0;
            while let Some(n) = w.next(&mut m) {
                last = n.id;
            }
            if let Some(x) = g.iter_mut().last() {
                if x.uuid.0.as_bytes() != &uid(last) {
                    return p.fail("traversal", "last gives another element".into());
                }
                while p.w.next(p.m).map_or(false, |n| n.id != last) {}
                let a = act(0);
                p.act(x, a);
            } else {
                p.fail("traversal", "last gives nothing".into());
            }
        }
        16 => {
            for x in g.iter_mut() {
                let a = act(p.seen);
                if !p.visit(x, 0) {
                    return;
                }
                // inside, the second element of the sub tree is edited, then the element at hand
                let here = p.w.at.clone().unwrap();
                let (mut lf, mut mf) = (p.lib_fresh, p.m_fresh);
                let mut err = None;
                {
                    let sub = at(p.m, &here);
                    let mut q = Pair { m: sub, w: Walk::new(), lib_fresh: lf, m_fresh: mf, seen: 0, err: None };
                    for y in x.iter_mut() {
                        let b = if q.seen == 1 { a } else { 0 };
                        if !q.visit(y, b) {
                            break;
                        }
                    }
                    q.end();
                    err = q.err.take().or(err);
                    lf = q.lib_fresh;
                    mf = q.m_fresh;
                }
                p.lib_fresh = lf;
                p.m_fresh = mf;
                if let Some(e) = err {
                    p.err = Some(e);
                    return;
                }
                let b = act(p.seen);
                p.act(x, b);
            }
            p.end();
        }
        _ => {
            let mut other = N::new(900);
            other.kids = vec![N::new(901), N::new(902)];
            let mut og = lib_group(&other);
            let mut q = 0;
            for x in g.iter_mut().chain(og.iter_mut()) {
                if p.w.started && p.w.at.is_none() || q > 0 || x.uuid.0.as_bytes() == &uid(900) {
                    if q == 0 {
                        p.end();
                    }
                    if x.uuid.0.as_bytes() != &uid(900 + q) {
                        return p.fail("traversal", "the second tree is not traversed properly".into());
                    }
                    q += 1;
                    continue;
                }
                let a = act(p.seen);
                if !p.visit(x, a) {
                    return;
                }
            }
            if q != 3 {
                p.fail("traversal", "the second tree is not traversed".into());
            }
        }
    }
}
/// A second pass, with the rest of the program.
fn again(g: &mut Group, p: &mut Pair, prog: &[usize]) {
    if p.err.is_some() {
        return;
    }
    p.w = Walk::new();
    for x in g.iter_mut() {
        let a = prog.get(p.seen as usize).copied().unwrap_or(0);
        if !p.visit(x, a) {
            return;
        }
    }
    p.end();
}

fn tree(shape: &[usize], entries: u32) -> N {
    fn make(i: usize, shape: &[usize], entries: u32) -> N {
        let mut n = N::new(i as u32 + 1);
        for e in 0..(entries >> i) & 1 {
            n.entries.push((50 + i as u32 * 2 + e, i as u32));
        }
        for (j, p) in shape.iter().enumerate() {
            if *p == i {
                n.kids.push(make(j + 1, shape, entries));
            }
        }
        n
    }
    make(0, shape, entries)
}

/// Runs the body on the real tree under the guard, then compares and drops everything.
fn judged(m: N, body: impl FnOnce(&mut Group, &mut Pair)) -> std::result::Result<N, Bad> {
    let mut m = m;
    let g = lib_group(&m);
    let mut g = Some(g);
    let (r, fault) = {
        let (gg, mm) = (&mut g, &mut m);
        env::guarded(move || {
            let mut root = gg.take().unwrap();
            let err = {
                let mut p = Pair::new(&mut *mm);
                body(&mut root, &mut p);
                p.err.take()
            };
            let err = err.or_else(|| same(mm, &root).err().map(|e| ("altered", format!("afterwards: {}", e))));
            drop(root);
            err
        })
    };
    match r {
        Err(_) => return bad("panic", "the traversal panics"),
        Ok(Some((k, t))) => return bad(k, t),
        Ok(None) => {}
    }
    if let Some(f) = fault {
        return bad("memory", f);
    }
    Ok(m)
}
fn run(driver: usize, m: &N, prog: &[usize]) -> Res {
    // everything is created inside, so that the balance is exact
    let mut out = None;
    let (_, mem) = env::measured(usize::MAX, || {
        let m = m.clone();
        out = Some(judged(m, |g, p| drive(driver, g, p, prog)).map(|m| digest(&m)));
    });
    let d = match out.unwrap() {
        Err(b) => return Err(b),
        Ok(d) => d,
    };
    if mem.live > 0 && driver != 12 {
        return bad("leak", format!("{} bytes are lost", mem.live));
    }
    if driver == 12 && mem.live > 4096 {
        return bad("leak", format!("{} bytes are lost, more than a forgotten queue holds", mem.live));
    }
    good(DRIVERS[driver], d)
}

// ---------------------------------------------------------------- items

fn show(driver: usize, shape: &[usize], prog: &[usize]) -> String {
    format!("tree with parents {:?}; {}; edits: {}", shape, DRIVERS[driver], prog.iter().map(|a| ACTS[*a]).collect::<Vec<_>>().join(", "))
}

fn programs(v: &mut Vec<Item<'static>>, driver: usize, n: usize, len: usize, entries: u32) {
    let ts = Arc::new(trees(n));
    let k = ACTS.len() as u64;
    let case = move |i: u64| -> (usize, Vec<usize>) { ((i / k.pow(len as u32)) as usize, (0..len as u32).map(|j| (i / k.pow(j) % k) as usize).collect()) };
    let t2 = ts.clone();
    v.push(
        Space::new(
            &format!("{} - {} groups, {} edits", driver, n, len),
            &format!("{}: every tree of {} groups, every program of edits for the first {} elements handed out", DRIVERS[driver], n, len),
            ts.len() as u64 * k.pow(len as u32),
            move |i| {
                let (t, p) = case(i);
                run(driver, &tree(&ts[t], entries), &p)
            },
            move |i| {
                let (t, p) = case(i);
                show(driver, &t2[t], &p)
            },
        )
        .into(),
    );
}

/// Larger trees, two edits anywhere.
fn two_edits(v: &mut Vec<Item<'static>>, n: usize) {
    let ts = Arc::new(trees(n));
    let k = ACTS.len() as u64;
    let pairs: Vec<(usize, usize)> = (0..n + 1).flat_map(|a| (a + 1..n + 2).map(move |b| (a, b))).collect();
    let np = pairs.len() as u64;
    let case = move |i: u64| -> (usize, Vec<usize>) {
        let (t, i) = ((i / (np * k * k)) as usize, i % (np * k * k));
        let (a, b) = pairs[(i / (k * k)) as usize];
        let mut p = vec![0; n + 2];
        p[a] = (i / k % k) as usize;
        p[b] = (i % k) as usize;
        (t, p)
    };
    let (c2, t2) = (case.clone(), ts.clone());
    v.push(
        Space::new(
            &format!("two edits in {} groups", n),
            "every tree of that many groups, every two edits at every two elements handed out",
            ts.len() as u64 * np * k * k,
            move |i| {
                let (t, p) = case(i);
                run(0, &tree(&ts[t], 0x2a), &p)
            },
            move |i| {
                let (t, p) = c2(i);
                show(0, &t2[t], &p)
            },
        )
        .into(),
    );
}

fn db(root: &N) -> Database {
    let mut d = Database::new(&pw("c20").0);
    d.root_group = lib_group(root);
    d
}
fn find_n<'a>(n: &'a mut N, id: u32) -> Option<&'a mut N> {
    let mut w = Walk::new();
    let mut hit = None;
    while let Some(x) = w.next(n) {
        if x.id == id {
            hit = w.at.clone();
            break;
        }
    }
    hit.map(|p| at(n, &p))
}

/// Edits through lookups and searches, one after the other, each fetched anew.
fn lookups(shape: &[usize], how: usize, prog: &[(usize, usize)]) -> Res {
    let mut m = tree(shape, 0x55);
    let mut d = Some(db(&m));
    let mut out: Option<(&'static str, String)> = None;
    let (r, fault) = {
        let (dd, mm, oo) = (&mut d, &mut m, &mut out);
        env::guarded(move || {
            let mut d = dd.take().unwrap();
            let (mut lf, mut mf) = (100, 100);
            for (g, a) in prog {
                let id = *g as u32 + 1;
                let u = GroupUuid(Uuid::from_bytes(uid(id)));
                let n = find_n(mm, id);
                let name = n.as_ref().map(|n| name_of(n.name));
                let x: Option<&mut Group> = match how {
                    0 => d.get_group_mut(u),
                    1 => d.root_group.iter_mut().find(|g| g.uuid == u),
                    2 => match &name {
                        Some(n) => d.find_groups_mut(n.as_str()).into_iter().find(|g| g.uuid == u),
                        None => None,
                    },
                    3 => {
                        let mut v = d.find_groups_mut(if name.as_deref() == Some("") { "" } else { "ROUP" });
                        v.iter().position(|g| g.uuid == u).map(|i| v.swap_remove(i))
                    }
                    _ => {
                        let mut v = d.find_groups_mut("");
                        v.reverse();
                        v.into_iter().find(|g| g.uuid == u)
                    }
                };
                match (x, n) {
                    (Some(x), Some(n)) => {
                        if env::is_freed(x as *const Group as usize) {
                            *oo = Some(("dangling", format!("the reference to group {} points into freed memory", id)));
                            return;
                        }
                        if let Err(e) = same(n, x) {
                            *oo = Some(("lookup", e));
                            return;
                        }
                        act_lib(*a, x, &mut lf);
                        act_model(*a, n, &mut mf);
                    }
                    (None, None) => {}
                    (x, _) => {
                        *oo = Some(("lookup", format!("group {} is {}", id, if x.is_some() { "found though it is gone" } else { "not found" })));
                        return;
                    }
                }
            }
            if let Err(e) = same(mm, &d.root_group) {
                *oo = Some(("altered", format!("afterwards: {}", e)));
            }
        })
    };
    if r.is_err() {
        return bad("panic", "a lookup panics");
    }
    if let Some((k, t)) = out {
        return bad(k, t);
    }
    if let Some(f) = fault {
        return bad("memory", f);
    }
    good_n("lookups as the model", digest(&(&m, prog.len())), prog.len() as u64)
}

/// All references of one search for entries held together: they are distinct and valid.
fn entries_held(shape: &[usize], which: u32, case: u64) -> Res {
    let n = shape.len() + 1;
    let mut m = tree(shape, 0);
    let mut k = 0;
    {
        let mut w = Walk::new();
        while let Some(x) = w.next(&mut m) {
            let c = which / 3u32.pow(k) % 3;
            for e in 0..c {
                x.entries.push((50 + k * 3 + e, 1 + k * 3 + e));
            }
            k += 1;
        }
    }
    let mut order = vec![];
    {
        let mut w = Walk::new();
        while let Some(x) = w.next(&mut m) {
            order.extend(x.entries.iter().cloned());
        }
    }
    let mut d = Some(db(&m));
    let mut out: Option<(&'static str, String)> = None;
    let ne = order.len();
    let (i, j) = ((case % 6) as usize, (case / 6) as usize);
    if j >= ne || i >= j {
        return trivial("fewer entries", digest(&(n, which, case)));
    }
    let (r, fault) = {
        let (dd, oo, mm) = (&mut d, &mut out, &mut m);
        env::guarded(move || {
            let mut d = dd.take().unwrap();
            {
                let mut v = d.find_entries_mut("ENTRY");
                let got: Vec<u32> = v.iter().map(|e| num(e.uuid.0.as_bytes())).collect();
                if got != order.iter().map(|e| e.0).collect::<Vec<_>>() {
                    *oo = Some(("lookup", format!("found {:?} instead of {:?}", got, order)));
                    return;
                }
                let mut at: Vec<usize> = v.iter().map(|e| &**e as *const Entry as usize).collect();
                at.sort();
                at.dedup();
                if at.len() != v.len() {
                    *oo = Some(("alias", "one entry is handed out twice".into()));
                    return;
                }
                // swap two, change all
                let (a, b) = v.split_at_mut(j);
                std::mem::swap(&mut *a[i], &mut *b[0]);
                for e in v.iter_mut() {
                    let t = format!("{}0", e.title().unwrap_or(""));
                    e.set_title(t);
                    let c = e.clone();
                    e.history.push(c);
                }
                if let Some(e) = v.pop() {
                    e.strings.clear();
                    e.set_title("entry 7");
                }
            }
            // the model
            let (x, y) = (order[i], order[j]);
            let mut seen = 0;
            let mut w = Walk::new();
            while let Some(n) = w.next(mm) {
                for e in n.entries.iter_mut() {
                    if seen == i {
                        *e = y;
                    } else if seen == j {
                        *e = x;
                    }
                    seen += 1;
                    e.1 = if seen == order.len() { 7 } else { e.1 * 10 };
                }
            }
            if let Err(e) = same(mm, &d.root_group) {
                *oo = Some(("altered", format!("afterwards: {}", e)));
            }
        })
    };
    if r.is_err() {
        return bad("panic", "panics");
    }
    if let Some((k, t)) = out {
        return bad(k, t);
    }
    if let Some(f) = fault {
        return bad("memory", f);
    }
    good_n("entries held together", digest(&(n, which, case)), 3)
}

/// Several groups of one search held together: edit the first, look at the second.
fn groups_held(shape: &[usize], how: usize, i: usize, j: usize, a: usize) -> Res {
    let m = tree(shape, 0x15);
    // breadth-first ids, and who is below whom
    let mut order = vec![];
    {
        let mut mm = m.clone();
        let mut w = Walk::new();
        while w.next(&mut mm).is_some() {
            order.push(w.at.clone().unwrap());
        }
    }
    if i == j {
        return trivial("one element", 0);
    }
    let below = order[j].starts_with(&order[i]);
    let above = order[i].starts_with(&order[j]);
    let mut mm = m.clone();
    let mut d = Some(db(&m));
    let mut out: Option<(&'static str, String)> = None;
    let (r, fault) = {
        let (dd, oo, mm) = (&mut d, &mut out, &mut mm);
        env::guarded(move || {
            let mut d = dd.take().unwrap();
            {
                let mut v: Vec<&mut Group> = match how {
                    0 => d.find_groups_mut(""),
                    1 => d.root_group.iter_mut().collect(),
                    _ => {
                        let mut it = d.root_group.iter_mut();
                        let mut v = vec![];
                        while let Some(g) = it.next() {
                            v.push(g);
                        }
                        v
                    }
                };
                if v.len() != order.len() {
                    *oo = Some(("lookup", format!("{} groups are found instead of {}", v.len(), order.len())));
                    return;
                }
                let mut addr: Vec<usize> = v.iter().map(|g| &**g as *const Group as usize).collect();
                addr.sort();
                addr.dedup();
                if addr.len() != v.len() {
                    *oo = Some(("alias", "one group is handed out twice".into()));
                    return;
                }
                let (mut lf, mut mf) = (100, 100);
                act_lib(a, v[i], &mut lf);
                if env::is_freed(&*v[j] as *const Group as usize) {
                    *oo = Some(if below {
                        ("overlapping-references", format!("with {} and a group below it both held, \"{}\" on the first leaves the second pointing into freed memory", i, ACTS[a]))
                    } else {
                        ("dangling", format!("with groups {} and {} held, \"{}\" on the first leaves the second pointing into freed memory", i, j, ACTS[a]))
                    });
                    return;
                }
                act_model(a, at(mm, &order[i]), &mut mf);
                if !below && !above {
                    // truly distinct: both edits must reach the tree
                    act_lib(14, v[j], &mut lf);
                    act_model(14, at(mm, &order[j]), &mut mf);
                    act_lib(1, v[j], &mut lf);
                    act_model(1, at(mm, &order[j]), &mut mf);
                }
            }
            if let Err(e) = same(mm, &d.root_group) {
                *oo = Some(("altered", format!("afterwards: {}", e)));
            }
        })
    };
    if let Some((k, t)) = out {
        return bad(k, t);
    }
    if r.is_err() {
        return bad("panic", "panics");
    }
    if let Some(f) = fault {
        return bad("memory", f);
    }
    good_n(if below || above { "one above the other" } else { "side by side" }, digest(&(&mm, i, j, how)), 2)
}

/// Trees with very many elements waiting at once, one edit.
fn wide(v: &mut Vec<Item<'static>>) {
    const SIZES: [usize; 4] = [130, 257, 513, 1030];
    let case = |i: u64| -> (usize, usize, Vec<usize>) {
        let (a, i) = ((i % 20) as usize, i / 20);
        let n = SIZES[(i % 4) as usize];
        let (pos, kind) = ([0, 1, n / 2, n - 1][(i / 4 % 4) as usize], (i / 16) as usize);
        let mut p = vec![0; n + 2];
        p[pos] = a;
        (n, kind, p)
    };
    let make = |n: usize, kind: usize| -> N {
        let mut root = N::new(1);
        let mut next = 2;
        let mut new = || {
            next += 1;
            N::new(1000 + next)
        };
        match kind {
            0 => root.kids = (1..n).map(|_| new()).collect(),
            1 => {
                // the first and the last of the fan have children
                root.kids = (1..n - 5).map(|_| new()).collect();
                root.kids[0].kids = vec![new(), new()];
                let l = root.kids.len() - 1;
                root.kids[l].kids = vec![new(), new(), new()];
            }
            _ => {
                // fans below a small fan
                root.kids = vec![new(), new(), new()];
                for k in &mut root.kids {
                    k.kids = (0..(n - 4) / 3).map(|_| new()).collect();
                }
                root.kids[1].kids[0].kids.push(new());
            }
        }
        root
    };
    v.push(
        Space::new(
            "wide",
            "fans and two-level fans of up to 1030 groups, every edit at the first, second, middle and last element",
            20 * 4 * 4 * 3,
            move |i| {
                let (n, kind, p) = case(i);
                run(0, &make(n, kind), &p)
            },
            move |i| {
                let (n, kind, p) = case(i);
                let at = p.iter().position(|a| *a != 0).unwrap_or(0);
                format!("{} groups, kind {}, {} at element {}", n, kind, ACTS[p[at]], at)
            },
        )
        .into(),
    );
}

/// Elements that cannot be told apart: the same ids, the nil id, the same names.
fn alike(v: &mut Vec<Item<'static>>, max: usize) {
    for n in 1..=max {
        let ts = Arc::new(trees(n));
        let t2 = ts.clone();
        // the id of each element: A, B or nil; whether names are alike too
        let per = 3u64.pow(n as u32) * 2 * 3;
        v.push(
            Space::new(
                &format!("alike, {} groups", n),
                "every tree, every choice of ids from two and the nil id, names alike or not: the traversal (loop, next by next, collected) visits each group once, in order, and edits reach each",
                ts.len() as u64 * per,
                move |i| {
                    let shape = &ts[(i / per) as usize];
                    let (how, i) = ((i % 3) as usize, i % per / 3);
                    alike_run(shape, how, i % 2 == 1, i / 2)
                },
                move |i| format!("tree {:?}, case {} (way, names, ids in base 3)", t2[(i / per) as usize], i % per),
            )
            .into(),
        );
    }
}
fn alike_run(shape: &[usize], how: usize, names: bool, ids: u64) -> Res {
    fn relabel(g: &mut Group, names: bool, ids: u64, k: &mut u32) {
        let d = ids / 3u64.pow(*k) % 3;
        g.uuid = GroupUuid(if d == 2 { Uuid::nil() } else { Uuid::from_bytes(uid(7 + d as u32)) });
        // the notes are what tells the groups apart
        g.notes = format!("{}", *k);
        if names {
            g.name = "the same".into();
        }
        *k += 1;
        g.groups.iter_mut().for_each(|c| relabel(c, names, ids, k));
    }
    // depth-first numbers, breadth first
    fn bfs(g: &Group) -> Vec<String> {
        let mut q: VecDeque<&Group> = VecDeque::from(vec![g]);
        let mut v = vec![];
        while let Some(x) = q.pop_front() {
            v.push(x.notes.clone());
            q.extend(x.groups.iter());
        }
        v
    }
    let mut out: Option<(&'static str, String)> = None;
    let mut d = Some({
        let mut d = db(&tree(shape, 0));
        relabel(&mut d.root_group, names, ids, &mut 0);
        d
    });
    let (r, fault) = {
        let (dd, oo) = (&mut d, &mut out);
        env::guarded(move || {
            let mut d = dd.take().unwrap();
            let want = bfs(&d.root_group);
            let mut got = vec![];
            let mut edit = |g: &mut Group| {
                got.push(g.notes.clone());
                g.notes.push('+');
            };
            match how {
                0 => {
                    for g in d.root_group.iter_mut() {
                        edit(g);
                    }
                }
                1 => {
                    let mut it = d.root_group.iter_mut();
                    while let Some(g) = it.next() {
                        edit(g);
                    }
                }
                _ => d.root_group.iter_mut().collect::<Vec<_>>().into_iter().for_each(|g| edit(g)),
            }
            if got != want {
                *oo = Some(("traversal", format!("the groups {:?} (numbered depth first) are visited instead of {:?}", got, want)));
                return;
            }
            let want: Vec<String> = want.iter().map(|w| format!("{}+", w)).collect();
            if bfs(&d.root_group) != want {
                *oo = Some(("altered", "an edit does not reach its group, or reaches another".into()));
            }
        })
    };
    if r.is_err() {
        return bad("panic", "panics");
    }
    if let Some((k, t)) = out {
        return bad(k, t);
    }
    if let Some(f) = fault {
        return bad("memory", f);
    }
    good_n("each visited once", digest(&(shape, names, ids)), shape.len() as u64 + 1)
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    for n in 1..=4 {
        programs(&mut v, 0, n, n.min(ctx.q(4, 5)), 0xb);
    }
    programs(&mut v, 0, 5, 3, 0x5);
    programs(&mut v, 0, 2, ctx.q(4, 5), 0x3);
    for d in 1..DRIVERS.len() {
        for n in 1..=ctx.q(3, 4) {
            programs(&mut v, d, n, n.min(3), 0x6);
        }
        programs(&mut v, d, 4, 2, 0x9);
        programs(&mut v, d, 5, 2, 0x9);
    }
    for n in 4..=ctx.q(6, 9) {
        two_edits(&mut v, n);
    }
    wide(&mut v);
    alike(&mut v, ctx.q(5, 6));
    // lookups
    for n in 1..=4usize {
        let ts = Arc::new(trees(n));
        let k = (n as u64 + 1) * ACTS.len() as u64;
        let len = ctx.q(2u32, 3);
        let t2 = ts.clone();
        let nn = n as u64 + 1;
        let case = move |i: u64| -> (usize, usize, Vec<(usize, usize)>) {
            let (h, i) = ((i % 5) as usize, i / 5);
            let (t, i) = ((i / k.pow(len)) as usize, i % k.pow(len));
            (
                h,
                t,
                (0..len)
                    .map(|j| {
                        let x = i / k.pow(j) % k;
                        ((x % nn) as usize, (x / nn) as usize)
                    })
                    .collect(),
            )
        };
        v.push(
            Space::new(
                &format!("lookups in {} groups", n),
                "every tree, every sequence of edits of elements fetched by get_group_mut, iter_mut().find, find_groups_mut (three ways), one at a time",
                5 * ts.len() as u64 * k.pow(len),
                move |i| {
                    let (h, t, p) = case(i);
                    lookups(&ts[t], h, &p)
                },
                move |i| {
                    let (h, t, p) = case(i);
                    format!("tree {:?}, way {}, {:?}", t2[t], h, p)
                },
            )
            .into(),
        );
    }
    for n in 1..=4usize {
        let ts = Arc::new(trees(n));
        let w = 3u64.pow(n as u32);
        let t2 = ts.clone();
        v.push(
            Space::new(
                &format!("entries held, {} groups", n),
                "every tree with 0 to 2 entries per group: all references of find_entries_mut held together, every two swapped, all changed",
                ts.len() as u64 * w * 36,
                move |i| entries_held(&ts[(i / 36 / w) as usize], (i / 36 % w) as u32, i % 36),
                move |i| format!("tree {:?}, entries pattern {}, pair {}", t2[(i / 36 / w) as usize], i / 36 % w, i % 36),
            )
            .into(),
        );
    }
    for n in 2..=ctx.q(5usize, 6) {
        let ts = Arc::new(trees(n));
        let t2 = ts.clone();
        let k = ACTS.len() as u64;
        let per = 3 * (n * n) as u64 * k;
        let case = move |i: u64| {
            let (t, i) = ((i / per) as usize, i % per);
            let (h, i) = ((i % 3) as usize, i / 3);
            let (a, i) = ((i % k) as usize, i / k);
            (t, h, (i / n as u64) as usize, (i % n as u64) as usize, a)
        };
        v.push(
            Space::new(
                &format!("groups held, {} groups", n),
                "every tree: all references of find_groups_mut or iter_mut held together, every edit of one, then another looked at",
                ts.len() as u64 * per,
                move |i| {
                    let (t, h, x, y, a) = case(i);
                    groups_held(&ts[t], h, x, y, a)
                },
                move |i| {
                    let (t, h, x, y, a) = case(i);
                    format!("tree {:?}, {}, {} on element {}, then element {}", t2[t], ["find_groups_mut(\"\")", "iter_mut().collect()", "next() kept"][h], ACTS[a], x, y)
                },
            )
            .into(),
        );
    }
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C20",
        level: "model_checking",
        rule: "every tree of groups up to the bound, every program of edits during the traversal, every way of driving it, run on the real code under an allocator that keeps freed blocks; each reference handed out, the final tree, double frees, writes to freed memory and lost memory are judged; non-trivial: a distinct final tree",
        items,
        assumptions: &["reads of freed memory are seen by the address of the references and by contents, not by the processor"],
    }
}
