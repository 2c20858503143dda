//! Damaged and torn files.
use crate::engine::*;
use crate::lk::open;
use crate::lk::*;
use crate::model::*;
use std::sync::Arc;

pub struct File {
    pub name: String,
    pub bytes: Vec<u8>,
    pub content: MDb,
}

fn content(n: u32, ck: [u8; 32], gz: bool) -> MDb {
    let mut m = MDb::new(ck);
    m.gzip = gz;
    m.rounds = n as u64 % 2;
    m.name = format!("content {}", n);
    m.comment = if n % 3 == 1 { Some(format!("a comment {}", n).into_bytes()) } else { None };
    let mut e = MEntry::new(uid(100 + n)).s(MKey::Title, &format!("title {}", n)).p(MKey::Password, &format!("the secret of {} {}", n, "x".repeat(n as usize)));
    e.binaries.insert("b".into(), BVal::Prot(vec![n as u8; 20]));
    m.root.entries.push(e);
    m.root.fix_parents(NIL);
    m
}

pub fn files() -> Vec<File> {
    let (key, ck) = pw("c05");
    on_seeded_thread(8 << 20, 5, || {
        let mut v = vec![];
        for n in 0..4u32 {
            for gz in [true, false] {
                let m = content(n, ck, gz);
                if let Ok(b) = save(&build(&m, &key)) {
                    v.push(File { name: format!("saved {} gzip {}", n, gz), bytes: b, content: m.after_reopen() });
                }
            }
        }
        // several blocks, by the independent encoder
        for split in [64, -1] {
            let mut d = super::c03::dialect(ck);
            let m = content(7, ck, false);
            d.params.version_of(&m);
            d.params.gzip = false;
            d.split = split;
            v.push(File { name: format!("blocks {}", split), bytes: super::c03::file_of(&m, &d), content: m.after_reopen() });
        }
        v
    })
}

/// The largest number of rounds the header of this file could ask for.
pub fn rounds_asked(f: &[u8]) -> u64 {
    let mut p = 12;
    let mut r = 0;
    while p + 3 <= f.len() {
        let (id, n) = (f[p], u16::from_le_bytes([f[p + 1], f[p + 2]]) as usize);
        if id == 6 && n == 8 && p + 11 <= f.len() {
            r = r.max(u64::from_le_bytes(f[p + 3..p + 11].try_into().unwrap()));
        }
        if id == 0 {
            break;
        }
        p += 3 + n;
    }
    r
}

fn judge(f: &[u8], may: &[&File]) -> Res {
    if rounds_asked(f) > 100_000 {
        return trivial("more rounds than are worth waiting for", digest(&f));
    }
    let (key, _) = pw("c05");
    match open(f, &key) {
        Err(e) => {
            let t = format!("{:?}", e);
            good(t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""), digest(&f))
        }
        Ok(d) => {
            let got = of(&d);
            let mut why = String::new();
            for m in may {
                let mut w = m.content.clone();
                w.generator = got.generator.clone();
                w.ckey = got.ckey;
                match diff(&w, &got) {
                    None => return good("opens as saved", digest(&f)),
                    Some(x) => why = x,
                }
            }
            bad("altered", format!("opens with altered content: {}", why))
        }
    }
}

/// Replaces [a, b).
fn patch(f: &[u8], a: usize, b: usize, kind: u64) -> Vec<u8> {
    let mut v = f.to_vec();
    match kind {
        0 => v[a..b].fill(0),
        1 => v[a..b].fill(0xff),
        2 => {
            v.drain(a..b);
        }
        3 => {
            let c = v[a..b].to_vec();
            v.splice(b..b, c);
        }
        4 => v[a..b].reverse(),
        _ => v[a..b].iter_mut().for_each(|x| *x = !*x),
    }
    v
}
const KINDS: [&str; 6] = ["zeroed", "overwritten with 0xff", "removed", "repeated", "reversed", "inverted"];

/// (a, b) with a < b <= n, number i
fn pair(i: u64) -> (u64, u64) {
    let mut b = ((((8 * i + 1) as f64).sqrt() + 1.0) / 2.0) as u64;
    while b * (b - 1) / 2 > i {
        b -= 1;
    }
    while (b + 1) * b / 2 <= i {
        b += 1;
    }
    (i - b * (b - 1) / 2, b)
}

/// Hashes a document might carry which are not the hash of its header.
fn wrong_hashes(header: &[u8]) -> Vec<(String, Vec<u8>)> {
    use crate::refs::sha::sha256;
    let h = sha256(header).to_vec();
    let mut v = not_quite(&h, "the hash");
    v.push(("the hash of nothing".into(), sha256(b"").to_vec()));
    v.push(("the hash of the hash".into(), sha256(&h).to_vec()));
    for n in 1..header.len() {
        v.push((format!("the hash of the first {} bytes of the header", n), sha256(&header[..n]).to_vec()));
        v.push((format!("the hash of the header from byte {}", n), sha256(&header[n..]).to_vec()));
    }
    v.retain(|(_, x)| *x != h);
    v
}

/// Values resembling these 32 bytes.
fn not_quite(h: &[u8], name: &str) -> Vec<(String, Vec<u8>)> {
    let h = h.to_vec();
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for n in 1..32 {
        v.push((format!("the first {} bytes of {}", n, name), h[..n].to_vec()));
        v.push((format!("the last {} bytes of {}", n, name), h[n..].to_vec()));
        let mut r = h.clone();
        r.rotate_left(n);
        v.push((format!("{} rotated by {}", name, n), r));
        let mut z = h.clone();
        z[n..].fill(0);
        v.push((format!("{} with zeros from byte {}", name, n), z));
        let mut z = h.clone();
        z.swap(n - 1, n);
        v.push((format!("{} with bytes {} and {} swapped", name, n - 1, n), z));
        let mut z = h.clone();
        z.remove(n);
        v.push((format!("{} without byte {}", name, n), z));
    }
    for n in [1usize, 2, 3, 16, 32, 64, 224, 256 - 32] {
        v.push((format!("{} and {} zeros", name, n), [&h[..], &vec![0; n]].concat()));
        v.push((format!("{} zeros and {}", n, name), [&vec![0; n][..], &h].concat()));
    }
    v.push((format!("{} twice", name), [&h[..], &h].concat()));
    v.push((format!("{} reversed", name), h.iter().rev().cloned().collect()));
    v.push((format!("{} inverted", name), h.iter().map(|x| !x).collect()));
    v.push(("32 zeros".into(), vec![0; 32]));
    v.push(("one zero".into(), vec![0]));
    v.push((format!("{} in hexadecimal", name), h.iter().flat_map(|x| format!("{:02x}", x).into_bytes()).collect()));
    for i in 0..32 {
        for x in 1..=255u8 {
            let mut z = h.clone();
            z[i] ^= x;
            v.push((format!("byte {} of {} xor {:02x}", i, name, x), z));
        }
    }
    v.retain(|(_, x)| *x != h);
    v
}

fn must_refuse(f: &[u8], what: &str) -> Res {
    match open(f, &pw("c05").0) {
        Err(e) => {
            let t = format!("{:?}", e);
            good(t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""), digest(&f))
        }
        Ok(_) => bad("foreign header", what),
    }
}

/// Payloads which do not begin with the start bytes of their header.
fn start_bytes(v: &mut Vec<Item>) {
    let ck = pw("c05").1;
    let mut bases = vec![];
    for i in 0..4 {
        let mut d = super::c03::dialect(ck);
        let m = content(1, ck, i % 2 == 1);
        d.params.version_of(&m);
        d.params.gzip = m.gzip;
        d.style.hash = i / 2 == 1;
        bases.push((m, d));
    }
    let ssb = bases[0].1.params.ssb;
    let mut starts = not_quite(&ssb, "the start bytes");
    let p = &bases[0].1.params;
    starts.push(("the inner key".into(), p.psk.to_vec()));
    starts.push(("the master seed".into(), p.master_seed.to_vec()));
    starts.push(("the vector twice".into(), [p.iv, p.iv].concat()));
    starts.push(("nothing".into(), vec![]));
    starts.push(("the hash of the start bytes".into(), crate::refs::sha::sha256(&ssb).to_vec()));
    starts.retain(|s| !s.1.starts_with(&ssb));
    let (bases, starts) = (Arc::new(bases), Arc::new(starts));
    let s2 = starts.clone();
    v.push(
        Space::new(
            "start bytes",
            "a payload beginning with anything but the header's start bytes: parts, extensions, rotations, every changed byte; files with and without header hash, compressed and not",
            starts.len() as u64 * 4,
            move |i| {
                let (m, d) = &bases[(i % 4) as usize];
                let (what, start) = &starts[(i / 4) as usize];
                let text = crate::xmlmodel::serialise(&super::c03::tree_of(m, d), &d.text, d.params.salsa());
                let stream = crate::kdbx::stream(&[d.params.pack(text.as_bytes())]);
                let plain = [&start[..], &stream].concat();
                let f = d.params.seal_raw(&d.params.header(), &crate::refs::aes::pad(&plain));
                must_refuse(&f, &format!("opens although its payload begins with {} instead of the start bytes", what))
            },
            move |i| format!("layout {}: {}", i % 4, s2[(i / 4) as usize].0),
        )
        .into(),
    );
}

/// Files whose document belongs to another header.
fn header_hashes(v: &mut Vec<Item>) {
    let ck = pw("c05").1;
    let mut bases = vec![];
    for gz in [false, true] {
        for child_order in 0..3u8 {
            let mut d = super::c03::dialect(ck);
            let m = content(1, ck, gz);
            d.params.version_of(&m);
            d.params.gzip = gz;
            d.style.child_order = child_order;
            bases.push((m, d));
        }
    }
    let hashes: Vec<_> = bases.iter().map(|(_, d)| wrong_hashes(&d.params.header())).collect();
    let n = hashes.iter().map(|h| h.len()).min().unwrap() as u64;
    let k = bases.len() as u64;
    let (bases, hashes) = (Arc::new(bases), Arc::new(hashes));
    let (b, h) = (bases.clone(), hashes.clone());
    let h2 = hashes.clone();
    v.push(
        Space::new(
            "header hashes",
            "a document carrying anything but the hash of its header: parts, extensions, rotations, every changed byte, hashes of every part of the header, in six layouts",
            n * k,
            move |i| {
                let (m, d) = &b[(i % k) as usize];
                let (what, hash) = &h[(i % k) as usize][(i / k) as usize];
                let x = crate::xmlmodel::encode_with_hash(m, &d.style, hash);
                let f = super::c03::file_of_text(&crate::xmlmodel::serialise(&x, &d.text, d.params.salsa()), d);
                must_refuse(&f, &format!("opens although its document carries {}", what))
            },
            move |i| format!("layout {}: {}", i % k, h2[(i % k) as usize][(i / k) as usize].0),
        )
        .into(),
    );
    // the document of one header under another, everything else consistent
    let (m, d) = &bases[0];
    let mut heads: Vec<(String, super::c03::Dialect)> = vec![("as it was".into(), d.clone())];
    for f in super::c03::freedoms() {
        let mut x = d.clone();
        (f.f)(&mut x);
        heads.push((f.name.clone(), x));
    }
    for (name, f) in [
        ("comment of one byte", Box::new(|p: &mut crate::kdbx::Params| p.comment = Some(vec![0])) as Box<dyn Fn(&mut crate::kdbx::Params)>),
        ("comment with one bit changed", Box::new(|p| p.comment.as_mut().unwrap()[0] ^= 1)),
        ("comment one byte shorter", Box::new(|p| drop(p.comment.as_mut().unwrap().pop()))),
        ("comment one byte longer", Box::new(|p| p.comment.as_mut().unwrap().push(0))),
        ("end field one bit changed", Box::new(|p| p.end_data[3] ^= 1)),
        ("end field longer", Box::new(|p| p.end_data.push(0))),
        ("one more round", Box::new(|p| p.rounds += 1)),
        ("other vector", Box::new(|p| p.iv[15] ^= 1)),
        ("other master seed", Box::new(|p| p.master_seed[31] ^= 1)),
        ("other transformation seed", Box::new(|p| p.transform_seed[31] ^= 1)),
        ("other inner key", Box::new(|p| p.psk[31] ^= 1)),
        ("other start bytes", Box::new(|p| p.ssb[31] ^= 1)),
        ("first two fields exchanged", Box::new(|p| p.order.swap(0, 1))),
        ("last two fields exchanged", Box::new(|p| p.order.swap(8, 9))),
    ] {
        let mut x = d.clone();
        f(&mut x.params);
        heads.push((name.into(), x));
    }
    let mut seen: Vec<Vec<u8>> = vec![];
    heads.retain(|(_, x)| {
        let h = x.params.header();
        let new = !seen.contains(&h);
        seen.push(h);
        new
    });
    let n = heads.len() as u64;
    let (m, heads) = (m.clone(), Arc::new(heads));
    let h2 = heads.clone();
    v.push(
        Space::new(
            "exchanged headers",
            "every ordered pair of header variants: the document written for one, sealed under the other with keys to match",
            n * n,
            move |i| {
                let (a, b) = (&heads[(i / n) as usize].1, &heads[(i % n) as usize].1);
                let hash = crate::refs::sha::sha256(&a.params.header());
                let mut d = b.clone();
                d.style = a.style.clone();
                let x = crate::xmlmodel::encode_with_hash(&m, &d.style, &hash);
                let f = super::c03::file_of_text(&crate::xmlmodel::serialise(&x, &d.text, d.params.salsa()), &d);
                if i / n == i % n {
                    return match open(&f, &pw("c05").0) {
                        Ok(_) => good("own header", digest(&f)),
                        Err(e) => bad("refused", format!("a document with the hash of its own header is refused: {:?}", e)),
                    };
                }
                must_refuse(&f, "opens although its document was written for another header")
            },
            move |i| format!("document for \"{}\", header \"{}\"", h2[(i / n) as usize].0, h2[(i % n) as usize].0),
        )
        .into(),
    );
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    header_hashes(&mut v);
    start_bytes(&mut v);
    let fs = Arc::new(files());
    let chosen: Vec<usize> = if ctx.thorough() { (0..fs.len()).collect() } else { vec![0, 2, 3, 9] };
    let f0 = fs.clone();
    v.push(
        Space::new(
            "whole",
            "the undamaged files",
            fs.len() as u64,
            move |i| {
                let f = &f0[i as usize];
                match open(&f.bytes, &pw("c05").0) {
                    Ok(_) => judge(&f.bytes, &[f]),
                    Err(e) => bad("refused", format!("an undamaged file is refused: {:?}", e)),
                }
            },
            |i| format!("file {}", i),
        )
        .into(),
    );
    for &c in &chosen {
        let n = fs[c].bytes.len() as u64;
        let name = fs[c].name.clone();
        let (f, nm) = (fs.clone(), name.clone());
        v.push(
            Space::new(
                &format!("bytes of {}", name),
                "every byte replaced by every other value",
                n * 255,
                move |i| {
                    let mut b = f[c].bytes.clone();
                    b[(i / 255) as usize] ^= (i % 255 + 1) as u8;
                    judge(&b, &[&f[c]])
                },
                move |i| format!("{}: byte {} xor {:02x}", nm, i / 255, i % 255 + 1),
            )
            .into(),
        );
        let (f, nm) = (fs.clone(), name.clone());
        v.push(
            Space::new(
                &format!("inserted into {}", name),
                "every byte value inserted at every place",
                (n + 1) * 256,
                move |i| {
                    let mut b = f[c].bytes.clone();
                    b.insert((i / 256) as usize, i as u8);
                    judge(&b, &[&f[c]])
                },
                move |i| format!("{}: {:02x} inserted at {}", nm, i % 256, i / 256),
            )
            .into(),
        );
        // ranges: all of them at a coarse grid, and all short ones
        let g = ctx.q(8u64, 1);
        let k = n / g;
        let total = k * (k + 1) / 2;
        let (f, nm) = (fs.clone(), name.clone());
        v.push(
            Space::new(
                &format!("ranges of {}", name),
                "every range (ends at multiples of 8 bytes in the quick tier) zeroed, set, removed, repeated, reversed, inverted",
                total * 6,
                move |i| {
                    let (a, b) = pair(i / 6);
                    judge(&patch(&f[c].bytes, (a * g) as usize, (b * g) as usize, i % 6), &[&f[c]])
                },
                move |i| {
                    let (a, b) = pair(i / 6);
                    format!("{}: bytes {}..{} {}", nm, a * g, b * g, KINDS[(i % 6) as usize])
                },
            )
            .into(),
        );
        let (f, nm) = (fs.clone(), name.clone());
        let ml = ctx.q(20u64, 48);
        v.push(
            Space::new(
                &format!("short ranges of {}", name),
                "every range of up to 48 (quick: 20) bytes zeroed, set, removed, repeated, reversed, inverted",
                n * ml * 6,
                move |i| {
                    let (k, l, a) = (i % 6, i / 6 % ml + 1, i / 6 / ml);
                    if a + l > n {
                        return trivial("beyond the end", 0);
                    }
                    judge(&patch(&f[c].bytes, a as usize, (a + l) as usize, k), &[&f[c]])
                },
                move |i| format!("{}: {} bytes at {} {}", nm, i / 6 % ml + 1, i / 6 / ml, KINDS[(i % 6) as usize]),
            )
            .into(),
        );
        // cells of 16 bytes, counted from the end of the header
        let start = crate::kdbx::parse_header(&fs[c].bytes).expect("header").3 % 16;
        let cells = (n - start as u64) / 16;
        let (f, nm) = (fs.clone(), name.clone());
        v.push(
            Space::new(
                &format!("cells of {}", name),
                "every ordered pair of 16-byte cells: the second overwritten with the first, swapped, moved",
                cells * cells * 3,
                move |i| {
                    let (k, a, b) = (i % 3, (i / 3 / cells) as usize, (i / 3 % cells) as usize);
                    let mut x = f[c].bytes.clone();
                    let at = |j: usize| start + 16 * j;
                    let ca = x[at(a)..at(a) + 16].to_vec();
                    let cb = x[at(b)..at(b) + 16].to_vec();
                    match k {
                        0 => x[at(b)..at(b) + 16].copy_from_slice(&ca),
                        1 => {
                            x[at(b)..at(b) + 16].copy_from_slice(&ca);
                            x[at(a)..at(a) + 16].copy_from_slice(&cb);
                        }
                        _ => {
                            x.drain(at(a)..at(a) + 16);
                            let p = at(b).min(x.len());
                            x.splice(p..p, ca);
                        }
                    }
                    judge(&x, &[&f[c]])
                },
                move |i| format!("{}: cells {} and {}, {}", nm, i / 3 / cells, i / 3 % cells, ["copied", "swapped", "moved"][(i % 3) as usize]),
            )
            .into(),
        );
        // two damaged bytes
        let g = ctx.q(4u64, 1);
        let k = n / g;
        let total = k * (k - 1) / 2;
        let (f, nm) = (fs.clone(), name.clone());
        v.push(
            Space::new(
                &format!("two bytes of {}", name),
                "every pair of bytes (at every fourth place in the quick tier), one bit of each flipped",
                total,
                move |i| {
                    let (a, b) = pair(i);
                    let mut x = f[c].bytes.clone();
                    x[(a * g + i % g) as usize] ^= 1 << (i % 8);
                    x[(b * g) as usize] ^= 1 << (i % 8);
                    judge(&x, &[&f[c]])
                },
                move |i| {
                    let (a, b) = pair(i);
                    format!("{}: bits {} of bytes {} and {}", nm, i % 8, a * g + i % g, b * g)
                },
            )
            .into(),
        );
    }
    // overwriting one saved file with another
    let n = fs.len();
    let pairs: Vec<(usize, usize)> = if ctx.thorough() {
        (0..n * n).map(|i| (i / n, i % n)).filter(|(a, b)| a != b).collect()
    } else {
        vec![(0, 2), (2, 0), (0, 1), (3, 2), (2, 4), (4, 6), (1, 3)]
    };
    for (o, w) in pairs {
        let (lo, lw) = (fs[o].bytes.len(), fs[w].bytes.len());
        let what = format!("{} by {}", fs[o].name, fs[w].name);
        let m = lo.min(lw) as u64;
        // the new bytes are there up to k, and the length is the old one, the new one, or k
        let f = fs.clone();
        v.push(
            Space::new(
                &format!("torn {}", what),
                "an overwrite stopped (or begun late) at every byte, with the length of either file",
                m * 4,
                move |i| {
                    let k = (i / 4) as usize;
                    let (old, new) = (&f[o].bytes, &f[w].bytes);
                    let mut x = match i % 4 {
                        0 => [&new[..k], &old[k..]].concat(),
                        1 => [&old[..k], &new[k..]].concat(),
                        2 => [&new[..k], &old[k..], &new[old.len().min(new.len())..]].concat(),
                        _ => [&new[..k], &vec![0; new.len() - k][..]].concat(),
                    };
                    if i % 4 == 2 {
                        x.truncate(lo.max(lw));
                    }
                    judge(&x, &[&f[o], &f[w]])
                },
                |i| format!("at {} kind {}", i / 4, i % 4),
            )
            .into(),
        );
        let g = ctx.q(16u64, 4);
        let k = m / g;
        let f = fs.clone();
        v.push(
            Space::new(
                &format!("patch {}", what),
                "every range (ends at multiples of 16 bytes; thorough: of 4) of the new file over the old one",
                k * (k + 1) / 2 * 2,
                move |i| {
                    let (a, b) = pair(i / 2);
                    let (a, b) = ((a * g) as usize, (b * g) as usize);
                    let (old, new) = (&f[o].bytes, &f[w].bytes);
                    let mut x = old.clone();
                    x[a..b].copy_from_slice(&new[a..b]);
                    if i % 2 == 1 {
                        x.truncate(lw);
                        if x.len() < lw {
                            x.extend_from_slice(&new[lo..]);
                        }
                    }
                    judge(&x, &[&f[o], &f[w]])
                },
                move |i| {
                    let (a, b) = pair(i / 2);
                    format!("{}..{} length {}", a * g, b * g, if i % 2 == 1 { "new" } else { "old" })
                },
            )
            .into(),
        );
        // every subset of sectors
        let bits = ctx.q(14u64, 18);
        let long = lo.max(lw) as u64;
        let sector = ((long + bits - 1) / bits).max(16) as usize;
        let f = fs.clone();
        v.push(
            Space::new(
                &format!("sectors {}", what),
                "every subset of sectors (the file cut into 14, thorough 18, equal ones) of the new file arrived",
                1 << bits,
                move |i| {
                    let (old, new) = (&f[o].bytes, &f[w].bytes);
                    let mut x = vec![];
                    // the length is the new one if the last sector arrived
                    let len = if i >> (bits - 1) & 1 == 1 { new.len() } else { old.len() };
                    for p in 0..len {
                        let src = if i >> (p / sector) & 1 == 1 { new } else { old };
                        x.push(src.get(p).copied().unwrap_or(0));
                    }
                    judge(&x, &[&f[o], &f[w]])
                },
                move |i| format!("subset {:b} of sectors of {} bytes", i, sector),
            )
            .into(),
        );
    }
    large(ctx, &mut v);
    v
}

/// Damage of files with a large attachment: two versions of each.
fn large(ctx: &Ctx, v: &mut Vec<Item<'static>>) {
    let (key, ck) = pw("c05");
    let mut fs = vec![];
    let thorough = ctx.thorough();
    on_seeded_thread(8 << 20, 55, || {
        let sizes: &[usize] = if ctx.thorough() { &[5000, 70_000, 200_000, 1_100_000] } else { &[5000, 70_000, 1_100_000] };
        for &n in sizes {
            for kind in 0..4u64 {
                if n > 1 << 20 && kind % 2 == 1 && !thorough {
                    continue;
                }
                let pair: Vec<File> = (0..2u64)
                    .map(|w| {
                        let mut m = content(w as u32, ck, kind % 2 == 1);
                        m.rounds = 0;
                        m.binaries.insert("0".into(), (0..n as u64).map(|j| crate::env::mix(if j % 1000 == 0 { j + w * 77 } else { j }) as u8).collect());
                        let bytes = if kind < 2 {
                            save(&build(&m, &key)).unwrap_or_default()
                        } else {
                            let mut d = super::c03::dialect(ck);
                            d.params.version_of(&m);
                            d.params.gzip = m.gzip;
                            d.params.rounds = 0;
                            d.params.comment = m.comment.clone();
                            d.split = 8192;
                            super::c03::file_of(&m, &d)
                        };
                        File { name: format!("{}, attachment of {} bytes, gzip {}", if kind < 2 { "saved" } else { "in blocks" }, n, m.gzip), bytes, content: m.after_reopen() }
                    })
                    .collect();
                fs.push(pair);
            }
        }
    });
    let least = ctx.q(512usize, 128);
    let at: Vec<(usize, usize)> = fs.iter().enumerate().flat_map(|(k, p)| (0..p[0].bytes.len()).step_by(least.max(p[0].bytes.len() / if p[0].bytes.len() > 1 << 20 && !thorough { 30 } else { 500 })).chain(p[0].bytes.len().saturating_sub(if p[0].bytes.len() > 1 << 20 { 16 } else { 64 })..p[0].bytes.len()).map(move |x| (k, x))).collect();
    let (fs, at) = (Arc::new(fs), Arc::new(at));
    let (f2, a2) = (fs.clone(), at.clone());
    const KINDS: u64 = 13;
    v.push(
        Space::new(
            "large files",
            "files with large attachments damaged at every 512th byte (thorough: 128th; 30, thorough 500, places of the largest) and each of the last 64 (largest: 16): bits, sectors and pages of them lost, repeated, exchanged or from another version",
            at.len() as u64 * KINDS,
            move |i| {
                let (k, x) = at[(i / KINDS) as usize];
                let (old, new) = (&fs[k][0].bytes, &fs[k][1].bytes);
                let n = old.len();
                let end = |l: usize| (x + l).min(n);
                let mut b = old.clone();
                match i % KINDS {
                    0 => b[x] ^= 1,
                    1 => b[x] ^= 128,
                    2 => b[x..end(512)].fill(0),
                    3 => b[x..end(4096)].fill(0),
                    4 => drop(b.drain(x..end(16))),
                    5 => drop(b.drain(x..end(512))),
                    6 => {
                        let s = b[x..end(512)].to_vec();
                        b.splice(x..x, s);
                    }
                    7 => {
                        let l = 512.min((n - x) / 2);
                        let (p, q) = b[x..].split_at_mut(l);
                        p.swap_with_slice(&mut q[..l]);
                    }
                    8 => {
                        let l = 512.min(n - x).min(new.len().saturating_sub(x));
                        b[x..x + l].copy_from_slice(new.get(x..x + l).unwrap_or(&[]));
                    }
                    9 => b = [&new[..x.min(new.len())], &old[x..]].concat(),
                    10 => b = [&old[..x], &new[x.min(new.len())..]].concat(),
                    11 => b = [&old[..x], &vec![0; n - x][..]].concat(),
                    // whole
                    _ if x == 0 => {
                        for f in &fs[k] {
                            if let Err(e) = open(&f.bytes, &pw("c05").0) {
                                return bad("refused", format!("an undamaged file is refused: {:?}", e));
                            }
                        }
                    }
                    _ => return trivial("nothing", i),
                }
                judge(&b, &[&fs[k][0], &fs[k][1]])
            },
            move |i| format!("{}: at {} kind {}", f2[a2[(i / KINDS) as usize].0][0].name, a2[(i / KINDS) as usize].1, i % KINDS),
        )
        .into(),
    );
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C05",
        level: "fault_enumeration",
        rule: "every damage of the listed kinds at every place of a set of saved files, every mixture of two saved files of the listed kinds, and every document of the listed kinds whose header hash is not that of its header, and every payload of the listed kinds that does not begin with its header's start bytes; the result must be an error or exactly the content of a saved file (always an error for a wrong header hash or wrong start bytes); non-trivial: a distinct damaged file",
        items,
        assumptions: &["damage that makes the header ask for more than 100000 transformation rounds is not executed (the work factor is the file's to choose)", "files carry a header hash, as every file the library saves"],
    }
}
