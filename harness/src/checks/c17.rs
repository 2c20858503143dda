//! Block streams against a reference verification.
use crate::engine::*;
use crate::kdbx::*;
use crate::lk::open;
use crate::lk::*;
use crate::refs::sha::sha256;
use crate::xmlmodel::{el, tx};
use kpdb::Error;
use std::sync::Arc;

#[derive(Clone, Debug)]
struct Blk {
    id: u32,
    hash: [u8; 32],
    size: u32,
    data: Vec<u8>,
}

fn proper(parts: &[Vec<u8>]) -> Vec<Blk> {
    let mut v: Vec<Blk> = parts.iter().enumerate().map(|(i, d)| Blk { id: i as u32, hash: sha256(d), size: d.len() as u32, data: d.clone() }).collect();
    v.push(Blk { id: parts.len() as u32, hash: [0; 32], size: 0, data: vec![] });
    v
}

fn bytes(b: &[Blk]) -> Vec<u8> {
    b.iter().flat_map(|b| block(b.id, &b.hash, b.size, &b.data)).collect()
}

enum Exp {
    Content(Vec<u8>),
    Errors(Vec<String>),
}

/// What verifying the stream must say.
fn reference(s: &[u8]) -> Exp {
    let mut p = 0;
    let mut n = 0u32;
    let mut out = vec![];
    loop {
        let Some(h) = s.get(p..p + 40) else { return Exp::Errors(vec![]) };
        let id = u32::from_le_bytes(h[..4].try_into().unwrap());
        let hash: [u8; 32] = h[4..36].try_into().unwrap();
        let size = u32::from_le_bytes(h[36..40].try_into().unwrap()) as usize;
        let mut e = vec![];
        if id != n {
            e.push(format!("{:?}", Error::InvalidBlockId(id)));
        }
        p += 40;
        if size == 0 {
            if hash != [0; 32] {
                e.push(format!("{:?}", Error::InvalidFinalBlockHash(hash)));
            }
            return if e.is_empty() { Exp::Content(out) } else { Exp::Errors(e) };
        }
        match s.get(p..p + size) {
            Some(d) => {
                if sha256(d) != hash {
                    e.push(format!("{:?}", Error::InvalidBlockHash));
                }
                if !e.is_empty() {
                    return Exp::Errors(e);
                }
                out.extend_from_slice(d);
            }
            // the stream ends inside the block
            None => return Exp::Errors(vec![]),
        }
        p += size;
        n += 1;
    }
}

fn doc() -> Vec<u8> {
    let x = el("KeePassFile", vec![el("Meta", vec![tx("DatabaseName", "blocks")]), el("Root", vec![el("Group", vec![tx("Name", "g")])])]);
    let (_, ck) = pw("c17");
    let d = super::c03::dialect(ck);
    crate::xmlmodel::serialise(&x, &crate::xmlmodel::Text { indent: 0, decl: 1, ..Default::default() }, d.params.salsa()).into_bytes()
}

/// The document, padded to a length with white space inside.
fn padded(n: usize) -> Vec<u8> {
    let s = String::from_utf8(doc()).unwrap();
    s.replacen("<Meta>", &format!("<Meta>{}", " ".repeat(n.saturating_sub(s.len()))), 1).into_bytes()
}

fn judge(s: &[u8], gz: bool, whole: &[u8]) -> Res {
    let (key, ck) = pw("c17");
    let mut p = Params::new(ck);
    p.gzip = gz;
    p.rounds = 0;
    let f = p.seal(s);
    match (open(&f, &key), reference(s)) {
        (Ok(d), Exp::Content(c)) if c == whole => {
            if d.name != "blocks" || d.root_group.name != "g" {
                return bad("content", format!("opened as {:?}/{:?}", d.name, d.root_group.name));
            }
            good("opens", digest(&s))
        }
        (Err(_), Exp::Content(c)) if c != whole => good("other content refused", digest(&s)),
        // a valid stream of something else, not a beginning of the document: nothing is specified
        (Ok(_), Exp::Content(c)) if !whole.starts_with(&c) => trivial("other content", digest(&s)),
        (Err(e), Exp::Errors(l)) => {
            let t = format!("{:?}", e);
            if l.is_empty() || l.contains(&t) {
                good(if l.is_empty() { "incomplete: refused" } else { t.split('(').next().unwrap() }, digest(&s))
            } else {
                bad("error", format!("reported as {}, the defect is {}", t, l.join(" or ")))
            }
        }
        (Ok(_), Exp::Content(_)) => bad("opened", "opens although data are missing"),
        (Ok(_), Exp::Errors(l)) => bad("opened", format!("opens although the stream is defective: {}", if l.is_empty() { "it ends early".into() } else { l.join(", ") })),
        (Err(e), Exp::Content(_)) => bad("refused", format!("a proper stream is refused: {:?}", e)),
    }
}

#[derive(Clone, Debug)]
enum D {
    Id(usize, u32),
    HashBit(usize, usize),
    DataBit(usize, usize),
    Size(usize, u32),
    Swap(usize, usize),
    Dup(usize),
    DupRenumber(usize),
    Omit(usize),
    OmitRenumber(usize),
    EarlyFinal(usize),
    SwapHash(usize, usize),
    SwapData(usize, usize),
    HashOfOther(usize, u8),
    Tail(usize),
    Cut(usize),
}

fn apply(v: &mut Vec<Blk>, d: &D, tail: &mut Vec<u8>, cut: &mut usize) {
    let n = v.len();
    let ren = |v: &mut Vec<Blk>| v.iter_mut().enumerate().for_each(|(i, b)| b.id = i as u32);
    match d {
        D::Id(i, x) if *i < n => v[*i].id = *x,
        D::HashBit(i, b) if *i < n => v[*i].hash[b / 8] ^= 1 << (b % 8),
        D::DataBit(i, b) if *i < n => {
            let l = v[*i].data.len();
            if l > 0 {
                v[*i].data[b / 8 % l] ^= 1 << (b % 8)
            }
        }
        D::Size(i, x) if *i < n => v[*i].size = *x,
        D::Swap(a, b) if *a < n && *b < n => v.swap(*a, *b),
        D::Dup(i) if *i < n => {
            let b = v[*i].clone();
            v.insert(*i, b);
        }
        D::DupRenumber(i) if *i < n => {
            let b = v[*i].clone();
            v.insert(*i, b);
            ren(v);
        }
        D::Omit(i) if *i < n => {
            v.remove(*i);
        }
        D::OmitRenumber(i) if *i < n => {
            v.remove(*i);
            ren(v);
        }
        D::EarlyFinal(i) if *i < n => {
            v.insert(*i, Blk { id: *i as u32, hash: [0; 32], size: 0, data: vec![] });
        }
        D::SwapHash(a, b) if *a < n && *b < n => {
            let h = v[*a].hash;
            v[*a].hash = v[*b].hash;
            v[*b].hash = h;
        }
        D::SwapData(a, b) if *a < n && *b < n => {
            let x = (v[*a].data.clone(), v[*a].size);
            v[*a].data = v[*b].data.clone();
            v[*a].size = v[*b].size;
            v[*b].data = x.0;
            v[*b].size = x.1;
        }
        D::HashOfOther(i, k) if *i < n => {
            v[*i].hash = match k {
                0 => [0; 32],
                1 => [255; 32],
                2 => sha256(b""),
                _ => sha256(&sha256(&v[*i].data)),
            }
        }
        D::Tail(n) => tail.extend(vec![0x5a; *n]),
        D::Cut(n) => *cut += n,
        _ => {}
    }
}

fn defects(blocks: usize, full: bool) -> Vec<D> {
    let mut v = vec![];
    for i in 0..=blocks {
        for x in [0u32, 1, 2, 3, 4, 5, 255, 256, 257, 65536, 1 << 16 | i as u32, 1 << 31 | i as u32, u32::MAX, (i as u32) << 8, (i as u32) << 24, (i as u32).wrapping_add(256)] {
            v.push(D::Id(i, x));
        }
        let bits: Vec<usize> = if full { (0..256).collect() } else { vec![0, 7, 128, 255] };
        for b in bits {
            v.push(D::HashBit(i, b));
        }
        for b in if full { (0..200).collect::<Vec<usize>>() } else { vec![0, 77] } {
            v.push(D::DataBit(i, b));
        }
        for x in [0u32, 1, 2, 9, 10, 11, 39, 40, 41, 80, 255, 256, 65535, 65536, 1 << 24, 1 << 31, u32::MAX, u32::MAX - 40] {
            v.push(D::Size(i, x));
        }
        for j in 0..=blocks {
            if i < j {
                v.push(D::Swap(i, j));
                v.push(D::SwapHash(i, j));
                v.push(D::SwapData(i, j));
            }
        }
        v.extend([D::Dup(i), D::DupRenumber(i), D::Omit(i), D::OmitRenumber(i), D::EarlyFinal(i)]);
        for k in 0..4 {
            v.push(D::HashOfOther(i, k));
        }
    }
    for n in [1, 16, 40] {
        v.push(D::Tail(n));
    }
    for n in (1..=41).chain([80, 100]) {
        v.push(D::Cut(n));
    }
    v
}

fn defective(z: &[u8], nb: usize, ds: &[&D]) -> Vec<u8> {
    let n = z.len();
    let parts: Vec<Vec<u8>> = (0..nb).map(|i| z[n * i / nb..n * (i + 1) / nb].to_vec()).collect();
    let mut v = proper(&parts);
    let (mut tail, mut cut) = (vec![], 0);
    for d in ds {
        apply(&mut v, d, &mut tail, &mut cut);
    }
    let mut s = bytes(&v);
    s.truncate(s.len().saturating_sub(cut));
    s.extend(tail);
    s
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    for gz in [false, true] {
        let z = Arc::new(if gz { gzip(&doc()) } else { doc() });
        let n = z.len() as u64;
        let name = if gz { "gzip" } else { "plain" };
        // three cut points a <= b <= c in 0..=n; equal ones give fewer blocks
        let step = 1u64;
        let k = n / step + 1;
        let z1 = z.clone();
        v.push(
            Space::new(
                &format!("splits {}", name),
                "every split of the payload into up to four blocks (three cut points)",
                k * k * k,
                move |i| {
                    let (a, b, c) = (i % k * step, i / k % k * step, i / k / k * step);
                    if a > b || b > c {
                        return trivial("not in order", 0);
                    }
                    let cuts = [0, a as usize, b as usize, c as usize, z1.len()];
                    let parts: Vec<Vec<u8>> = cuts.windows(2).map(|w| z1[w[0]..w[1]].to_vec()).filter(|p| !p.is_empty()).collect();
                    judge(&bytes(&proper(&parts)), gz, &z1)
                },
                move |i| format!("cuts at {}, {}, {}", i % k * step, i / k % k * step, i / k / k * step),
            )
            .into(),
        );
        let z1 = z.clone();
        v.push(
            Space::new(
                &format!("chunks {}", name),
                "blocks of every constant size",
                n,
                move |i| {
                    let parts: Vec<Vec<u8>> = z1.chunks(i as usize + 1).map(|c| c.to_vec()).collect();
                    judge(&bytes(&proper(&parts)), gz, &z1)
                },
                |i| format!("blocks of {}", i + 1),
            )
            .into(),
        );
        for nb in 1..=4usize {
            let ds = Arc::new(defects(nb, true));
            let (z1, d1, d2) = (z.clone(), ds.clone(), ds.clone());
            v.push(
                Space::new(
                    &format!("defect {} {}", nb, name),
                    "every single defect of a stream of this many blocks",
                    ds.len() as u64,
                    move |i| judge(&defective(&z1, nb, &[&d1[i as usize]]), gz, &z1),
                    move |i| format!("{} blocks, {:?}", nb, d2[i as usize]),
                )
                .into(),
            );
            let ds = Arc::new(defects(nb, false));
            let k = ds.len() as u64;
            let (z1, d1, d2) = (z.clone(), ds.clone(), ds.clone());
            if nb == 1 || nb == 3 || ctx.thorough() {
                v.push(
                    Space::new(
                        &format!("two defects {} {}", nb, name),
                        "every ordered pair of defects of a reduced set",
                        k * k,
                        move |i| judge(&defective(&z1, nb, &[&d1[(i / k) as usize], &d1[(i % k) as usize]]), gz, &z1),
                        move |i| format!("{} blocks, {:?} then {:?}", nb, d2[(i / k) as usize], d2[(i % k) as usize]),
                    )
                    .into(),
                );
            }
        }
    }
    // long streams with a defect at one of the blocks
    let mut at: Vec<usize> = (0..=36).chain([49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 299, 300, 301, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1099]).collect();
    if ctx.thorough() {
        at = (0..1100).chain([2047, 2048, 4095, 4096, 9999, 10_000, 32767, 32768, 65534, 65535, 65536, 65599, 131_072, 300_000]).collect();
    } else {
        at.extend([65535, 65536, 131_072, 200_000]);
    }
    const KINDS: u64 = 14;
    let a2 = at.clone();
    v.push(
        Space::new(
            "many blocks",
            "streams of one-byte blocks that end at, or have a defect at, a block of every number around the usual limits",
            at.len() as u64 * KINDS,
            move |i| {
                let (k, at) = (i % KINDS, at[(i / KINDS) as usize]);
                let n = if k < 2 { at } else if at < 1100 { 1100 } else { at + 2 };
                let z = padded(n);
                if k < 2 && z.len() > n {
                    return trivial("shorter than the document", i);
                }
                let parts: Vec<Vec<u8>> = z.iter().map(|b| vec![*b]).collect();
                let mut b = proper(&parts);
                let ren = |b: &mut Vec<Blk>| b.iter_mut().enumerate().for_each(|(i, b)| b.id = i as u32);
                match k {
                    0 => {}
                    1 => {
                        b.pop();
                    }
                    2 => b[at].id ^= 1,
                    3 => b[at].id = 0,
                    4 => b[at].id = b[at].id.wrapping_add(256),
                    5 => b[at].id += 65536,
                    6 => b[at].hash[31] ^= 1,
                    7 => b[at].hash[0] ^= 128,
                    8 => b[at].data[0] ^= 1,
                    9 => {
                        b.remove(at);
                    }
                    10 => {
                        let x = b[at].clone();
                        b.insert(at, x);
                    }
                    11 => b.swap(at, at + 1),
                    12 => b[at].hash = [0; 32],
                    _ => {
                        // the stream ends here, all but the number of the final block in order
                        b.truncate(at);
                        b.push(Blk { id: at as u32 + 1, hash: [0; 32], size: 0, data: vec![] });
                        ren(&mut b);
                        b[at].id = at as u32 ^ 1;
                    }
                }
                judge(&bytes(&b), false, &z)
            },
            move |i| format!("block {}, kind {}", a2[(i / KINDS) as usize], i % KINDS),
        )
        .into(),
    );
    // blocks of many sizes
    let mut sizes: Vec<usize> = vec![500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131_071, 131_072, 131_073, 262_143, 262_144, 262_145, 524_287, 524_288, 524_289, 1_000_000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 1, (1 << 22) + 1, (1 << 24) + 1];
    if ctx.thorough() {
        sizes.extend([(1 << 22) - 1, 1 << 22, (1 << 22) + 1, (1 << 24) - 1, 1 << 24, (1 << 25) + 1, (1 << 26) + 1]);
    }
    const DEFECTS: u64 = 16;
    let s2 = sizes.clone();
    v.push(
        Space::new(
            "large blocks",
            "a block of every size around the usual limits, alone, after and before a small one, whole or with a defect in it",
            sizes.len() as u64 * 3 * DEFECTS,
            move |i| {
                let (k, form, size) = (i % DEFECTS, i / DEFECTS % 3, sizes[(i / DEFECTS / 3) as usize]);
                let z = padded(size + 10);
                let (parts, big) = match form {
                    0 => (vec![z.clone()], 0),
                    1 => (vec![z[..10].to_vec(), z[10..].to_vec()], 1),
                    _ => (vec![z[..size].to_vec(), z[size..].to_vec()], 0),
                };
                let mut b = proper(&parts);
                let last = b.len() - 1;
                let x = &mut b[big];
                let n = x.data.len();
                match k {
                    0 => {}
                    // the defects of the data are in the white space: the document stays well formed
                    1 => x.data[n / 2] = b'\t',
                    2 => {
                        let at = x.data.windows(2).position(|w| w == b"  ").unwrap();
                        x.data[at + 1] = b'\n';
                    }
                    3 => {
                        let at = n - 2 - x.data.windows(2).rev().position(|w| w == b"  ").unwrap();
                        x.data[at] = b'\n';
                    }
                    4 => x.hash[0] ^= 1,
                    5 => x.hash[31] ^= 128,
                    6 => x.hash = [0; 32],
                    7 => x.id += 1,
                    8 => x.id += 65536,
                    9 => x.size -= 1,
                    10 => x.size += 1,
                    11 => x.size ^= 1 << 31,
                    12 => {
                        let at = n / 2;
                        x.data.remove(at);
                        x.size -= 1;
                    }
                    13 => {
                        let at = n / 2;
                        x.data.insert(at, b' ');
                        x.size += 1;
                    }
                    14 => {
                        b.pop();
                    }
                    _ => b[last].hash[5] = 1,
                }
                judge(&bytes(&b), false, &z)
            },
            move |i| format!("{} bytes, form {}, defect {}", s2[(i / DEFECTS / 3) as usize], i / DEFECTS % 3, i % DEFECTS),
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C17",
        level: "exploration",
        rule: "block streams made by enumerating splits and defects (single and pairs) under valid encryption; a reference verification says whether the stream must open and which errors name its defect; non-trivial: a stream different from the others",
        items,
        assumptions: &["when one block has several defects, naming any one of them is right", "bytes after the final block are not judged unless they make the stream defective"],
    }
}
