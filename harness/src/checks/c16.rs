//! Header defects against a reference reading of the header.
use crate::engine::*;
use crate::kdbx::*;
use crate::lk::open;
use crate::lk::*;
use crate::model::*;
use kpdb::Error;
use std::sync::Arc;

#[derive(Debug, PartialEq)]
enum Exp {
    Opens,
    /// one of these, shown
    Errors(Vec<String>),
    /// the header ends early
    Any,
}

fn one(e: Error) -> Exp {
    Exp::Errors(vec![format!("{:?}", e)])
}

/// What a reader must say about these bytes, looking only at the header.
fn reference(f: &[u8]) -> Exp {
    let get = |a: usize, n: usize| f.get(a..a + n);
    let Some(s1) = get(0, 4) else { return Exp::Any };
    if s1 != SIG1 {
        return one(Error::InvalidDbSignature(s1.try_into().unwrap()));
    }
    let Some(s2) = get(4, 4) else { return Exp::Any };
    if s2 != SIG2 {
        return one(Error::UnhandledDbType(s2.try_into().unwrap()));
    }
    let mut p = 12;
    let mut have = [false; 11];
    loop {
        let Some(id) = get(p, 1).map(|b| b[0]) else { return Exp::Any };
        if id > 10 {
            return one(Error::UnhandledHeader(id));
        }
        let Some(sz) = get(p + 1, 2).map(|b| u16::from_le_bytes(b.try_into().unwrap())) else { return Exp::Any };
        let want = match id {
            2 | 7 => Some(16),
            3 | 10 => Some(4),
            4 | 5 | 8 | 9 => Some(32),
            6 => Some(8),
            _ => None,
        };
        if let Some(w) = want {
            if w != sz {
                return one(Error::InvalidHeaderSize { id, expected: w, actual: sz });
            }
        }
        let Some(d) = get(p + 3, sz as usize) else { return Exp::Any };
        p += 3 + sz as usize;
        have[id as usize] = true;
        let num = || u32::from_le_bytes(d.try_into().unwrap());
        match id {
            0 => break,
            2 if d != AES_ID => return one(Error::UnhandledMasterCipher(d.try_into().unwrap())),
            3 if num() > 1 => return one(Error::UnhandledCompression(num())),
            10 if num() != 2 => return one(Error::UnhandledStreamCipher(num())),
            _ => {}
        }
    }
    let missing: Vec<String> = (2..=10u8).filter(|&i| !have[i as usize]).map(|i| format!("{:?}", Error::MissingHeader(i))).collect();
    if !missing.is_empty() {
        return Exp::Errors(missing);
    }
    Exp::Opens
}

#[derive(Clone, Debug)]
enum Defect {
    Drop(u8),
    Size(u8, u16),
    /// unknown id, inserted before field number, with data of this length
    Unknown(u8, usize, usize),
    /// flip a bit of a field's data
    Bit(u8, usize),
    /// data of a field
    Data(u8, Vec<u8>),
    Sig(usize),
    Kdb1,
}

type Fields = Vec<(u8, Vec<u8>)>;

fn build_file(order: &[u8], defects: &[Defect], gzip: bool) -> Vec<u8> {
    let (_, ck) = pw("c16");
    let mut d = super::c03::dialect(ck);
    d.params.order = order.to_vec();
    d.params.comment = Some(b"comment".to_vec());
    d.params.gzip = gzip;
    d.params.rounds = 1;
    let mut fields: Fields = d.params.fields();
    let mut sig = [SIG1, SIG2].concat();
    for x in defects {
        match x {
            Defect::Drop(id) => fields.retain(|f| f.0 != *id),
            Defect::Size(id, n) => {
                for f in fields.iter_mut().filter(|f| f.0 == *id) {
                    f.1.resize(*n as usize, 0x41);
                }
            }
            Defect::Unknown(id, at, n) => {
                let at = (*at).min(fields.len() - 1);
                fields.insert(at, (*id, vec![0x2a; *n]));
            }
            Defect::Bit(id, b) => {
                for f in fields.iter_mut().filter(|f| f.0 == *id) {
                    if let Some(x) = f.1.get_mut(b / 8) {
                        *x ^= 1 << (b % 8);
                    }
                }
            }
            Defect::Data(id, v) => {
                for f in fields.iter_mut().filter(|f| f.0 == *id) {
                    f.1 = v.clone();
                }
            }
            Defect::Sig(b) => sig[b / 8] ^= 1 << (b % 8),
            Defect::Kdb1 => sig[4..8].copy_from_slice(&SIG2_KDB1),
        }
    }
    let mut header = header_bytes(d.params.major, d.params.minor, &fields);
    header[..8].copy_from_slice(&sig);
    let hash = crate::refs::sha::sha256(&header);
    // the payload is made as the header says
    for (id, v) in &fields {
        let a32 = || <[u8; 32]>::try_from(&v[..]);
        match id {
            3 => d.params.gzip = *v == [1, 0, 0, 0],
            4 => d.params.master_seed = a32().unwrap_or(d.params.master_seed),
            5 => d.params.transform_seed = a32().unwrap_or(d.params.transform_seed),
            7 => d.params.iv = v[..].try_into().unwrap_or(d.params.iv),
            8 => d.params.psk = a32().unwrap_or(d.params.psk),
            9 => d.params.ssb = a32().unwrap_or(d.params.ssb),
            _ => {}
        }
    }
    let m = small(ck);
    let tree = crate::xmlmodel::encode(&m, &d.style, &hash);
    let xml = crate::xmlmodel::serialise(&tree, &d.text, d.params.salsa());
    d.params.seal_with(&header, &stream(&[d.params.pack(xml.as_bytes())]))
}

fn judge(f: &[u8]) -> Res {
    let (key, _) = pw("c16");
    let want = reference(f);
    match (open(f, &key), want) {
        (Ok(d), Exp::Opens) => {
            if of(&d).name != "small" {
                return bad("content", "opened with other content");
            }
            good("opens", digest(&f))
        }
        (Err(_), Exp::Any) => good("header incomplete", digest(&f)),
        (Err(e), Exp::Errors(l)) => {
            let s = format!("{:?}", e);
            if l.contains(&s) {
                good(s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""), digest(&f))
            } else {
                bad("error", format!("reported as {}, the defect is {}", s, l.join(" or ")))
            }
        }
        (Ok(_), w) => bad("opened", format!("a file with a defective header opens; the defect is {:?}", w)),
        (Err(e), Exp::Opens) => bad("refused", format!("a proper header is refused: {:?}", e)),
    }
}

fn sizes() -> Vec<u16> {
    (0..=64).chain([127, 128, 129, 255, 256, 257, 260, 264, 272, 288, 511, 512, 4096, 8192, 32767, 32768, 65535, 0x1004, 0x2010, 0x0120]).collect()
}

fn singles() -> Vec<Defect> {
    let mut v = vec![Defect::Kdb1];
    for id in 1..=10u8 {
        v.push(Defect::Drop(id));
        for s in sizes() {
            v.push(Defect::Size(id, s));
        }
    }
    v.extend(sizes().into_iter().map(|s| Defect::Size(0, s)));
    for b in 0..64 {
        v.push(Defect::Sig(b));
    }
    for b in 0..128 {
        v.push(Defect::Bit(2, b));
    }
    for b in 0..32 {
        v.push(Defect::Bit(3, b));
        v.push(Defect::Bit(10, b));
    }
    for n in [0u32, 1, 2, 3, 4, 255, 256, 258, 0x100, 0x10000, 0x1000001, u32::MAX, 0x80000002, 0x02000000] {
        v.push(Defect::Data(3, n.to_le_bytes().to_vec()));
        v.push(Defect::Data(10, n.to_le_bytes().to_vec()));
    }
    // other ciphers' ids, and the id in another byte order
    let mut rev = AES_ID.to_vec();
    rev.reverse();
    let mut guid = AES_ID.to_vec();
    guid[..4].reverse();
    guid[4..6].reverse();
    guid[6..8].reverse();
    for id in [vec![0; 16], vec![255; 16], rev, guid, crate::refs::b64::unhex("ad68f29f576f4bb9a36ad47af965346c"), crate::refs::b64::unhex("d6038a2b8b6f4cb5a524339a31dbb59a")] {
        v.push(Defect::Data(2, id));
    }
    v
}

const BASE: [u8; 10] = DEFAULT_ORDER;

pub fn permutation(mut i: u64, items: &[u8]) -> Vec<u8> {
    let mut pool = items.to_vec();
    let mut out = vec![];
    while !pool.is_empty() {
        let n = pool.len() as u64;
        out.push(pool.remove((i % n) as usize));
        i /= n;
    }
    out
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    // orders
    let (perm, fixed): (Vec<u8>, Vec<u8>) = if ctx.thorough() { (BASE.to_vec(), vec![]) } else { (vec![1, 3, 4, 5, 6, 7, 8, 9], vec![2, 10]) };
    let n: u64 = (1..=perm.len() as u64).product();
    let (p1, f1) = (perm.clone(), fixed.clone());
    let order = move |i: u64| -> Vec<u8> { [permutation(i, &p1), f1.clone()].concat() };
    let o2 = order.clone();
    v.push(
        Space::new(
            "orders",
            "every order of eight header fields (thorough: of all ten)",
            n,
            move |i| judge(&build_file(&order(i), &[], i % 2 == 0)),
            move |i| format!("order {:?}", o2(i)),
        )
        .into(),
    );
    // subsets of missing fields, in two orders
    v.push(
        Space::new(
            "missing",
            "every set of missing fields, in two orders",
            1024 * 2,
            |i| {
                let ds: Vec<Defect> = (0..10).filter(|b| i / 2 >> b & 1 == 1).map(|b| Defect::Drop(b as u8 + 1)).collect();
                let mut o = BASE.to_vec();
                if i % 2 == 1 {
                    o.reverse();
                }
                judge(&build_file(&o, &ds, i % 4 < 2))
            },
            |i| format!("missing set {:b}", i / 2),
        )
        .into(),
    );
    let mut orders: Vec<Vec<u8>> = vec![];
    for r in 0..10 {
        let mut o = BASE.to_vec();
        o.rotate_left(r);
        orders.push(o.clone());
        o.reverse();
        orders.push(o);
    }
    let orders = Arc::new(orders);
    let s = Arc::new(singles());
    let ns = s.len() as u64;
    let (s1, s2, o1, o2) = (s.clone(), s.clone(), orders.clone(), orders.clone());
    v.push(
        Space::new(
            "single",
            "every single defect (size, missing, identifier bit, value) in twenty orders of the fields",
            ns * 20,
            move |i| judge(&build_file(&o1[(i % 20) as usize], &[s1[(i / 20) as usize].clone()], i % 3 == 0)),
            move |i| format!("{:?} in order {:?}", s2[(i / 20) as usize], o2[(i % 20) as usize]),
        )
        .into(),
    );
    v.push(
        Space::new(
            "unknown",
            "every field id at every place of the header, with 0, 4 and 32 bytes of data",
            256 * 11 * 3,
            |i| {
                let id = (i % 256) as u8;
                if id <= 10 {
                    return trivial("known id", i);
                }
                judge(&build_file(&BASE, &[Defect::Unknown(id, (i / 256 % 11) as usize, [0, 4, 32][(i / 256 / 11) as usize])], i % 2 == 0))
            },
            |i| format!("id {} before field {}", i % 256, i / 256 % 11),
        )
        .into(),
    );
    // pairs: a reduced set
    let mut r: Vec<Defect> = vec![Defect::Kdb1, Defect::Sig(0), Defect::Sig(31), Defect::Sig(32), Defect::Sig(63)];
    for id in 1..=10u8 {
        r.push(Defect::Drop(id));
        for n in [0u16, 4, 16, 31, 32, 33, 65535] {
            r.push(Defect::Size(id, n));
        }
    }
    for at in 0..11 {
        r.push(Defect::Unknown(11, at, 0));
        r.push(Defect::Unknown(255, at, 32));
        r.push(Defect::Unknown(128, at, 4));
    }
    r.extend([Defect::Bit(2, 0), Defect::Bit(2, 127), Defect::Bit(3, 1), Defect::Bit(3, 31), Defect::Bit(10, 0), Defect::Bit(10, 8)]);
    let r = Arc::new(r);
    let nr = r.len() as u64;
    let norders = ctx.q(4, 20);
    let (r1, r2, o1, o2) = (r.clone(), r.clone(), orders.clone(), orders.clone());
    v.push(
        Space::new(
            "pairs",
            "every ordered pair of defects of a reduced set, in four (thorough: twenty) orders of the fields",
            nr * nr * norders,
            move |i| {
                let (o, i) = (i % norders, i / norders);
                judge(&build_file(&o1[(o * 5 % 20) as usize], &[r1[(i / nr) as usize].clone(), r1[(i % nr) as usize].clone()], i % 2 == 0))
            },
            move |i| {
                let (o, i) = (i % norders, i / norders);
                format!("{:?} and {:?} in order {:?}", r2[(i / nr) as usize], r2[(i % nr) as usize], o2[(o * 5 % 20) as usize])
            },
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C16",
        level: "exploration",
        rule: "headers with enumerated defects, orders and sets of missing fields, each with a payload that is valid for that header; the error is compared with what a reference reading of the header says; non-trivial: a file different from the others",
        items,
        assumptions: &["when several fields are missing, naming any one of them is right"],
    }
}
