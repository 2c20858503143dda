//! Credentials: every ordered pair of a near-collision alphabet.
use crate::engine::*;
use crate::kdbx::{self, Params};
use crate::lk::*;
use crate::model::*;
use crate::refs::sha::{sha256, sha256_cat};
use kpdb::*;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Cred {
    Pw(String),
    Kf(Vec<u8>, u8),
    Both(String, Vec<u8>, u8),
}

pub fn kind(n: u8) -> KeyFileType {
    [KeyFileType::Binary, KeyFileType::Hex, KeyFileType::Xml][n as usize % 3].clone()
}

impl Cred {
    pub fn key(&self) -> CompositeKey {
        match self {
            Cred::Pw(p) => CompositeKey::from_password(p.as_str()),
            Cred::Kf(k, t) => CompositeKey::from_key_file(kf(k, kind(*t))),
            Cred::Both(p, k, t) => CompositeKey::from_both(p.as_str(), kf(k, kind(*t))),
        }
    }
    /// by the rules of the format
    pub fn reference(&self) -> [u8; 32] {
        match self {
            Cred::Pw(p) => sha256(&sha256(p.as_bytes())),
            Cred::Kf(k, _) => sha256(k),
            Cred::Both(p, k, _) => sha256_cat(&[&sha256(p.as_bytes()), k]),
        }
    }
}

pub fn passwords() -> Vec<String> {
    let mut v: Vec<String> = [
        "", " ", "  ", "\t", "\n", "\0", "\0\0", "a", "A", "b", "aa", "aA", "Aa", "a ", " a", "a\0", "\0a", "a\n", "a\r\n", "a\t", "a b", "ab", "ba", "abc", "acb", "é", "e\u{301}", "É", "ß", "ss", "SS", "ı", "i", "I", "İ",
        "\u{212a}", "k", "K", "\u{feff}a", "a\u{200b}", "ａ", "0", "00", "1", "null", "password", "Password", "PASSWORD", "password ", "password1", "passwore", "passwor", "assword", "\u{10ffff}",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [7, 8, 9, 16, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 255, 256, 257] {
        v.push("x".repeat(n));
    }
    let long = "p".repeat(100);
    v.push(format!("{}a", long));
    v.push(format!("{}b", long));
    v.push(format!("a{}", long));
    v
}

pub fn keys() -> Vec<Vec<u8>> {
    let base: Vec<u8> = (0..32).map(|i| (i * 7 + 3) as u8).collect();
    let mut v = vec![base.clone(), vec![0; 32], vec![255; 32], vec![0; 31], vec![0; 33], vec![], base[..31].to_vec(), base[1..].to_vec(), [&base[..], &[0]].concat(), [&[0], &base[..]].concat(), [&base[..], &base[..]].concat()];
    let mut r = base.clone();
    r.reverse();
    v.push(r);
    let mut s = base.clone();
    s.swap(0, 1);
    v.push(s);
    v.push(sha256(b"a").to_vec());
    v.push(sha256(b"").to_vec());
    v.push(sha256(&sha256(b"a")).to_vec());
    v.push(b"a".to_vec());
    v.push(crate::refs::b64::hex(&base).into_bytes());
    v
}

pub fn alphabet() -> Vec<Cred> {
    let mut v: Vec<Cred> = passwords().into_iter().map(Cred::Pw).collect();
    for (i, k) in keys().into_iter().enumerate() {
        v.push(Cred::Kf(k, i as u8));
    }
    for p in ["", "a", "A", "a ", "aa", "\0", "password", "Password"] {
        for (i, k) in keys().into_iter().enumerate() {
            v.push(Cred::Both(p.into(), k, i as u8));
        }
    }
    v
}

fn show(c: &Cred) -> String {
    match c {
        Cred::Pw(p) => format!("password {:?}", clip(p)),
        Cred::Kf(k, t) => format!("key file {} ({:?})", crate::refs::b64::hex(k), kind(*t)),
        Cred::Both(p, k, t) => format!("password {:?} and key file {} ({:?})", clip(p), crate::refs::b64::hex(k), kind(*t)),
    }
}

fn content() -> MDb {
    let mut m = small([0; 32]);
    m.root.entries[0].strings.insert(MKey::Notes, SVal::Plain("content".into()));
    m
}

/// A file saved under `a` must open under `b` exactly if they are equal.
fn judge(a: &Cred, b: &Cred, variant: u64) -> Res {
    let mut m = content();
    m.gzip = variant % 2 == 0;
    m.rounds = [1, 0, 3, 2][variant as usize % 4];
    m.ckey = a.reference();
    let same = a.reference() == b.reference();
    // by the library, or by the independent encoder
    let file = if variant % 3 == 2 {
        let mut d = super::c03::dialect(a.reference());
        d.params.version_of(&m);
        d.params.gzip = m.gzip;
        super::c03::file_of(&m, &d)
    } else {
        match save(&build(&m, &a.key())) {
            Ok(f) => f,
            Err(e) => return bad("save", format!("saving fails: {:?}", e)),
        }
    };
    match (open(&file, &b.key()), same) {
        (Ok(d), true) => {
            let got = of(&d);
            let mut want = m.after_reopen();
            want.generator = got.generator.clone();
            match diff(&want, &got) {
                Some(x) => bad("content", format!("opened with the right credentials, {}", x)),
                None => good_n("equal: opens", digest(&(show(a), show(b))), 2),
            }
        }
        (Err(_), false) => good_n("different: refused", digest(&(show(a), show(b))), 2),
        (Err(e), true) => bad("refused", format!("refused under equal credentials: {:?}", e)),
        (Ok(_), false) => bad("opened", "opens under other credentials".to_string()),
    }
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    let al = Arc::new(alphabet());
    let n = al.len() as u64;
    let rep = ctx.q(4, 24);
    let (a1, a2) = (al.clone(), al.clone());
    v.push(
        Space::new(
            "pairs",
            "every ordered pair of the credentials alphabet (save under one, open under the other); compression, rounds and writer vary",
            n * n * rep,
            move |i| {
                let (p, r) = (i / rep, i % rep);
                judge(&a1[(p / n) as usize], &a1[(p % n) as usize], p + p / n + r)
            },
            move |i| {
                let p = i / rep;
                format!("saved with {}, opened with {}", show(&a2[(p / n) as usize]), show(&a2[(p % n) as usize]))
            },
        )
        .into(),
    );
    // all single bits of a key, alone and combined, and of a password's bytes
    v.push(
        Space::new(
            "bits",
            "every single-bit variant of a key file's key (alone and with a password), both directions, and of the last bits of a password",
            256 * 4 + 64,
            |i| {
                let base: Vec<u8> = (0..32).map(|x| (x * 7 + 3) as u8).collect();
                if i >= 1024 {
                    let mut p = b"passwords".to_vec();
                    let bit = (i - 1024) as usize;
                    p[bit / 8] ^= 1 << (bit % 8);
                    return match String::from_utf8(p) {
                        Ok(p) => judge(&Cred::Pw("passwords".into()), &Cred::Pw(p), i),
                        Err(_) => trivial("no text", i),
                    };
                }
                let bit = (i / 4) as usize;
                let mut k = base.clone();
                k[bit / 8] ^= 1 << (bit % 8);
                let (a, b) = if i % 4 < 2 { (Cred::Kf(base, 0), Cred::Kf(k, 2)) } else { (Cred::Both("p".into(), base, 0), Cred::Both("p".into(), k, 1)) };
                if i % 2 == 0 {
                    judge(&a, &b, i / 4)
                } else {
                    judge(&b, &a, i / 4)
                }
            },
            |i| format!("bit {} variant {}", i / 4, i % 4),
        )
        .into(),
    );
    // passwords and keys that agree up to their last (or from their second) character
    let mut lens: Vec<usize> = (1..ctx.q(1100, 5000)).chain([4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 16384, 16385, 32768, 32769, 65534, 65535, 65536, 65537, 100_000, 131_073, (1 << 20) + 1]).collect();
    lens.dedup();
    let l2 = lens.clone();
    v.push(
        Space::new(
            "long",
            "passwords and keys of every length that agree up to the last or from the second character, or of which one is the other and one character more",
            lens.len() as u64 * 12,
            move |i| {
                let n = lens[i as usize / 12];
                let make = |first: u8, last: u8, n: usize| {
                    let mut v: Vec<u8> = (0..n).map(|j| b'a' + (j % 23) as u8).collect();
                    if let Some(x) = v.last_mut() {
                        *x = last;
                    }
                    v[0] = first;
                    v
                };
                let (a, b) = match i % 3 {
                    0 => (make(b'A', b'Y', n + 1), make(b'A', b'Z', n + 1)),
                    1 => (make(b'A', b'Z', n + 1), make(b'B', b'Z', n + 1)),
                    _ => {
                        let a = make(b'A', b'Z', n);
                        let mut b = a.clone();
                        b.push(b'Z');
                        (a, b)
                    }
                };
                let text = |v: Vec<u8>| String::from_utf8(v).unwrap();
                let (a, b) = match i / 3 % 4 {
                    0 => (Cred::Pw(text(a)), Cred::Pw(text(b))),
                    1 => (Cred::Both(text(a), vec![5; 32], 0), Cred::Both(text(b), vec![5; 32], 0)),
                    2 => (Cred::Kf(a, 0), Cred::Kf(b, 0)),
                    _ => (Cred::Both("p".into(), a, 1), Cred::Both("p".into(), b, 1)),
                };
                if i / 12 % 2 == 0 {
                    judge(&a, &b, i)
                } else {
                    judge(&b, &a, i)
                }
            },
            move |i| format!("length {}, difference {}, factor {}", l2[i as usize / 12], i % 3, i / 3 % 4),
        )
        .into(),
    );
    // wrong key, many files: the padding and the start bytes fall differently each time
    v.push(
        Space::new(
            "files",
            "one pair of different credentials over many files with different secrets",
            ctx.q(100_000, 2_000_000),
            |i| judge(&Cred::Pw("one".into()), &Cred::Pw("two".into()), i % 2),
            |i| format!("file {}", i),
        )
        .into(),
    );
    // payloads that decrypt properly but whose start bytes differ
    v.push(
        Space::new(
            "start bytes",
            "a payload that is valid in every respect except that one bit (or one whole byte, or a prefix) of the start bytes differs from the header",
            256 + 32 + 32 + 1,
            |i| {
                let (key, ck) = pw("x");
                let mut d = super::c03::dialect(ck);
                d.params.gzip = i % 2 == 0;
                let m = content();
                let tree = super::c03::tree_of(&m, &d);
                let xml = crate::xmlmodel::serialise(&tree, &d.text, d.params.salsa());
                let header = d.params.header();
                let mut p: Params = d.params.clone();
                let i = i as usize;
                let valid = i == 320;
                if i < 256 {
                    p.ssb[i / 8] ^= 1 << (i % 8);
                } else if i < 288 {
                    p.ssb[i - 256] = !p.ssb[i - 256];
                } else if i < 320 {
                    for b in &mut p.ssb[i - 288..] {
                        *b ^= 0x5a;
                    }
                }
                let f = p.seal_with(&header, &kdbx::stream(&[p.pack(xml.as_bytes())]));
                match (open(&f, &key), valid) {
                    (Ok(_), true) => good("opens", digest(&f)),
                    (Err(_), false) => good("refused", digest(&f)),
                    (Ok(_), false) => bad("opened", "opens although the start bytes do not match"),
                    (Err(e), true) => bad("refused", format!("{:?}", e)),
                }
            },
            |i| format!("case {}", i),
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C04",
        level: "exploration",
        rule: "every ordered pair of an alphabet of near-colliding credentials: a file saved under the first is opened under the second; it must open exactly if the format's composite keys are equal; non-trivial: a distinct pair of credentials",
        items,
        assumptions: &["equality of credentials is equality of the format's composite key computed by an independent SHA-256 (a key file that holds the hash of a password is by the format's definition the same credential as the password)"],
    }
}
