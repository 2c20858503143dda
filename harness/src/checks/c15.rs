//! Composite keys and key transformation against an independent computation.
use super::c04::*;
use crate::engine::*;
use crate::kdbx;
use crate::lk::*;
use crate::model::*;
use crate::refs::b64::hex;
use std::sync::Arc;

fn key_is(c: &Cred) -> Res {
    let (got, want) = (c.key().unsecure(), c.reference());
    if got != want {
        return bad("composite", format!("the composite key is {}, by the format it is {}", hex(&got), hex(&want)));
    }
    good("composite", digest(&want))
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let mut v: Vec<Item> = vec![];
    let alpha: Vec<char> = (0u32..0x180).filter_map(char::from_u32).chain(['\u{2028}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{212a}', '\u{3a3}']).collect();
    let n = alpha.len() as u64;
    let al = Arc::new(alpha);
    let a1 = al.clone();
    v.push(
        Space::new(
            "passwords",
            "every password of length 0, 1 and 2 over the first 384 code points and boundary characters",
            1 + n + n * n,
            move |i| {
                let s: String = if i == 0 {
                    String::new()
                } else if i <= n {
                    a1[(i - 1) as usize].to_string()
                } else {
                    let j = i - 1 - n;
                    [a1[(j / n) as usize], a1[(j % n) as usize]].iter().collect()
                };
                key_is(&Cred::Pw(s))
            },
            |i| format!("password number {}", i),
        )
        .into(),
    );
    let mut sizes: Vec<usize> = (0..ctx.q(1100, 5000)).collect();
    sizes.extend([4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131_072, 1 << 20, (1 << 20) + 1]);
    let lens = sizes.len() as u64;
    v.push(
        Space::new(
            "lengths",
            "passwords and keys of every length, alone and together",
            lens * 8,
            move |i| {
                let l = sizes[(i / 8) as usize];
                let text = |l: usize| -> String { (0..l).map(|j| char::from(b'!' + ((j * 7 + l) % 90) as u8)).collect() };
                let data = |l: usize| -> Vec<u8> { (0..l).map(|x| (x * 11 + 1 + l) as u8).collect() };
                match i % 8 {
                    0 => key_is(&Cred::Pw(text(l))),
                    1 => key_is(&Cred::Both(text(l), vec![7; 32], 0)),
                    2 => key_is(&Cred::Pw("é".repeat(l))),
                    3 => key_is(&Cred::Kf(data(l), (l % 3) as u8)),
                    4 => key_is(&Cred::Both("".into(), data(l), (l % 3) as u8)),
                    5 => key_is(&Cred::Both("password".into(), data(l), (l % 3) as u8)),
                    6 => key_is(&Cred::Both(text(l), data(l), (l % 3) as u8)),
                    _ => key_is(&Cred::Kf(vec![0; l], (l % 3) as u8)),
                }
            },
            |i| format!("length case {}", i),
        )
        .into(),
    );
    let m = ctx.q(200u64, 600);
    v.push(
        Space::new(
            "pairs of lengths",
            "passwords of every length to 200 (thorough: 600) with keys of every length to 200 (600)",
            m * m,
            move |i| key_is(&Cred::Both("a".repeat((i / m) as usize), (0..(i % m) as usize).map(|x| (x * 13 + 5) as u8).collect(), (i % 3) as u8)),
            move |i| format!("password of {}, key of {} bytes", i / m, i % m),
        )
        .into(),
    );
    let ps = Arc::new(passwords());
    let ks = Arc::new(keys());
    let (np, nk) = (ps.len() as u64, ks.len() as u64);
    let (p1, k1) = (ps.clone(), ks.clone());
    v.push(
        Space::new(
            "both",
            "every combination of the password and key alphabets, as each kind of key file",
            np * nk * 3,
            move |i| {
                let (t, i) = (i % 3, i / 3);
                key_is(&Cred::Both(p1[(i / nk) as usize].clone(), k1[(i % nk) as usize].clone(), t as u8)).and_then(|g| {
                    key_is(&Cred::Kf(k1[(i % nk) as usize].clone(), t as u8))?;
                    Ok(g)
                })
            },
            |i| format!("combination {}", i),
        )
        .into(),
    );
    let byte_len = 256 * 32;
    v.push(
        Space::new(
            "key bytes",
            "every byte value at every position of a key",
            byte_len,
            |i| {
                let mut k: Vec<u8> = (0..32).map(|x| (x * 3) as u8).collect();
                k[(i / 256) as usize] = i as u8;
                key_is(&Cred::Kf(k.clone(), i as u8))?;
                key_is(&Cred::Both("p".into(), k, i as u8))
            },
            |i| format!("byte {} is {}", i / 256, i % 256),
        )
        .into(),
    );
    // the key under which the file is encrypted
    let rounds: Vec<u64> = ctx.q((0..=40).chain([63, 64, 65, 127, 128, 255, 256, 257, 1000, 6000, 65535, 65536, 65537, 100_000]).collect(), (0..=2000).chain([6000, 65535, 65536, 65537, 100_000, 1 << 20, (1 << 24) + 1]).collect());
    let creds: Arc<Vec<Cred>> = Arc::new(vec![Cred::Pw("pw".into()), Cred::Pw("".into()), Cred::Kf((0..32).collect(), 0), Cred::Both("pw".into(), (100..132).collect(), 2), Cred::Kf(vec![255; 32], 1)]);
    let nr = rounds.len() as u64;
    let r2 = rounds.clone();
    v.push(
        Space::new(
            "rounds",
            "files of the library decrypt under the key the format prescribes for their credentials and rounds, and files of the independent encoder open",
            nr * 10,
            move |i| {
                let (r, i) = (rounds[(i % nr) as usize], i / nr);
                let c = &creds[(i / 2) as usize];
                let mut m = small(c.reference());
                m.rounds = r;
                if i % 2 == 0 {
                    let f = match save(&build(&m, &c.key())) {
                        Ok(f) => f,
                        Err(e) => return bad("save", format!("{:?}", e)),
                    };
                    match kdbx::open(&f, &c.reference()) {
                        Ok(p) if p.params.rounds == r => good("written", digest(&(r, i))),
                        Ok(p) => bad("rounds", format!("the file states {} rounds", p.params.rounds)),
                        Err(e) => bad("encryption", format!("the file is not encrypted under the prescribed key: {}", e)),
                    }
                } else {
                    let mut d = super::c03::dialect(c.reference());
                    d.params.version_of(&m);
                    match open(&super::c03::file_of(&m, &d), &c.key()) {
                        Ok(_) => good("read", digest(&(r, i))),
                        Err(e) => bad("encryption", format!("a file encrypted under the prescribed key does not open: {:?}", e)),
                    }
                }
            },
            move |i| format!("{} rounds, case {}", r2[(i % nr) as usize], i / nr),
        )
        .into(),
    );
    // round counts far beyond what can be computed: they must not be cut short
    v.push(
        Space::new(
            "huge rounds",
            "saving and opening with 2^32, 2^40, 2^63 rounds or more are still at work after a time in which a few million rounds are done",
            2,
            |i| {
                const R: [u64; 8] = [1 << 32, (1 << 32) + 1, 1 << 40, 1 << 48, 1 << 63, u64::MAX, u64::MAX - 1, (1 << 31) * 3];
                let reading = i == 1;
                let pids: Vec<i32> = R
                    .iter()
                    .map(|&r| {
                        let pid = unsafe { libc::fork() };
                        if pid == 0 {
                            let (key, ck) = pw("k");
                            let mut m = small(ck);
                            if reading {
                                // the header states r rounds; the payload is as it may be
                                let mut d = super::c03::dialect(ck);
                                d.params.rounds = 1;
                                let good = super::c03::file_of(&m, &d);
                                d.params.rounds = r;
                                let h = d.params.header();
                                let f = [&h[..], &good[h.len()..]].concat();
                                let _ = open(&f, &key);
                            } else {
                                m.rounds = r;
                                let _ = save(&build(&m, &key));
                            }
                            unsafe { libc::_exit(7) };
                        }
                        pid
                    })
                    .collect();
                std::thread::sleep(std::time::Duration::from_millis(2000));
                let mut ended = vec![];
                for (pid, r) in pids.iter().zip(R) {
                    let mut st = 0;
                    unsafe {
                        if libc::waitpid(*pid, &mut st, libc::WNOHANG) == *pid {
                            ended.push(r);
                        } else {
                            libc::kill(*pid, libc::SIGKILL);
                            libc::waitpid(*pid, &mut st, 0);
                        }
                    }
                }
                if ended.is_empty() {
                    good_n("still at work", i, 8)
                } else {
                    bad("cut short", format!("{} ended within two seconds with {:?} rounds", if reading { "opening" } else { "saving" }, ended))
                }
            },
            |i| format!("case {}", i),
        )
        .serial()
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C15",
        level: "exploration",
        rule: "credentials are enumerated over boundary alphabets, all short passwords, all lengths and all byte values; the composite key and the encryption key of files are compared with an independent computation; non-trivial: a distinct composite key or round count",
        items,
        assumptions: &["the independent SHA-256 and AES are right (compared with published vectors by the self-test)", "2^31 rounds take longer than 1.5 s"],
    }
}
