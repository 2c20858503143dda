//! Saved files, taken apart by a strict decoder written from the format description.
use crate::engine::*;
use crate::kdbx;
use crate::lk::*;
use crate::model::*;
use crate::xmlmodel;
use kpdb::*;

fn has_tab(m: &MDb) -> bool {
    m.binaries.keys().any(|k| k.contains('\t')) || format!("{:?}", m.root).contains("Ref(\"") && refs(&m.root).iter().any(|r| r.contains('\t'))
}
fn refs(g: &MGroup) -> Vec<String> {
    let mut v = vec![];
    fn e(x: &MEntry, v: &mut Vec<String>) {
        for b in x.binaries.values() {
            if let BVal::Ref(r) = b {
                v.push(r.clone());
            }
        }
        x.history.iter().for_each(|h| e(h, v));
    }
    g.entries.iter().for_each(|x| e(x, &mut v));
    g.groups.iter().for_each(|x| v.extend(refs(x)));
    v
}
fn untab(m: &MDb) -> MDb {
    fn g_(g: &mut MGroup) {
        fn e_(e: &mut MEntry) {
            for b in e.binaries.values_mut() {
                if let BVal::Ref(r) = b {
                    *r = r.replace('\t', " ");
                }
            }
            e.history.iter_mut().for_each(e_);
        }
        g.entries.iter_mut().for_each(e_);
        g.groups.iter_mut().for_each(g_);
    }
    let mut m = m.clone();
    m.binaries = m.binaries.into_iter().map(|(k, v)| (k.replace('\t', " "), v)).collect();
    g_(&mut m.root);
    m
}

pub fn judge_with(m: &MDb, key: &CompositeKey, ck: [u8; 32]) -> Res {
    let mut m = m.clone();
    m.ckey = ck;
    let db = build(&m, key);
    let bytes = match save(&db) {
        Ok(b) => b,
        Err(e) => {
            if unrepresentable(&m) {
                return good("refused: not representable", digest(&m));
            }
            return bad("refused", format!("saving fails: {:?}", e));
        }
    };
    let parts = match kdbx::open(&bytes, &ck) {
        Ok(p) => p,
        Err(e) => return bad("container", format!("the file is not a standard container: {}", e)),
    };
    let mut want = m.after_reopen();
    let r = xmlmodel::decode(&parts);
    let d = match &r {
        Ok(got) => {
            want.generator = got.generator.clone();
            diff(&want, got)
        }
        Err(e) => Some(format!("the document is not standard: {}", e)),
    };
    if let Some(d) = d {
        if has_tab(&m) {
            // Attribute values: a raw tab reads as a space, and ids may thereby coincide.
            let w = untab(&want);
            let same = match &r {
                Ok(got) => w.binaries.len() == want.binaries.len() && diff(&w, got).is_none(),
                Err(e) => w.binaries.len() != want.binaries.len() && e == "binary id twice",
            };
            if same {
                return bad("tab-in-binary-id", format!("a tab inside a binary id or reference is written raw: {}", d));
            }
        }
        return bad("content", format!("an independent reader of the file finds: {}", d));
    }
    good_n(if m.gzip { "decoded, gzip" } else { "decoded, plain" }, digest(&m), 2)
}

pub fn judge(m: &MDb) -> Res {
    let (key, ck) = pw("c02 password");
    judge_with(m, &key, ck)
}

fn container(ctx: &Ctx) -> Item<'static> {
    let rounds: Vec<u64> = ctx.q((0..40).chain([63, 64, 100, 255, 256, 257, 6000, 65535, 65536]).collect(), (0..600).chain([6000, 65535, 65536, 65537, 1 << 20, 5_000_000]).collect());
    let comments: Vec<Option<Vec<u8>>> =
        [None, Some(0), Some(1), Some(3), Some(255), Some(256), Some(257), Some(65534), Some(65535), Some(65536), Some(70000)].iter().map(|n: &Option<usize>| n.map(|n| (0..n).map(|i| (i * 7) as u8).collect())).collect();
    let versions: Vec<(u16, u16)> = vec![(3, 1), (3, 0), (2, 20), (3, 0x1234), (0, 0), (3, 0xffff)];
    let nr = rounds.len() as u64;
    let total = nr * 4 + comments.len() as u64 * versions.len() as u64 * 4 * 2;
    let (r2, c2, v2) = (rounds.clone(), comments.clone(), versions.clone());
    let case = move |i: u64| -> (MDb, u64) {
        let mut m = if i % 8 < 4 { small([0; 32]) } else { rich([0; 32]) };
        if i < nr * 4 {
            m.rounds = rounds[(i / 4) as usize];
            m.gzip = i % 2 == 0;
            return (m, i % 4);
        }
        let i = i - nr * 4;
        let (cred, j) = (i % 4, i / 4);
        m.gzip = j % 2 == 0;
        let j = j / 2;
        m.comment = comments[j as usize % comments.len()].clone();
        m.version = versions[j as usize / comments.len()];
        (m, cred)
    };
    Space::new(
        "container",
        "transformation rounds, comments and versions, under four kinds of credentials",
        total,
        move |i| {
            let (m, cred) = case(i);
            let k32: Vec<u8> = (0..32).map(|x| x * 5 + 1).collect();
            let sha = crate::refs::sha::sha256;
            let (key, ck) = match cred {
                0 => pw("pässword"),
                1 => (CompositeKey::from_key_file(kf(&k32, KeyFileType::Binary)), sha(&k32)),
                2 => (CompositeKey::from_both("both", kf(&k32, KeyFileType::Xml)), sha(&[&sha(b"both")[..], &k32].concat())),
                _ => pw(""),
            };
            judge_with(&m, &key, ck)
        },
        move |i| {
            if i < nr * 4 {
                format!("rounds {}, credentials {}", r2[(i / 4) as usize], i % 4)
            } else {
                let i = i - nr * 4;
                let j = i / 8;
                format!("comment {:?}, version {:?}, credentials {}", c2[j as usize % c2.len()].as_ref().map(|c| c.len()), v2[j as usize / c2.len()], i % 4)
            }
        },
    )
    .into()
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C02",
        level: "model_checking",
        rule: "the bounded model databases of C01 plus container variants are saved by the library; each file is decoded by an independent strict reader of the format and compared with the model; a case is non-trivial if its model differs from the others",
        items: |ctx| {
            let mut v = vec![container(ctx)];
            v.extend(super::spaces::items(ctx, judge));
            v
        },
        assumptions: &["the reference decoder states the format correctly (its primitives are compared with published vectors by the self-test)"],
    }
}
