//! Every strict prefix of a file is refused.
use crate::engine::*;
use crate::lk::*;
use crate::model::*;
use kpdb::CompositeKey;
use std::sync::Arc;

pub fn files(ctx: &Ctx) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let (key, ck) = pw("c06");
    let n = ctx.q(40u64, 160);
    let thorough = ctx.thorough();
    crate::engine::on_seeded_thread(8 << 20, 6, || {
        for i in 0..n {
            for gz in [false, true] {
                let mut m = MDb::new(ck);
                m.gzip = gz;
                m.rounds = 0;
                m.comment = if i % 3 == 0 { Some(vec![1; (i % 7) as usize]) } else { None };
                m.name = (0..i).map(|j| (b'a' + ((i * j) % 23) as u8) as char).collect();
                if let Ok(f) = save(&build(&m, &key)) {
                    v.push((format!("saved, name of {} characters, gzip {}", i, gz), f));
                }
            }
        }
        for (name, m) in [("small", small(ck)), ("rich", rich(ck))] {
            if name == "rich" && !thorough {
                continue;
            }
            for gz in [false, true] {
                let mut m = m.clone();
                m.gzip = gz;
                m.rounds = 0;
                if let Ok(f) = save(&build(&m, &key)) {
                    v.push((format!("saved, {}, gzip {}", name, gz), f));
                }
            }
        }
        // several blocks, by the independent encoder; the document ends at a block's end
        for split in [0, 16, 100, -1, -2, -3] {
            for gz in [false, true] {
                let mut d = super::c03::dialect(ck);
                d.split = split;
                d.params.gzip = gz;
                d.params.rounds = 0;
                v.push((format!("other encoder, split {}, gzip {}", split, gz), super::c03::file_of(&MDb::new(ck), &d)));
            }
        }
    });
    v
}

/// Files with a large attachment, saved by the library in one block and by another encoder in several.
pub fn large_files(ctx: &Ctx) -> Vec<(String, Vec<u8>)> {
    let (key, ck) = pw("c06");
    let mut v = vec![];
    crate::engine::on_seeded_thread(8 << 20, 66, || {
        let mut sizes = vec![3000usize, 30_000, 70_000];
        if ctx.thorough() {
            sizes.extend([150_000, 1_200_000]);
        } else {
            sizes.push(300_000);
        }
        for n in sizes {
            for gz in [false, true] {
                let mut m = MDb::new(ck);
                m.gzip = gz;
                m.rounds = 0;
                m.binaries.insert("0".into(), (0..n).map(|j| crate::env::mix(j as u64) as u8).collect());
                if let Ok(f) = save(&build(&m, &key)) {
                    v.push((format!("saved, attachment of {} bytes, gzip {}", n, gz), f));
                }
                let mut d = super::c03::dialect(ck);
                d.split = 4096;
                d.params.gzip = gz;
                d.params.rounds = 0;
                v.push((format!("other encoder, attachment of {} bytes, gzip {}", n, gz), super::c03::file_of(&m, &d)));
            }
        }
    });
    v
}

fn judge(f: &[u8], n: usize, key: &CompositeKey) -> Res {
    match open(&f[..n], key) {
        Err(e) => {
            let t = format!("{:?}", e);
            good(t.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""), digest(&(f, n)))
        }
        Ok(_) => bad("opened", format!("the first {} of {} bytes open", n, f.len())),
    }
}

pub fn items(ctx: &Ctx) -> Vec<Item<'static>> {
    let fs = Arc::new(files(ctx));
    let mut v: Vec<Item> = vec![];
    let f0 = fs.clone();
    v.push(
        Space::new(
            "complete",
            "the complete files open",
            fs.len() as u64,
            move |i| match open(&f0[i as usize].1, &pw("c06").0) {
                Ok(_) => good("opens", digest(&f0[i as usize].1)),
                Err(e) => bad("refused", format!("the complete file does not open: {:?}", e)),
            },
            |i| format!("file {}", i),
        )
        .into(),
    );
    let mut starts = vec![0u64];
    for f in fs.iter() {
        starts.push(starts.last().unwrap() + f.1.len() as u64);
    }
    let total = *starts.last().unwrap();
    let starts = Arc::new(starts);
    let at = move |i: u64| -> (usize, usize) {
        let k = starts.partition_point(|s| *s <= i) - 1;
        (k, (i - starts[k]) as usize)
    };
    let (a1, f1, f2) = (at.clone(), fs.clone(), fs.clone());
    v.push(
        Space::new(
            "prefixes",
            "every strict prefix of files saved by the library (names of many lengths, both compressions, comments) and of files in several blocks",
            total,
            move |i| {
                let (k, n) = a1(i);
                judge(&f1[k].1, n, &pw("c06").0)
            },
            move |i| {
                let (k, n) = at(i);
                format!("first {} of {} bytes of: {}", n, f2[k].1.len(), f2[k].0)
            },
        )
        .into(),
    );
    // large files: stopped at every 64th byte (thorough: 16th) and everywhere near a boundary and the end
    let large = Arc::new(large_files(ctx));
    let l0 = large.clone();
    let cuts: Vec<(usize, usize)> = (0..large.len())
        .flat_map(|k| {
            let n = l0[k].1.len();
            let step = ctx.q(64usize, 16).max(n / 5000);
            let near = |x: usize| x.saturating_sub(33)..x + 34;
            let mut c: Vec<usize> = (0..n).step_by(step).chain(n.saturating_sub(400)..n).chain([512, 1024, 4096, 8192, 16384, 32768, 65536, 131_072, 262_144, 1 << 20].into_iter().flat_map(near)).filter(|x| *x < n).collect();
            c.sort();
            c.dedup();
            c.into_iter().map(move |x| (k, x))
        })
        .collect();
    let cuts = Arc::new(cuts);
    let (c1, c2, l1, l2) = (cuts.clone(), cuts.clone(), large.clone(), large.clone());
    v.push(
        Space::new(
            "large files",
            "prefixes of large files: at every 64th byte (thorough: 16th), around powers of two and at each of the last 400 bytes; and the whole files",
            (cuts.len() + large.len()) as u64,
            move |i| match c1.get(i as usize) {
                Some((k, n)) => judge(&l1[*k].1, *n, &pw("c06").0),
                None => match open(&l1[i as usize - c1.len()].1, &pw("c06").0) {
                    Ok(_) => good("opens", digest(&i)),
                    Err(e) => bad("refused", format!("the complete file does not open: {:?}", e)),
                },
            },
            move |i| match c2.get(i as usize) {
                Some((k, n)) => format!("first {} of {} bytes of: {}", n, l2[*k].1.len(), l2[*k].0),
                None => "whole".into(),
            },
        )
        .into(),
    );
    v
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C06",
        level: "fault_enumeration",
        rule: "every point at which writing the file can stop, for every file of the set; non-trivial: a distinct prefix",
        items,
        assumptions: &["an interrupted write leaves a prefix (other damage is C05)"],
    }
}
