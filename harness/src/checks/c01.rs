//! Round trip: save then open gives the model back.
use crate::engine::*;
use crate::lk::*;
use crate::model::*;

pub fn round_trip(m: &MDb) -> Res {
    let (key, ck) = pw("c01 password");
    let mut m = m.clone();
    m.ckey = ck;
    let db = build(&m, &key);
    let bytes = match save(&db) {
        Ok(b) => b,
        Err(e) => {
            if unrepresentable(&m) {
                return good("refused: not representable", digest(&m));
            }
            return bad("refused", format!("saving fails: {:?}", e));
        }
    };
    let back = match open(&bytes, &key) {
        Ok(d) => d,
        Err(e) => return bad("unreadable", format!("the saved file does not open: {:?}", e)),
    };
    if let Some(d) = {
        let got = of(&back);
        let mut want = m.after_reopen();
        want.generator = got.generator.clone();
        diff(&want, &got)
    } {
        return bad("changed", format!("after saving and opening, {}", d));
    }
    good_n(if m.gzip { "same, gzip" } else { "same, plain" }, digest(&m), 2)
}

pub fn def() -> CheckDef {
    CheckDef {
        id: "C01",
        level: "model_checking",
        rule: "model databases are enumerated (every value of every field, pairs of field changes, all small group trees, all XML characters, short strings, sizes); each is built through the public API, saved, opened and compared field by field with the model; a case is non-trivial if its model differs from the others",
        items: |ctx| super::spaces::items(ctx, round_trip),
        assumptions: &["the model's list of fields is complete (checked against the public fields of the library's types at build time by construction)"],
    }
}
