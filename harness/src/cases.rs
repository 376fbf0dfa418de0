//! Case lists and message construction shared by the codec and validation checks.
use crate::genmsg::{Cfg, Fill, Gen, Plan, Text};
use crate::runner::Tier;
use crate::schema::*;
use crate::tape::Tape;
use serde_json::{Value, json};

pub fn module(spec: &Value) -> &'static Module {
    let s = schema();
    &s.modules[s.by_name[spec["m"].as_str().expect("m")]]
}

/// Every struct-field edge of every module, every struct fully populated, and random messages.
pub fn codec_cases(tier: Tier, headers: bool, rand_per_module: usize) -> Vec<Value> {
    let s = schema();
    let mut out = vec![];
    let reps = if tier == Tier::Quick { 4 } else { 24 };
    for m in &s.modules {
        if m.is_header && !headers {
            continue;
        }
        for r in 0..reps {
            for (ti, t) in m.types.iter().enumerate() {
                let Def::Struct(fs) = &t.def else { continue };
                for (fi, _) in fs.iter().enumerate() {
                    out.push(json!({"k": "edge", "m": m.name, "t": ti, "f": fi, "r": r}));
                }
                out.push(json!({"k": "all", "m": m.name, "t": ti, "r": r}));
                if fs.len() > 1 {
                    out.push(json!({"k": "allbut", "m": m.name, "t": ti, "r": r}));
                }
            }
        }
        let n = if m.is_header { rand_per_module / 3 } else { rand_per_module };
        for i in 0..n * reps * if tier == Tier::Quick { 1 } else { 10 } {
            out.push(json!({"k": "rand", "m": m.name, "i": i}));
        }
    }
    out
}

/// The first repetitions give the field in question an extreme value, the others a random one.
fn special(f: &Field, r: u64, text: Text, t: &mut Tape) -> Option<Value> {
    let v = match (&f.ty, r) {
        (Ty::Str, _) if text == Text::Valid => return None,
        (Ty::Str, 0) => json!(""),
        (Ty::Str, 1) => json!(t.pick(crate::strgen::TYPICAL)),
        (Ty::Str, 2) if t.chance(50) => json!(crate::strgen::NUMERIC[t.ix(crate::strgen::NUMERIC.len())]),
        (Ty::Num, 0) => json!(0.0),
        (Ty::Num, 1) => json!(*t.pick(&[-0.5, -1.0, 100.0, 5.0, 12.30, 1000.0])),
        (Ty::Num, 2) => json!(*t.pick(&[0.00001, 1.00005, 99999999999999.0, 123456789.12345, 0.123456789012, 1e14])),
        (Ty::Bool, r) => json!(r % 2 == 0),
        _ => return None,
    };
    Some(match f.card {
        Card::Plus | Card::Star => Value::Array(vec![v; 1 + t.ix(3)]),
        _ => v,
    })
}

/// Build the message value a spec describes.
pub fn build(spec: &Value, t: &mut Tape, text: Text) -> (&'static Module, Value) {
    let m = module(spec);
    let v = match spec["k"].as_str().unwrap() {
        "rand" => {
            let (opt, budget) = *t.pick(&[(25, 60), (0, 20), (10, 30), (50, 150), (80, 300), (35, 120)]);
            Gen::new(m, t, Cfg::new(opt, budget, text)).root()
        }
        k => {
            let ty = spec["t"].as_u64().unwrap() as usize;
            let fill = match k {
                "edge" => Fill::Only(spec["f"].as_u64().unwrap() as usize),
                "all" => Fill::All,
                "allbut" => Fill::AllBut(t.ix(m.fields(ty).len())),
                o => panic!("kind {o}"),
            };
            let mut vec_len = *t.pick(&[1, 2, 3, 1, 2, 3, 2, 5, 11, 27]);
            if t.chance(1) {
                vec_len = *t.pick(&[64, 100, 129, 257, 600]);
            }
            let vec_at = t.ix(vec_len);
            let opt = *t.pick(&[0, 10, 0, 20]);
            let set = match fill {
                Fill::Only(fi) => special(&m.fields(ty)[fi], spec["r"].as_u64().unwrap_or(3), text, t).map(|v| (fi, v)),
                _ => None,
            };
            let plan = Plan { path: &m.path_to[ty], fill, set, vec_len, vec_at };
            Gen::new(m, t, Cfg::new(opt, 40, text)).planned(&plan)
        }
    };
    (m, v)
}

pub fn header_value(t: &mut Tape, text: Text, full: &str) -> Value {
    let h = crate::mx::hdr_module();
    let opt = *t.pick(&[30, 0, 60]);
    let mut v = Gen::new(h, t, Cfg::new(opt, 25, text)).root();
    v["MsgDefIdr"] = json!(full);
    v
}
