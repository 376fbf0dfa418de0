//! C06 validation against the reference constraints, C07 laws of validation settings and collectors.
use crate::cases::*;
use crate::genmsg::{self, Cfg, Fill, Gen, Plan, Text};
use crate::mx::{self, Msg};
use crate::ops::VErr;
use crate::runner::*;
use crate::schema::*;
use crate::strgen;
use crate::tape::Tape;
use mx_message::error::{MxError, ValidationError};
use mx_message::parse_result::{ErrorCollector, ParseResult, ParserConfig};
use mx_message::validation::helpers;
use serde_json::{Value, json};

/// (code, field, path)
pub type Err3 = (u32, String, String);

fn join(p: &str, f: &str) -> String {
    if p.is_empty() { f.to_string() } else { format!("{p}.{f}") }
}

/// The reference: every violated constraint of a message value, in document order.
pub fn expected(m: &Module, ty: usize, v: &Value, path: &str, optional: bool, out: &mut Vec<Err3>) {
    explain(m, ty, v, path, optional, &mut |e, _| out.push(e));
}

/// As `expected`, with what the message of each error has to mention besides the field.
fn explain(m: &Module, ty: usize, v: &Value, path: &str, optional: bool, out: &mut dyn FnMut(Err3, String)) {
    for f in m.fields(ty) {
        let Some(x) = v.get(&f.name) else { continue };
        let one;
        let xs: &[Value] = match x {
            Value::Array(a) => a,
            x => {
                one = [x.clone()];
                &one
            }
        };
        let p = join(path, &f.name);
        for x in xs {
            for c in &f.checks {
                match c {
                    Chk::Len { min, max, gate } if optional || !gate => {
                        let k = x.as_str().expect("text").chars().count();
                        if let Some(a) = min.filter(|a| k < *a) {
                            out((1001, f.name.clone(), p.clone()), a.to_string());
                        }
                        if let Some(b) = max.filter(|b| k > *b) {
                            out((1002, f.name.clone(), p.clone()), b.to_string());
                        }
                    }
                    Chk::Pat { re, gate } if optional || !gate => {
                        if !schema().pats[*re].ok(x.as_str().expect("text")) {
                            out((1005, f.name.clone(), p.clone()), x.as_str().expect("text").to_string());
                        }
                    }
                    Chk::Sub { gate } if optional || !gate => {
                        if let Ty::Ref(c) = f.ty {
                            explain(m, c, x, &p, optional, out);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
}

fn want(m: &Module, v: &Value, path: &str, optional: bool) -> Vec<Err3> {
    let mut o = vec![];
    expected(m, m.root, v, path, optional, &mut o);
    o.sort();
    o
}
fn got(e: &[VErr]) -> Vec<Err3> {
    let mut o: Vec<Err3> = e.iter().map(|(c, f, p, _)| (*c, f.clone(), p.clone())).collect();
    o.sort();
    o
}

/// What is missing from / unexpected in `b` relative to `a` (sorted multisets).
fn diff(a: &[Err3], b: &[Err3]) -> (Vec<Err3>, Vec<Err3>) {
    let (mut miss, mut extra) = (vec![], vec![]);
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        match (a.get(i), b.get(j)) {
            (Some(x), Some(y)) if x == y => {
                i += 1;
                j += 1
            }
            (Some(x), Some(y)) if x < y => {
                miss.push(x.clone());
                i += 1
            }
            (Some(x), None) => {
                miss.push(x.clone());
                i += 1
            }
            (_, Some(y)) => {
                extra.push(y.clone());
                j += 1
            }
            (None, None) => unreachable!(),
        }
    }
    (miss, extra)
}

pub fn cfg(fail_fast: bool, optional: bool, all: bool) -> ParserConfig {
    ParserConfig { fail_fast, validate_optional_fields: optional, collect_all_errors: all }
}

// ------------------------------------------------------------------ C06

pub static C06: Check = Check {
    id: "C06",
    rule: "distinct (field, value, position) whose verdict was compared with the reference constraints, plus distinct random messages containing at least one violation",
    assumptions: &[
        "spec/schema.json, extracted from the pinned commit and committed, is the reference for which constraint applies to which field",
        "patterns are XSD facets: the whole value, stripped of surrounding white space, must match",
        "the order in which errors are reported is not part of the property",
    ],
    cases: |tier| {
        let s = schema();
        let mut out = vec![];
        let reps = if tier == Tier::Quick { 1 } else { 40 };
        for m in &s.modules {
            for r in 0..reps {
                for (ti, ty) in m.types.iter().enumerate() {
                    let Def::Struct(fs) = &ty.def else { continue };
                    for q in 0..3 {
                        out.push(json!({"k": "bad", "m": m.name, "t": ti, "r": r, "q": q}));
                    }
                    for (fi, f) in fs.iter().enumerate() {
                        if f.ty == Ty::Str && !f.checks.is_empty() {
                            for k in ["len", "match", "miss", "text"] {
                                out.push(json!({"k": k, "m": m.name, "t": ti, "f": fi, "r": r}));
                            }
                        } else if let Ty::Ref(_) = f.ty {
                            out.push(json!({"k": "sub", "m": m.name, "t": ti, "f": fi, "r": r}));
                        } else if f.ty == Ty::Str {
                            out.push(json!({"k": "text", "m": m.name, "t": ti, "f": fi, "r": r}));
                        }
                    }
                }
            }
            for i in 0..160 * reps {
                out.push(json!({"k": "rand", "m": m.name, "i": i}));
            }
            for i in 0..8 * reps {
                out.push(json!({"k": "many", "m": m.name, "i": i}));
            }
        }
        out
    },
    run: c06,
    health: |a| if a.distinct.len() < 50_000 { Err(format!("only {} distinct values", a.distinct.len())) } else { Ok(()) },
};

fn compare(m: &Module, v: &Value, t: &mut Tape) -> Result<usize, Fail> {
    let a = match Msg::load(m, v) {
        Ok(a) => a,
        Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), json!({"module": m.name, "message": v})),
    };
    let path = *t.pick(&["", "Document", "a.b"]);
    let (e, _) = a.validate(path, &ParserConfig::default());
    let w = want(m, v, path, true);
    let (miss, extra) = diff(&w, &got(&e));
    if miss.is_empty() && extra.is_empty() {
        // every message names its field and the bound or the value
        let mut ex: Vec<(Err3, String)> = vec![];
        explain(m, m.root, v, path, true, &mut |e, s| ex.push((e, s)));
        let fits: Vec<Vec<usize>> = ex
            .iter()
            .map(|(k, needle)| {
                let same = |x: &VErr| (x.0, &x.1, &x.2) == (k.0, &k.1, &k.2);
                (0..e.len()).filter(|i| same(&e[*i]) && mentions(&e[*i].3, &k.1, needle, k.0 != 1005)).collect()
            })
            .collect();
        let mut owner = vec![None; e.len()];
        for i in 0..ex.len() {
            if !assign(i, &fits, &mut owner, &mut vec![false; e.len()]) {
                return fail("an error message names neither the bound nor the value", format!("{}: {:?} in {e:?}", m.name, ex[i]), json!({"module": m.name, "message": v, "path": path}));
            }
        }
        return Ok(w.len());
    }
    let sig = match (miss.is_empty(), extra.is_empty()) {
        (false, true) => "a violated constraint is not reported",
        (true, false) => "an error is reported that no constraint explains",
        _ => "reported errors differ from the violated constraints",
    };
    fail(sig, format!("{}: missing {miss:?}, unexpected {extra:?}", m.name), json!({"module": m.name, "message": v, "path": path, "expected": w, "reported": e}))
}

/// Give expectation `i` one of the errors that fit it, moving others if need be.
fn assign(i: usize, fits: &[Vec<usize>], owner: &mut [Option<usize>], seen: &mut [bool]) -> bool {
    for &e in &fits[i] {
        if !std::mem::replace(&mut seen[e], true) && owner[e].is_none_or(|o| assign(o, fits, owner, seen)) {
            owner[e] = Some(i);
            return true;
        }
    }
    false
}

/// Whether a message names the field and the bound (as a number of its own) or the value.
fn mentions(msg: &str, field: &str, needle: &str, number: bool) -> bool {
    msg.contains(field)
        && if number {
            msg.split(|c: char| !c.is_ascii_digit()).any(|n| n == needle)
        } else {
            msg.contains(needle)
        }
}

/// A string of exactly n characters drawn from one alphabet, one- to four-byte characters.
fn text_of(n: usize, t: &mut Tape) -> String {
    let a = *t.pick(&["A", "é", "日", "🏦", "Aé", "0", "a\u{301}"]);
    a.chars().cycle().take(n).collect()
}

fn c06(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let m = module(spec);
    let k = spec["k"].as_str().unwrap();
    if k == "rand" || k == "sub" || k == "bad" || k == "many" {
        let v = if k == "many" {
            // a long list with many violations
            let mut at = vec![];
            for (ti, ty) in m.types.iter().enumerate() {
                if let Def::Struct(fs) = &ty.def {
                    at.extend(fs.iter().enumerate().filter(|(_, f)| matches!(f.card, Card::Plus | Card::Star) && !f.checks.is_empty()).map(|(fi, _)| (ti, fi)));
                }
            }
            if at.is_empty() {
                return Ok(());
            }
            let (ti, fi) = *t.pick(&at);
            let len = *t.pick(&[33, 65, 101, 130, 257, 520]);
            let mut g = Gen::new(m, t, Cfg::new(5, 10, Text::Bad));
            let mut items = vec![];
            for _ in 0..len {
                g.left = 8;
                items.push(g.one(&m.fields(ti)[fi]));
            }
            let plan = Plan { path: &m.path_to[ti], fill: Fill::Required, set: Some((fi, Value::Array(items))), vec_len: 1, vec_at: 0 };
            Gen::new(m, t, Cfg::new(0, 20, Text::Valid)).planned(&plan)
        } else if k == "bad" {
            // several violations side by side in one structure
            let ti = spec["t"].as_u64().unwrap() as usize;
            let fill = if spec["q"] == 0 { Fill::All } else { Fill::AllBut(t.ix(m.fields(ti).len())) };
            let len = 1 + t.ix(3);
            let plan = Plan { path: &m.path_to[ti], fill, set: None, vec_len: len, vec_at: t.ix(len) };
            let opt = *t.pick(&[0, 30]);
            Gen::new(m, t, Cfg::new(opt, 60, Text::Bad)).planned(&plan)
        } else if k == "sub" {
            // an optional or repeated sub-structure, fully populated, with some bad values in it
            let (ti, fi) = (spec["t"].as_u64().unwrap() as usize, spec["f"].as_u64().unwrap() as usize);
            let len = 1 + t.ix(3);
            let plan = Plan { path: &m.path_to[ti], fill: Fill::Only(fi), set: None, vec_len: len, vec_at: t.ix(len) };
            Gen::new(m, t, Cfg::new(60, 40, Text::Mixed)).planned(&plan)
        } else {
            let text = *t.pick(&[Text::Mixed, Text::Any, Text::Valid, Text::Mixed]);
            let (opt, budget) = *t.pick(&[(25, 60), (0, 20), (10, 30), (50, 150), (80, 300), (35, 120)]);
            Gen::new(m, t, Cfg::new(opt, budget, text)).root()
        };
        let w = compare(m, &v, t)?;
        n.nontrivial = w > 0;
        n.key((&m.name, v.to_string()));
        n.sample = Some(json!({"module": m.name, "message": v, "violations": w}));
        return Ok(());
    }
    let (ti, fi) = (spec["t"].as_u64().unwrap() as usize, spec["f"].as_u64().unwrap() as usize);
    let f = &m.fields(ti)[fi];
    let mut vals: Vec<String> = vec![];
    match k {
        "len" => {
            let (lo, hi) = strgen::limits(f);
            let mut ns = vec![0, 1, lo.saturating_sub(1), lo, lo + 1];
            if hi < usize::MAX {
                ns.extend([hi.saturating_sub(1), hi, hi + 1, hi + 2 + t.ix(20), hi * 2, (hi + 1) / 2, hi / 2 + 1]);
            } else {
                ns.extend([50, 200]);
            }
            for c in ns {
                vals.push(text_of(c, t));
            }
            if hi < usize::MAX {
                // white space counts towards the length
                vals.push(format!(" {}", text_of(hi, t)));
                vals.push(format!("{} ", text_of(hi.saturating_sub(1), t)));
                vals.push(format!("{}\n", text_of(hi, t)));
            }
        }
        "match" => {
            for _ in 0..4 {
                vals.push(strgen::valid(f, t));
            }
            for p in strgen::pats(f) {
                vals.extend(strgen::boundary_matches(p, t));
            }
        }
        "miss" => {
            for p in strgen::pats(f) {
                vals.extend(strgen::near_misses(p, t));
            }
            if vals.is_empty() {
                return Ok(());
            }
        }
        "text" => {
            for _ in 0..4 {
                vals.push(strgen::wild(t, 30));
                vals.push(strgen::any(t, 30));
            }
        }
        o => panic!("kind {o}"),
    }
    let list = matches!(f.card, Card::Plus | Card::Star);
    n.nontrivial = true;
    n.key((&m.name, ti, fi, vals.first()));
    n.evals = vals.len() as u64;
    let mut some = 0;
    for s in &vals {
        let set = if list {
            let len = 1 + t.ix(3);
            let at = t.ix(len);
            Value::Array((0..len).map(|i| if i == at { json!(s) } else { json!(strgen::valid(f, t)) }).collect())
        } else {
            json!(s)
        };
        let len = 1 + t.ix(3);
        let at = t.ix(len);
        let plan = Plan { path: &m.path_to[ti], fill: Fill::Only(fi), set: Some((fi, set)), vec_len: len, vec_at: at };
        let text = *t.pick(&[Text::Valid, Text::Valid, Text::Valid, Text::Mixed]);
        let v = Gen::new(m, t, Cfg::new(*t_pick(&[0, 0, 15], some), 20, text)).planned(&plan);
        compare(m, &v, t)?;
        n.sub((&m.name, ti, fi, s, list, at));
        some += 1;
    }
    n.sample = Some(json!({"module": m.name, "type": m.types[ti].name, "field": f.name, "values": vals.iter().take(5).collect::<Vec<_>>()}));
    Ok(())
}

fn t_pick<T>(xs: &[T], i: usize) -> &T {
    &xs[i % xs.len()]
}

// ------------------------------------------------------------------ C07

pub static C07: Check = Check {
    id: "C07",
    rule: "distinct message with at least one violation validated under all eight settings and several collector histories, plus distinct helper calls and collector operation sequences",
    assumptions: &[
        "with fail_fast, a collector that already holds an error is taken as 'stop': nothing is added",
        "the order in which errors are reported is not part of the property",
    ],
    cases: |tier| {
        let s = schema();
        let mut out = vec![];
        let k = if tier == Tier::Quick { 220 } else { 9000 };
        for m in &s.modules {
            for i in 0..k {
                out.push(json!({"k": "msg", "m": m.name, "i": i}));
            }
            for r in 0..if tier == Tier::Quick { 1 } else { 20 } {
                for (ti, ty) in m.types.iter().enumerate() {
                    let Def::Struct(fs) = &ty.def else { continue };
                    out.push(json!({"k": "bad", "m": m.name, "t": ti, "r": r}));
                    for (fi, f) in fs.iter().enumerate() {
                        if matches!(f.ty, Ty::Ref(_)) {
                            out.push(json!({"k": "part", "m": m.name, "t": ti, "f": fi, "r": r}));
                        }
                        if f.ty == Ty::Str && !f.checks.is_empty() {
                            out.push(json!({"k": "field", "m": m.name, "t": ti, "f": fi, "r": r}));
                        }
                    }
                }
            }
        }
        for i in 0..if tier == Tier::Quick { 12_000 } else { 600_000 } {
            let kind = ["length", "pattern", "required", "collector", "result", "path"][i % 6];
            out.push(json!({"k": kind, "i": i}));
        }
        out
    },
    run: c07,
    health: |a| if a.nontrivial < 10_000 { Err(format!("only {} cases with violations", a.nontrivial)) } else { Ok(()) },
};

fn is_sub(small: &[Err3], big: &[Err3]) -> bool {
    diff(small, big).0.is_empty()
}

fn c07(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    match spec["k"].as_str().unwrap() {
        "msg" | "field" | "bad" | "part" => c07_msg(spec, t, n),
        "collector" => collector_model(t, n),
        "result" => result_model(t, n),
        "path" => path_model(t, n),
        k => helper_model(k, t, n),
    }
}

fn c07_msg(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let m = module(spec);
    let v = if spec["k"] == "field" {
        let (ti, fi) = (spec["t"].as_u64().unwrap() as usize, spec["f"].as_u64().unwrap() as usize);
        let f = &m.fields(ti)[fi];
        let (_, hi) = strgen::limits(f);
        let bad = match t.ix(3) {
            0 => String::new(),
            1 => text_of(if hi < 1000 { hi + 1 } else { 40 }, t),
            _ => "~\u{e9}~".to_string(),
        };
        let set = if matches!(f.card, Card::Plus | Card::Star) { json!([bad, bad]) } else { json!(bad) };
        let len = 1 + t.ix(2);
        let plan = Plan { path: &m.path_to[ti], fill: Fill::Only(fi), set: Some((fi, set)), vec_len: len, vec_at: len - 1 };
        let text = *t.pick(&[Text::Valid, Text::Mixed]);
        Gen::new(m, t, Cfg::new(0, 20, text)).planned(&plan)
    } else if spec["k"] != "msg" {
        // bad content in all fields of a structure, or in one of its parts, where every setting looks
        let ti = spec["t"].as_u64().unwrap() as usize;
        let path = m.free_to[ti].as_ref().unwrap_or(&m.path_to[ti]);
        let fill = if spec["k"] == "bad" { Fill::All } else { Fill::Only(spec["f"].as_u64().unwrap() as usize) };
        let len = 1 + t.ix(2);
        let plan = Plan { path, fill, set: None, vec_len: len, vec_at: len - 1 };
        let opt = *t.pick(&[0, 50, 100]);
        Gen::new(m, t, Cfg::new(opt, 25, Text::Bad)).planned(&plan)
    } else {
        let text = *t.pick(&[Text::Mixed, Text::Any, Text::Mixed]);
        let (opt, budget) = *t.pick(&[(25, 60), (0, 20), (10, 30), (50, 150), (80, 200)]);
        Gen::new(m, t, Cfg::new(opt, budget, text)).root()
    };
    let inp = |x: Value| json!({"module": m.name, "message": v, "info": x});
    let a = match Msg::load(m, &v) {
        Ok(a) => a,
        Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), inp(json!(null))),
    };
    let b = Msg::load(m, &v).expect("loaded before");
    let path = *t.pick(&["", "Document", "x.y", "é"]);
    let (base, crit0) = a.validate("", &cfg(false, true, true));
    let base3 = got(&base);
    n.nontrivial = !base.is_empty();
    n.key((&m.name, v.to_string(), path));
    n.sample = Some(json!({"module": m.name, "message": v, "errors": base3.len()}));
    if crit0 {
        return fail("a constraint violation is marked critical without fail_fast", m.name.clone(), inp(json!(base3)));
    }
    n.evals = 9;
    let len_want = want(m, &v, "", false);
    for i in 0..8u32 {
        let c = cfg(i & 1 != 0, i & 2 != 0, i & 4 != 0);
        let d = format!("fail_fast {} optional {} collect_all {}", c.fail_fast, c.validate_optional_fields, c.collect_all_errors);
        let (e, crit) = a.validate("", &c);
        let e3 = got(&e);
        if c.fail_fast {
            let full = if c.validate_optional_fields { &base3 } else { &len_want };
            if e.len() > 1 {
                return fail("fail_fast reports more than one error", format!("{}: {d}: {e3:?}", m.name), inp(json!(e3)));
            }
            if e.is_empty() != full.is_empty() {
                return fail("fail_fast disagrees on whether the message is valid", format!("{}: {d}: {e3:?} against {full:?}", m.name), inp(json!(e3)));
            }
            if crit == e.is_empty() {
                return fail("fail_fast error is not marked critical", format!("{}: {d}: {e3:?} critical {crit}", m.name), inp(json!(e3)));
            }
            if !is_sub(&e3, full) {
                return fail("fail_fast reports an error the full validation does not", format!("{}: {d}: {e3:?}", m.name), inp(json!(e3)));
            }
        } else {
            if crit {
                return fail("a constraint violation is marked critical without fail_fast", format!("{}: {d}", m.name), inp(json!(e3)));
            }
            if c.validate_optional_fields {
                if e3 != base3 {
                    return fail("collect_all_errors changes the reported errors", format!("{}: {d}: {:?}", m.name, diff(&base3, &e3)), inp(json!(e3)));
                }
            } else {
                if !is_sub(&e3, &base3) {
                    return fail("lenient validation reports an error the default does not", format!("{}: {d}: {e3:?}", m.name), inp(json!(e3)));
                }
                let (miss, extra) = diff(&len_want, &e3);
                if !miss.is_empty() {
                    return fail("lenient validation skips a mandatory part", format!("{}: {d}: missing {miss:?}", m.name), inp(json!(e3)));
                }
                if !extra.is_empty() {
                    return fail("lenient validation checks an optional sub-structure", format!("{}: {d}: unexpected {extra:?}", m.name), inp(json!(e3)));
                }
            }
        }
    }
    // the starting path only prefixes
    let (p, _) = a.validate(path, &cfg(false, true, true));
    let mut pre: Vec<Err3> = base3.iter().map(|(c, f, p)| (*c, f.clone(), join(path, p))).collect();
    pre.sort();
    if got(&p) != pre {
        return fail("starting path does not just prefix the reported paths", format!("{}: {path:?}: {:?}", m.name, diff(&pre, &got(&p))), inp(json!(path)));
    }
    // repeated, unchanged, and independent of the collector's history
    if !a.same(&b) {
        return fail("validation changed the message", m.name.clone(), inp(json!(null)));
    }
    let mut c = ErrorCollector::new();
    let pre_n = t.range(1, 3);
    let pre_crit = t.chance(50);
    for k in 0..pre_n {
        let e = ValidationError::new(7, format!("earlier {k}"));
        if pre_crit && k == 0 { c.add_critical_error(e) } else { c.add_error(e) }
    }
    let ff = t.chance(30);
    a.validate_into("", &cfg(ff, true, !ff), &mut c);
    let crit = c.has_critical_errors();
    let cnt = c.error_count();
    let mut all = mx::flat(c);
    if cnt != all.len() || all.len() < pre_n || all[..pre_n].iter().enumerate().any(|(k, e)| e.0 != 7 || e.3 != format!("earlier {k}")) {
        return fail("validation disturbs errors already collected", format!("{}: {all:?}", m.name), inp(json!(null)));
    }
    let new = all.split_off(pre_n);
    if ff {
        if !new.is_empty() {
            return fail("fail_fast continues after an error was collected", format!("{}: {new:?}", m.name), inp(json!(null)));
        }
    } else if got(&new) != base3 {
        return fail("validation depends on errors already collected", format!("{}: {:?}", m.name, diff(&base3, &got(&new))), inp(json!(null)));
    }
    if crit != pre_crit {
        return fail("validation changes the critical mark", format!("{}: was {pre_crit}, is {crit}", m.name), inp(json!(null)));
    }
    Ok(())
}

fn rand_cfg(t: &mut Tape) -> ParserConfig {
    cfg(t.chance(40), t.chance(50), t.chance(50))
}

fn helper_model(k: &str, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let c = rand_cfg(t);
    let mut col = ErrorCollector::new();
    let pre = t.chance(25);
    if pre {
        col.add_error(ValidationError::new(7, "earlier".into()));
    }
    let field = *t.pick(&["Nm", "BICFI", "é", ""]);
    let path = *t.pick(&["", "Document.Nm", "a.b.c"]);
    let value = match t.ix(3) {
        0 => {
            let k = t.ix(12);
            text_of(k, t)
        }
        1 => strgen::any(t, 12),
        _ => strgen::wild(t, 12),
    };
    let mut codes: Vec<u32> = vec![];
    let mut critical_always = false;
    let ret;
    let desc;
    match k {
        "length" => {
            let lim = |t: &mut Tape| if t.chance(70) { Some(t.ix(14)) } else { None };
            let (min, max) = (lim(t), lim(t));
            let len = value.chars().count();
            if min.is_some_and(|x| len < x) {
                codes.push(1001);
            }
            if max.is_some_and(|x| len > x) {
                codes.push(1002);
            }
            desc = json!({"helper": "validate_length", "value": value, "min": min, "max": max, "config": c, "prefilled": pre});
            ret = helpers::validate_length(&value, field, min, max, path, &c, &mut col);
        }
        "pattern" => {
            let s = schema();
            const OWN: &[&str] = &["A|B", "AB|CD|E", "[A-Z]{2}", "(", "[z-a]", "a{3,1}", "", "^A$", "A*", "\\d+|x", "(?i)ab", "[A-Z]{1,3}|[0-9]", "."];
            let (pat, val) = if t.chance(60) {
                let p = &s.pats[t.ix(s.pats.len())];
                let v = if t.chance(60) {
                    let c = strgen::near_misses(p, t);
                    c[t.ix(c.len())].clone()
                } else {
                    let c = strgen::boundary_matches(p, t);
                    if c.is_empty() { value.clone() } else { c[t.ix(c.len())].clone() }
                };
                (p.src.clone(), v)
            } else {
                let v = if t.chance(60) { t.pick(&["A", "B", "AB", "XA", "BX", "CD", "E", "12", "x", "", " A ", "A\nB", "ABE", "a", "AB\n", "9", "Z9"]).to_string() } else { value.clone() };
                (t.pick(OWN).to_string(), v)
            };
            match regex::Regex::new(&format!(r"\A(?:{pat})\z")) {
                Err(_) => {
                    codes.push(9999);
                    critical_always = true;
                }
                Ok(r) => {
                    if !r.is_match(val.trim()) {
                        codes.push(1005)
                    }
                }
            }
            desc = json!({"helper": "validate_pattern", "value": val, "pattern": pat, "config": c, "prefilled": pre});
            ret = helpers::validate_pattern(&val, field, &pat, path, &c, &mut col);
        }
        _ => {
            let v = if t.chance(50) { Some(value.clone()) } else { None };
            if v.is_none() {
                codes.push(1003);
                critical_always = true;
            }
            desc = json!({"helper": "validate_required", "value": v, "config": c, "prefilled": pre});
            ret = helpers::validate_required(&v, field, path, &c, &mut col);
        }
    }
    n.nontrivial = !codes.is_empty();
    n.key(desc.to_string());
    n.sample = Some(desc.clone());
    let stop = c.fail_fast && pre && k != "required";
    let crit = col.has_critical_errors();
    let cnt = col.error_count();
    let has = col.has_errors();
    let all = mx::flat(col);
    if cnt != all.len() || has == all.is_empty() {
        return fail("collector counts disagree with its errors", format!("{cnt} {has} {all:?}"), desc);
    }
    let new: Vec<u32> = all.iter().skip(pre as usize).map(|e| e.0).collect();
    if stop {
        return if new.is_empty() { Ok(()) } else { fail("fail_fast continues after an error was collected", format!("{new:?}"), desc) };
    }
    let ok = if c.fail_fast && k != "required" {
        codes.is_empty() == new.is_empty() && new.len() <= 1 && new.iter().all(|x| codes.contains(x))
    } else {
        new == codes
    };
    if !ok {
        return fail("helper reports the wrong errors", format!("expected {codes:?}, got {new:?}"), desc);
    }
    if ret != codes.is_empty() {
        return fail("helper returns the wrong verdict", format!("returned {ret}, violations {codes:?}"), desc);
    }
    let want_crit = !codes.is_empty() && (critical_always || c.fail_fast);
    if crit != want_crit {
        return fail("helper marks errors wrongly as critical", format!("critical {crit}, expected {want_crit}"), desc);
    }
    for e in all.iter().skip(pre as usize) {
        if e.1 != field || e.2 != path {
            return fail("helper reports the wrong field or path", format!("{e:?}, expected {field:?} {path:?}"), desc);
        }
    }
    Ok(())
}

fn path_model(t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let a = if t.chance(30) { String::new() } else { strgen::any(t, 8) };
    let b = strgen::any(t, 8);
    n.nontrivial = true;
    n.key((&a, &b));
    let g = helpers::child_path(&a, &b);
    let w = join(&a, &b);
    n.sample = Some(json!([a, b]));
    if g != w { fail("child_path", format!("{a:?} {b:?}: {g:?}, expected {w:?}"), json!([a, b])) } else { Ok(()) }
}

fn rand_error(t: &mut Tape) -> (ValidationError, VErr, bool, bool) {
    let code = *t.pick(&[1001, 1002, 1003, 1005, 9999, 0, u32::MAX]);
    let msg = strgen::any(t, 10);
    let mut e = ValidationError::new(code, msg.clone());
    let (mut f, mut p) = (None, None);
    for _ in 0..t.ix(4) {
        if t.chance(50) {
            let s = strgen::any(t, 6);
            e = e.with_field(s.clone());
            f = Some(s);
        } else {
            let s = strgen::any(t, 6);
            e = e.with_path(s.clone());
            p = Some(s);
        }
    }
    let (hf, hp) = (f.is_some(), p.is_some());
    (e, (code, f.unwrap_or_default(), p.unwrap_or_default(), msg), hf, hp)
}

fn collector_model(t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let mut c = if t.chance(50) { ErrorCollector::new() } else { ErrorCollector::default() };
    let mut model: Vec<(ValidationError, bool)> = vec![];
    let steps = if t.chance(1) { *t.pick(&[60, 101, 130, 257, 1001, 1030, 4100]) } else { t.ix(12) };
    let mut log = vec![];
    for _ in 0..=steps {
        if !model.is_empty() != c.has_errors() || model.len() != c.error_count() || model.iter().any(|x| x.1) != c.has_critical_errors() {
            return fail("collector state differs from the errors added", format!("{log:?}: has {} count {} critical {}", c.has_errors(), c.error_count(), c.has_critical_errors()), json!(log));
        }
        if log.len() == steps {
            break;
        }
        let (e, d, hf, hp) = rand_error(t);
        // the builder keeps exactly what it was given
        if e.code != d.0 || e.message != d.3 || e.field.is_some() != hf || e.path.is_some() != hp || e.field.clone().unwrap_or_default() != d.1 || e.path.clone().unwrap_or_default() != d.2 {
            return fail("ValidationError builder loses data", format!("{e:?}"), json!(d));
        }
        let crit = t.chance(30);
        log.push(json!({"error": d, "critical": crit}));
        model.push((e.clone(), crit));
        match MxError::from(e.clone()) {
            MxError::Validation { code, message, field, path } if code == e.code && message == e.message && field == e.field && path == e.path => {}
            o => return fail("ValidationError to MxError loses data", format!("{e:?} became {o:?}"), json!(d)),
        }
        if !MxError::from(e.clone()).to_string().contains(&e.message) {
            return fail("MxError text lacks the validation message", MxError::from(e).to_string(), json!(d));
        }
        if crit { c.add_critical_error(e) } else { c.add_error(e) }
    }
    n.nontrivial = model.len() > 1;
    n.key(json!(log).to_string());
    n.sample = Some(json!(log));
    let out = c.errors();
    let want: Vec<ValidationError> = model.into_iter().map(|x| x.0).collect();
    if out != want {
        return fail("collector does not return exactly the errors added", format!("{out:?}"), json!(log));
    }
    Ok(())
}

fn result_model(t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let v = t.below(1 << 40);
    let errs: Vec<ValidationError> = (0..t.ix(4)).map(|_| rand_error(t).0).collect();
    let kind = t.ix(3);
    let r = match kind {
        0 => ParseResult::Success(v),
        1 => ParseResult::PartialSuccess(v, errs.clone()),
        _ => ParseResult::Failure(errs.clone()),
    };
    n.nontrivial = kind > 0;
    n.key((kind, v, format!("{errs:?}")));
    let d = json!({"kind": kind, "value": v, "errors": format!("{errs:?}")});
    n.sample = Some(d.clone());
    if r.is_success() != (kind == 0) || r.is_failure() != (kind == 2) {
        return fail("ParseResult misreports its kind", format!("{r:?}"), d);
    }
    if r.value() != if kind < 2 { Some(&v) } else { None } {
        return fail("ParseResult misreports its value", format!("{r:?}"), d);
    }
    let e: Vec<ValidationError> = r.errors().into_iter().cloned().collect();
    if e != if kind == 0 { vec![] } else { errs.clone() } {
        return fail("ParseResult misreports its errors", format!("{e:?}"), d);
    }
    let w = if kind < 2 { Ok(v) } else { Err(errs) };
    let g = r.to_result();
    if g != w {
        return fail("ParseResult converts to the wrong Result", format!("{g:?}"), d);
    }
    // the documented presets
    let c = [ParserConfig::default(), ParserConfig::fail_fast(), ParserConfig::lenient()];
    let s: Vec<(bool, bool)> = c.iter().map(|c| (c.fail_fast, c.validate_optional_fields)).collect();
    if s != [(false, true), (true, true), (false, false)] {
        return fail("configuration presets", format!("{c:?}"), json!(null));
    }
    let x = rand_cfg(t);
    let y: ParserConfig = serde_json::from_str(&serde_json::to_string(&x).unwrap()).unwrap();
    if (x.fail_fast, x.validate_optional_fields, x.collect_all_errors) != (y.fail_fast, y.validate_optional_fields, y.collect_all_errors) {
        return fail("ParserConfig does not survive serialization", format!("{x:?} {y:?}"), json!(null));
    }
    let _ = genmsg::leaves(&d);
    Ok(())
}
