//! C08 malformed or incomplete messages are rejected by every reader.
use crate::api;
use crate::cases::*;
use crate::genmsg::{self, Cfg, Fill, Gen, Plan, Text};
use crate::mx::{self, Msg};
use crate::ops;
use crate::runner::*;
use crate::schema::*;
use crate::strgen;
use crate::tape::Tape;
use crate::xmlref::{self, Node};
use mx_message::MxMessage;
use mx_message::plugin::common::extract_message_type_from_xml;
use mx_message::xml::{from_mx_xml_envelope_str, xml_to_json_via_document};
use serde_json::{Value, json};

pub static C08: Check = Check {
    id: "C08",
    rule: "distinct corrupted input derived from an input that every reader accepted, given to every reader of its form",
    assumptions: &[
        "corruptions are the listed kinds; elements unknown to the schema, absent elements of repeated fields and the 'NaN'/'inf' spellings are not among them",
        "a Document given without its header is a complete input for the Document-only readers",
    ],
    cases: |tier| {
        let s = schema();
        let mut out = vec![];
        let reps = if tier == Tier::Quick { 1 } else { 60 };
        for m in &s.modules {
            for r in 0..reps {
                for (ti, ty) in m.types.iter().enumerate() {
                    let Def::Struct(fs) = &ty.def else { continue };
                    for (fi, f) in fs.iter().enumerate() {
                        let mut push = |k: &str| out.push(json!({"k": k, "m": m.name, "t": ti, "f": fi, "r": r}));
                        if matches!(f.card, Card::One | Card::Plus) {
                            push("missing");
                        }
                        push("misnamed");
                        if matches!(f.card, Card::One | Card::Opt) && !f.name.starts_with(['@', '$']) {
                            push("twice");
                        }
                        match f.ty {
                            Ty::Num => push("number"),
                            Ty::Bool => push("boolean"),
                            Ty::Ref(c) if m.is_enum(c) => push("code"),
                            _ => {}
                        }
                        push("type");
                    }
                }
            }
            let k = if m.reg.is_some() { 60 } else { 15 };
            for i in 0..k * reps {
                out.push(json!({"k": "syntax", "m": m.name, "i": i}));
                out.push(json!({"k": "cut", "m": m.name, "i": i}));
                if m.reg.is_some() {
                    out.push(json!({"k": "frame", "m": m.name, "i": i}));
                }
            }
        }
        out
    },
    run: c08,
    health: |a| {
        for k in ["missing", "misnamed", "twice", "number", "boolean", "code", "type", "syntax", "cut", "frame"] {
            if a.classes.get(k).copied().unwrap_or(0) < 40 {
                return Err(format!("class {k} too small: {:?}", a.classes));
            }
        }
        Ok(())
    },
};

pub static C23: Check = Check {
    id: "C23",
    rule: "distinct message with exactly one error of a kind whose cause can be named, given to every reader of its form and to validate_mx",
    assumptions: &["only that the cause occurs in the error text is asked, not the wording around it"],
    cases: |tier| {
        let s = schema();
        let mut out = vec![];
        let reps = if tier == Tier::Quick { 4 } else { 40 };
        for m in &s.modules {
            for r in 0..reps {
                for (ti, ty) in m.types.iter().enumerate() {
                    let Def::Struct(fs) = &ty.def else { continue };
                    for (fi, f) in fs.iter().enumerate() {
                        let mut push = |k: &str| out.push(json!({"k": k, "m": m.name, "t": ti, "f": fi, "r": r}));
                        if matches!(f.card, Card::One | Card::Plus) {
                            push("missing");
                        }
                        if matches!(f.card, Card::One | Card::Opt) && !f.name.starts_with(['@', '$']) {
                            push("twice");
                        }
                        if matches!(f.ty, Ty::Ref(c) if m.is_enum(c)) {
                            push("code");
                        }
                    }
                }
                if m.reg.is_some() {
                    for i in 0..20 {
                        out.push(json!({"k": "unknown", "m": m.name, "i": i, "r": r}));
                    }
                }
            }
        }
        out
    },
    run: c23,
    health: |a| {
        for k in ["missing", "twice", "code", "unknown"] {
            if a.classes.get(k).copied().unwrap_or(0) < 40 {
                return Err(format!("class {k} too small: {:?}", a.classes));
            }
        }
        Ok(())
    },
};

/// Every verdict is a rejection whose text holds the cause.
fn names(r: Verdicts, kind: &str, cause: &str, what: impl Fn() -> Value) -> Result<(), Fail> {
    for (k, v) in r {
        match v {
            Ok(()) => return fail(format!("{k} accepts a message with: {kind}"), cause.to_string(), what()),
            Err(e) if !e.contains(cause) => return fail(format!("{k} does not name the cause of: {kind}"), format!("{cause:?} is not in: {e}"), what()),
            _ => {}
        }
    }
    Ok(())
}

/// The errors validate_mx lists for an XML or JSON source.
fn listed(source: &Value) -> Verdicts {
    let mut m = api::message(&json!("p"), &json!({"s": source}), &json!({}), &json!({}));
    let r = match api::exec("validate_mx", &mut m, &api::custom("validate_mx", &json!({"source": "s", "target": "v"}))) {
        Err(e) => Err(e),
        Ok(_) if m.data()["v"]["valid"] == json!(true) => Ok(()),
        Ok(_) => Err(m.data()["v"]["errors"].as_array().into_iter().flatten().filter_map(|e| e.as_str()).collect::<Vec<_>>().join("\n")),
    };
    vec![("validate_mx", r)]
}

fn c23(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let k = spec["k"].as_str().unwrap();
    let m = module(spec);
    if k == "unknown" {
        return c23_unknown(m, t, n);
    }
    let (ti, fi) = (spec["t"].as_u64().unwrap() as usize, spec["f"].as_u64().unwrap() as usize);
    let f = &m.fields(ti)[fi];
    let b = base(spec, t, |_, _, _| None);
    n.nontrivial = true;
    n.key((k, &m.name, ti, fi, b.v.to_string()));
    let wrap = |m: &Module, x: &str| match &m.reg {
        Some(r) => vec![
            json!(format!("<Envelope>{}<Document>{x}</Document></Envelope>", mx::fixed_header_xml(&r.full))),
            json!(format!("<Document>{x}</Document>")),
        ],
        None => vec![],
    };
    let bare = f.name.trim_start_matches(['@', '$']).to_string();
    let xml = |x: &str, kind: &str, cause: &str| -> Result<u64, Fail> {
        let what = || json!({"module": m.name, "xml": x});
        names(xml_readers(m, x), kind, cause, what)?;
        for s in wrap(m, x) {
            names(listed(&s), kind, cause, what)?;
        }
        Ok(1)
    };
    let json = |v: &Value, kind: &str, cause: &str| -> Result<u64, Fail> {
        names(json_readers(m, v), kind, cause, || json!({"module": m.name, "message": v}))?;
        Ok(1)
    };
    let mut evals = 0;
    match k {
        "missing" => {
            n.class("missing");
            let mut v = b.v.clone();
            goto(&mut v, &b.at).as_object_mut().unwrap().remove(&f.name);
            evals += json(&v, "a mandatory field missing", &bare)?;
            evals += xml(&frag_of(m, &v), "a mandatory element missing", &bare)?;
            n.sample = Some(json!({"module": m.name, "missing": f.name, "message": v}));
        }
        "twice" => {
            n.class("twice");
            let mut tree = xmlref::tree(m, m.root, &Msg::root_name(m), &b.v);
            let owner = goto_node(&mut tree, &b.at);
            let i = owner.kids.iter().position(|c| c.name == f.name).expect("element");
            let copy = owner.kids[i].clone();
            let at = i + 1 + t.ix(owner.kids.len() - i);
            owner.kids.insert(at, copy);
            let x = xmlref::plain(&tree);
            evals += xml(&x, "a single-valued element twice", &bare)?;
            n.sample = Some(json!({"twice": f.name, "xml": x}));
        }
        "code" => {
            n.class("code");
            let Ty::Ref(c) = f.ty else { unreachable!() };
            let Def::Enum(codes) = &m.types[c].def else { unreachable!() };
            let mut s = String::from("Q7");
            for _ in 0..1 + t.ix(6) {
                s.push(*t.pick(&['X', '0', 'A', 'q', '9', 'é', 'Z']));
            }
            if codes.contains(&s) {
                return Ok(());
            }
            let mut v = b.v.clone();
            let slot = &mut goto(&mut v, &b.at)[&f.name];
            match slot {
                Value::Array(a) if !a.is_empty() => {
                    let i = t.ix(a.len());
                    a[i] = json!(s);
                }
                _ => *slot = json!(s),
            }
            evals += json(&v, "a value outside the enumeration", &s)?;
            evals += xml(&frag_of(m, &v), "a value outside the enumeration", &s)?;
            n.sample = Some(json!({"field": f.name, "code": s}));
        }
        o => panic!("kind {o}"),
    }
    n.evals = evals;
    Ok(())
}

/// Unknown document elements and unsupported types are named.
fn c23_unknown(m: &'static Module, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let r = m.reg.as_ref().unwrap();
    n.class("unknown");
    let v = message(m, t);
    let x = frag_of(m, &v);
    let mut unk = String::from("Unk");
    for _ in 0..1 + t.ix(8) {
        unk.push(*t.pick(&['a', 'B', 'c', 'D', '0', '9', 'V', 'x']));
    }
    n.nontrivial = true;
    n.key((&m.name, &unk, &x));
    let ux = x.replacen(&format!("<{}>", r.element), &format!("<{unk}>"), 1);
    let k = ux.rfind(&format!("</{}>", r.element)).unwrap();
    let ux = format!("{}</{unk}>", &ux[..k]);
    let doc = format!("<Document>{ux}</Document>");
    let env = format!("<Envelope>{}{doc}</Envelope>", mx::fixed_header_xml(&r.full));
    let kind = "an unknown document element";
    let what = || json!({"xml": env, "unknown": unk});
    names(vec![("MxMessage::from_xml", MxMessage::from_xml(&env).map(|_| ()).map_err(|e| e.to_string()))], kind, &unk, what)?;
    let j = mx::envelope(&mx::fixed_header(&r.full), &unk, &v);
    names(vec![("MxMessage::from_json", MxMessage::from_json(&j.to_string()).map(|_| ()).map_err(|e| e.to_string()))], kind, &unk, what)?;
    let ty = format!("{}.{:03}", t.pick(&["pacs", "camt", "xxxx"]), 900 + t.ix(99));
    let good = format!("<Document>{x}</Document>");
    let kind = "an unsupported message type";
    names(vec![("xml_to_json_via_document", xml_to_json_via_document(&good, &ty).map(|_| ()).map_err(|e| e.to_string()))], kind, &ty, what)?;
    names(vec![("from_mx_xml_envelope_str (Document only)", from_mx_xml_envelope_str(&good, &ty).map_err(|e| e.to_string()))], kind, &ty, what)?;
    names(listed(&json!(doc)), "an unknown document element", &unk, what)?;
    names(listed(&json!(env)), "an unknown document element", &unk, what)?;
    n.evals = 6;
    n.sample = Some(json!({"unknown": unk, "type": ty}));
    Ok(())
}

struct Base {
    m: &'static Module,
    v: Value,
    /// names and positions from the root object to the struct the field belongs to
    at: Vec<(String, Option<usize>)>,
}

fn base(spec: &Value, t: &mut Tape, set: impl FnOnce(&Module, &Field, &mut Tape) -> Option<Value>) -> Base {
    let m = module(spec);
    let (ti, fi) = (spec["t"].as_u64().unwrap() as usize, spec["f"].as_u64().unwrap() as usize);
    let len = 1 + t.ix(3);
    let pos = t.ix(len);
    let f = &m.fields(ti)[fi];
    let set = set(m, f, t).map(|v| (fi, v));
    let plan = Plan { path: &m.path_to[ti], fill: Fill::Only(fi), set, vec_len: len, vec_at: pos };
    let v = Gen::new(m, t, Cfg::new(0, 20, Text::Valid)).planned(&plan);
    let at = m.path_to[ti]
        .iter()
        .map(|(a, b)| {
            let f = &m.fields(*a)[*b];
            (f.name.clone(), matches!(f.card, Card::Plus | Card::Star).then_some(pos))
        })
        .collect();
    Base { m, v, at }
}

fn goto<'a>(v: &'a mut Value, at: &[(String, Option<usize>)]) -> &'a mut Value {
    at.iter().fold(v, |v, (k, i)| {
        let x = v.get_mut(k).expect("path");
        match i {
            Some(i) => &mut x[*i],
            None => x,
        }
    })
}
fn goto_node<'a>(n: &'a mut Node, at: &[(String, Option<usize>)]) -> &'a mut Node {
    at.iter().fold(n, |n, (k, i)| n.kids.iter_mut().filter(|c| &c.name == k).nth(i.unwrap_or(0)).expect("path"))
}

type Verdicts = Vec<(&'static str, Result<(), String>)>;

/// Every XML reader that takes this message part.
fn xml_readers(m: &Module, frag: &str) -> Verdicts {
    match &m.reg {
        Some(r) => {
            let doc = format!("<Document>{frag}</Document>");
            let env = format!("<Envelope>{}{doc}</Envelope>", mx::fixed_header_xml(&r.full));
            let mut o = envelope_readers(&env, &r.short);
            o.extend(document_readers(&doc, &r.short));
            o
        }
        None => {
            let mut o: Verdicts = vec![("typed reader", (ops::root(&m.name).from_xml)(frag).map(|_| ()))];
            if m.name == mx::HDR_MODULE {
                o.extend(envelope_readers(&with_header(frag), "pacs.008"));
            }
            o
        }
    }
}
fn envelope_readers(env: &str, short: &str) -> Verdicts {
    vec![
        ("MxMessage::from_xml", MxMessage::from_xml(env).map(|_| ()).map_err(|e| e.to_string())),
        ("from_mx_xml_envelope_str", from_mx_xml_envelope_str(env, short).map_err(|e| e.to_string())),
    ]
}
fn document_readers(doc: &str, short: &str) -> Verdicts {
    vec![
        ("xml_to_json_via_document", xml_to_json_via_document(doc, short).map(|_| ()).map_err(|e| e.to_string())),
        ("from_mx_xml_envelope_str (Document only)", from_mx_xml_envelope_str(doc, short).map_err(|e| e.to_string())),
    ]
}
fn plain_doc() -> (&'static Module, Value) {
    let s = schema();
    let m = &s.modules[s.by_name["pacs_008_001_08"]];
    let mut z = Tape::replay(vec![]);
    (m, Gen::new(m, &mut z, Cfg::new(0, 10, Text::Valid)).root())
}
fn with_header(hdr: &str) -> String {
    let (m, v) = plain_doc();
    let d = xmlref::plain(&xmlref::tree(m, m.root, "FIToFICstmrCdtTrf", &v));
    format!("<Envelope>{hdr}<Document>{d}</Document></Envelope>")
}
fn json_readers(m: &Module, v: &Value) -> Verdicts {
    match &m.reg {
        Some(r) => {
            let j = mx::envelope(&mx::fixed_header(&r.full), &r.element, v).to_string();
            vec![("MxMessage::from_json", MxMessage::from_json(&j).map(|_| ()).map_err(|e| e.to_string()))]
        }
        None => {
            let mut o: Verdicts = vec![("typed JSON reader", (ops::root(&m.name).from_json)(&v.to_string()).map(|_| ()))];
            if m.name == mx::HDR_MODULE {
                let (dm, dv) = plain_doc();
                let j = mx::envelope(v, &dm.reg.as_ref().unwrap().element, &dv).to_string();
                o.push(("MxMessage::from_json", MxMessage::from_json(&j).map(|_| ()).map_err(|e| e.to_string())));
            }
            o
        }
    }
}

fn accept(r: Verdicts, what: impl Fn() -> Value) -> Result<(), Fail> {
    for (k, v) in r {
        if let Err(e) = v {
            return fail(format!("{k} rejects a valid message"), e, what());
        }
    }
    Ok(())
}
fn reject(r: Verdicts, kind: &str, why: &str, what: impl Fn() -> Value) -> Result<(), Fail> {
    for (k, v) in r {
        if v.is_ok() {
            return fail(format!("{k} accepts a message with: {kind}"), why.to_string(), what());
        }
    }
    Ok(())
}

fn frag_of(m: &Module, v: &Value) -> String {
    xmlref::plain(&xmlref::tree(m, m.root, &Msg::root_name(m), v))
}

fn c08(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let k = spec["k"].as_str().unwrap();
    match k {
        // a listed finding: one complete document that should be rejected
        "finding" => {
            let x = spec["xml"].as_str().unwrap();
            return reject(xml_readers(module(spec), x), spec["kind"].as_str().unwrap(), x, || json!({"xml": x}));
        }
        "syntax" => return syntax(spec, t, n),
        "cut" => return cut(spec, t, n),
        "frame" => return frame(spec, t, n),
        _ => {}
    }
    let m = module(spec);
    let (ti, fi) = (spec["t"].as_u64().unwrap() as usize, spec["f"].as_u64().unwrap() as usize);
    let f = &m.fields(ti)[fi];
    let name = format!("{} {}.{}", m.name, m.types[ti].name, f.name);
    let b = base(spec, t, |_, _, _| None);
    accept(xml_readers(m, &frag_of(m, &b.v)), || json!({"module": m.name, "message": b.v}))?;
    accept(json_readers(m, &b.v), || json!({"module": m.name, "message": b.v}))?;
    n.nontrivial = true;
    n.key((k, &m.name, ti, fi, b.v.to_string()));
    let mut evals = 0;
    let set = |x: Value| {
        let mut v = b.v.clone();
        goto(&mut v, &b.at)[&f.name] = x;
        v
    };
    // a whole-field value with one wrong element, other elements right
    let list = matches!(f.card, Card::Plus | Card::Star);
    let wrap = |x: Value, t: &mut Tape| {
        if !list {
            return x;
        }
        let good = b_field(&b, f);
        let mut xs: Vec<Value> = good.as_array().cloned().unwrap_or_default();
        let i = t.ix(xs.len().max(1));
        if xs.is_empty() { xs.push(x) } else { xs[i] = x }
        Value::Array(xs)
    };
    match k {
        "missing" => {
            n.class("missing");
            let mut v = b.v.clone();
            goto(&mut v, &b.at).as_object_mut().unwrap().remove(&f.name);
            let x = frag_of(m, &v);
            n.sample = Some(json!({"field": name, "xml": x}));
            reject(json_readers(m, &v), "a mandatory field missing", &name, || json!({"module": m.name, "message": v}))?;
            let null = set(Value::Null);
            reject(json_readers(m, &null), "a mandatory field null", &name, || json!({"module": m.name, "message": null}))?;
            reject(xml_readers(m, &x), "a mandatory element missing", &format!("{name}: {x}"), || json!({"module": m.name, "xml": x}))?;
            evals = 3;
        }
        "misnamed" => {
            n.class("misnamed");
            evals = misnamed(m, ti, fi, &b, t)?;
            n.sample = Some(json!({"field": name, "message": b.v}));
        }
        "twice" => {
            n.class("twice");
            let mut tree = xmlref::tree(m, m.root, &Msg::root_name(m), &b.v);
            let owner = goto_node(&mut tree, &b.at);
            let i = owner.kids.iter().position(|c| c.name == f.name).expect("element");
            let copy = owner.kids[i].clone();
            // anywhere after the first occurrence, or right before it
            let at = if t.chance(50) { i } else { i + 1 + t.ix(owner.kids.len() - i) };
            owner.kids.insert(at, copy);
            let x = xmlref::plain(&tree);
            n.sample = Some(json!({"field": name, "xml": x}));
            reject(xml_readers(m, &x), "a single-valued element twice", &format!("{name}: {x}"), || json!({"module": m.name, "xml": x}))?;
            // the same in JSON text
            let mark = "\u{1}MARK\u{1}";
            let mut v = b.v.clone();
            let old = goto(&mut v, &b.at).as_object_mut().unwrap().remove(&f.name).unwrap();
            goto(&mut v, &b.at)[mark] = Value::Null;
            let key = serde_json::to_string(mark).unwrap();
            let one = format!("{}:{}", serde_json::to_string(&f.name).unwrap(), old);
            let j = |v: &Value| v.to_string().replace(&format!("{key}:null"), &format!("{one},{one}"));
            let text = match &m.reg {
                Some(r) => j(&mx::envelope(&mx::fixed_header(&r.full), &r.element, &v)),
                None => j(&v),
            };
            let ok = match &m.reg {
                Some(_) => MxMessage::from_json(&text).is_ok(),
                None => (ops::root(&m.name).from_json)(&text).is_ok(),
            };
            if ok {
                return fail("JSON reader accepts a message with: a single-valued member twice", format!("{name}: {text}"), json!(text));
            }
            evals = 2;
        }
        "code" => {
            n.class("code");
            let Ty::Ref(c) = f.ty else { unreachable!() };
            let Def::Enum(codes) = &m.types[c].def else { unreachable!() };
            let mut bad: Vec<String> = vec!["ZZZZ".into(), String::new(), strgen::wild(t, 6), codes.concat()];
            for _ in 0..3 {
                let s = t.pick(codes).clone();
                bad.push(s.to_lowercase());
                bad.push(s.chars().skip(1).collect());
                bad.push(s.chars().take(s.chars().count() - 1).collect());
                bad.push(format!("{s}1"));
                bad.push(format!("{s} {s}"));
                let mut v: Vec<char> = s.chars().collect();
                let i = t.ix(v.len());
                v[i] = *t.pick(&['X', '0', 'A', 'Q', '9', 'é']);
                bad.push(v.into_iter().collect());
            }
            // codes of other enumerations of the module
            let others: Vec<&String> = m.types.iter().filter_map(|t| if let Def::Enum(c) = &t.def { Some(c) } else { None }).flatten().collect();
            for _ in 0..4 {
                bad.push((*t.pick(&others)).clone());
            }
            bad.retain(|s| !codes.contains(s));
            for s in &bad {
                let v = set(wrap(json!(s), t));
                reject(json_readers(m, &v), "a value outside the enumeration", &format!("{name}: {s:?}"), || json!({"module": m.name, "message": v}))?;
                let x = frag_of(m, &v);
                reject(xml_readers(m, &x), "a value outside the enumeration", &format!("{name}: {s:?}"), || json!({"module": m.name, "xml": x}))?;
                n.sub((&name, s));
            }
            for p in [format!(" {}", codes[0]), format!("{}\n", codes[0])] {
                let v = set(wrap(json!(p), t));
                reject(json_readers(m, &v), "a value outside the enumeration", &format!("{name}: {p:?}"), || json!({"module": m.name, "message": v}))?;
            }
            evals = bad.len() as u64 * 2;
            n.sample = Some(json!({"field": name, "codes": bad}));
        }
        "number" | "boolean" => {
            n.class(if k == "number" { "number" } else { "boolean" });
            let mut bad: Vec<String> = if k == "number" {
                ["abc", "", "1,5", "1.2.3", "--1", "0x10", "1 2", "١٢", "1e", "+-1", "12EUR", "€5", "1_000", "1.0.", ".", "-", "1/2", "true"].map(String::from).to_vec()
            } else {
                ["maybe", "", "2", "-1", "tru", "truee", "falsee", "t rue", "10", "01", "null", "0.0", "on", "off"].map(String::from).to_vec()
            };
            for _ in 0..4 {
                let s = strgen::wild(t, 8);
                let legal = s.parse::<f64>().is_ok() || s.trim().parse::<f64>().is_ok() || ["true", "false", "1", "0", "t", "f", "y", "n", "yes", "no"].contains(&s.to_lowercase().as_str());
                if !legal {
                    bad.push(s);
                }
            }
            for s in &bad {
                let v = set(wrap(json!(s), t));
                let x = frag_of(m, &v);
                let kind = if k == "number" { "a non-numeric amount" } else { "a non-boolean indicator" };
                reject(xml_readers(m, &x), kind, &format!("{name}: {s:?}"), || json!({"module": m.name, "xml": x}))?;
                reject(json_readers(m, &v), kind, &format!("{name}: {s:?}"), || json!({"module": m.name, "message": v}))?;
                n.sub((&name, s));
            }
            evals = bad.len() as u64 * 2;
            n.sample = Some(json!({"field": name, "values": bad}));
        }
        "type" => {
            n.class("type");
            let enm = matches!(f.ty, Ty::Ref(c) if m.is_enum(c));
            let mut bad = vec![json!({"x": 1})];
            let is_struct = matches!(f.ty, Ty::Ref(_)) && !enm;
            if is_struct {
                // an object of any shape may be legal when every member is optional
                bad.clear();
            } else {
                bad.push(json!([]));
                bad.push(json!(["x"]));
            }
            if f.ty != Ty::Num {
                bad.extend([json!(7), json!(1.5)]);
            }
            if f.ty != Ty::Bool {
                bad.push(json!(true));
            }
            if !(f.ty == Ty::Str || enm) {
                bad.push(json!("text"));
            }
            if f.ty == Ty::Num || f.ty == Ty::Bool {
                bad.push(json!(if f.ty == Ty::Num { "12.5" } else { "true" }));
            }
            for x in &bad {
                let v = set(wrap(x.clone(), t));
                reject(json_readers(m, &v), "a member of the wrong JSON type", &format!("{name}: {x}"), || json!({"module": m.name, "message": v}))?;
                evals += 1;
            }
            if list {
                // a list given as a single value, or holding null
                for x in [json!("x"), json!(3), json!({"a": 1}), json!([null])] {
                    let v = set(x.clone());
                    reject(json_readers(m, &v), "a member of the wrong JSON type", &format!("{name}: {x}"), || json!({"module": m.name, "message": v}))?;
                    evals += 1;
                }
            }
            n.sample = Some(json!({"field": name, "values": bad}));
        }
        o => panic!("kind {o}"),
    }
    n.evals = evals;
    Ok(())
}

/// Names that resemble a member's without being it.
fn near(name: &str) -> Vec<String> {
    let bare = name.trim_start_matches(['@', '$']);
    let mut snake = String::new();
    let mut lower_before = false;
    for c in bare.chars() {
        if c.is_ascii_uppercase() && lower_before {
            snake.push('_');
        }
        lower_before = c.is_ascii_lowercase() || c.is_ascii_digit();
        snake.push(c.to_ascii_lowercase());
    }
    let first_low = format!("{}{}", bare[..1].to_lowercase(), &bare[1..]);
    let mut o = vec![
        bare.to_string(),
        bare.to_lowercase(),
        bare.to_uppercase(),
        first_low,
        snake.clone(),
        snake.replace('_', "-"),
        format!("{bare}1"),
        format!("{bare}s"),
        format!("{bare}_"),
        bare[..bare.len() - 1].to_string(),
    ];
    o.retain(|x| !x.is_empty());
    o
}

/// A member under another name is not that member: a mandatory one is missing, an optional one absent.
fn misnamed(m: &Module, ti: usize, fi: usize, b: &Base, t: &mut Tape) -> Result<u64, Fail> {
    let fs = m.fields(ti);
    let f = &fs[fi];
    let name = format!("{} {}.{}", m.name, m.types[ti].name, f.name);
    let must = matches!(f.card, Card::One | Card::Plus);
    let bare = f.name.trim_start_matches(['@', '$']).to_string();
    let attr = f.name.starts_with('@');
    let text = f.name.starts_with('$');
    let mut evals = 0;
    let taken = |x: &str| fs.iter().any(|g| g.name == x);
    let mut without = b.v.clone();
    let old = goto(&mut without, &b.at).as_object_mut().unwrap().remove(&f.name).expect("field set");

    // JSON
    let mut keys = near(&f.name);
    for k in near(&f.name) {
        keys.push(format!("@{k}"));
        keys.push(format!("${k}"));
    }
    if text {
        keys.extend(["value", "text", "#text", "_", "amount", "$"].map(String::from));
    }
    keys.sort();
    keys.dedup();
    keys.retain(|k| *k != f.name && !taken(k));
    let seen = |v: &Value| -> Result<Value, String> { Msg::load(m, v)?.value(m) };
    let plain = if must { Err(String::new()) } else { seen(&without) };
    for k in &keys {
        let mut v = without.clone();
        goto(&mut v, &b.at).as_object_mut().unwrap().insert(k.clone(), old.clone());
        evals += 1;
        if must {
            reject(json_readers(m, &v), "a mandatory field under another name", &format!("{name} as {k}"), || json!({"module": m.name, "message": v}))?;
        } else if let (Ok(a), Ok(w)) = (seen(&v), &plain) {
            if a != *w {
                return fail("JSON reader takes a member for one with another name", format!("{name} as {k}"), json!({"module": m.name, "message": v}));
            }
        }
    }

    // XML
    let tree = xmlref::tree(m, m.root, &Msg::root_name(m), &b.v);
    let mut bare_tree = tree.clone();
    {
        let o = goto_node(&mut bare_tree, &b.at);
        if attr {
            o.attrs.retain(|a| a.0 != bare);
        } else if text {
            o.text = None;
        } else {
            o.kids.retain(|c| c.name != f.name);
        }
    }
    let leaf = match f.ty {
        Ty::Ref(c) => m.is_enum(c),
        _ => true,
    };
    let val = match &old {
        Value::Array(a) => a.first().map(xmlref::leaf_text).unwrap_or_default(),
        v if leaf => xmlref::leaf_text(v),
        _ => String::new(),
    };
    let mut forms: Vec<(String, Node)> = vec![];
    // other element names
    for k in near(&f.name) {
        if (!attr && !text && k == bare) || taken(&k) {
            continue;
        }
        let mut y = bare_tree.clone();
        if attr || text {
            let o = goto_node(&mut y, &b.at);
            // an element in text content is a different error
            if attr && o.text.is_some() && !must {
                continue;
            }
            let at = t.ix(o.kids.len() + 1);
            o.kids.insert(at, Node { name: k.clone(), attrs: vec![], text: Some(val.clone()), kids: vec![], leaf: None });
        } else {
            y = tree.clone();
            for c in goto_node(&mut y, &b.at).kids.iter_mut() {
                if c.name == f.name {
                    c.name = k.clone();
                }
            }
        }
        forms.push((format!("element {k}"), y));
    }
    // other attribute names, or an attribute in place of an element
    if leaf && !text {
        for k in near(&f.name) {
            if (attr && k == bare) || taken(&format!("@{k}")) {
                continue;
            }
            let mut y = bare_tree.clone();
            goto_node(&mut y, &b.at).attrs.push((k.clone(), val.clone()));
            forms.push((format!("attribute {k}"), y));
        }
    }
    let read = |n: &Node| -> Result<Value, String> { Msg::parse_fragment(m, &xmlref::plain(n))?.value(m) };
    let plain = if must { Err(String::new()) } else { read(&bare_tree) };
    for (k, y) in &forms {
        let x = xmlref::plain(y);
        evals += 1;
        if must {
            reject(xml_readers(m, &x), "a mandatory element under another name", &format!("{name} as {k}: {x}"), || json!({"module": m.name, "xml": x}))?;
        } else if let (Ok(a), Ok(w)) = (read(y), &plain) {
            if a != *w {
                return fail("XML reader takes an element for one with another name", format!("{name} as {k}: {x}"), json!({"module": m.name, "xml": x}));
            }
        }
    }
    Ok(evals)
}

fn b_field(b: &Base, f: &Field) -> Value {
    let mut v = b.v.clone();
    goto(&mut v, &b.at).get(&f.name).cloned().unwrap_or(Value::Null)
}

/// Start offset, end offset, kind (0 start, 1 end) of every tag of an XML text the reference wrote plainly.
fn tags(x: &str) -> Vec<(usize, usize, bool)> {
    let mut o = vec![];
    let mut i = 0;
    while let Some(a) = x[i..].find('<').map(|k| k + i) {
        let e = x[a..].find('>').map(|k| k + a + 1).expect("tag end");
        o.push((a, e, x[a..].starts_with("</")));
        i = e;
    }
    o
}

fn message(m: &'static Module, t: &mut Tape) -> Value {
    let (opt, budget) = *t.pick(&[(0, 10), (20, 40), (40, 80)]);
    let text = *t.pick(&[Text::Valid, Text::Mixed]);
    Gen::new(m, t, Cfg::new(opt, budget, text)).root()
}

/// Well-formedness errors anywhere in the message part.
fn syntax(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let m = module(spec);
    n.class("syntax");
    let v = message(m, t);
    let x = frag_of(m, &v);
    accept(xml_readers(m, &x), || json!({"module": m.name, "xml": x}))?;
    n.nontrivial = genmsg::leaves(&v) > 0;
    n.key((&m.name, &x));
    n.evals = 12;
    for _ in 0..12 {
        let tg = tags(&x);
        let (a, e, end) = tg[t.ix(tg.len())];
        if m.reg.is_none() && e == x.len() {
            // the typed readers stop at the end of the root element
            continue;
        }
        let tag = &x[a..e];
        let mut y = x.clone();
        let kind = match t.ix(9) {
            0 => {
                y.replace_range(a..e, "");
                "a tag removed"
            }
            1 => {
                let nm = tag.trim_matches(['<', '>', '/']);
                let nm = nm.split(' ').next().unwrap();
                y.insert_str(e, &format!("</{nm}>"));
                "a stray end tag"
            }
            2 if end => {
                y.replace_range(a..e, &format!("{}X>", &tag[..tag.len() - 1]));
                "mismatched tags"
            }
            3 if end => {
                let swap = tag.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>();
                if swap == tag {
                    continue;
                }
                y.replace_range(a..e, &swap);
                "mismatched tags"
            }
            4 => {
                y.replace_range(e - 1..e, "");
                "a tag without its closing bracket"
            }
            5 => {
                // an end tag without its slash opens an element that is never closed
                if !end {
                    continue;
                }
                y.replace_range(a..a + 2, "<");
                "an end tag turned into a start tag"
            }
            6 => {
                y.insert_str(e, t.pick(&["<!-- never closed", "<![CDATA[ never closed", "<?pi never closed", "<unclosed>", "<"]));
                "markup that is never closed"
            }
            7 | 8 => {
                // bad references, in text that is read
                let texts: Vec<usize> = (0..tg.len() - 1).filter(|i| !tg[*i].2 && tg[i + 1].2).collect();
                if texts.is_empty() {
                    continue;
                }
                let i = texts[t.ix(texts.len())];
                y.insert_str(tg[i].1, t.pick(&["&foo;", "& ", "&#xZZ;", "&#x110000;", "a & b", "&amp ", "&#;", "&Amp;", "&#xD800;"]));
                "a bad reference"
            }
            _ => continue,
        };
        if y == x {
            continue;
        }
        n.sub(&y);
        n.sample = Some(json!({"kind": kind, "xml": y}));
        reject(xml_readers(m, &y), kind, &format!("{}: {y}", m.name), || json!({"module": m.name, "xml": y}))?;
    }
    Ok(())
}

/// Truncation at any character of XML or JSON.
fn cut(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let m = module(spec);
    n.class("cut");
    let v = message(m, t);
    let x = frag_of(m, &v);
    n.nontrivial = true;
    n.key((&m.name, &x));
    let mut texts: Vec<(String, fn(&str, &str, &Module) -> Verdicts)> = vec![];
    let short = m.reg.as_ref().map(|r| r.short.clone()).unwrap_or_default();
    match &m.reg {
        Some(r) => {
            let decl = *t.pick(&["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"]);
            let doc = format!("<Document>{x}</Document>");
            texts.push((format!("{decl}<Envelope>{}{doc}</Envelope>", mx::fixed_header_xml(&r.full)), |x, s, _| envelope_readers(x, s)));
            texts.push((format!("{decl}{doc}"), |x, s, _| document_readers(x, s)));
            let j = mx::envelope(&mx::fixed_header(&r.full), &r.element, &v);
            let j = if t.chance(50) { j.to_string() } else { serde_json::to_string_pretty(&j).unwrap() };
            texts.push((j, |x, _, _| vec![("MxMessage::from_json", MxMessage::from_json(x).map(|_| ()).map_err(|e| e.to_string()))]));
        }
        None => {
            texts.push((x.clone(), |x, _, m| vec![("typed reader", (ops::root(&m.name).from_xml)(x).map(|_| ()))]));
            texts.push((v.to_string(), |x, _, m| vec![("typed JSON reader", (ops::root(&m.name).from_json)(x).map(|_| ()))]));
        }
    }
    for (full, f) in &texts {
        accept(f(full, &short, m), || json!({"module": m.name, "text": full}))?;
        let ends: Vec<usize> = full.char_indices().map(|(i, _)| i).collect();
        let mut cuts: Vec<usize> = (0..8).map(|_| ends[t.ix(ends.len())]).collect();
        // the last characters, and just before and after tags
        for _ in 0..6 {
            cuts.push(ends[ends.len() - 1 - t.ix(ends.len().min(24))]);
        }
        if full.starts_with('<') {
            let tg: Vec<usize> = full.match_indices(['<', '>']).map(|(i, c)| if c == ">" { i + 1 } else { i }).filter(|i| *i < full.len()).collect();
            for _ in 0..6 {
                cuts.push(*t.pick(&tg));
            }
        }
        for c in cuts {
            n.evals += 1;
            n.sub((&m.name, full, c));
            let y = &full[..c];
            reject(f(y, &short, m), "its end cut off", &format!("{} cut at {c} of {}: …{}", m.name, full.len(), tail(y)), || json!({"module": m.name, "text": y}))?;
        }
    }
    n.sample = Some(json!({"module": m.name, "xml": x}));
    Ok(())
}

fn tail(s: &str) -> String {
    let k = s.chars().count().saturating_sub(60);
    s.chars().skip(k).collect()
}

/// Header, document and message element: missing, empty, doubled, unknown.
fn frame(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let m = module(spec);
    let r = m.reg.as_ref().unwrap();
    let s = schema();
    n.class("frame");
    let v = message(m, t);
    let x = frag_of(m, &v);
    let h = mx::fixed_header_xml(&r.full);
    let o = t.pick(&s.registry);
    let om = &s.modules[s.by_name[&o.module]];
    let ov = message(om, t);
    let ox = frag_of(om, &ov);
    n.nontrivial = true;
    n.key((&m.name, &x));
    let unk = match t.ix(5) {
        0 => format!("{}X", r.element),
        1 => r.element.to_lowercase(),
        2 => r.element[..r.element.len() - 1].to_string(),
        3 => "AppHdr2".to_string(),
        _ => t.pick(&["Unknown", "GrpHdr", "FIToFICstmrCdtTrfV08", "X"]).to_string(),
    };
    let unk = if s.registry.iter().any(|k| k.element == unk || k.rust == unk) { "Unknown".to_string() } else { unk };
    let ux = x.replacen(&format!("<{}>", r.element), &format!("<{unk}>"), 1);
    let k = ux.rfind(&format!("</{}>", r.element)).unwrap();
    let ux = format!("{}</{unk}>", &ux[..k]);
    let env = |h: &str, d: &str| format!("<Envelope>{h}{d}</Envelope>");
    let d = format!("<Document>{x}</Document>");
    accept(envelope_readers(&env(&h, &d), &r.short), || json!({"xml": env(&h, &d)}))?;
    let e = &r.element;
    let cases: Vec<(&str, String)> = vec![
        ("no document", env(&h, "")),
        ("no header", env("", &d)),
        ("an empty header", env("<AppHdr></AppHdr>", &d)),
        ("an empty header", env("<AppHdr/>", &d)),
        ("an empty document", env(&h, "<Document></Document>")),
        ("an empty document", env(&h, "<Document/>")),
        ("an empty document", env(&h, "<Document>  \n </Document>")),
        ("text instead of a message", env(&h, "<Document>hello</Document>")),
        ("an unknown document element", env(&h, &format!("<Document>{ux}</Document>"))),
        ("an empty message", env(&h, &format!("<Document><{e}/></Document>"))),
        ("an empty message", env(&h, &format!("<Document><{e}></{e}></Document>"))),
        ("two messages in a document", env(&h, &format!("<Document>{x}{ox}</Document>"))),
        ("two messages in a document", env(&h, &format!("<Document>{ox}<!-- x -->{x}</Document>"))),
        ("two documents", env(&h, &format!("{d}<Document>{ox}</Document>"))),
        ("two headers", env(&format!("{h}{h}"), &d)),
        ("two headers", env(&h, &format!("{d}{h}"))),
        ("the message outside its document", env(&h, &x)),
        ("only a header", h.clone()),
        ("only an envelope", "<Envelope></Envelope>".into()),
        ("only an envelope", "<Envelope/>".into()),
        ("the document misspelled", env(&h, &format!("<document>{x}</document>"))),
        ("the header misspelled", env(&h.replace("AppHdr", "apphdr"), &d)),
        ("nothing", String::new()),
        ("nothing", "   \n".into()),
        ("text", "pacs.008".into()),
    ];
    for (why, y) in &cases {
        n.evals += 1;
        n.sub(y);
        reject(envelope_readers(y, &r.short), why, y, || json!({"xml": y}))?;
    }
    let docs: Vec<(&str, String)> = vec![
        ("an empty document", "<Document></Document>".into()),
        ("an empty document", "<Document/>".into()),
        ("an unknown document element", format!("<Document>{ux}</Document>")),
        ("an unknown document element", ux.clone()),
        ("an empty message", format!("<Document><{e}/></Document>")),
        ("two messages in a document", format!("<Document>{x}{ox}</Document>")),
        ("two messages in a document", format!("<Document>{x}{x}</Document>")),
        ("two documents", format!("{d}{d}")),
        ("text instead of a message", "<Document>hello</Document>".into()),
        ("nothing", String::new()),
        ("text", "hello".into()),
    ];
    for (why, y) in &docs {
        n.evals += 1;
        n.sub(y);
        reject(document_readers(y, &r.short), why, y, || json!({"xml": y, "type": r.short}))?;
    }
    for bad in ["pacs.999", "", "camt.027", "unknown", "pacs", &r.element] {
        reject(
            vec![("xml_to_json_via_document", xml_to_json_via_document(&d, bad).map(|_| ()).map_err(|e| e.to_string()))],
            "an unsupported message type",
            bad,
            || json!({"xml": d, "type": bad}),
        )?;
        reject(
            vec![("from_mx_xml_envelope_str (Document only)", from_mx_xml_envelope_str(&d, bad).map_err(|e| e.to_string()))],
            "an unsupported message type",
            bad,
            || json!({"xml": d, "type": bad}),
        )?;
    }
    for y in [format!("<Document>{ux}</Document>"), env(&h, "<Document></Document>"), env(&h, ""), String::new(), "<Document/>".into()] {
        if let Ok(k) = extract_message_type_from_xml(&y) {
            return fail("a type is reported for an unknown or absent document element", format!("{k}: {y}"), json!(y));
        }
    }
    // JSON
    let hv = mx::fixed_header(&r.full);
    let ok = mx::envelope(&hv, e, &v);
    let mut js: Vec<(&str, Value)> = vec![
        ("no header", json!({"Document": {e.as_str(): v}})),
        ("no document", json!({"AppHdr": hv})),
        ("a null header", json!({"AppHdr": null, "Document": {e.as_str(): v}})),
        ("a null document", json!({"AppHdr": hv, "Document": null})),
        ("an empty header", json!({"AppHdr": {}, "Document": {e.as_str(): v}})),
        ("an empty document", json!({"AppHdr": hv, "Document": {}})),
        ("an empty message", json!({"AppHdr": hv, "Document": {e.as_str(): {}}})),
        ("a null message", json!({"AppHdr": hv, "Document": {e.as_str(): null}})),
        ("an unknown document element", json!({"AppHdr": hv, "Document": {unk.as_str(): v}})),
        ("a document that is a name only", json!({"AppHdr": hv, "Document": e})),
        ("a document that is a list", json!({"AppHdr": hv, "Document": [{e.as_str(): v}]})),
        ("a list", json!([ok])),
        ("nothing", json!({})),
        ("null", json!(null)),
        ("text", json!("pacs.008")),
        ("an extra wrapper", json!({"Envelope": ok})),
        ("a header in text form", json!({"AppHdr": h, "Document": {e.as_str(): v}})),
        ("a document in text form", json!({"AppHdr": hv, "Document": d})),
        ("its namespace not text", {
            let mut k = ok.clone();
            k["@xmlns"] = json!(5);
            k
        }),
    ];
    if o.element != *e {
        js.push(("two messages in a document", json!({"AppHdr": hv, "Document": {e.as_str(): v, o.element.as_str(): ov}})));
    }
    js.push(("an unknown second document element", json!({"AppHdr": hv, "Document": {e.as_str(): v, unk.as_str(): v}})));
    accept(vec![("MxMessage::from_json", MxMessage::from_json(&ok.to_string()).map(|_| ()).map_err(|e| e.to_string()))], || ok.clone())?;
    for (why, j) in &js {
        n.evals += 1;
        reject(vec![("MxMessage::from_json", MxMessage::from_json(&j.to_string()).map(|_| ()).map_err(|e| e.to_string()))], why, &j.to_string(), || j.clone())?;
    }
    for tail in ["}", "{}", "x", ",", "null", "]"] {
        let y = format!("{ok}{tail}");
        reject(vec![("MxMessage::from_json", MxMessage::from_json(&y).map(|_| ()).map_err(|e| e.to_string()))], "text after its end", &y, || json!(y))?;
    }
    n.sample = Some(json!({"type": r.short, "unknown": unk, "xml": cases[8].1}));
    Ok(())
}
