//! C10 conversion plugins, C11 frame conditions of plugins, C12 validate_mx, C13 generate_mx.
use super::codec::{style, styled_envelope};
use super::robust::{any_json, mutate};
use crate::api::{self, PLUGINS};
use crate::cases;
use crate::genmsg::{Cfg, Gen, Text, same};
use crate::mx;
use crate::runner::*;
use crate::schema::*;
use crate::strgen;
use crate::tape::Tape;
use crate::xmlref::{self, Node};
use dataflow_rs::engine::message::Message;
use dataflow_rs::{Engine, Workflow};
use mx_message::MxMessage;
use mx_message::xml::xml_to_json_via_document;
use serde_json::{Map, Value, json};
use std::collections::HashMap;

struct Made {
    m: &'static Module,
    r: &'static RegEntry,
    /// the full message
    j: Value,
    /// its header and document as trees
    h: Node,
    d: Node,
}

impl Made {
    fn doc(&self) -> &Value {
        &self.j["Document"][&self.r.element]
    }
}

fn make(t: &mut Tape, spec: &Value, text: Text) -> Made {
    let m = match spec["m"].as_str() {
        Some(_) => cases::module(spec),
        None => {
            let s = schema();
            let r = t.pick(&s.registry);
            &s.modules[s.by_name[r.module.as_str()]]
        }
    };
    let r = m.reg.as_ref().unwrap();
    let (opt, budget) = *t.pick(&[(25, 40), (0, 15), (10, 25), (50, 100)]);
    let v = Gen::new(m, t, Cfg::new(opt, budget, text)).root();
    let h = cases::header_value(t, text, &r.full);
    let j = mx::envelope(&h, &r.element, &v);
    let hm = mx::hdr_module();
    let h = xmlref::tree(hm, hm.root, "AppHdr", &j["AppHdr"]);
    let d = xmlref::tree(m, m.root, &r.element, &j["Document"][&r.element]);
    Made { m, r, j, h, d }
}

fn envelope_xml(k: &Made, t: &mut Tape) -> String {
    if t.chance(60) {
        let st = style(t);
        return styled_envelope(&k.h, &k.d, &st, t);
    }
    format!("<Envelope>{}<Document>{}</Document></Envelope>", xmlref::plain(&k.h), xmlref::plain(&k.d))
}

fn document_xml(k: &Made, t: &mut Tape) -> String {
    let mut d = String::new();
    if t.chance(60) {
        let st = style(t);
        xmlref::write(&k.d, &st, t, 1, &mut d);
    } else {
        d = xmlref::plain(&k.d);
    }
    let pre = *t.pick(&["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!-- x -->", "\u{feff}"]);
    let ns = *t.pick(&["", " xmlns=\"urn:iso:std:iso:20022:tech:xsd:x\"", " xmlns:xsi='u'"]);
    let odd = if t.chance(10) { xmlref::odd_attr(t) } else { String::new() };
    format!("{pre}<Document{ns}{odd}>{d}</Document>")
}

fn name(t: &mut Tape) -> String {
    match t.ix(6) {
        0 => strgen::any(t, 8),
        1 => t.pick(&["payload", "data", "validation", "a.b", "mx_message", "", "0", "metadata"]).to_string(),
        _ => t.pick(&["xml", "json", "out", "mx", "sample_json"]).to_string(),
    }
}

/// Puts the content where a plugin can find it; returns (payload, data, source).
fn place(t: &mut Tape, content: &Value, xml: bool) -> (Value, Value, String) {
    let mut data = Map::new();
    for _ in 0..t.ix(4) {
        data.insert(name(t), any_json(t, 2));
    }
    let mut payload = if t.chance(50) { any_json(t, 1) } else { json!("<other/>") };
    let source = match t.ix(if xml { 4 } else { 2 }) {
        0 | 1 => {
            let mut s = name(t);
            if s == "payload" && xml {
                s = "xml".into();
            }
            data.insert(s.clone(), content.clone());
            s
        }
        2 => {
            payload = content.clone();
            if t.chance(30) {
                data.insert("payload".into(), json!("<Document><Other/></Document>"));
            }
            "payload".into()
        }
        _ => {
            let mut o = Map::new();
            o.insert("mx_message".into(), content.clone());
            if t.chance(50) {
                o.insert("message_type".into(), json!("pacs.999"));
                o.insert("json_data".into(), any_json(t, 1));
            }
            let mut s = name(t);
            if s == "payload" {
                s = "mx".into();
            }
            data.insert(s.clone(), Value::Object(o));
            s
        }
    };
    (payload, Value::Object(data), source)
}

fn input(source: &str, target: &str) -> Value {
    json!({"source": source, "target": target})
}

/// A workflow of the given (plugin, input) tasks run by the engine.
fn run_engine(tasks: &[(&str, Value)], m: &mut Message) -> Result<(), String> {
    let tasks: Vec<Value> = tasks
        .iter()
        .enumerate()
        .map(|(i, (p, i2))| json!({"id": format!("t{i}"), "name": format!("task {i}"), "description": "x", "function": {"name": p, "input": i2}}))
        .collect();
    let w = json!({"id": "w", "name": "w", "description": "x", "priority": 0, "tasks": tasks});
    let w = Workflow::from_json(&w.to_string()).map_err(|e| e.to_string())?;
    let f: HashMap<String, _> = mx_message::plugin::register_mx_functions().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    let e = Engine::new(vec![w], Some(f));
    api::block_on(e.process_message(m)).map_err(|e| e.to_string())?;
    if m.has_errors() {
        return Err(format!("{:?}", m.errors));
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

fn reg_cases(kinds: &[(&str, usize)], tier: Tier, mult: usize) -> Vec<Value> {
    let k = if tier == Tier::Quick { 1 } else { mult };
    let mut out = vec![];
    for r in &schema().registry {
        for (kind, n) in kinds {
            for i in 0..n * k {
                out.push(json!({"k": kind, "m": r.module, "i": i}));
            }
        }
    }
    out
}

pub static C10: Check = Check {
    id: "C10",
    rule: "distinct plugin call (configuration, context and content) whose output was compared with the library's and with the generated message",
    assumptions: &[
        "documents contain no list that is present but empty; amounts have at most 15 significant digits",
    ],
    cases: |t| reg_cases(&[("publish", 300), ("parse", 350), ("parsedoc", 300), ("round", 200), ("engine", 100), ("invalid", 350)], t, 20),
    run: c10,
    health: no_health,
};

fn c10(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let kind = spec["k"].as_str().unwrap();
    n.nontrivial = true;
    let text = *t.pick(&[Text::Mixed, Text::Valid, Text::Wild]);
    let k = make(t, spec, text);
    let target = name(t);
    let type_name = &k.r.short;
    match kind {
        "publish" => {
            let mut j = k.j.clone();
            if t.chance(30) {
                j["@xmlns"] = json!(strgen::wild(t, 10).replace(['\n', '\t'], " "));
            }
            let (payload, data, source) = place(t, &j, false);
            let inp = input(&source, &target);
            n.key(format!("{inp}{data}"));
            n.sample = Some(json!({"plugin": "publish_mx", "input": inp, "json": j}));
            let mut m = api::message(&payload, &data, &json!({}), &json!({}));
            let show = || json!({"plugin": "publish_mx", "input": inp, "data": data});
            let want = match MxMessage::from_json(&j.to_string()).and_then(|m| m.to_xml()) {
                Ok(x) => x,
                Err(e) => return fail("the library rejects a valid message", format!("{type_name}: {e}"), show()),
            };
            if let Err(e) = api::exec("publish_mx", &mut m, &api::custom("publish_mx", &inp)) {
                return fail("publish_mx rejects a message the library writes", format!("{type_name}: {e}"), show());
            }
            if m.data()[&target] != json!(want) {
                return fail("publish_mx output differs from the library's XML", format!("{type_name}: {} instead of {want}", m.data()[&target]), show());
            }
        }
        "parse" | "parsedoc" => {
            let x = if kind == "parse" { envelope_xml(&k, t) } else { document_xml(&k, t) };
            let (payload, data, source) = place(t, &json!(x), true);
            let inp = input(&source, &target);
            n.key(format!("{inp}{payload}{data}"));
            n.sample = Some(json!({"plugin": "parse_mx", "input": inp, "xml": x}));
            let mut m = api::message(&payload, &data, &json!({"keep": 1}), &json!({}));
            let show = || json!({"plugin": "parse_mx", "input": inp, "xml": x, "data": data});
            let lib = if kind == "parse" {
                MxMessage::from_xml(&x).and_then(|m| m.to_json()).map(|s| serde_json::from_str::<Value>(&s).unwrap())
            } else {
                xml_to_json_via_document(&x, type_name)
            };
            let lib = match lib {
                Ok(v) => v,
                Err(e) => return fail("the library rejects a valid message", format!("{type_name}: {e}\n{x}"), show()),
            };
            if let Err(e) = api::exec("parse_mx", &mut m, &api::custom("parse_mx", &inp)) {
                return fail("parse_mx rejects a message the library reads", format!("{type_name}: {e}\n{x}"), show());
            }
            let got = &m.data()[&target];
            if *got != lib {
                return fail("parse_mx output differs from what the library reads", format!("{type_name}: {got} instead of {lib}"), show());
            }
            let mut want = k.j.clone();
            let mut got = got.clone();
            if kind == "parse" {
                for a in ["@xmlns", "@xmlns:xsi"] {
                    got.as_object_mut().map(|o| o.remove(a));
                }
            } else {
                want.as_object_mut().unwrap().remove("AppHdr");
            }
            if let Err(e) = same(&want, &got) {
                return fail("parse_mx output differs from the message", format!("{type_name}: {e}\n{x}"), show());
            }
            let meta = &m.metadata()[&target];
            if *meta != json!({"message_type": type_name, "format": "json"}) {
                return fail("parse_mx does not record the message type", format!("{type_name}: metadata {meta}"), show());
            }
        }
        "round" => {
            let (payload, data, source) = place(t, &k.j, false);
            let mut mid = name(t);
            if mid == "payload" {
                mid = "p".into();
            }
            n.key(format!("{source} {mid} {target} {data}"));
            let show = || json!({"source": source, "xml": mid, "target": target, "data": data});
            let mut m = api::message(&payload, &data, &json!({}), &json!({}));
            for (p, a, b) in [("publish_mx", &source, &mid), ("parse_mx", &mid, &target)] {
                if let Err(e) = api::exec(p, &mut m, &api::custom(p, &input(a, b))) {
                    return fail(format!("{p} fails on a valid message"), format!("{type_name}: {e}"), show());
                }
            }
            if let Err(e) = same(&k.j, &m.data()[&target]) {
                return fail("publishing and parsing changes the message", format!("{type_name}: {e}"), show());
            }
            // and back to the same XML
            let x = MxMessage::from_json(&k.j.to_string()).and_then(|m| m.to_xml()).unwrap_or_default();
            if let Err(e) = api::exec("publish_mx", &mut m, &api::custom("publish_mx", &input(&target, "again"))) {
                return fail("publish_mx fails on parsed output", format!("{type_name}: {e}"), show());
            }
            if m.data()["again"] != json!(x) {
                return fail("publishing parsed output gives other XML", format!("{type_name}: {} instead of {x}", m.data()["again"]), show());
            }
        }
        "engine" => {
            let mut m = Message::from_value(&json!("unused"));
            m.context["data"] = json!({"in": k.j});
            m.invalidate_context_cache();
            n.key(k.j.to_string());
            let show = || json!({"message": k.j});
            let tasks = [
                ("publish_mx", input("in", "xml")),
                ("validate_mx", input("xml", "verdict")),
                ("parse_mx", input("xml", "out")),
            ];
            if let Err(e) = run_engine(&tasks, &mut m) {
                return fail("the workflow fails on a valid message", format!("{type_name}: {e}"), show());
            }
            if let Err(e) = same(&k.j, &m.data()["out"]) {
                return fail("publishing and parsing in a workflow changes the message", format!("{type_name}: {e}"), show());
            }
            let x = MxMessage::from_json(&k.j.to_string()).and_then(|m| m.to_xml()).unwrap_or_default();
            if m.data()["xml"] != json!(x) {
                return fail("publish_mx output differs from the library's XML", format!("{type_name}: {}", m.data()["xml"]), show());
            }
            if m.data()["verdict"]["valid"] != json!(true) {
                return fail("validate_mx rejects published XML", format!("{type_name}: {}", m.data()["verdict"]), show());
            }
            if m.metadata()["out"]["message_type"] != json!(type_name) {
                return fail("parse_mx does not record the message type", format!("{type_name}: {}", m.metadata()), show());
            }
        }
        "invalid" => {
            let (content, why, plugin) = if t.chance(50) {
                let (x, why) = broken_xml(&k, t);
                (json!(x), why, "parse_mx")
            } else {
                let (j, why) = broken_json(&k, t);
                (j, why, "publish_mx")
            };
            let (payload, data, source) = place(t, &content, plugin == "parse_mx");
            let inp = input(&source, &target);
            n.key(format!("{inp}{payload}{data}"));
            n.sample = Some(json!({"plugin": plugin, "why": why, "content": content}));
            let mut m = api::message(&payload, &data, &json!({}), &json!({}));
            let before = m.context.clone();
            let show = || json!({"plugin": plugin, "input": inp, "content": content});
            match api::exec(plugin, &mut m, &api::custom(plugin, &inp)) {
                Ok(_) => return fail(format!("{plugin} accepts input with: {why}"), format!("{type_name}: {content} gives {}", m.data()[&target]), show()),
                Err(_) if m.context != before => return fail(format!("{plugin} fails but leaves output"), format!("{type_name}: {why}"), show()),
                Err(_) => {}
            }
            // a missing source
            let inp = input("no such field", &target);
            if api::exec(plugin, &mut m, &api::custom(plugin, &inp)).is_ok() || m.context != before {
                return fail(format!("{plugin} accepts a missing source field"), type_name.to_string(), inp);
            }
        }
        o => panic!("{o}"),
    }
    Ok(())
}

type At = Vec<(String, Option<usize>)>;

/// Every present field of a message with the path of its owner.
fn fields<'a>(m: &'a Module, ty: usize, v: &Value, at: &At, out: &mut Vec<(At, &'a Field)>) {
    for f in m.fields(ty) {
        let Some(x) = v.get(&f.name) else { continue };
        out.push((at.clone(), f));
        if let Ty::Ref(c) = f.ty {
            match x {
                Value::Array(a) => {
                    for (i, e) in a.iter().enumerate() {
                        let mut p = at.clone();
                        p.push((f.name.clone(), Some(i)));
                        fields(m, c, e, &p, out);
                    }
                }
                e => {
                    let mut p = at.clone();
                    p.push((f.name.clone(), None));
                    fields(m, c, e, &p, out);
                }
            }
        }
    }
}

fn goto<'a>(v: &'a mut Value, at: &At) -> &'a mut Value {
    at.iter().fold(v, |v, (k, i)| match i {
        Some(i) => &mut v[k][*i],
        None => &mut v[k],
    })
}

/// Breaks one mandatory, coded or numeric field of a value of the module's root type.
fn break_value(m: &Module, v: &Value, t: &mut Tape) -> (Value, &'static str) {
    let mut fs = vec![];
    fields(m, m.root, v, &vec![], &mut fs);
    let mut w = v.clone();
    let coded: Vec<_> = fs.iter().filter(|(_, f)| matches!(f.ty, Ty::Ref(c) if m.is_enum(c)) || f.ty == Ty::Num || f.ty == Ty::Bool).collect();
    if !coded.is_empty() && t.chance(50) {
        let (at, f) = *t.pick(&coded);
        let x = &mut goto(&mut w, at)[&f.name];
        *x = if x.is_array() { json!(["ZZZZ"]) } else { json!("ZZZZ") };
        return (w, if f.ty == Ty::Num { "a non-numeric amount" } else { "a value outside the enumeration" });
    }
    let req: Vec<_> = fs.iter().filter(|(_, f)| matches!(f.card, Card::One | Card::Plus)).collect();
    let (at, f) = *t.pick(&req);
    goto(&mut w, at).as_object_mut().unwrap().remove(&f.name);
    (w, "a mandatory field missing")
}

fn broken_json(k: &Made, t: &mut Tape) -> (Value, &'static str) {
    let mut j = k.j.clone();
    match t.ix(7) {
        0 => {
            j.as_object_mut().unwrap().remove("AppHdr");
            (j, "no header")
        }
        1 => {
            j.as_object_mut().unwrap().remove("Document");
            (j, "no document")
        }
        2 => {
            let (h, why) = break_value(mx::hdr_module(), &k.j["AppHdr"], t);
            j["AppHdr"] = h;
            (j, why)
        }
        3 => (json!({"AppHdr": k.j["AppHdr"], "Document": {"Unknown": k.doc()}}), "an unknown document element"),
        4 => (t.pick(&[json!(null), json!("text"), json!([]), json!({}), json!(5), json!([j])]).clone(), "another JSON value"),
        _ => {
            let (d, why) = break_value(k.m, k.doc(), t);
            j["Document"] = json!({&k.r.element: d});
            (j, why)
        }
    }
}

fn broken_xml(k: &Made, t: &mut Tape) -> (String, &'static str) {
    let hm = mx::hdr_module();
    let wrap = |h: &str, d: &str| format!("<Envelope>{h}<Document>{d}</Document></Envelope>");
    let (h, d) = (xmlref::plain(&k.h), xmlref::plain(&k.d));
    let with = t.chance(50);
    let whole = if with { wrap(&h, &d) } else { format!("<Document>{d}</Document>") };
    let frame = |d: &str| if with { wrap(&h, d) } else { format!("<Document>{d}</Document>") };
    match t.ix(9) {
        0 => {
            let ends: Vec<usize> = whole.char_indices().map(|(i, _)| i).collect();
            (whole[..*t.pick(&ends)].to_string(), "its end cut off")
        }
        1 => {
            let (w, why) = break_value(hm, &k.j["AppHdr"], t);
            (wrap(&xmlref::plain(&xmlref::tree(hm, hm.root, "AppHdr", &w)), &d), why)
        }
        2 => {
            let e = &k.r.element;
            let y = d.replacen(&format!("<{e}"), "<Unknown", 1);
            let y = y.strip_suffix(&format!("</{e}>")).map(|y| format!("{y}</Unknown>")).unwrap_or(y);
            (frame(&y), "an unknown document element")
        }
        3 => {
            // one end tag misspelled
            let ends: Vec<usize> = whole.match_indices("</").map(|(i, _)| i + 2).collect();
            let i = *t.pick(&ends);
            (format!("{}X{}", &whole[..i], &whole[i..]), "a mismatched end tag")
        }
        4 => (t.pick(&["", "text", "<Document/>", "<Envelope/>", "<Document></Document>", "<a></a>", "{}", "<AppHdr/>", "pacs.008"]).to_string(), "no message"),
        5 => (frame(&format!("{d}{d}")), "two messages in a document"),
        6 => (format!("<Envelope><Document>{d}</Document></Envelope>"), "no header"),
        _ => {
            let (w, why) = break_value(k.m, k.doc(), t);
            (frame(&xmlref::plain(&xmlref::tree(k.m, k.m.root, &k.r.element, &w))), why)
        }
    }
}

// ------------------------------------------------------------------ C11

pub static C11: Check = Check {
    id: "C11",
    rule: "distinct plugin step of a generated sequence (plugin, configuration, context before) whose complete context before and after was compared",
    assumptions: &["contexts are objects with data, metadata and temp_data, as dataflow-rs creates them"],
    cases: |t| {
        let k = if t == Tier::Quick { 5 } else { 200 };
        (0..6000 * k).map(|i| json!({"k": "steps", "i": i})).chain((0..1200 * k).map(|i| json!({"k": "engine", "i": i}))).collect()
    },
    run: c11,
    health: |a| {
        for c in PLUGINS {
            for r in ["succeeds", "fails"] {
                if a.classes.get(&format!("{c} {r}")).copied().unwrap_or(0) < 100 {
                    return Err(format!("too few cases where {c} {r}: {:?}", a.classes));
                }
            }
        }
        Ok(())
    },
};

/// Some content a plugin may or may not accept.
fn content(t: &mut Tape) -> Value {
    let k = match t.ix(8) {
        0 => return any_json(t, 2),
        1 => return json!("<a>text</a>"),
        _ => make(t, &Value::Null, Text::Mixed),
    };
    match t.ix(8) {
        0 | 1 => k.j,
        2 => broken_json(&k, t).0,
        3 => json!(broken_xml(&k, t).0),
        4 => json!({"mx_message": envelope_xml(&k, t), "old": true}),
        5 => json!(document_xml(&k, t)),
        _ => json!(envelope_xml(&k, t)),
    }
}

fn constant(t: &mut Tape, depth: usize) -> Value {
    match t.ix(if depth == 0 { 4 } else { 7 }) {
        0 => json!(strgen::any(t, 10)),
        1 => json!(t.below(100000)),
        2 => json!(t.chance(50)),
        3 => json!(t.below(1000) as f64 / 8.0),
        4 => Value::Array((0..t.ix(4)).map(|_| constant(t, depth - 1)).collect()),
        _ => {
            let mut o = Map::new();
            for i in 0..t.ix(5) {
                o.insert(plain_key(t, i), constant(t, depth - 1));
            }
            Value::Object(o)
        }
    }
}

/// A member name that is not a JSONLogic operator.
fn plain_key(t: &mut Tape, i: usize) -> String {
    match t.ix(4) {
        0 => format!("k{i}"),
        1 => t.pick(&["AppHdr", "Document", "Id", "Amt", "@Ccy", "$value", "schema", "variables", "fakes", "vars", "Var", "Fake", "name"]).to_string(),
        2 => format!("{}{i}_", strgen::any(t, 5)),
        _ => t.pick(&["x", "y", "z", "json_data", "message_type"]).to_string(),
    }
}

fn any_payload(t: &mut Tape) -> Value {
    match t.ix(5) {
        0 => content(t),
        1 => any_json(t, 2),
        _ => json!({"schema": constant(t, 3)}),
    }
}

#[derive(Clone)]
struct Before {
    payload: Value,
    context: Value,
    id: String,
}

fn before(m: &Message) -> Before {
    Before { payload: (*m.payload).clone(), context: m.context.clone(), id: m.id.clone() }
}

/// The part of the context a plugin may write, removed.
fn rest(c: &Value, plugin: &str, target: &str) -> Value {
    let mut c = c.clone();
    if let Some(o) = c["data"].as_object_mut() {
        o.remove(target);
    }
    let meta = match plugin {
        "parse_mx" => Some(target),
        "validate_mx" => Some("validation"),
        _ => None,
    };
    if let (Some(k), Some(o)) = (meta, c["metadata"].as_object_mut()) {
        o.remove(k);
    }
    c
}

fn check_step(plugin: &str, inp: &Value, b: &Before, m: &mut Message, r: &Result<(usize, Vec<dataflow_rs::engine::message::Change>), String>) -> Result<(), Fail> {
    let show = || json!({"plugin": plugin, "input": inp, "payload": b.payload, "context": b.context});
    if *m.payload != b.payload {
        return fail(format!("{plugin} changes the payload"), format!("{} instead of {}", m.payload, b.payload), show());
    }
    if m.id != b.id || !m.errors.is_empty() || !m.audit_trail.is_empty() {
        return fail(format!("{plugin} changes the message's identity or records"), String::new(), show());
    }
    let seen = m.get_context_arc();
    if *seen != m.context {
        return fail(format!("{plugin} leaves a stale context for the next task"), format!("cached {seen}\nactual {}", m.context), show());
    }
    match r {
        Err(e) => {
            if m.context != b.context {
                return fail(format!("{plugin} fails but changes the context"), format!("{e}: {} instead of {}", m.context, b.context), show());
            }
        }
        Ok((status, ch)) => {
            let Some(target) = inp["target"].as_str() else {
                return fail(format!("{plugin} runs without a target"), String::new(), show());
            };
            if rest(&m.context, plugin, target) != rest(&b.context, plugin, target) {
                return fail(format!("{plugin} changes more than its target"), format!("{}\nbefore {}", m.context, b.context), show());
            }
            if m.data().get(target).is_none() {
                return fail(format!("{plugin} does not write its target"), m.data().to_string(), show());
            }
            let meta = match plugin {
                "parse_mx" => Some(target),
                "validate_mx" => Some("validation"),
                _ => None,
            };
            if let Some(k) = meta
                && !m.metadata()[k].is_object()
            {
                return fail(format!("{plugin} does not write its metadata"), m.metadata().to_string(), show());
            }
            if *status != 200 || ch.len() != 1 {
                return fail(format!("{plugin} does not report one change"), format!("status {status}, {} changes", ch.len()), show());
            }
            let c = &ch[0];
            if *c.path != format!("data.{target}") {
                return fail(format!("{plugin} reports a wrong path"), format!("{} for target {target:?}", c.path), show());
            }
            let old = b.context["data"].get(target).cloned().unwrap_or(Value::Null);
            if *c.old_value != old {
                return fail(format!("{plugin} reports a wrong old value"), format!("{} instead of {old}", c.old_value), show());
            }
            if *c.new_value != m.data()[target] {
                return fail(format!("{plugin} reports a wrong new value"), format!("{} instead of {}", c.new_value, m.data()[target]), show());
            }
        }
    }
    Ok(())
}

/// The result and metadata of a step depend on its source alone, not on what else the message holds.
fn same_alone(plugin: &str, inp: &Value, b: &Before, m: &Message, ok: bool) -> Result<(), Fail> {
    let (Some(source), Some(target), Some(data)) = (inp["source"].as_str(), inp["target"].as_str(), b.context["data"].as_object()) else {
        return Ok(());
    };
    if plugin == "generate_mx" {
        return Ok(());
    }
    let only: Map<String, Value> = data.iter().filter(|(k, _)| *k == source).map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut fresh = api::message(&b.payload, &Value::Object(only), &json!({}), &json!({}));
    let r = api::exec(plugin, &mut fresh, &api::custom(plugin, inp));
    let show = || json!({"plugin": plugin, "input": inp, "payload": b.payload, "context": b.context});
    if r.is_ok() != ok {
        // a step may be refused because it cannot record its result
        if !ok && !b.context["metadata"].is_object() {
            return Ok(());
        }
        return fail(format!("whether {plugin} succeeds depends on unrelated content"), format!("{ok} among other content, {} alone", r.is_ok()), show());
    }
    if !ok {
        return Ok(());
    }
    let bare = |v: &Value| {
        let mut v = v.clone();
        if let (true, Some(o)) = (plugin == "validate_mx", v.as_object_mut()) {
            o.remove("timestamp");
        }
        v
    };
    let (a, w) = (bare(&m.data()[target]), bare(&fresh.data()[target]));
    if a != w {
        return fail(format!("the result of {plugin} depends on unrelated content"), format!("{a}\nalone {w}"), show());
    }
    let entry = match plugin {
        "parse_mx" => target,
        "validate_mx" => "validation",
        _ => return Ok(()),
    };
    let (a, w) = (bare(&m.metadata()[entry]), bare(&fresh.metadata()[entry]));
    if a != w {
        return fail(format!("the metadata of {plugin} depends on unrelated content"), format!("{a}\nalone {w}"), show());
    }
    Ok(())
}

fn class_of(plugin: &str, ok: bool) -> &'static str {
    match (plugin, ok) {
        ("generate_mx", true) => "generate_mx succeeds",
        ("generate_mx", _) => "generate_mx fails",
        ("publish_mx", true) => "publish_mx succeeds",
        ("publish_mx", _) => "publish_mx fails",
        ("parse_mx", true) => "parse_mx succeeds",
        ("parse_mx", _) => "parse_mx fails",
        (_, true) => "validate_mx succeeds",
        _ => "validate_mx fails",
    }
}

fn c11(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let names: Vec<String> = (0..4).map(|_| name(t)).collect();
    let mut data = Map::new();
    for k in &names {
        if t.chance(75) {
            data.insert(k.clone(), content(t));
        }
    }
    let payload = any_payload(t);
    let odd = spec["k"] == "steps";
    let data = if odd && t.chance(6) { any_json(t, 1) } else { Value::Object(data) };
    let meta = match t.ix(if odd { 12 } else { 10 }) {
        0..=4 => json!({}),
        5..=9 => json!({"keep": [1, {"x": "y"}], "validation": "old", names[0].as_str(): {"message_type": "old"}}),
        _ => any_json(t, 1),
    };
    let temp = any_json(t, 2);
    let mut m = api::message(&payload, &data, &meta, &temp);
    let pick_name = |t: &mut Tape| -> Value {
        match t.ix(12) {
            0 => json!(name(t)),
            1 => json!("payload"),
            2 => json!("new"),
            3 if odd => any_json(t, 1),
            _ => json!(t.pick(&names)),
        }
    };
    let mut steps: Vec<(&'static str, Value)> = vec![];
    for _ in 0..1 + t.ix(5) {
        let p = *t.pick(&PLUGINS);
        let mut i = json!({"source": pick_name(t), "target": pick_name(t)});
        if odd && t.chance(5) {
            i.as_object_mut().unwrap().remove(*t.pick(&["source", "target"]));
        }
        steps.push((p, i));
    }
    if spec["k"] == "engine" {
        return c11_engine(&mut m, &steps, n);
    }
    n.nontrivial = true;
    n.evals = 1; // the history, then each step
    n.key(format!("{steps:?}{payload}{data}{meta}"));
    n.sample = Some(json!({"steps": steps, "fields": names}));
    for (p, i) in &steps {
        let b = before(&m);
        if t.chance(70) {
            let _ = m.get_context_arc();
        }
        let r = api::exec(p, &mut m, &api::custom(p, i));
        n.evals += 1;
        n.sub((p, i.to_string(), b.context.to_string()));
        n.class(class_of(p, r.is_ok()));
        check_step(p, i, &b, &mut m, &r)?;
        same_alone(p, i, &b, &m, r.is_ok())?;
        // missing or wrongly typed parameters are errors
        let need_source = *p != "generate_mx";
        if r.is_ok() && (i["target"].as_str().is_none() || need_source && i["source"].as_str().is_none()) {
            return fail(format!("{p} runs without its parameters"), i.to_string(), json!({"plugin": p, "input": i}));
        }
    }
    Ok(())
}

/// The same steps as tasks of a workflow: audit trail and context must tell the same story.
fn c11_engine(m: &mut Message, steps: &[(&'static str, Value)], n: &mut Note) -> Result<(), Fail> {
    let b = before(m);
    n.nontrivial = true;
    n.key(format!("{steps:?}{}{}", b.payload, b.context));
    n.sample = Some(json!({"workflow": steps}));
    n.class("workflow");
    let r = run_engine(steps, m);
    let show = || json!({"workflow": steps, "payload": b.payload, "context": b.context});
    if *m.payload != b.payload {
        return fail("a workflow changes the payload", String::new(), show());
    }
    // replay the audit trail over the initial data
    let mut data = b.context["data"].clone();
    let last = m.audit_trail.len().saturating_sub(1);
    for (k, a) in m.audit_trail.iter().enumerate() {
        // the engine records a failing task itself, as the last entry: without changes, status 500
        if r.is_err() && k == last && a.status == 500 && a.changes.is_empty() {
            break;
        }
        if a.status != 200 || a.changes.len() != 1 {
            return fail("a task does not report one change", format!("task {k}: {} changes", a.changes.len()), show());
        }
        let c = &a.changes[0];
        let target = steps.get(k).map(|s| s.1["target"].as_str().unwrap_or("")).unwrap_or("");
        if *c.path != format!("data.{target}") {
            return fail("a task reports a wrong path", format!("task {k}: {} for {target:?}", c.path), show());
        }
        let old = data.get(target).cloned().unwrap_or(Value::Null);
        if *c.old_value != old {
            return fail("a task reports a wrong old value", format!("task {k}: {} instead of {old}", c.old_value), show());
        }
        data[target] = (*c.new_value).clone();
    }
    if *m.data() != data {
        return fail("the audit trail does not explain the data", format!("{} instead of {data}", m.data()), show());
    }
    match r {
        Ok(()) if m.audit_trail.len() != steps.len() => fail("a successful workflow misses audit entries", format!("{} of {}", m.audit_trail.len(), steps.len()), show()),
        Err(e) if m.audit_trail.iter().all(|a| a.status == 200) => fail("a workflow fails although every task succeeded", e, show()),
        _ => {
            let seen = m.get_context_arc();
            if *seen != m.context {
                return fail("a workflow leaves a stale context", String::new(), show());
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ C12

pub static C12: Check = Check {
    id: "C12",
    rule: "distinct content given to validate_mx whose verdict is known by construction or was compared with parse_mx and the readers",
    assumptions: &[
        "parse_mx unescapes line breaks written as backslash-n when a payload cannot be read otherwise; validate_mx does not, so that broken inputs with such text are compared with the readers only",
        "constraint violations (length, pattern) do not make a message unreadable; they are validated by Validate, not by validate_mx",
    ],
    cases: |t| reg_cases(&[("valid", 400), ("broken", 700), ("mutated", 700), ("engine", 60)], t, 20),
    run: c12,
    health: |a| {
        for k in ["valid", "invalid"] {
            if a.classes.get(k).copied().unwrap_or(0) < 500 {
                return Err(format!("too few {k} verdicts: {:?}", a.classes));
            }
        }
        Ok(())
    },
};

fn c12(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let text = *t.pick(&[Text::Mixed, Text::Valid, Text::Wild]);
    let k = make(t, spec, text);
    let ty = &k.r.short;
    let mut want = None;
    let mut why = "";
    let x = match spec["k"].as_str().unwrap() {
        "valid" | "engine" => {
            want = Some(true);
            if t.chance(50) { envelope_xml(&k, t) } else { document_xml(&k, t) }
        }
        "broken" => {
            want = Some(false);
            let (x, w) = broken_xml(&k, t);
            why = w;
            x
        }
        _ => {
            let mut x = if t.chance(50) { envelope_xml(&k, t) } else { document_xml(&k, t) };
            for _ in 0..*t.pick(&[1, 1, 2, 3]) {
                mutate(t, &mut x);
            }
            x
        }
    };
    let (payload, data, source) = place(t, &json!(x), true);
    let mut target = name(t);
    if target == source {
        target = "verdict".into();
    }
    let inp = input(&source, &target);
    let meta = if t.chance(50) { json!({}) } else { json!({"validation": {"validated": false}}) };
    let mut m = api::message(&payload, &data, &meta, &json!({}));
    n.nontrivial = true;
    n.key(format!("{source}{x}"));
    n.sample = Some(json!({"source": source, "xml": x}));
    let show = || json!({"xml": x, "input": inp});
    let t0 = chrono::Utc::now() - chrono::Duration::seconds(5);
    if spec["k"] == "engine" {
        if let Err(e) = run_engine(&[("validate_mx", inp.clone())], &mut m) {
            return fail("the validation workflow fails", format!("{ty}: {e}"), show());
        }
    } else if let Err(e) = api::exec("validate_mx", &mut m, &api::custom("validate_mx", &inp)) {
        return fail("validate_mx gives no verdict", format!("{ty}: {e}\n{x}"), show());
    }
    let v = m.data()[&target].clone();
    let (Some(valid), Some(errors), Some(_), Some(ts)) = (v["valid"].as_bool(), v["errors"].as_array(), v["warnings"].as_array(), v["timestamp"].as_str()) else {
        return fail("the verdict lacks valid, errors, warnings or timestamp", v.to_string(), show());
    };
    n.class(if valid { "valid" } else { "invalid" });
    if valid != errors.is_empty() || errors.iter().any(|e| e.as_str().is_none_or(|s| s.is_empty())) {
        return fail("the verdict and its errors disagree", v.to_string(), show());
    }
    let fresh = |s: &str| chrono::DateTime::parse_from_rfc3339(s).is_ok_and(|d| d >= t0 && d <= chrono::Utc::now() + chrono::Duration::seconds(5));
    if !fresh(ts) {
        return fail("the verdict's timestamp is not the current time", ts.to_string(), show());
    }
    let mv = &m.metadata()["validation"];
    if mv["validated"] != json!(true) || !mv["timestamp"].as_str().is_some_and(fresh) {
        return fail("metadata does not record the validation", mv.to_string(), show());
    }
    if let Some(w) = want
        && w != valid
    {
        return if w {
            fail("validate_mx rejects a readable message", format!("{ty}: {errors:?}\n{x}"), show())
        } else {
            fail(format!("validate_mx accepts input with: {why}"), format!("{ty}: {x}"), show())
        };
    }
    // the same verdict as parse_mx, from the same place
    let mut p = api::message(&payload, &data, &json!({}), &json!({}));
    let parsed = api::exec("parse_mx", &mut p, &api::custom("parse_mx", &input(&source, "parsed")));
    if parsed.is_ok() != valid && (valid || !x.contains("\\n")) {
        return fail("validate_mx and parse_mx disagree", format!("{ty}: verdict {valid} {errors:?}, parse {:?}\n{x}", parsed.map(|_| ())), show());
    }
    // a message the full reader reads is valid; a valid message is read by a typed reader
    let read = MxMessage::from_xml(&x).is_ok();
    if read && !valid {
        return fail("validate_mx rejects a readable message", format!("{ty}: {errors:?}\n{x}"), show());
    }
    if valid && !read && !schema().registry.iter().any(|r| xml_to_json_via_document(&x, &r.short).is_ok()) {
        return fail("validate_mx accepts what no reader reads", format!("{ty}: {x}"), show());
    }
    Ok(())
}

// ------------------------------------------------------------------ C13

pub static C13: Check = Check {
    id: "C13",
    rule: "distinct scenario with at least one leaf whose generated data was compared with the expected data",
    assumptions: &[
        "expected data is defined for constants, variable references, concatenation and arithmetic on constants, and bounded or repeated fake values; the distribution of random values is not specified",
        "datafake-rs rejects nulls and empty member names in scenarios",
    ],
    cases: |t| {
        let k = if t == Tier::Quick { 8 } else { 320 };
        let mut v: Vec<Value> = (0..5000 * k).map(|i| json!({"k": "scenario", "i": i})).collect();
        v.extend((0..1500 * k).map(|i| json!({"k": "bad", "i": i})));
        v.extend((0..600 * k).map(|i| json!({"k": "pipeline", "i": i})));
        v
    },
    run: c13,
    health: no_health,
};

/// What a place of the generated data must hold.
enum Want {
    Exactly(Value),
    /// the value of a random variable, equal wherever it is used
    Var(usize),
    /// an integer in the range
    Range(i64, i64),
    /// a UUID
    Uuid,
    List(Vec<Want>),
    Obj(Vec<(String, Want)>),
}

struct Vars {
    names: Vec<String>,
    consts: Vec<Option<Value>>,
}

fn expr(t: &mut Tape, vars: &Vars, depth: usize) -> (Value, Want) {
    let arm = t.ix(if depth == 0 { 6 } else { 9 });
    let arm = if matches!(arm, 2 | 3) && vars.names.is_empty() { 0 } else { arm };
    match arm {
        0 | 1 => {
            let c = constant(t, 0);
            (c.clone(), Want::Exactly(c))
        }
        2 => {
            let i = t.ix(vars.names.len());
            let e = json!({"var": vars.names[i]});
            match &vars.consts[i] {
                Some(c) => (e, Want::Exactly(c.clone())),
                None => (e, Want::Var(i)),
            }
        }
        3 => {
            // concatenation of text with a text variable
            let i = t.ix(vars.names.len());
            match &vars.consts[i] {
                Some(Value::String(s)) => (json!({"cat": ["pre-", {"var": vars.names[i]}, "-post"]}), Want::Exactly(json!(format!("pre-{s}-post")))),
                _ => (json!({"cat": ["a", "b"]}), Want::Exactly(json!("ab"))),
            }
        }
        4 => {
            let a = t.below(1000) as i64;
            let b = a + t.below(50) as i64;
            (json!({"fake": ["u32", a, b]}), Want::Range(a, b))
        }
        5 => (json!({"fake": ["uuid"]}), Want::Uuid),
        6 => {
            let n = t.ix(4);
            let (mut a, mut w) = (vec![], vec![]);
            for _ in 0..n {
                let (x, y) = expr(t, vars, depth - 1);
                a.push(x);
                w.push(y);
            }
            (Value::Array(a), Want::List(w))
        }
        _ => {
            let n = t.ix(5);
            let mut o = Map::new();
            let mut w: Vec<(String, Want)> = vec![];
            for i in 0..n {
                let k = plain_key(t, i);
                let (x, y) = expr(t, vars, depth - 1);
                w.retain(|(n, _)| *n != k);
                o.insert(k.clone(), x);
                w.push((k, y));
            }
            (Value::Object(o), Want::Obj(w))
        }
    }
}

fn meets(w: &Want, g: Option<&Value>, path: &str, vars: &mut HashMap<usize, Value>) -> Result<(), String> {
    let Some(g) = g else { return Err(format!("{path} is absent")) };
    match w {
        Want::Exactly(v) if v == g => Ok(()),
        Want::Exactly(v) => Err(format!("{path} is {g} instead of {v}")),
        Want::Var(i) => match vars.get(i) {
            Some(v) if v != g => Err(format!("{path} is {g} but the variable was {v} elsewhere")),
            _ => {
                vars.insert(*i, g.clone());
                if g.is_null() { Err(format!("{path} is null")) } else { Ok(()) }
            }
        },
        Want::Range(a, b) => match g.as_i64() {
            Some(x) if *a <= x && x <= *b => Ok(()),
            _ => Err(format!("{path} is {g}, not an integer from {a} to {b}")),
        },
        Want::Uuid => match g.as_str() {
            Some(s) if s.len() == 36 && s.split('-').map(|p| p.len()).eq([8, 4, 4, 4, 12]) && s.chars().all(|c| c == '-' || c.is_ascii_hexdigit()) => Ok(()),
            _ => Err(format!("{path} is {g}, not a UUID")),
        },
        Want::List(ws) => {
            let a = g.as_array().ok_or(format!("{path} is {g}, not a list"))?;
            if a.len() != ws.len() {
                return Err(format!("{path} has {} entries instead of {}", a.len(), ws.len()));
            }
            ws.iter().enumerate().try_for_each(|(i, w)| meets(w, a.get(i), &format!("{path}[{i}]"), vars))
        }
        Want::Obj(ws) => {
            let o = g.as_object().ok_or(format!("{path} is {g}, not an object"))?;
            if o.len() != ws.len() {
                return Err(format!("{path} has members {:?}", o.keys().collect::<Vec<_>>()));
            }
            ws.iter().try_for_each(|(k, w)| meets(w, o.get(k), &format!("{path}.{k}"), vars))
        }
    }
}

fn c13(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    n.nontrivial = true;
    match spec["k"].as_str().unwrap() {
        "pipeline" => return c13_pipeline(t, n),
        "bad" => return c13_bad(t, n),
        _ => {}
    }
    let mut vars = Vars { names: vec![], consts: vec![] };
    let mut defs = Map::new();
    for i in 0..t.ix(5) {
        let nm = format!("{}{i}", t.pick(&["v", "country", "amount", "ä"]));
        let (d, c) = match t.ix(5) {
            0 => (json!({"fake": ["uuid"]}), None),
            1 => (json!({"fake": ["u64", 1, 1000000000]}), None),
            2 => (json!({"cat": ["x", "y"]}), Some(json!("xy"))),
            _ => {
                let c = constant(t, 2);
                (c.clone(), Some(c))
            }
        };
        defs.insert(nm.clone(), d);
        vars.names.push(nm);
        vars.consts.push(c);
    }
    let (mut e, mut w) = expr(t, &vars, 4);
    if t.chance(60) {
        // use a variable in several places
        let (a, wa) = expr(t, &vars, 1);
        let (b, wb) = expr(t, &vars, 1);
        e = json!({"first": e, "second": a, "third": [b]});
        w = Want::Obj(vec![("first".into(), w), ("second".into(), wa), ("third".into(), Want::List(vec![wb]))]);
    }
    let mut sc = json!({"schema": e});
    if !defs.is_empty() || t.chance(50) {
        sc["variables"] = Value::Object(defs);
    }
    if t.chance(30) {
        sc["metadata"] = json!({"name": "n", "version": "1", "description": "d", "extra": [1]});
    }
    let target = name(t);
    let mut data = Map::new();
    for _ in 0..t.ix(4) {
        data.insert(name(t), any_json(t, 1));
    }
    let data = Value::Object(data);
    let inp = if t.chance(50) { json!({"target": target}) } else { json!({"target": target, "source": "ignored", "x": 1}) };
    n.key(sc.to_string());
    n.sample = Some(sc.clone());
    let show = || json!({"scenario": sc, "input": inp, "data": data});
    let mut m = api::message(&sc, &data, &json!({}), &json!({}));
    if let Err(e) = api::exec("generate_mx", &mut m, &api::custom("generate_mx", &inp)) {
        return fail("generate_mx rejects a scenario", format!("{e}: {sc}"), show());
    }
    if let Err(e) = meets(&w, m.data().get(&target), "data", &mut HashMap::new()) {
        return fail("generate_mx does not deliver the scenario", format!("{e}: {sc}\ngenerated {}", m.data()[&target]), show());
    }
    // nothing else changes, and a second message gets its own data
    let mut after = m.context.clone();
    after["data"].as_object_mut().unwrap().remove(&target);
    let mut plain = json!({"data": data, "metadata": {}, "temp_data": {}});
    plain["data"].as_object_mut().unwrap().remove(&target);
    if after != plain || *m.payload != sc {
        return fail("generate_mx alters the message", format!("{after} instead of {plain}"), show());
    }
    let mut m2 = api::message(&sc, &json!({}), &json!({}), &json!({}));
    if let Err(e) = api::exec("generate_mx", &mut m2, &api::custom("generate_mx", &inp)) {
        return fail("generate_mx rejects a scenario", format!("{e}: {sc}"), show());
    }
    if let Err(e) = meets(&w, m2.data().get(&target), "data", &mut HashMap::new()) {
        return fail("generate_mx does not deliver the scenario the second time", format!("{e}: {sc}"), show());
    }
    let has_uuid = sc.to_string().contains("\"uuid\"") && has_fresh_uuid(&w);
    if has_uuid && m2.data()[&target] == m.data()[&target] {
        return fail("generate_mx repeats its random data", format!("{}", m.data()[&target]), show());
    }
    Ok(())
}

fn has_fresh_uuid(w: &Want) -> bool {
    match w {
        Want::Uuid => true,
        Want::List(v) => v.iter().any(has_fresh_uuid),
        Want::Obj(v) => v.iter().any(|(_, w)| has_fresh_uuid(w)),
        _ => false,
    }
}

fn c13_bad(t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let good = constant(t, 2);
    let sc = match t.ix(9) {
        0 => json!({}),
        1 => json!({"variables": {"a": 1}}),
        2 => json!({"schema": null}),
        3 => json!({"schema": good, "variables": "text"}),
        4 => json!({"schema": good, "variables": {"": 1}}),
        5 => json!({"schema": {"a": {"fake": []}}}),
        6 => t.pick(&[json!(null), json!("text"), json!(5), json!([]), json!([1]), json!(true)]).clone(),
        7 => json!({"Schema": good}),
        _ => json!({"schema": {"a": [good, null]}}),
    };
    let target = name(t);
    let data = json!({"keep": 1, target.as_str(): "old"});
    n.key((sc.to_string(), &target));
    n.sample = Some(sc.clone());
    let mut m = api::message(&sc, &data, &json!({}), &json!({}));
    let b = m.context.clone();
    let inp = json!({"target": target});
    let show = || json!({"scenario": sc, "input": inp});
    if api::exec("generate_mx", &mut m, &api::custom("generate_mx", &inp)).is_ok() {
        return fail("generate_mx accepts what is not a scenario", format!("{sc} gives {}", m.data()[&target]), show());
    }
    if m.context != b {
        return fail("generate_mx fails but changes the message", m.context.to_string(), show());
    }
    Ok(())
}

/// A scenario that spells out a message, through the whole pipeline.
fn c13_pipeline(t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let k = make(t, &Value::Null, Text::Valid);
    // header text through variables
    let mut schema = k.j.clone();
    schema["AppHdr"]["BizMsgIdr"] = json!({"var": "id"});
    schema["AppHdr"]["CreDt"] = json!({"cat": ["2025-01-0", {"var": "day"}, "T10:00:00+00:00"]});
    let sc = json!({"variables": {"id": "MSG-1", "day": "7"}, "schema": schema});
    let mut want = k.j.clone();
    want["AppHdr"]["BizMsgIdr"] = json!("MSG-1");
    want["AppHdr"]["CreDt"] = json!("2025-01-07T10:00:00+00:00");
    n.key(sc.to_string());
    n.sample = Some(sc.clone());
    n.class("pipeline");
    let show = || json!({"scenario": sc});
    let mut m = Message::from_value(&sc);
    let tasks = [
        ("generate_mx", json!({"target": "json"})),
        ("publish_mx", input("json", "xml")),
        ("validate_mx", input("xml", "verdict")),
        ("parse_mx", input("xml", "back")),
    ];
    if let Err(e) = run_engine(&tasks, &mut m) {
        return fail("the pipeline fails on a valid message", format!("{}: {e}", k.r.short), show());
    }
    for f in ["json", "back"] {
        if let Err(e) = same(&want, &m.data()[f]) {
            return fail("the pipeline does not deliver the scenario", format!("{} in {f}: {e}", k.r.short), show());
        }
    }
    if m.data()["verdict"]["valid"] != json!(true) {
        return fail("the pipeline's message is not valid", m.data()["verdict"].to_string(), show());
    }
    Ok(())
}
