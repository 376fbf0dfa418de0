//! C09 no input crashes the library, C16 results do not depend on history or concurrency.
use super::codec::{markup_text, style, styled_envelope};
use crate::api::{self, PLUGINS};
use crate::cases;
use crate::genmsg::{Cfg, Gen, Text};
use crate::mx;
use crate::ops::{self, ROOTS};
use crate::runner::*;
use crate::schema::*;
use crate::strgen;
use crate::tape::Tape;
use crate::xmlref;
use dataflow_rs::engine::FunctionConfig;
use mx_message::MxMessage;
use mx_message::parse_result::ErrorCollector;
use serde_json::{Map, Value, json};

// ------------------------------------------------------------------ C09

pub static C09: Check = Check {
    id: "C09",
    rule: "distinct input text or plugin call handed to every applicable entry point (mutated, spliced, truncated, deeply nested, very long, token soup, arbitrary JSON contexts)",
    assumptions: &[
        "runs on a 2 MB stack (the default of spawned threads) in a debug build with overflow checks; an abort or stack overflow ends the worker process and is attributed to its case",
        "plugin contexts are JSON objects with data and metadata of any JSON type, as dataflow-rs itself creates them; JSON values are at most 127 levels deep, as serde_json reads them",
        "scenarios given to generate_mx use only operators whose arguments datafake-rs itself accepts",
    ],
    cases: c09_cases,
    run: c09,
    health: no_health,
};

fn c09_cases(tier: Tier) -> Vec<Value> {
    let k = if tier == Tier::Quick { 5 } else { 400 };
    let mut out = vec![];
    for i in 0..k {
        for m in &schema().modules {
            for r in 0..if m.reg.is_some() { 40 } else { 6 } {
                out.push(json!({"k": "xml", "m": m.name, "r": r, "i": i}));
                out.push(json!({"k": "json", "m": m.name, "r": r, "i": i}));
            }
        }
        for r in 0..3000 {
            out.push(json!({"k": "soup", "r": r, "i": i}));
        }
        for r in 0..400 {
            out.push(json!({"k": "deep", "r": r, "i": i}));
        }
        for r in 0..60 {
            out.push(json!({"k": "long", "r": r, "i": i}));
        }
        for r in 0..6000 {
            out.push(json!({"k": "plugin", "r": r, "i": i}));
        }
        for r in 0..1000 {
            out.push(json!({"k": "names", "r": r, "i": i}));
        }
    }
    out
}

const TOKENS: &[&str] = &[
    "<", ">", "/", "</", "/>", "=", "\"", "'", "&", ";", "&amp;", "&lt;", "&#0;", "&#x0;", "&#xD800;", "&#x110000;", "&#99999999999;",
    "&#;", "&#x;", "&foo;", "&;", "<!--", "-->", "--", "<!-->", "<![CDATA[", "]]>", "<?", "?>", "<?xml", "<?xml version=\"1.0\"?>",
    "<!DOCTYPE a [<!ENTITY x \"y\">]>", "<!DOCTYPE", "<!", "<>", "</>", "< >", "<a", "<a b", "<a b=", "<a b=\"", "<a b='c' b='c'>",
    " ", "\n", "\r\n", "\t", "\0", "\u{1}", "\u{b}", "\u{85}", "\u{a0}", "\u{feff}", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "é", "🏦",
    "xmlns", "xmlns=\"u\"", "xmlns:xsi=\"u\"", "xmlns:a=\"u\"", "a:b", "<a:Document>", "<a:AppHdr>", ":", "-", "x", "0", "1e999", "NaN", "-inf",
    "{", "}", "[", "]", ",", "\\", "\\n", "\\u0000", "null", "true",
];

fn name_token(t: &mut Tape) -> String {
    let s = schema();
    match t.ix(7) {
        0 => t.pick(&["AppHdr", "Document", "Envelope", "MsgDefIdr", "BusinessApplicationHeaderV02"]).to_string(),
        1 => t.pick(&s.registry).element.clone(),
        2 => t.pick(&s.registry).full.clone(),
        3 => t.pick(&s.registry).short.clone(),
        4 => t.pick(&s.registry).rust.clone(),
        _ => {
            let m = t.pick(&s.modules);
            let ty = t.pick(&m.types);
            match &ty.def {
                Def::Struct(fs) if !fs.is_empty() => t.pick(fs).name.clone(),
                _ => ty.name.clone(),
            }
        }
    }
}

fn token(t: &mut Tape) -> String {
    let n = name_token(t);
    match t.ix(9) {
        0 => format!("<{n}>"),
        1 => format!("</{n}>"),
        2 => format!("<{n}/>"),
        3 => n,
        4 => markup_text(t),
        5 => strgen::any(t, 12),
        _ => t.pick(TOKENS).to_string(),
    }
}

fn at(t: &mut Tape, s: &str) -> usize {
    let mut i = t.ix(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// A position just before or after some markup character.
fn at_markup(t: &mut Tape, s: &str) -> usize {
    let i = at(t, s);
    match s[i..].find(['<', '>', '"', '{', ',', ':']) {
        Some(k) => i + k + t.ix(2),
        None => i,
    }
}

pub fn mutate(t: &mut Tape, s: &mut String) {
    let pos = |t: &mut Tape, s: &str| if t.chance(60) { at_markup(t, s) } else { at(t, s) };
    let (a, b) = {
        let (x, y) = (pos(t, s), pos(t, s));
        (x.min(y), x.max(y))
    };
    match t.ix(10) {
        0 => s.truncate(a),
        1 => *s = s[a..].to_string(),
        2 => s.replace_range(a..b, ""),
        3 => {
            let c = s[a..b].to_string();
            let p = pos(t, s);
            s.insert_str(p, &c);
        }
        4 => {
            let c = s[a..b].to_string();
            s.replace_range(a..b, "");
            let p = pos(t, s);
            s.insert_str(p, &c);
        }
        5 | 6 => {
            let x = token(t);
            s.insert_str(a, &x);
        }
        7 => {
            // replace one character
            if let Some(c) = s[a..].chars().next() {
                let x = if t.chance(50) { t.pick(TOKENS).to_string() } else { strgen::any(t, 1) };
                s.replace_range(a..a + c.len_utf8(), &x);
            }
        }
        8 => {
            // rename something
            let w = s[a..].char_indices().find(|(_, c)| !c.is_alphanumeric()).map(|(i, _)| i).unwrap_or(0);
            let x = name_token(t);
            s.replace_range(a..a + w, &x);
        }
        _ => {
            let e = (a + 1 + t.ix(6)).min(s.len());
            if s.is_char_boundary(e) {
                s.replace_range(a..e, "");
            }
        }
    }
}

/// Hand one text to every entry point that takes text. Returns how many calls were made.
fn all_text(x: &str, modules: &[&str], types: &[&str]) -> Result<(u64, bool), Fail> {
    let mut n = 0;
    let mut accepted = false;
    let mut go = |o: Value| {
        n += 1;
        api::run_op(&o)
    };
    for op in ["peek_xml", "peek_json", "ext", "to_json", "lookup"] {
        go(json!({"op": op, "s": x}));
    }
    for ty in types {
        go(json!({"op": "env_str", "s": x, "t": ty}));
        go(json!({"op": "doc", "s": x, "t": ty}));
    }
    for m in modules {
        for xml in [true, false] {
            // these structures have no reader of their own: quick-xml, called directly, panics on
            // text split by a DOCTYPE
            if xml && x.contains("<!") && x.to_ascii_uppercase().contains("<!DOCTYPE") {
                continue;
            }
            go(json!({"op": "typed", "m": m, "s": x, "xml": xml}));
        }
    }
    go(json!({"op": "content", "s": "payload", "payload": x, "data": {}}));
    for p in ["parse_mx", "validate_mx"] {
        go(json!({"op": "plugin", "name": p, "payload": x, "data": {}, "metadata": {}, "input": {"source": "payload", "target": "t"}}));
    }
    if let Ok(v) = serde_json::from_str::<Value>(x) {
        go(json!({"op": "ext_json", "v": v}));
        go(json!({"op": "plugin", "name": "publish_mx", "payload": null, "data": {"s": v}, "metadata": {}, "input": {"source": "s", "target": "t"}}));
    }
    n += 2;
    for (how, r) in [("from_xml", MxMessage::from_xml(x)), ("from_json", MxMessage::from_json(x))] {
        let Ok(m) = r else { continue };
        accepted = true;
        n += 12;
        let inp = || json!({"reader": how, "text": x});
        if let Err(e) = m.to_xml() {
            return fail(format!("accepted by {how} but to_xml fails"), e.to_string(), inp());
        }
        if let Err(e) = m.to_json() {
            return fail(format!("accepted by {how} but to_json fails"), e.to_string(), inp());
        }
        let _ = (m.message_type(), m.namespace(), m.document.namespace());
        for c in api::cfgs() {
            let mut e = ErrorCollector::new();
            mx::validate_document(&m.document, "p", &c, &mut e);
            let _ = mx::flat(e);
        }
    }
    Ok((n, accepted))
}

fn valid_message(m: &'static Module, t: &mut Tape) -> Value {
    let (opt, budget) = *t.pick(&[(10, 15), (25, 40), (40, 80)]);
    Gen::new(m, t, Cfg::new(opt, budget, Text::Mixed)).root()
}

fn pick_types(t: &mut Tape, m: &Module) -> Vec<String> {
    let s = schema();
    let mut v: Vec<String> = m.reg.iter().map(|r| r.short.clone()).collect();
    v.push(match t.ix(4) {
        0 => t.pick(&s.registry).short.clone(),
        1 => t.pick(&s.registry).full.clone(),
        2 => strgen::any(t, 12),
        _ => t.pick(&["", "camt.027", "unknown", "pacs.008.001", "PACS.008", "."]).to_string(),
    });
    v
}

fn c09(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    n.nontrivial = true;
    let s = schema();
    let k = spec["k"].as_str().unwrap();
    let text;
    let mut modules: Vec<&'static str> = vec![];
    let mut types: Vec<String> = vec![];
    match k {
        "plugin" => return c09_plugin(t, n),
        "names" => {
            let x = match t.ix(3) {
                0 => strgen::any(t, 40),
                1 => token(t),
                _ => {
                    let mut x = name_token(t);
                    mutate(t, &mut x);
                    x
                }
            };
            n.key(&x);
            api::run_op(&json!({"op": "lookup", "s": x}));
            return Ok(());
        }
        "xml" => {
            let m = cases::module(spec);
            modules.extend(ops::ROOTS.iter().filter(|r| r.module == m.name).map(|r| r.module));
            types = pick_types(t, m);
            let v = valid_message(m, t);
            let st = style(t);
            let mut x = match &m.reg {
                Some(r) => {
                    let h = mx::hdr_module();
                    let hv = cases::header_value(t, Text::Mixed, &r.full);
                    styled_envelope(&xmlref::tree(h, h.root, "AppHdr", &hv), &xmlref::tree(m, m.root, &r.element, &v), &st, t)
                }
                None => {
                    let mut o = String::new();
                    xmlref::write(&xmlref::tree(m, m.root, &mx::Msg::root_name(m), &v), &st, t, 0, &mut o);
                    o
                }
            };
            for _ in 0..*t.pick(&[1, 1, 2, 4]) {
                mutate(t, &mut x);
            }
            text = x;
        }
        "json" => {
            let m = cases::module(spec);
            modules.extend(ops::ROOTS.iter().filter(|r| r.module == m.name).map(|r| r.module));
            types = pick_types(t, m);
            let v = valid_message(m, t);
            let mut j = match &m.reg {
                Some(r) => {
                    let hv = cases::header_value(t, Text::Mixed, &r.full);
                    mx::envelope(&hv, &r.element, &v)
                }
                None => v,
            };
            for _ in 0..t.ix(4) {
                edit_json(&mut j, t);
            }
            let mut x = if t.chance(30) { serde_json::to_string_pretty(&j).unwrap() } else { j.to_string() };
            for _ in 0..*t.pick(&[0, 0, 1, 2]) {
                mutate(t, &mut x);
            }
            text = x;
        }
        "soup" => {
            let mut x = String::new();
            for _ in 0..1 + t.ix(30) {
                x += &token(t);
            }
            text = x;
        }
        "deep" => text = deep(t, &mut types),
        "long" => text = long(t),
        o => panic!("{o}"),
    }
    if modules.is_empty() {
        modules.push(t.pick(ROOTS).module);
        types.push(t.pick(&s.registry).short.clone());
    }
    n.key(&text);
    n.class(match k {
        "xml" => "mutated XML",
        "json" => "mutated JSON",
        "soup" => "token soup",
        "deep" => "deep nesting",
        _ => "very long",
    });
    if text.len() < 4000 {
        n.sample = Some(json!(text));
    }
    let ty: Vec<&str> = types.iter().map(|s| s.as_str()).collect();
    match small_stack(|| all_text(&text, &modules, &ty)) {
        Ok((e, accepted)) => {
            n.evals = e;
            if accepted {
                n.class("accepted by a reader");
            }
            Ok(())
        }
        Err(f) => Err(f),
    }
}

fn deep(t: &mut Tape, types: &mut Vec<String>) -> String {
    let s = schema();
    let r = t.pick(&s.registry);
    types.push(r.short.clone());
    let d = *t.pick(&[10usize, 100, 126, 127, 128, 129, 130, 200, 500, 1000, 3000, 10000, 50000]);
    let nm = match t.ix(6) {
        0 => "a".to_string(),
        1 => "Document".into(),
        2 => "AppHdr".into(),
        3 => "Envelope".into(),
        4 => r.element.clone(),
        _ => name_token(t),
    };
    if t.chance(35) {
        // JSON
        let (o, c) = match t.ix(3) {
            0 => ("[".to_string(), "]"),
            1 => (format!("{{\"{nm}\":"), "}"),
            _ => (format!("[{{\"{nm}\":"), "}]"),
        };
        let mut x = o.repeat(d);
        x += t.pick(&["1", "\"\"", "null", "{}"]);
        if t.chance(70) {
            x += &c.repeat(d);
        }
        return match t.ix(4) {
            0 => x,
            1 => format!("{{\"AppHdr\":{x},\"Document\":{{}}}}"),
            2 => format!("{{\"AppHdr\":{{}},\"Document\":{{\"{}\":{x}}}}}", r.element),
            _ => format!("{{\"x\":{x},\"AppHdr\":{{\"MsgDefIdr\":\"{}\"}}}}", r.full),
        };
    }
    let mut x = format!("<{nm}>").repeat(d);
    x += t.pick(&["", "text", "<b/>", "<!-- c -->"]);
    if t.chance(75) {
        x += &format!("</{nm}>").repeat(if t.chance(90) { d } else { d / 2 });
    }
    let h = mx::fixed_header_xml(&r.full);
    match t.ix(7) {
        0 => x,
        1 => format!("<Envelope>{h}<Document>{x}</Document></Envelope>"),
        2 => format!("<Envelope>{h}<Document><{0}>{x}</{0}></Document></Envelope>", r.element),
        3 => format!("<Envelope><AppHdr>{x}</AppHdr><Document><{0}/></Document></Envelope>", r.element),
        4 => format!("<Document><{0}>{x}</{0}></Document>", r.element),
        5 => format!("<Document><{0}><GrpHdr>{x}</GrpHdr></{0}></Document>", r.element),
        _ => format!("<Envelope>{x}{h}<Document><{0}/></Document></Envelope>", r.element),
    }
}

fn long(t: &mut Tape) -> String {
    let s = schema();
    let m = t.pick(&s.modules);
    let k = 1000 * (1 + t.ix(30));
    let nm = name_token(t);
    let el = m.reg.as_ref().map(|r| r.element.clone()).unwrap_or(nm.clone());
    let full = m.reg.as_ref().map(|r| r.full.clone()).unwrap_or("x".into());
    let h = mx::fixed_header_xml(&full);
    match t.ix(9) {
        0 => format!("<Envelope>{h}<Document><{el}>{}</{el}></Document></Envelope>", format!("<{nm}>1</{nm}>").repeat(k)),
        1 => format!("<Envelope>{h}<Document><{el}>{}</{el}></Document></Envelope>", "é".repeat(k * 10)),
        2 => format!("<Envelope {}>{h}<Document><{el}/></Document></Envelope>", (0..k).map(|i| format!("a{i}='x' ")).collect::<String>()),
        3 => format!("{}<Envelope>{h}<Document><{el}/></Document></Envelope>", "<!-- x -->".repeat(k)),
        4 => format!("<Envelope>{h}<Document>{}<{el}/></Document></Envelope>", "<?p i?>".repeat(k)),
        5 => "<".repeat(k),
        6 => format!("<Document><{el}>{}</{el}></Document>", "&amp;".repeat(k)),
        7 => format!("{{\"AppHdr\":{{}},\"Document\":{{\"{el}\":{{\"x\":[{}1]}}}}}}", "1,".repeat(k)),
        _ => format!("<Envelope>{}<Document><{el}/></Document></Envelope>", h.repeat(k / 20)),
    }
}

/// Arbitrary JSON with keys the library looks at.
pub fn any_json(t: &mut Tape, depth: usize) -> Value {
    match t.ix(if depth == 0 { 6 } else { 9 }) {
        0 => Value::Null,
        1 => json!(t.chance(50)),
        2 => json!(t.below(1 << 40) as i64 - (1 << 20)),
        3 => t.pick(&[json!(1.5), json!(-0.0), json!(1e300), json!(u64::MAX), json!(i64::MIN)]).clone(),
        4 => json!(strgen::any(t, 20)),
        5 => json!(token(t)),
        6 => Value::Array((0..t.ix(4)).map(|_| any_json(t, depth - 1)).collect()),
        _ => {
            let mut o = Map::new();
            for _ in 0..t.ix(5) {
                let k = match t.ix(5) {
                    0 => strgen::any(t, 6),
                    1 => name_token(t),
                    _ => t.pick(&["source", "target", "data", "metadata", "mx_message", "message_type", "AppHdr", "Document", "payload", "MsgDefIdr", "Envelope", "x", "y"]).to_string(),
                };
                o.insert(k, any_json(t, depth - 1));
            }
            Value::Object(o)
        }
    }
}

fn count(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(count).sum(),
        Value::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}
fn nth<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        Value::Array(a) => a.iter_mut().find_map(|x| nth(x, n)),
        Value::Object(o) => o.values_mut().find_map(|x| nth(x, n)),
        _ => None,
    }
}

/// Replace, remove or add one node anywhere.
fn edit_json(v: &mut Value, t: &mut Tape) {
    let c = count(v);
    let mut i = t.ix(c);
    let Some(x) = nth(v, &mut i) else { return };
    match (t.ix(4), &mut *x) {
        (0, Value::Object(o)) => {
            let k = o.keys().nth(t.ix(o.len().max(1))).cloned();
            if let Some(k) = k {
                o.remove(&k);
            }
        }
        (1, Value::Object(o)) => {
            let k = name_token(t);
            o.insert(k, any_json(t, 2));
        }
        (0, Value::Array(a)) => {
            a.pop();
        }
        (1, Value::Array(a)) => a.push(any_json(t, 2)),
        (2, x) => *x = json!([x.clone()]),
        _ => *x = any_json(t, 2),
    }
}

fn scenario(t: &mut Tape, depth: usize) -> Value {
    match t.ix(if depth == 0 { 4 } else { 7 }) {
        0 => json!(strgen::any(t, 10)),
        1 => json!(t.below(1000)),
        2 => json!({"var": t.pick(&["a", "b", "c.d", "zz"])}),
        3 => match t.ix(4) {
            0 => json!({"fake": ["uuid"]}),
            1 => json!({"fake": ["u32", 1, 9]}),
            2 => json!({"cat": ["x", {"var": "a"}]}),
            _ => json!({"fake": ["nonsense"]}),
        },
        4 => Value::Array((0..t.ix(4)).map(|_| scenario(t, depth - 1)).collect()),
        _ => {
            let mut o = Map::new();
            for _ in 0..t.ix(4) {
                o.insert(format!("{}{}", name_token(t), t.ix(3)), scenario(t, depth - 1));
            }
            Value::Object(o)
        }
    }
}

fn c09_plugin(t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let name = *t.pick(&PLUGINS);
    let key = |t: &mut Tape| -> Value {
        match t.ix(8) {
            0 => json!("payload"),
            1 => json!(""),
            2 => any_json(t, 1),
            3 => json!(strgen::any(t, 8)),
            _ => json!(t.pick(&["x", "y", "mx", "a.b"])),
        }
    };
    let mut input = match t.ix(8) {
        0 => any_json(t, 2),
        1 => json!({"target": key(t)}),
        2 => json!({"source": key(t)}),
        _ => json!({"source": key(t), "target": key(t)}),
    };
    if t.chance(10) {
        edit_json(&mut input, t);
    }
    let content = |t: &mut Tape| -> Value {
        match t.ix(7) {
            0 => any_json(t, 3),
            1 => {
                let mut x = String::new();
                for _ in 0..1 + t.ix(12) {
                    x += &token(t);
                }
                json!(x)
            }
            2 => json!({"mx_message": token(t)}),
            3 | 4 => {
                let s = schema();
                let r = t.pick(&s.registry);
                let m = &s.modules[s.by_name[r.module.as_str()]];
                let v = Gen::new(m, t, Cfg::new(10, 10, Text::Mixed)).root();
                let mut j = mx::envelope(&mx::fixed_header(&r.full), &r.element, &v);
                if t.chance(50) {
                    edit_json(&mut j, t);
                }
                j
            }
            _ => {
                let s = schema();
                let r = t.pick(&s.registry);
                let m = &s.modules[s.by_name[r.module.as_str()]];
                let v = Gen::new(m, t, Cfg::new(10, 10, Text::Mixed)).root();
                let d = xmlref::plain(&xmlref::tree(m, m.root, &r.element, &v));
                let mut x = if t.chance(50) {
                    format!("<Document>{d}</Document>")
                } else {
                    format!("<Envelope>{}<Document>{d}</Document></Envelope>", mx::fixed_header_xml(&r.full))
                };
                if t.chance(60) {
                    mutate(t, &mut x);
                }
                if t.chance(20) { json!({"mx_message": x}) } else { json!(x) }
            }
        }
    };
    let payload = if name == "generate_mx" {
        match t.ix(5) {
            0 => any_json(t, 3),
            1 => json!({"variables": any_json(t, 2), "schema": scenario(t, 3)}),
            _ => json!({"variables": {"a": scenario(t, 1), "b": scenario(t, 2)}, "schema": scenario(t, 4)}),
        }
    } else {
        content(t)
    };
    let data = if t.chance(85) {
        let mut o = Map::new();
        for k in ["x", "y", "mx", "a.b", ""] {
            if t.chance(70) {
                o.insert(k.into(), content(t));
            }
        }
        Value::Object(o)
    } else {
        any_json(t, 2)
    };
    let metadata = if t.chance(70) { json!({"m": 1}) } else { any_json(t, 2) };
    let mut msg = api::message(&payload, &data, &metadata, &json!({}));
    if t.chance(3) {
        if let Some(c) = msg.context.as_object_mut() {
            c.remove(*t.pick(&["data", "metadata", "temp_data"]));
        }
    }
    let cfg = match t.ix(30) {
        0 => {
            let c = r#"{"name":"map","input":{"mappings":[]}}"#;
            serde_json::from_str::<FunctionConfig>(c).expect("map config")
        }
        1 => {
            let c = r#"{"name":"validation","input":{"rules":[]}}"#;
            serde_json::from_str::<FunctionConfig>(c).expect("validation config")
        }
        _ => api::custom(name, &input),
    };
    n.key(format!("{name} {input} {payload} {data} {metadata}"));
    n.class("plugin call");
    n.sample = Some(json!({"plugin": name, "input": input, "data": data}));
    n.evals = 1;
    small_stack(|| {
        let _ = api::exec(name, &mut msg, &cfg);
    });
    Ok(())
}

// ------------------------------------------------------------------ C16

pub static C16: Check = Check {
    id: "C16",
    rule: "distinct call history (operation list and order) of at least ten calls whose every result was compared with the result of the same call made first in a process of its own",
    assumptions: &[
        "thread interleavings are those the scheduler produces; timestamps and message identifiers are ignored",
    ],
    cases: |tier| {
        let k = if tier == Tier::Quick { 1 } else { 40 };
        let mut out = vec![];
        for i in 0..700 * k {
            out.push(json!({"k": "seq", "i": i}));
        }
        for i in 0..250 * k {
            out.push(json!({"k": "long", "i": i}));
        }
        out
    },
    run: c16,
    health: no_health,
};

/// Change one string leaf to a similar value.
fn nudge(v: &mut Value, t: &mut Tape) {
    let c = count(v);
    for _ in 0..20 {
        let mut i = t.ix(c);
        match nth(v, &mut i) {
            Some(Value::String(s)) if !s.is_empty() => {
                let mut cs: Vec<char> = s.chars().collect();
                let k = if t.chance(60) { cs.len() - 1 } else { t.ix(cs.len()) };
                cs[k] = match cs[k] {
                    'A' => 'B',
                    '0' => '1',
                    '1' => '2',
                    c if c.is_ascii_digit() => '0',
                    _ => 'A',
                };
                *s = cs.into_iter().collect();
                return;
            }
            Some(Value::Number(_)) => {
                let mut i2 = i;
                if let Some(x) = nth(v, &mut i2) {
                    *x = json!(t.below(1000) as f64 / 4.0);
                }
                return;
            }
            _ => {}
        }
    }
}

fn c16_ops(t: &mut Tape) -> Vec<Value> {
    let s = schema();
    let mut ops = vec![];
    for _ in 0..1 + t.ix(3) {
        let r = t.pick(&s.registry);
        let m = &s.modules[s.by_name[r.module.as_str()]];
        let text = *t.pick(&[Text::Valid, Text::Mixed, Text::Wild]);
        let v = Gen::new(m, t, Cfg::new(20, 25, text)).root();
        let h = cases::header_value(t, Text::Valid, &r.full);
        let mut js = vec![mx::envelope(&h, &r.element, &v)];
        for _ in 0..1 + t.ix(3) {
            let mut w = js[0].clone();
            match t.ix(3) {
                0 => nudge(&mut w["Document"][&r.element], t),
                1 => nudge(&mut w["AppHdr"], t),
                _ => {
                    // another document, or the same document of another message, under one header
                    let v2 = Gen::new(m, t, Cfg::new(20, 25, text)).root();
                    w["Document"] = json!({&r.element: v2});
                }
            }
            w["AppHdr"]["MsgDefIdr"] = json!(r.full);
            js.push(w);
        }
        for j in js {
            let mut js = j.to_string();
            let hm = mx::hdr_module();
            let d = xmlref::plain(&xmlref::tree(m, m.root, &r.element, &j["Document"][&r.element]));
            let hx = xmlref::plain(&xmlref::tree(hm, hm.root, "AppHdr", &j["AppHdr"]));
            let mut x = format!("<Envelope>{hx}<Document>{d}</Document></Envelope>");
            let mut dx = format!("<Document>{d}</Document>");
            if t.chance(20) {
                mutate(t, &mut x);
                mutate(t, &mut js);
                mutate(t, &mut dx);
            }
            let src = *t.pick(&["payload", "s", "o"]);
            let ctx = |c: &str| json!({"s": c, "o": {"mx_message": c}, "t": 1, "j": j});
            let n = 1 + t.ix(4);
            for _ in 0..n {
                ops.push(match t.ix(14) {
                    0 => json!({"op": "from_xml", "s": x}),
                    1 => json!({"op": "from_json", "s": js}),
                    2 | 3 => json!({"op": "validate", "s": js, "cfg": t.ix(9)}),
                    4 => json!({"op": "peek_xml", "s": x}),
                    5 => json!({"op": "peek_json", "s": js}),
                    6 => json!({"op": "ext", "s": dx}),
                    7 => json!({"op": "env_str", "s": *t.pick(&[&x, &dx]), "t": r.short}),
                    8 => json!({"op": "doc", "s": dx, "t": if t.chance(80) { &r.short } else { &t.pick(&s.registry).short }}),
                    9 => json!({"op": "to_json", "s": dx}),
                    10 => json!({"op": "plugin", "name": "publish_mx", "payload": "", "data": ctx(""), "metadata": {}, "input": {"source": "j", "target": t.pick(&["t", "u"])}}),
                    11 => {
                        let c = *t.pick(&[&x, &dx]);
                        json!({"op": "plugin", "name": "parse_mx", "payload": c, "data": ctx(c), "metadata": {}, "input": {"source": src, "target": t.pick(&["t", "u"])}})
                    }
                    12 => {
                        let c = *t.pick(&[&x, &dx]);
                        json!({"op": "plugin", "name": "validate_mx", "payload": c, "data": ctx(c), "metadata": {}, "input": {"source": src, "target": t.pick(&["t", "u"])}})
                    }
                    _ => json!({"op": "plugin", "name": "generate_mx", "payload": {"variables": {"v": 7}, "schema": {"x": {"var": "v"}, "j": js}}, "data": {}, "metadata": {}, "input": {"target": "t"}}),
                });
            }
        }
        if t.chance(40) {
            let m = t.pick(&s.modules);
            if let Some(root) = ROOTS.iter().find(|r| r.module == m.name) {
                let v = Gen::new(m, t, Cfg::new(20, 20, text)).root();
                ops.push(json!({"op": "typed", "m": root.module, "xml": false, "s": v.to_string()}));
                let mut w = v;
                nudge(&mut w, t);
                ops.push(json!({"op": "typed", "m": root.module, "xml": false, "s": w.to_string()}));
            }
        }
        if t.chance(40) {
            // the validation helpers, with names, patterns and values that recur in other combinations
            for _ in 0..2 + t.ix(8) {
                let p = if t.chance(70) {
                    *t.pick(&["[A-Z]", "[0-9]", "[a-z]", "A", "B", "[A-Z]{2,2}", "[0-9]{2,2}", "(", ")", "[A-Z]|[0-9]", "", "A|B"])
                } else {
                    &s.pats[t.ix(s.pats.len())].src
                };
                ops.push(json!({"op": "check", "k": t.pick(&["pattern", "pattern", "pattern", "length", "required"]), "p": p, "v": t.pick(&["A", "B", "5", "a", "", "AB", "55", "(", "XXXXAABB", "GB"]),
                    "f": t.pick(&["Nm", "Ctry"]), "at": t.pick(&["", "p", "p.q"]), "ff": t.chance(30), "min": t.ix(3), "max": t.ix(3)}));
            }
        }
        if t.chance(40) {
            ops.push(json!({"op": "lookup", "s": name_token(t)}));
            ops.push(json!({"op": "lookup", "s": r.short}));
            ops.push(json!({"op": "lookup", "s": r.full}));
        }
    }
    ops
}

fn safe_op(o: &Value) -> String {
    match std::panic::catch_unwind(|| api::run_op(o)) {
        Ok(s) => s,
        Err(_) => "PANIC".into(),
    }
}

fn shuffled(t: &mut Tape, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, t.ix(i + 1));
    }
    v
}

/// Runs a plan {ops, seq, threads: [[..]..]}; result: {seq: [..], threads: [[..]..]}.
fn play(plan: &Value) -> Value {
    let ops = plan["ops"].as_array().unwrap();
    let ix = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect() };
    let seq: Vec<String> = ix(&plan["seq"]).into_iter().map(|i| safe_op(&ops[i])).collect();
    let orders: Vec<Vec<usize>> = plan["threads"].as_array().unwrap().iter().map(ix).collect();
    let bar = std::sync::Barrier::new(orders.len().max(1));
    let threads: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let bar = &bar;
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        bar.wait();
                        o.iter().map(|i| safe_op(&ops[*i])).collect::<Vec<_>>()
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    json!({"seq": seq, "threads": threads})
}

/// Each operation in a process of its own (forked before any library code ran).
fn fresh(ops: &[Value]) -> Vec<String> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    ops.iter()
        .map(|o| unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::close(fds[0]);
                let s = std::thread::scope(|s| {
                    std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || safe_op(o)).unwrap().join().unwrap()
                });
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(s.as_bytes());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            let mut f = std::fs::File::from_raw_fd(fds[0]);
            let mut s = Vec::new();
            let _ = f.read_to_end(&mut s);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if st != 0 { format!("DIED {st}") } else { String::from_utf8_lossy(&s).into_owned() }
        })
        .collect()
}

/// Entry point of the helper processes: `mxverif fresh|play` with the plan on standard input.
pub fn helper(mode: &str) {
    use std::io::Read;
    install_hook();
    let mut i = String::new();
    std::io::stdin().read_to_string(&mut i).unwrap();
    let plan: Value = serde_json::from_str(&i).unwrap();
    let out = if mode == "fresh" {
        json!(fresh(plan["ops"].as_array().unwrap()))
    } else {
        std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || play(&plan)).unwrap().join().unwrap())
    };
    print!("{out}");
}

fn ask(mode: &str, plan: &Value) -> Value {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg(mode)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .expect("helper process");
    c.stdin.take().unwrap().write_all(plan.to_string().as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    serde_json::from_slice(&o.stdout).unwrap_or_else(|_| panic!("LIBPANIC helper {mode} ended with {:?}", o.status))
}

fn c16(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let ops = c16_ops(t);
    let k = ops.len();
    let mut seq = shuffled(t, k);
    for _ in 0..2 * k {
        seq.push(t.ix(k));
    }
    let threads: Vec<Vec<usize>> = (0..2 + t.ix(5)).map(|_| shuffled(t, k)).collect();
    let calls = seq.len() + threads.iter().map(|x| x.len()).sum::<usize>();
    let plan = json!({"ops": ops, "seq": seq, "threads": threads});
    n.key(plan.to_string());
    n.nontrivial = calls >= 10;
    n.evals = (calls + k) as u64;
    n.sample = Some(json!({"operations": ops.iter().map(|o| o["op"].clone()).collect::<Vec<_>>(), "order": seq, "threads": threads.len()}));
    let want = ask("fresh", &plan);
    let got = if spec["k"] == "seq" { ask("play", &plan) } else { play(&plan) };
    let here = if spec["k"] == "seq" { "" } else { " (long-running process)" };
    for (p, i) in seq.iter().enumerate() {
        if got["seq"][p] != want[*i] {
            let before: Vec<&Value> = seq[..p].iter().map(|j| &ops[*j]).collect();
            return fail(
                format!("the result of {} depends on earlier calls{here}", ops[*i]["op"].as_str().unwrap()),
                format!("call {p}: got {}\nin a fresh process: {}", got["seq"][p], want[*i]),
                json!({"call": ops[*i], "earlier_calls": before}),
            );
        }
    }
    for (o, g) in threads.iter().zip(got["threads"].as_array().unwrap()) {
        for (p, i) in o.iter().enumerate() {
            if g[p] != want[*i] {
                return fail(
                    format!("the result of {} differs when threads run concurrently{here}", ops[*i]["op"].as_str().unwrap()),
                    format!("got {}\nin a fresh process: {}", g[p], want[*i]),
                    json!({"call": ops[*i], "operations": ops, "orders": threads}),
                );
            }
        }
    }
    Ok(())
}
