//! C05 message type identification.
use crate::cases::*;
use crate::checks::codec::{markup_text, style, styled_envelope};
use crate::genmsg::{Cfg, Gen, Text};
use crate::mx;
use crate::runner::*;
use crate::schema::*;
use crate::strgen;
use crate::tape::Tape;
use crate::xmlref;
use mx_message::MxMessage;
use mx_message::message_registry as reg;
use mx_message::mx_envelope as env;
use mx_message::plugin::common;
use serde_json::{Map, Value, json};
use std::collections::BTreeSet;

const NS: &str = "urn:iso:std:iso:20022:tech:xsd:";
/// Names the library documents as legacy spellings of registered elements.
const ALIASES: &[(&str, &str)] = &[("FinInstnCdtTrf", "pacs.009"), ("Rct", "camt.025")];
/// Names the library maps although the type they map to is not supported.
const OTHER_KNOWN: &[&str] = &["ClmNonRct", "ClaimNonReceiptV07"];

pub static C05: Check = Check {
    id: "C05",
    rule: "distinct name looked up in every direction, or distinct message whose type was determined in every available way and compared with its content",
    assumptions: &[
        "spec/schema.json holds the 25 supported types; legacy element aliases (FinInstnCdtTrf, Rct, ClmNonRct) are outside the registry",
        "MsgDefIdr is non-empty and without surrounding white space",
    ],
    cases: |tier| {
        let q = tier == Tier::Quick;
        let mut out = vec![];
        out.push(json!({"k": "table"}));
        for (i, _) in schema().registry.iter().enumerate() {
            out.push(json!({"k": "entry", "e": i}));
            for r in 0..if q { 1000 } else { 16000 } {
                out.push(json!({"k": "near", "e": i, "i": r}));
                out.push(json!({"k": "json", "e": i, "i": r}));
            }
            for r in 0..if q { 2000 } else { 30_000 } {
                out.push(json!({"k": "msg", "e": i, "i": r}));
            }
        }
        out
    },
    run: c05,
    health: no_health,
};

fn c05(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let s = schema();
    n.nontrivial = true;
    match spec["k"].as_str().unwrap() {
        "table" => {
            n.key("table");
            let want: BTreeSet<[&str; 4]> = s.registry.iter().map(|r| [&*r.short, &*r.full, &*r.element, &*r.rust]).collect();
            let got: BTreeSet<[&str; 4]> =
                reg::MESSAGE_REGISTRY.iter().map(|r| [r.short_form, r.full_form, r.xml_element_name, r.rust_type_name]).collect();
            if want != got || reg::MESSAGE_REGISTRY.len() != want.len() {
                let d: Vec<_> = want.symmetric_difference(&got).collect();
                return fail("the registry differs from the supported types", format!("{d:?}"), json!(null));
            }
            Ok(())
        }
        "entry" => {
            let r = &s.registry[spec["e"].as_u64().unwrap() as usize];
            n.key(&r.short);
            n.sample = Some(json!({"short": r.short, "full": r.full, "element": r.element, "rust": r.rust}));
            let ns = format!("{NS}{}", r.full);
            for k in [&r.short, &r.full] {
                let got = [
                    reg::get_namespace(k),
                    env::get_namespace_for_message_type(k),
                    reg::normalize_message_type(k),
                    env::normalize_message_type(k),
                    reg::message_type_to_element(k).unwrap_or("none").into(),
                    reg::message_type_to_rust_type(k).unwrap_or("none").into(),
                    reg::get_full_form(k).unwrap_or("none").into(),
                ];
                let want = [ns.clone(), ns.clone(), r.short.clone(), r.short.clone(), r.element.clone(), r.rust.clone(), r.full.clone()];
                if got != want {
                    return fail("registry lookup by message type", format!("{k}: {got:?}, expected {want:?}"), json!(k));
                }
                if reg::element_to_message_type(k).is_some() || common::map_document_element_to_message_type(k).is_ok() {
                    return fail("a message type is taken for an element", k.to_string(), json!(k));
                }
            }
            for k in [&r.element, &r.rust] {
                if reg::element_to_message_type(k) != Some(&*r.short) {
                    return fail("registry lookup by element", format!("{k}: {:?}", reg::element_to_message_type(k)), json!(k));
                }
                match common::map_document_element_to_message_type(k) {
                    Ok(x) if x == r.short => {}
                    o => return fail("document element mapping", format!("{k}: {o:?}"), json!(k)),
                }
                match common::extract_message_type(&json!({"Document": {k.as_str(): {}}})) {
                    Ok(x) if x == r.short => {}
                    o => return fail("type of parsed JSON", format!("{k}: {o:?}"), json!(k)),
                }
                if let Err(f) = unknown_type(k, true) {
                    return Err(f);
                }
            }
            for (k, w) in ALIASES {
                match common::map_document_element_to_message_type(k) {
                    Ok(x) if x == *w => {}
                    o => return fail("legacy alias mapping", format!("{k}: {o:?}"), json!(k)),
                }
            }
            Ok(())
        }
        "near" => {
            let r = &s.registry[spec["e"].as_u64().unwrap() as usize];
            let base = *t.pick(&[&r.short, &r.full, &r.element, &r.rust]);
            let k = near_name(base, t);
            n.key(&k);
            n.sample = Some(json!(k));
            let all: BTreeSet<&str> = s.registry.iter().flat_map(|r| [&*r.short, &*r.full, &*r.element, &*r.rust]).collect();
            if all.contains(k.as_str()) {
                return Ok(());
            }
            unknown_type(&k, false)
        }
        "json" => json_detection(spec, t, n),
        _ => message_detection(spec, t, n),
    }
}

/// A name that is not a message type must be reported as unknown or passed through unchanged.
fn unknown_type(k: &str, is_element: bool) -> Result<(), Fail> {
    let got = [
        reg::message_type_to_element(k),
        reg::message_type_to_rust_type(k),
        reg::get_full_form(k),
        if is_element { None } else { reg::element_to_message_type(k) },
    ];
    if got.iter().any(|x| x.is_some()) {
        return fail("an unknown name is taken for a known type", format!("{k:?}: {got:?}"), json!(k));
    }
    if reg::normalize_message_type(k) != k || env::normalize_message_type(k) != k {
        return fail("an unknown message type is not passed through", format!("{k:?}: {:?}", reg::normalize_message_type(k)), json!(k));
    }
    let ns = format!("{NS}{k}");
    if reg::get_namespace(k) != ns || env::get_namespace_for_message_type(k) != ns {
        return fail("namespace of an unknown message type", format!("{k:?}: {:?}", reg::get_namespace(k)), json!(k));
    }
    if !is_element && !ALIASES.iter().any(|a| a.0 == k) && !OTHER_KNOWN.contains(&k) {
        if let Ok(x) = common::map_document_element_to_message_type(k) {
            return fail("an unknown element is taken for a known type", format!("{k:?}: {x:?}"), json!(k));
        }
        if let Ok(x) = common::extract_message_type(&json!({"Document": {k: {}}})) {
            return fail("an unknown element is taken for a known type", format!("{k:?}: {x:?}"), json!(k));
        }
        // and the same for the readers
        let xml = format!("<Envelope>{}<Document>{{}}</Document></Envelope>", mx::fixed_header_xml("pacs.008.001.08"));
        if k.chars().all(|c| c.is_ascii_alphanumeric()) && k.starts_with(|c: char| c.is_ascii_alphabetic()) {
            let x = xml.replace("{}", &format!("<{k}></{k}>"));
            if let Ok(m) = MxMessage::from_xml(&x) {
                return fail("an unknown element is read as a known type", format!("{k:?}: {}", mx::variant_short(&m.document)), json!(x));
            }
            if let Ok(x) = common::extract_message_type_from_xml(&x) {
                return fail("an unknown element is taken for a known type", format!("{k:?}: {x:?}"), json!(k));
            }
        }
    }
    Ok(())
}

fn near_name(base: &str, t: &mut Tape) -> String {
    let c: Vec<char> = base.chars().collect();
    match t.ix(14) {
        0 => base.to_uppercase(),
        1 => base.to_lowercase(),
        2 => format!("{base} "),
        3 => format!(" {base}"),
        4 => {
            let mut v = c.clone();
            v.remove(t.ix(c.len()));
            v.into_iter().collect()
        }
        5 => {
            let mut v = c.clone();
            let i = t.ix(c.len());
            v.insert(i, c[i]);
            v.into_iter().collect()
        }
        6 => {
            let mut v = c.clone();
            let i = t.ix(c.len());
            v[i] = *t.pick(&['0', '1', '9', 'x', 'A', '.', '_', '\u{e9}']);
            v.into_iter().collect()
        }
        7 => c[..t.ix(c.len() + 1)].iter().collect(),
        8 => c[t.ix(c.len())..].iter().collect(),
        9 => format!("{base}{}", t.pick(&["0", "1", ".0", ".001", ".001.99", "x", "V01", "\n"])),
        10 => {
            // another version or variant of the same message
            let o = t.pick(&schema().registry);
            format!("{}.001.{:02}", o.short, t.below(14))
        }
        11 => format!("{}.{:03}", t.pick(&["pacs", "pain", "camt", "admi", "acmt", "seev", "head"]), t.below(120)),
        12 => strgen::any(t, 10),
        _ => format!("{}:{base}", t.pick(&["urn", "pacs", "x"])),
    }
}

fn json_detection(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let s = schema();
    let r = &s.registry[spec["e"].as_u64().unwrap() as usize];
    // arbitrary members around the ones that decide
    let mut o = Map::new();
    let junk = |t: &mut Tape| match t.ix(5) {
        0 => Value::Null,
        1 => json!(strgen::any(t, 8)),
        2 => json!({"MsgDefIdr": t.pick(&s.registry).full}),
        3 => json!([{"AppHdr": {"MsgDefIdr": t.pick(&s.registry).full}}]),
        _ => json!({t.pick(&s.registry).element.as_str(): {}}),
    };
    for _ in 0..t.ix(4) {
        let k = match t.ix(3) {
            0 => strgen::any(t, 8),
            1 => t.pick(&["Body", "appHdr", "document", "MsgDefIdr", "zz", "messageType", "Header"]).to_string(),
            _ => t.pick(&s.registry).element.clone(),
        };
        if !["message_type", "Document", "AppHdr", "Envelope"].contains(&k.as_str()) {
            o.insert(k, junk(t));
        }
    }
    let hdr = t.chance(70);
    let wrapped = hdr && t.chance(40);
    let doc = t.chance(70);
    let mt = t.chance(25);
    let id = match t.ix(3) {
        0 => r.full.clone(),
        1 => r.short.clone(),
        _ => near_name(&r.full, t),
    };
    let h = json!({"MsgDefIdr": id, "BizSvc": "x"});
    if wrapped {
        o.insert("Envelope".into(), json!({"AppHdr": h}));
    } else if hdr {
        o.insert("AppHdr".into(), h);
    }
    let body = junk(t);
    if doc {
        o.insert("Document".into(), json!({r.element.as_str(): body}));
    }
    let stated = strgen::any(t, 8);
    if mt {
        o.insert("message_type".into(), json!(stated));
    }
    let v = Value::Object(o);
    let text = v.to_string();
    n.nontrivial = hdr || doc || mt;
    n.key(&text);
    n.sample = Some(v.clone());
    let want = s.registry.iter().find(|x| x.full == id || x.short == id).map(|x| x.short.clone()).unwrap_or(id);
    let p = env::peek_message_type_from_json(&text).ok();
    if p != if hdr { Some(want.clone()) } else { None } {
        return fail("peeked JSON type differs from the header", format!("{p:?}, header says {want:?} (present {hdr}): {text}"), v);
    }
    let g = common::extract_message_type(&v).ok();
    let w = if mt {
        Some(stated)
    } else if doc {
        Some(r.short.clone())
    } else {
        None
    };
    if g != w {
        return fail("type of parsed JSON differs from its content", format!("{g:?}, expected {w:?}: {text}"), v);
    }
    Ok(())
}

fn message_detection(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let s = schema();
    let r = &s.registry[spec["e"].as_u64().unwrap() as usize];
    let m = &s.modules[s.by_name[&r.module]];
    let h = mx::hdr_module();
    let (opt, budget) = *t.pick(&[(0, 10), (20, 30), (40, 80)]);
    let text = *t.pick(&[Text::Valid, Text::Mixed]);
    let v = Gen::new(m, t, Cfg::new(opt, budget, text)).root();
    // the header may name any type at all: the library reports what it says, and reads the document by its element
    let id = match t.ix(6) {
        0 | 1 => r.full.clone(),
        2 => t.pick(&s.registry).full.clone(),
        3 => t.pick(&s.registry).short.clone(),
        4 => near_name(&r.full, t),
        _ => markup_text(t),
    };
    // what an XML text value keeps
    let id: String = id.chars().filter(|c| *c >= ' ' && *c != '\u{fffe}' && *c != '\u{ffff}').collect::<String>().trim().to_string();
    let id = if id.is_empty() { "x".to_string() } else { id };
    let hv = header_value(t, text, &id);
    let ht = xmlref::tree(h, h.root, "AppHdr", &hv);
    let alias = t.chance(15);
    let el = if alias { &r.rust } else { &r.element };
    let dt = xmlref::tree(m, m.root, el, &v);
    let st = style(t);
    let x = styled_envelope(&ht, &dt, &st, t);
    n.key(&x);
    n.sample = Some(json!(x));
    let inp = json!({"type": r.short, "xml": x});
    let a = match MxMessage::from_xml(&x) {
        Ok(a) => a,
        Err(e) => return fail("a valid message is rejected", format!("{}: {e}\n{x}", r.short), inp),
    };
    let norm = s.registry.iter().find(|k| k.full == id || k.short == id);
    let want_short = norm.map(|k| k.short.clone()).unwrap_or_else(|| id.clone());
    let want_ns = format!("{NS}{}", norm.map(|k| k.full.clone()).unwrap_or_else(|| id.clone()));
    if mx::variant_short(&a.document) != r.short {
        return fail("the document is read as another type", format!("{} read as {}", r.short, mx::variant_short(&a.document)), inp);
    }
    if a.document.namespace() != format!("{NS}{}", r.full) {
        return fail("Document::namespace differs from its type", format!("{}: {}", r.short, a.document.namespace()), inp);
    }
    match a.message_type() {
        Ok(k) if k == id => {}
        o => return fail("message_type() differs from the header", format!("{id:?}: {o:?}"), inp),
    }
    match a.namespace() {
        Ok(k) if k == want_ns => {}
        o => return fail("namespace() differs from the header's type", format!("{want_ns:?}: {o:?}"), inp),
    }
    let again = a.to_xml().unwrap_or_default();
    let js = a.to_json().unwrap_or_default();
    for (y, d) in [(&x, "given"), (&again, "written")] {
        match env::peek_message_type_from_xml(y) {
            Ok(k) if k == want_short => {}
            o => return fail("peeked XML type differs from the header", format!("{d}: {want_short:?}: {o:?}\n{y}"), inp),
        }
        match common::extract_message_type_from_xml(y) {
            Ok(k) if k == r.short => {}
            o => return fail("type of the XML document element is wrong", format!("{d}: {}: {o:?}\n{y}", r.short), inp),
        }
    }
    match env::peek_message_type_from_json(&js) {
        Ok(k) if k == want_short => {}
        o => return fail("peeked JSON type differs from the header", format!("{want_short:?}: {o:?}"), inp),
    }
    let jv: Value = serde_json::from_str(&js).unwrap_or_default();
    match common::extract_message_type(&jv) {
        Ok(k) if k == r.short => {}
        o => return fail("type of parsed JSON differs from its content", format!("{}: {o:?}", r.short), inp),
    }
    match env::peek_message_type_from_json(&json!({"Envelope": jv}).to_string()) {
        Ok(k) if k == want_short => {}
        o => return fail("peeked JSON type differs from the header", format!("wrapped: {want_short:?}: {o:?}"), inp),
    }
    // a prefixed document element is still recognized by the plugins' detection
    let pre = format!("<p:{el}>");
    let y = format!("<Document xmlns:p=\"u\">{pre}</p:{el}></Document>");
    match common::extract_message_type_from_xml(&y) {
        Ok(k) if k == r.short => {}
        o => return fail("type of a prefixed document element is wrong", format!("{}: {o:?}", r.short), json!(y)),
    }
    Ok(())
}
