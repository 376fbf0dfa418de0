//! C20: cost grows in proportion to the size of the input.
use crate::api;
use crate::cases::module;
use crate::genmsg::{Cfg, Fill, Gen, Plan, Text};
use crate::mx;
use crate::runner::*;
use crate::schema::*;
use crate::tape::Tape;
use crate::xmlref;
use mx_message::MxMessage;
use mx_message::mx_envelope::{peek_message_type_from_json, peek_message_type_from_xml};
use mx_message::parse_result::ParserConfig;
use mx_message::plugin::common::extract_message_type_from_xml;
use mx_message::xml::{from_mx_xml_envelope_str, from_mx_xml_to_json, xml_to_json_via_document};
use serde_json::{Value, json};

/// how many times larger the large input is
const K: usize = 16;
/// cost may grow by this factor at most; a quadratic cost grows by 256
const LIMIT: f64 = 96.0;

pub static C20: Check = Check {
    id: "C20",
    rule: "distinct (message, way of growing) whose operations were all timed on an input and on one 16 times as large",
    assumptions: &[
        "cost is thread CPU time, the least of three runs; an operation violates the property when three separate measurements all show it to grow more than 96-fold for a 16-fold input (proportional: 16, quadratic: 256)",
    ],
    cases: |t| {
        let mut v = vec![];
        for m in schema().modules.iter().filter(|m| m.reg.is_some()) {
            for g in &GROWTHS {
                for r in 0..if t == Tier::Quick { if matches!(*g, "text" | "comments" | "prolog") { 2 } else { 1 } } else { 12 } {
                    v.push(json!({"m": m.name, "g": g, "r": r}));
                }
            }
        }
        for r in 0..if t == Tier::Quick { 4 } else { 16 } {
            v.push(json!({"g": "errors", "r": r}));
        }
        v
    },
    run: c20,
    health: no_health,
};

const GROWTHS: [&str; 9] = ["items", "text", "comments", "space", "cdata", "unknown", "prolog", "lines", "members"];

/// What a growing text repeats.
const UNITS: [&str; 24] = [
    "Ab1 ", "<&>", "\r", "\n", "\"", "\\", "'", "]]>", "\u{e9}", "\u{1f3e6}", "&amp;", "</Document>", "<Document>", "<AppHdr>", "<MsgDefIdr>", "xmlns=", "\r\n", "a  ", "\t", "{\"", "\\n", "?>", "-->", ".",
];

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
unsafe extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}

fn cpu() -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    assert_eq!(unsafe { clock_gettime(3, &mut t) }, 0);
    t.s as f64 + t.n as f64 * 1e-9
}

fn cost(f: &dyn Fn()) -> f64 {
    (0..3)
        .map(|_| {
            let a = cpu();
            f();
            cpu() - a
        })
        .fold(f64::MAX, f64::min)
}

/// Where a message can grow: the path of a repeated field and of a text field.
fn places(m: &Module, want: &dyn Fn(&Field) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (ti, t) in m.types.iter().enumerate() {
        if let Def::Struct(fs) = &t.def {
            v.extend(fs.iter().enumerate().filter(|(_, f)| want(f)).map(|(fi, _)| (ti, fi)));
        }
    }
    v
}

/// Grow the first array / string found at field `name` of the value.
fn grow(v: &mut Value, name: &str, f: &mut dyn FnMut(&mut Value) -> bool) -> bool {
    match v {
        Value::Object(o) => {
            if let Some(x) = o.get_mut(name)
                && f(x)
            {
                return true;
            }
            o.values_mut().any(|x| grow(x, name, f))
        }
        Value::Array(a) => a.iter_mut().any(|x| grow(x, name, f)),
        _ => false,
    }
}

struct Input {
    json: Value,
    /// the JSON text
    text: String,
    xml: String,
    doc: String,
}

fn render(m: &Module, hdr: &Value, v: &Value, fill: &dyn Fn(usize) -> String, at: &str, n: usize) -> Input {
    let r = m.reg.as_ref().unwrap();
    let h = mx::hdr_module();
    let hx = xmlref::plain(&xmlref::tree(h, h.root, "AppHdr", hdr));
    let mut dx = xmlref::plain(&xmlref::tree(m, m.root, &r.element, v));
    let mut pro = String::new();
    match at {
        "prolog" => pro = fill(n),
        "" => {}
        // inside the document, after the first start tag
        _ => {
            let p = dx.find('>').unwrap() + 1;
            dx.insert_str(p, &fill(n));
        }
    }
    let json = mx::envelope(hdr, &r.element, v);
    Input {
        text: json.to_string(),
        json,
        xml: format!("{pro}<Envelope>{hx}<Document>{dx}</Document></Envelope>"),
        doc: format!("{pro}<Document>{dx}</Document>"),
    }
}

type Op<'a> = (&'static str, Box<dyn Fn() + 'a>);

fn ops<'a>(m: &'a Module, i: &'a Input, a: &'a MxMessage, js: &'a str) -> Vec<Op<'a>> {
    let r = m.reg.as_ref().unwrap();
    let mut v: Vec<Op> = vec![
        ("from_xml", Box::new(|| drop(MxMessage::from_xml(&i.xml)))),
        ("to_xml", Box::new(|| drop(a.to_xml()))),
        ("to_json", Box::new(|| drop(a.to_json()))),
        ("from_json", Box::new(|| drop(MxMessage::from_json(js)))),
        ("peek_message_type_from_xml", Box::new(|| drop(peek_message_type_from_xml(&i.xml)))),
        ("peek_message_type_from_json", Box::new(|| drop(peek_message_type_from_json(js)))),
        ("extract_message_type_from_xml", Box::new(|| drop(extract_message_type_from_xml(&i.doc)))),
        ("xml_to_json_via_document", Box::new(|| drop(xml_to_json_via_document(&i.doc, &r.short)))),
        ("from_mx_xml_envelope_str", Box::new(|| drop(from_mx_xml_envelope_str(&i.xml, &r.short)))),
        ("from_mx_xml_envelope_str (Document)", Box::new(|| drop(from_mx_xml_envelope_str(&i.doc, &r.short)))),
        ("from_mx_xml_to_json", Box::new(|| drop(from_mx_xml_to_json(&i.xml)))),
        ("validate", Box::new(|| {
            let mut c = mx_message::parse_result::ErrorCollector::new();
            mx::validate_document(&a.document, "", &ParserConfig::default(), &mut c);
        })),
    ];
    for (p, input) in [("parse_mx", json!({"source": "x", "target": "t"})), ("validate_mx", json!({"source": "x", "target": "t"})), ("publish_mx", json!({"source": "j", "target": "t"}))] {
        let msg = std::cell::RefCell::new(api::message(&json!(""), &json!({"x": i.xml, "j": i.json}), &json!({}), &json!({})));
        v.push((p, Box::new(move || drop(api::exec(p, &mut msg.borrow_mut(), &api::custom(p, &input))))));
    }
    v
}

fn c20(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let g = spec["g"].as_str().unwrap();
    if g == "errors" {
        return errors(spec, t, n);
    }
    let m = module(spec);
    let r = m.reg.as_ref().unwrap();
    let items = matches!(g, "items" | "lines" | "members");
    let at = if items {
        places(m, &|f| matches!(f.card, Card::Plus | Card::Star))
    } else {
        places(m, &|f| matches!(f.ty, Ty::Str) && !f.name.starts_with('@') && matches!(f.card, Card::One | Card::Opt))
    };
    let (ti, fi) = *t.pick(&at);
    let f = &m.fields(ti)[fi];
    let plan = Plan { path: &m.path_to[ti], fill: Fill::Only(fi), set: None, vec_len: 1, vec_at: 0 };
    // some items violate constraints, so that validation reports as many errors
    let text = if g == "items" && t.chance(50) { Text::Wild } else { Text::Valid };
    let v = Gen::new(m, t, Cfg::new(0, 20, text)).planned(&plan);
    let hdr = mx::fixed_header(&r.full);
    n.nontrivial = true;
    n.key((&m.name, g, ti, fi));
    n.class(GROWTHS.iter().find(|x| **x == g).unwrap());
    let unit_text = *t.pick(&UNITS);
    let unit_space = *t.pick(&["\n", " ", " \n", "\r\n", "\t"]);
    let unit_comment = *t.pick(&["<!-- <AppHdr> -->\n", "<!--c-->", "<?p i?>"]);
    let unit_prolog = *t.pick(&["<!--c-->", "<?p i?>", "<?pi a?><!-- b -->\n", "<!--\n-->\n"]);
    let (ahead, in_header) = (t.chance(50), t.chance(30));
    let input = |n: usize| -> Option<Input> {
        let mut w = v.clone();
        let unit = |s: &'static str| move |n: usize| s.repeat(n / s.len() + 1);
        Some(match g {
            "items" => {
                let mut done = false;
                grow(&mut w, &f.name, &mut |x| {
                    if let Value::Array(a) = x
                        && let Some(e) = a.first().cloned()
                    {
                        let len = xmlref_len(&e);
                        *a = vec![e; n / len + 1];
                        done = true;
                    }
                    done
                });
                if !done {
                    return None;
                }
                render(m, &hdr, &w, &|_| String::new(), "", n)
            }
            "text" => {
                let (s, cost) = (unit_text, xml_len(unit_text));
                let mut hdr = hdr.clone();
                if in_header {
                    hdr["BizMsgIdr"] = json!(format!(".{}.", s.repeat(n / cost)));
                } else if !grow(&mut w, &f.name, &mut |x| {
                    let y = x.is_string();
                    if y {
                        *x = json!(format!(".{}.", s.repeat(n / cost)));
                    }
                    y
                }) {
                    return None;
                }
                render(m, &hdr, &w, &|_| String::new(), "", n)
            }
            "lines" | "members" => {
                let mut i = render(m, &hdr, &w, &|_| String::new(), "", n);
                i.text = if g == "lines" {
                    let ws = unit_space.repeat(n / unit_space.len());
                    let j = i.json.to_string();
                    if ahead { format!("{ws}{j}") } else { j.replacen(':', &format!(":{ws}"), 1) }
                } else {
                    // unknown members in front of the known ones
                    let more: String = (0..n / 16).map(|k| format!("\"x{k}\":[{k}],")).collect();
                    format!("{{{more}{}", &i.json.to_string()[1..])
                };
                i
            }
            "comments" => render(m, &hdr, &w, &unit(unit_comment), "doc", n),
            "space" => render(m, &hdr, &w, &unit("\r\n\t "), if ahead { "prolog" } else { "doc" }, n),
            "cdata" => render(m, &hdr, &w, &unit("<Unknown><![CDATA[<Document>]]></Unknown>"), "doc", n),
            "unknown" => render(m, &hdr, &w, &unit("<Unknown><A>x</A></Unknown>"), "doc", n),
            _ => render(m, &hdr, &w, &unit(unit_prolog), "prolog", n),
        })
    };
    // copying what remains after each of many small pieces is cheap for a piece: it takes more of them to see it
    let base = if matches!(g, "comments" | "prolog") { 96_000 } else { 24_000 };
    let (Some(s), Some(l)) = (input(base), input(base * K)) else {
        n.nontrivial = false;
        return Ok(());
    };
    n.sample = Some(json!({"module": m.name, "growth": g, "field": f.name, "bytes": [s.xml.len(), l.xml.len()]}));
    let load = |i: &Input| MxMessage::from_json(&i.text);
    let (Ok(sm), Ok(lm)) = (load(&s), load(&l)) else {
        return fail("from_json rejects a valid message", format!("{} {g} {}", m.name, f.name), json!(spec));
    };
    let (so, lo) = (ops(m, &s, &sm, &s.text), ops(m, &l, &lm, &l.text));
    for ((name, a), (_, b)) in so.iter().zip(&lo) {
        n.sub((&m.name, g, ti, fi, name));
        if let Some(r) = superlinear(a, b, &|| format!("{} {g} {} {name}", m.name, f.name)) {
            return fail(
                format!("{name} does not scale with {g}"),
                format!("{} {}: {} to {} bytes cost {r} times as much", m.name, f.name, s.xml.len().max(s.text.len()), l.xml.len().max(l.text.len())),
                json!({"spec": spec, "operation": name, "growth": g, "field": f.name, "unit": unit_text}),
            );
        }
    }
    Ok(())
}

/// The cost ratio, if three measurements agree that it is out of proportion.
fn superlinear(a: &dyn Fn(), b: &dyn Fn(), label: &dyn Fn() -> String) -> Option<String> {
    // below this, fixed costs and clock resolution blur the ratio
    let one = || {
        let x = cost(a).max(200e-6);
        cost(b) / x
    };
    let first = one();
    if std::env::var("SCALE").is_ok() {
        eprintln!("{first:8.1} {:10.6} {}", cost(b), label());
    }
    if first <= LIMIT {
        return None;
    }
    let again = (one(), one());
    (again.0 > LIMIT && again.1 > LIMIT).then(|| format!("{first:.0}, {:.0} and {:.0}", again.0, again.1))
}

/// Collectors and results with many errors.
fn errors(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    use mx_message::error::ValidationError;
    use mx_message::parse_result::{ErrorCollector, ParseResult};
    use mx_message::validation::helpers;
    let (same, base) = (t.chance(50), 1500 + t.ix(1000));
    n.nontrivial = true;
    n.key(("errors", same, base));
    let one = move |i: usize| {
        let i = if same { 0 } else { i };
        ValidationError::new(1001 + (i % 5) as u32, format!("m{i}")).with_field(format!("F{i}")).with_path(format!("a.b[{i}].F"))
    };
    type F<'a> = (&'static str, Box<dyn Fn(usize) + 'a>);
    let fs: Vec<F> = vec![
        ("add_error", Box::new(|k| {
            let mut c = ErrorCollector::new();
            (0..k).for_each(|i| c.add_error(one(i)));
            assert!(c.has_errors() && !c.has_critical_errors() && c.error_count() == k && c.errors().len() == k);
        })),
        ("add_critical_error", Box::new(|k| {
            let mut c = ErrorCollector::new();
            (0..k).for_each(|i| c.add_critical_error(one(i)));
            assert!(c.has_critical_errors() && c.error_count() == k && c.errors().len() == k);
        })),
        ("validate_length", Box::new(|k| {
            let mut c = ErrorCollector::new();
            for i in 0..k {
                helpers::validate_length("abc", "F", Some(1), Some(2), &helpers::child_path("a.b", &format!("F{i}")), &ParserConfig::default(), &mut c);
            }
            assert_eq!(c.error_count(), k);
        })),
        ("ParseResult", Box::new(|k| {
            let e: Vec<_> = (0..k).map(one).collect();
            let p = ParseResult::PartialSuccess(1, e.clone());
            assert!(p.errors().len() == k && p == p.clone() && p.to_result().is_ok());
            assert_eq!(ParseResult::<u8>::Failure(e).to_result().unwrap_err().len(), k);
        })),
    ];
    for (name, f) in &fs {
        n.sub(("errors", same, name));
        if let Some(r) = superlinear(&|| f(base), &|| f(base * K), &|| name.to_string()) {
            return fail(format!("{name} does not scale with the number of errors"), format!("{base} to {} errors cost {r} times as much", base * K), json!({"spec": spec, "operation": name}));
        }
    }
    Ok(())
}

fn xml_len(s: &str) -> usize {
    s.chars().map(|c| if matches!(c, '<' | '>' | '&' | '\r') { 5 } else { c.len_utf8() }).sum()
}

/// Rough length of an item in XML.
fn xmlref_len(v: &Value) -> usize {
    (v.to_string().len() * 3 / 2).max(20)
}
