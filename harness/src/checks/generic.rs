//! C22: the generic XML to JSON conversion keeps every element, attribute and text at its place.
use crate::cases::*;
use crate::genmsg::{self, Text, short};
use crate::mx::{self, Msg};
use crate::runner::*;
use crate::schema::schema;
use crate::strgen;
use crate::tape::Tape;
use crate::xmlref::{self, Node, Style};
use mx_message::xml::from_mx_xml_to_json;
use serde_json::{Map, Value, json};

pub static C22: Check = Check {
    id: "C22",
    rule: "distinct XML text with more than one element that was converted and compared with the tree it was written from, or was cut off or damaged and had to be rejected",
    assumptions: &[
        "element and attribute names without namespace prefix (except the xmlns declarations); text without surrounding XML white space",
        "an element that occurs once is an object, one that occurs several times under the same parent an array in document order",
    ],
    cases: |tier| {
        let mut out = vec![];
        let r = if tier == Tier::Quick { 1 } else { 20 };
        for m in &schema().modules {
            for i in 0..40 * r {
                out.push(json!({"k": "msg", "m": m.name, "i": i}));
            }
        }
        for (k, n) in [("tree", 60_000), ("wide", 600), ("deep", 2_000), ("cut", 12_000), ("swap", 4_000)] {
            for i in 0..n * r {
                out.push(json!({"k": k, "i": i}));
            }
        }
        out
    },
    run: c22,
    health: |a| {
        for c in ["repeated", "interleaved", "mixed", "attribute", "single", "empty"] {
            if a.classes.get(c).copied().unwrap_or(0) < 200 {
                return Err(format!("too few cases with class {c}"));
            }
        }
        Ok(())
    },
};

/// An element with everything it contains, in order.
struct El {
    name: String,
    attrs: Vec<(String, String)>,
    items: Vec<Item>,
}

enum Item {
    Text(String),
    El(El),
}

fn from_node(n: &Node) -> El {
    let mut items: Vec<Item> = n.kids.iter().map(|k| Item::El(from_node(k))).collect();
    if let Some(t) = n.text.as_ref().filter(|t| !t.is_empty()) {
        items.push(Item::Text(t.clone()));
    }
    El { name: n.name.clone(), attrs: n.attrs.clone(), items }
}

fn add(o: &mut Map<String, Value>, seen: &mut Vec<(String, usize)>, name: &str, v: Value) {
    match seen.iter_mut().find(|(k, _)| k == name) {
        None => {
            seen.push((name.to_string(), 1));
            o.insert(name.to_string(), v);
        }
        Some((_, count)) => {
            *count += 1;
            let old = o.get_mut(name).unwrap();
            if *count == 2 {
                *old = json!([old.clone(), v]);
            } else {
                old.as_array_mut().unwrap().push(v);
            }
        }
    }
}

fn want(e: &El, n: &mut Note) -> Value {
    let mut o = Map::new();
    let mut seen = vec![];
    for (k, v) in &e.attrs {
        n.class("attribute");
        add(&mut o, &mut seen, &format!("@{k}"), json!(v));
    }
    let mut last = "";
    let mut met: Vec<&str> = vec![];
    for i in &e.items {
        match i {
            Item::Text(t) => {
                if e.items.len() > 1 {
                    n.class("mixed");
                }
                add(&mut o, &mut seen, "$text", json!(t));
            }
            Item::El(k) => {
                if met.contains(&k.name.as_str()) {
                    n.class(if k.name == last { "repeated" } else { "interleaved" });
                }
                met.push(&k.name);
                last = &k.name;
                let v = want(k, n);
                add(&mut o, &mut seen, &k.name, v);
            }
        }
    }
    if e.items.is_empty() {
        n.class("empty");
    } else if e.items.len() == 1 {
        n.class("single");
    }
    n.classes.sort();
    n.classes.dedup();
    Value::Object(o)
}

fn count(e: &El) -> usize {
    1 + e.items.iter().map(|i| if let Item::El(k) = i { count(k) } else { 0 }).sum::<usize>()
}

fn write(e: &El, st: &Style, t: &mut Tape, o: &mut String) {
    let text = e.items.iter().any(|i| matches!(i, Item::Text(_)));
    if e.items.len() <= 1 && (text || e.items.is_empty()) {
        let text = e.items.first().map(|i| if let Item::Text(t) = i { t.clone() } else { unreachable!() });
        let n = Node { name: e.name.clone(), attrs: e.attrs.clone(), text, kids: vec![], leaf: None };
        return xmlref::write(&n, st, t, 0, o);
    }
    // the start tag as the reference writer writes it
    let n = Node { name: e.name.clone(), attrs: e.attrs.clone(), text: Some("x".into()), kids: vec![], leaf: None };
    let mut s = String::new();
    xmlref::write(&n, &Style { pad_text: false, cdata: false, char_refs: false, ..st.clone() }, t, 0, &mut s);
    let end = s.rfind("x</").unwrap();
    o.push_str(&s[..end]);
    for i in &e.items {
        if st.indent && !text {
            o.push_str(if st.crlf { "\r\n  " } else { "\n  " });
        }
        if st.comments && !text && t.chance(15) {
            o.push_str(t.pick(&["<!-- note -->", "<!-- <a>1</a> -->"]));
        }
        match i {
            Item::Text(x) => o.push_str(&xmlref::esc_text(x, &Style { cdata: false, ..st.clone() }, t)),
            Item::El(k) => write(k, st, t, o),
        }
    }
    o.push_str(&s[end + 1..]);
}

const NAMES: [&str; 14] = ["a", "b", "Id", "Nm", "AdrLine", "Ntry", "Document", "AppHdr", "Amt", "text", "value", "_x", "A-1.2", "\u{e9}l"];

fn random(t: &mut Tape, left: &mut usize, depth: usize) -> El {
    let name = t.pick(&NAMES).to_string();
    let mut attrs: Vec<(String, String)> = vec![];
    while t.chance(15) && attrs.len() < 4 {
        let k = t.pick(&["Ccy", "a", "b", "xmlns", "xmlns:xsi", "Tp", "Id"]).to_string();
        if attrs.iter().all(|(x, _)| *x != k) {
            attrs.push((k, strgen::wild(t, 12).replace(['\n', '\t', '\r'], " ")));
        }
    }
    let mut items = vec![];
    if depth > 0 && *left > 0 && !t.chance(if depth > 6 { 5 } else { 30 }) {
        let most = t.range(1, 8).min(*left);
        // few names, so that they recur side by side and apart
        let mut same: Option<String> = None;
        for _ in 0..most {
            if *left == 0 {
                break;
            }
            *left -= 1;
            if t.chance(12) && !matches!(items.last(), Some(Item::Text(_))) {
                if let Some(x) = text(t) {
                    items.push(Item::Text(x));
                    continue;
                }
            }
            let mut k = random(t, left, depth - 1);
            if let Some(s) = same.clone().filter(|_| t.chance(45)) {
                k.name = s;
            }
            same = Some(k.name.clone());
            items.push(Item::El(k));
        }
    } else if t.chance(70) {
        items.extend(text(t).map(Item::Text));
    }
    El { name, attrs, items }
}

fn text(t: &mut Tape) -> Option<String> {
    let s = match t.ix(6) {
        0 => "x".to_string(),
        1 => t.pick(&["true", "1.50", "0", "null", "[1]", "{}", "12345678901234567890", "-1e5"]).to_string(),
        2 => t.pick(&["<a>", "]]>", "&amp;", "a\u{a0}b", "\u{1F600}", "\"'"]).to_string(),
        _ => strgen::wild(t, 30),
    };
    let s = s.trim_matches([' ', '\t', '\n', '\r']).to_string();
    (!s.is_empty()).then_some(s)
}

fn c22(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let k = spec["k"].as_str().unwrap();
    let mut st = Style::default();
    let e = match k {
        "msg" => {
            let m = module(spec);
            let (opt, budget) = *t.pick(&[(25, 60), (10, 30), (50, 200), (80, 300)]);
            let v = genmsg::Gen::new(m, t, genmsg::Cfg::new(opt, budget, Text::Mixed)).root();
            match &m.reg {
                Some(r) => {
                    let h = mx::hdr_module();
                    let hv = header_value(t, Text::Mixed, &r.full);
                    let doc = xmlref::tree(m, m.root, &r.element, &v);
                    let doc = Node { name: "Document".into(), attrs: vec![], text: None, kids: vec![doc], leaf: None };
                    let hdr = xmlref::tree(h, h.root, "AppHdr", &hv);
                    from_node(&Node { name: "Envelope".into(), attrs: vec![("xmlns".into(), "urn:x".into())], text: None, kids: vec![hdr, doc], leaf: None })
                }
                None => from_node(&xmlref::tree(m, m.root, &Msg::root_name(m), &v)),
            }
        }
        "wide" => {
            // very many elements of one name, with others between them
            let count = t.range(2, 2500);
            let apart = t.chance(50);
            let mut items = vec![];
            for i in 0..count {
                items.push(Item::El(El { name: "Ntry".into(), attrs: vec![], items: vec![Item::Text(i.to_string())] }));
                if apart && t.chance(20) {
                    items.push(Item::El(El { name: t.pick(&["Bal", "Nb"]).to_string(), attrs: vec![], items: vec![] }));
                }
            }
            El { name: "Rpt".into(), attrs: vec![], items }
        }
        "deep" => {
            let mut left = 10;
            let mut e = random(t, &mut left, 2);
            for _ in 0..t.range(20, 110) {
                let mut items = vec![Item::El(e)];
                if t.chance(30) {
                    items.push(Item::El(El { name: t.pick(&NAMES).to_string(), attrs: vec![], items: vec![] }));
                }
                e = El { name: t.pick(&NAMES).to_string(), attrs: vec![], items };
            }
            e
        }
        _ => {
            let mut left = *t.pick(&[6, 20, 60]);
            random(t, &mut left, 8)
        }
    };
    for f in [&mut st.indent, &mut st.crlf, &mut st.char_refs, &mut st.cdata, &mut st.single_quotes, &mut st.tag_space, &mut st.comments, &mut st.split, &mut st.gt_raw, &mut st.pi] {
        *f = t.chance(35);
    }
    let mut x = t.pick(&["", "", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "\u{feff}", "<!-- c -->\n", "<?xml version='1.0'?>\n<!-- <a/> -->\n"]).to_string();
    let start = x.len();
    write(&e, &st, t, &mut x);
    n.key(&x);
    n.nontrivial = count(&e) > 1;
    n.sample = Some(json!({"kind": k, "xml": x.chars().take(2000).collect::<String>()}));
    let broken = match k {
        "cut" => {
            // anywhere before the root element's end tag is complete
            let mut at = start + 1 + t.ix(x.len() - start - 1);
            while !x.is_char_boundary(at) {
                at -= 1;
            }
            Some(x[..at.max(start + 1)].to_string())
        }
        "swap" => {
            // an end tag that belongs to no start tag
            let ends: Vec<usize> = x.match_indices("</").map(|(i, _)| i).collect();
            if ends.is_empty() { None } else { t.pick(&ends).checked_add(2).map(|i| format!("{}Q{}", &x[..i], &x[i..])) }
        }
        _ => None,
    };
    if let Some(b) = broken {
        if xmlref::parse(b.trim_start_matches('\u{feff}')).is_ok() {
            n.nontrivial = false;
            return Ok(());
        }
        n.class("broken");
        if let Ok(v) = from_mx_xml_to_json(&b) {
            return fail("from_mx_xml_to_json accepts broken XML", format!("{}\n{b}", short(&v)), json!({"xml": b}));
        }
        return Ok(());
    }
    if matches!(k, "cut" | "swap") {
        n.nontrivial = false;
        return Ok(());
    }
    let want = want(&e, n);
    match from_mx_xml_to_json(&x) {
        Ok(v) if v == want => Ok(()),
        Ok(v) => {
            let d = diff(&want, &v, String::new());
            fail("from_mx_xml_to_json loses or changes content", format!("{d}\n{x}"), json!({"xml": x, "expected": want}))
        }
        Err(e) => fail("from_mx_xml_to_json rejects well-formed XML", format!("{e}\n{x}"), json!({"xml": x})),
    }
}

/// Where two values differ first.
fn diff(a: &Value, b: &Value, path: String) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return format!("{path}/{k} is missing"),
                    Some(w) if w != v => return diff(v, w, format!("{path}/{k}")),
                    _ => {}
                }
            }
            let more: Vec<&String> = y.keys().filter(|k| !x.contains_key(*k)).collect();
            format!("{path} has {more:?} in addition")
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            let i = x.iter().zip(y).position(|(a, b)| a != b).unwrap_or(0);
            diff(&x[i], &y[i], format!("{path}/{i}"))
        }
        _ => format!("{path} is {} instead of {}", short(b), short(a)),
    }
}
