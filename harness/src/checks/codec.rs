//! C01 XML round trip, C02 JSON round trip, C03 wire format against the reference schema,
//! C04 formatting invariance, C14 Document-only parsing, C15 type-specific headers and variants,
//! C17 amounts, C18 text versus markup.
use crate::cases::*;
use crate::genmsg::{self, Cfg, Fill, Gen, Plan, Text, same};
use crate::mx::{self, Msg};
use crate::runner::*;
use crate::schema::*;
use crate::strgen;
use crate::tape::Tape;
use crate::xmlref::{self, Node, Style};
use mx_message::MxMessage;
use mx_message::mx_envelope::{peek_message_type_from_json, peek_message_type_from_xml};
use mx_message::plugin::common::extract_message_type_from_xml;
use mx_message::xml::{from_mx_xml_envelope_str, xml_to_json_via_document};
use serde_json::{Map, Value, json};

fn mxv(m: &MxMessage) -> Result<Value, String> {
    let s = m.to_json().map_err(|e| format!("to_json: {e}"))?;
    serde_json::from_str(&s).map_err(|e| format!("emitted JSON does not parse: {e}"))
}

/// Envelope JSON with optional namespace fields.
fn full_json(t: &mut Tape, text: Text, r: &RegEntry, v: &Value) -> Value {
    let h = header_value(t, text, &r.full);
    let mut j = mx::envelope(&h, &r.element, v);
    for k in ["@xmlns", "@xmlns:xsi"] {
        match t.ix(4) {
            0 | 1 => {}
            2 => j[k] = json!("urn:iso:std:iso:20022:tech:xsd:head.001.001.02"),
            _ => j[k] = json!(strgen::wild(t, 12).replace(['\n', '\t'], " ")),
        }
    }
    j
}

// ------------------------------------------------------------------ C01

pub static C01: Check = Check {
    id: "C01",
    rule: "distinct generated message (by full JSON value) with more than one leaf that was written to XML and read back",
    assumptions: &[
        "strings are XML-legal and without surrounding XML white space (XML text is trimmed by design)",
        "amounts have at most 15 significant digits; repeated fields have at least one element",
    ],
    cases: |t| codec_cases(t, true, 400),
    run: c01,
    health: no_health,
};

fn c01(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let (m, v) = build(spec, t, Text::MixedCr);
    n.nontrivial = genmsg::leaves(&v) > 1;
    match &m.reg {
        Some(r) => {
            let j = full_json(t, Text::Mixed, r, &v);
            n.key(j.to_string());
            let inp = || json!({"module": m.name, "message": j});
            let a = match MxMessage::from_json(&j.to_string()) {
                Ok(a) => a,
                Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), inp()),
            };
            let x = match a.to_xml() {
                Ok(x) => x,
                Err(e) => return fail("to_xml fails", format!("{}: {e}", m.name), inp()),
            };
            let b = match MxMessage::from_xml(&x) {
                Ok(b) => b,
                Err(e) => return fail("from_xml rejects to_xml output", format!("{}: {e}\n{x}", m.name), inp()),
            };
            n.sample = Some(json!({"module": m.name, "xml": x}));
            if a != b {
                let d = same(&mxv(&a).unwrap_or_default(), &mxv(&b).unwrap_or_default());
                return fail("XML round trip changes the message", format!("{}: {d:?}\n{x}", m.name), inp());
            }
            match b.to_xml() {
                Ok(y) if y == x => {}
                o => return fail("second serialization differs", format!("{}: {o:?}\nfirst {x}", m.name), inp()),
            }
        }
        None => {
            n.key((&m.name, v.to_string()));
            let inp = || json!({"module": m.name, "message": v});
            let a = match Msg::load(m, &v) {
                Ok(a) => a,
                Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), inp()),
            };
            let x = match a.fragment() {
                Ok(x) => x,
                Err(e) => return fail("to_xml fails", format!("{}: {e}", m.name), inp()),
            };
            let b = match Msg::parse_fragment(m, &x) {
                Ok(b) => b,
                Err(e) => return fail("from_xml rejects to_xml output", format!("{}: {e}\n{x}", m.name), inp()),
            };
            if !a.same(&b) {
                let d = same(&a.value(m).unwrap_or_default(), &b.value(m).unwrap_or_default());
                return fail("XML round trip changes the message", format!("{}: {d:?}\n{x}", m.name), inp());
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

pub static C02: Check = Check {
    id: "C02",
    rule: "distinct generated message (by full JSON text given to from_json) with more than one leaf, compared field by field after the round trip",
    assumptions: &["amounts have at most 15 significant digits"],
    cases: |t| codec_cases(t, true, 400),
    run: c02,
    health: no_health,
};

/// The same message with explicit nulls for some absent optional fields.
fn with_nulls(m: &Module, ty: usize, v: &Value, t: &mut Tape) -> Value {
    let Def::Struct(fs) = &m.types[ty].def else { return v.clone() };
    let mut o = Map::new();
    for f in fs {
        match v.get(&f.name) {
            None => {
                if matches!(f.card, Card::Opt | Card::Star) && t.chance(20) {
                    o.insert(f.name.clone(), Value::Null);
                }
            }
            Some(x) => {
                let y = match f.ty {
                    Ty::Ref(c) => match x {
                        Value::Array(a) => Value::Array(a.iter().map(|e| with_nulls(m, c, e, t)).collect()),
                        e => with_nulls(m, c, e, t),
                    },
                    _ => x.clone(),
                };
                o.insert(f.name.clone(), y);
            }
        }
    }
    Value::Object(o)
}

/// Render JSON with arbitrary member order, white space, escapes and integer forms of whole numbers.
fn render_json(v: &Value, t: &mut Tape, o: &mut String) {
    let ws = |t: &mut Tape, o: &mut String| {
        if t.chance(8) {
            o.push_str(t.pick(&[" ", "\n", "\t ", "\r\n"]));
        }
    };
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            for i in (1..ks.len()).rev() {
                if t.chance(50) {
                    let j = t.ix(i + 1);
                    ks.swap(i, j);
                }
            }
            o.push('{');
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(t, o);
                o.push_str(&serde_json::to_string(k).unwrap());
                ws(t, o);
                o.push(':');
                ws(t, o);
                render_json(&m[*k], t, o);
            }
            ws(t, o);
            o.push('}');
        }
        Value::Array(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                ws(t, o);
                render_json(x, t, o);
            }
            ws(t, o);
            o.push(']');
        }
        Value::Number(x) => {
            let f = x.as_f64().unwrap();
            if f.fract() == 0.0 && f.abs() < 1e15 && f != 0.0 && t.chance(50) {
                o.push_str(&format!("{}", f as i64));
            } else {
                o.push_str(&x.to_string());
            }
        }
        Value::String(s) => {
            if t.chance(15) {
                o.push('"');
                let mut b = [0u16; 2];
                for c in s.chars() {
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{u:04x}"));
                    }
                }
                o.push('"');
            } else {
                o.push_str(&serde_json::to_string(s).unwrap());
            }
        }
        v => o.push_str(&v.to_string()),
    }
}

/// Empties some lists (JSON, unlike XML, tells them from absent ones).
fn empty_lists(v: &mut Value, t: &mut Tape) {
    match v {
        Value::Object(o) => o.values_mut().for_each(|x| empty_lists(x, t)),
        Value::Array(a) if t.chance(30) => a.clear(),
        Value::Array(a) => a.iter_mut().for_each(|x| empty_lists(x, t)),
        _ => {}
    }
}

fn c02(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let (m, mut v) = build(spec, t, Text::Any);
    n.nontrivial = genmsg::leaves(&v) > 1;
    if t.chance(10) {
        empty_lists(&mut v, t);
    }
    let mut given = String::new();
    let want;
    match &m.reg {
        Some(r) => {
            want = full_json(t, Text::Any, r, &v);
            let mut w = want.clone();
            w["Document"][&r.element] = with_nulls(m, m.root, &v, t);
            let h = mx::hdr_module();
            w["AppHdr"] = with_nulls(h, h.root, &want["AppHdr"], t);
            render_json(&w, t, &mut given);
        }
        None => {
            want = v.clone();
            render_json(&with_nulls(m, m.root, &v, t), t, &mut given);
        }
    }
    n.key((&m.name, &given));
    n.sample = Some(json!({"module": m.name, "json": given}));
    let inp = || json!({"module": m.name, "json": given});
    let r = match &m.reg {
        Some(_) => (|| {
            let a = MxMessage::from_json(&given).map_err(|e| ("from_json rejects a valid message", e.to_string()))?;
            let s = a.to_json().map_err(|e| ("to_json fails", e.to_string()))?;
            let g: Value = serde_json::from_str(&s).map_err(|e| ("to_json output is not JSON", e.to_string()))?;
            same(&want, &g).map_err(|e| ("JSON round trip changes the message", e))?;
            let b = MxMessage::from_json(&s).map_err(|e| ("from_json rejects to_json output", e.to_string()))?;
            if a != b {
                return Err(("re-read message differs", String::new()));
            }
            // the same through the serialization traits, as a whole and for its parts
            let whole = serde_json::to_value(&a).map_err(|e| ("a message is not serializable to a JSON value", e.to_string()))?;
            same(&g, &whole).map_err(|e| ("a JSON value differs from to_json", e))?;
            let c: MxMessage = serde_json::from_value(whole).map_err(|e| ("a JSON value of a message is rejected", e.to_string()))?;
            if c != a {
                return Err(("a message read from a JSON value differs", String::new()));
            }
            let part = serde_json::to_string(&a.document).map_err(|e| ("a Document is not serializable to JSON", e.to_string()))?;
            let pv: Value = serde_json::from_str(&part).map_err(|e| ("Document JSON is not JSON", e.to_string()))?;
            same(&want["Document"], &pv).map_err(|e| ("Document JSON differs from that of its message", e))?;
            let d: mx_message::mx_envelope::Document = serde_json::from_slice(part.as_bytes()).map_err(|e| ("Document JSON is rejected", e.to_string()))?;
            if d != a.document {
                return Err(("a Document read from its JSON differs", String::new()));
            }
            let hv = serde_json::to_value(&a.app_hdr).map_err(|e| ("a header is not serializable to JSON", e.to_string()))?;
            same(&want["AppHdr"], &hv).map_err(|e| ("header JSON differs from that of its message", e))?;
            let h: mx_message::header::AppHdr = serde_json::from_reader(hv.to_string().as_bytes()).map_err(|e| ("header JSON is rejected", e.to_string()))?;
            if h != a.app_hdr {
                return Err(("a header read from its JSON differs", String::new()));
            }
            Ok(())
        })(),
        None => (|| {
            let f = crate::ops::root(&m.name).from_json;
            let a = f(&given).map_err(|e| ("from_json rejects a valid message", e))?;
            let s = a.to_json_string().map_err(|e| ("to_json fails", e))?;
            let g: Value = serde_json::from_str(&s).map_err(|e| ("to_json output is not JSON", e.to_string()))?;
            same(&want, &g).map_err(|e| ("JSON round trip changes the message", e))?;
            let b = f(&s).map_err(|e| ("from_json rejects to_json output", e))?;
            if !a.same(b.as_ref()) {
                return Err(("re-read message differs", String::new()));
            }
            Ok(())
        })(),
    };
    r.or_else(|(s, d)| fail(s, format!("{}: {d}", m.name), inp()))
}

// ------------------------------------------------------------------ C03

pub static C03: Check = Check {
    id: "C03",
    rule: "distinct generated message (by JSON value) with more than one leaf whose emitted XML was compared node by node with the reference tree, and whose reference-written XML was read back",
    assumptions: &[
        "spec/schema.json, extracted from the pinned commit and committed, is the reference for element names, order, nesting, attributes and cardinality",
        "strings are XML-legal and without surrounding XML white space",
    ],
    cases: |t| codec_cases(t, true, 400),
    run: c03,
    health: no_health,
};

fn c03(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let (m, v) = build(spec, t, Text::Mixed);
    n.nontrivial = genmsg::leaves(&v) > 1;
    n.key((&m.name, v.to_string()));
    let inp = |x: &str| json!({"module": m.name, "message": v, "xml": x});
    let (want, x) = match &m.reg {
        Some(r) => {
            let j = full_json(t, Text::Mixed, r, &v);
            let h = mx::hdr_module();
            let mut attrs = vec![];
            for (k, a) in [("@xmlns", "xmlns"), ("@xmlns:xsi", "xmlns:xsi")] {
                if let Some(s) = j[k].as_str() {
                    attrs.push((a.to_string(), s.to_string()));
                }
            }
            let mut env = Node { name: "Envelope".into(), attrs, text: None, kids: vec![], leaf: None };
            env.kids.push(xmlref::tree(h, h.root, "AppHdr", &j["AppHdr"]));
            let mut d = Node { name: "Document".into(), attrs: vec![], text: None, kids: vec![], leaf: None };
            d.kids.push(xmlref::tree(m, m.root, &r.element, &v));
            env.kids.push(d);
            let a = match MxMessage::from_json(&j.to_string()) {
                Ok(a) => a,
                Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), inp("")),
            };
            let x = match a.to_xml() {
                Ok(x) => x,
                Err(e) => return fail("to_xml fails", format!("{}: {e}", m.name), inp("")),
            };
            (env, x)
        }
        None => {
            let a = match Msg::load(m, &v) {
                Ok(a) => a,
                Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), inp("")),
            };
            let x = match a.fragment() {
                Ok(x) => x,
                Err(e) => return fail("to_xml fails", format!("{}: {e}", m.name), inp("")),
            };
            (xmlref::tree(m, m.root, &Msg::root_name(m), &v), x)
        }
    };
    n.sample = Some(json!({"module": m.name, "xml": x}));
    let got = match xmlref::parse(&x) {
        Ok(g) => g,
        Err(e) => return fail("emitted XML is not well formed", format!("{}: {e}\n{x}", m.name), inp(&x)),
    };
    if let Err(e) = xmlref::cmp_tree(&want, &got, "") {
        return fail("emitted XML differs from the prescribed structure", format!("{}: {e}\n{x}", m.name), inp(&x));
    }
    // the reverse direction: XML written from the reference tree keeps every datum
    let w = xmlref::plain(&want);
    let back = match &m.reg {
        Some(_) => MxMessage::from_xml(&w).map_err(|e| e.to_string()).and_then(|b| {
            let g = mxv(&b)?;
            let r = m.reg.as_ref().unwrap();
            same(&v, &g["Document"][&r.element])
        }),
        None => Msg::parse_fragment(m, &w).and_then(|b| same(&v, &b.value(m)?)),
    };
    if let Err(e) = back {
        return fail("schema-conformant XML is not read faithfully", format!("{}: {e}\n{w}", m.name), inp(&w));
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

pub static C04: Check = Check {
    id: "C04",
    rule: "distinct (message, rendering) pair with more than one leaf whose styled rendering differs from the plain one",
    assumptions: &[
        "renderings: indentation, CRLF, character references, CDATA, quote style, white space inside tags, comments and processing instructions between elements, padding around text, XML declaration, BOM, wrapper element, element order of AppHdr/Document, namespace declarations",
        "namespace prefixes on element names are outside the property (the library documents no support for them)",
    ],
    cases: |t| codec_cases(t, false, 400),
    run: c04,
    health: no_health,
};

pub fn style(t: &mut Tape) -> Style {
    let mut b = || t.chance(40);
    let mut st = Style {
        indent: b(),
        crlf: b(),
        char_refs: b(),
        cdata: b(),
        single_quotes: b(),
        tag_space: b(),
        comments: b(),
        split: b(),
        gt_raw: b(),
        pad_text: b(),
        pi: b(),
    };
    // "]]>" may not appear raw in text, so raw '>' only when the text has no "]]"
    if st.cdata {
        st.gt_raw = false;
    }
    if st.cdata {
        // white space next to a CDATA section is part of the value in general XML processors
        st.pad_text = false;
    }
    st
}

/// A full envelope around header/document trees with free syntax around them.
pub fn styled_envelope(hdr: &Node, doc: &Node, st: &Style, t: &mut Tape) -> String {
    styled_pair(hdr, doc, st, t).0
}

/// The same beside a rendering with the same sections and attributes without any freedom.
fn styled_pair(hdr: &Node, doc: &Node, st: &Style, t: &mut Tape) -> (String, String) {
    let mut o = String::new();
    if t.chance(10) {
        o.push('\u{feff}');
    }
    match t.ix(5) {
        0 => o.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"),
        1 => o.push_str("<?xml version='1.0' encoding='utf-8' standalone=\"yes\"?>\n"),
        2 => o.push_str("<?xml version=\"1.0\"?>\r\n<!-- generated -->\n"),
        _ => {}
    }
    let gap = |t: &mut Tape, o: &mut String| {
        if st.indent {
            o.push_str("\n  ");
        }
        if st.comments && t.chance(40) {
            o.push_str(t.pick(&["<!-- c -->", "<!-- <AppHdr> <Document> -->", "<!-- </AppHdr></Document> -->", "<!-- <MsgDefIdr>pacs.002.001.10</MsgDefIdr> -->", "<!-- <Foo xmlns=\"urn:c\"> -->"]));
        }
        if st.pi && t.chance(30) {
            o.push_str(t.pick(&["<?pi?>", "<?pi <Document>?>", "<?a b=\"c\"?>"]));
        }
    };
    let wrap = *t.pick(&["Envelope", "", "Envelope", "BizMsg", "Saa:Envelope", "Envelope", "Documents", "AppHdrAndDocument", "d", "RequestPayload", "x.y-z_1"]);
    let body = if !wrap.is_empty() && t.chance(10) { *t.pick(&["Body", "Payload", "m:Body"]) } else { "" };
    // the attributes of a section: as written, and in the plainest form
    let ns = |t: &mut Tape, u: &str| {
        let iso = format!("urn:iso:std:iso:20022:tech:xsd:{u}");
        let own = format!("urn:x:{u}");
        let attrs: Vec<(&str, &str)> = match t.ix(6) {
            0 | 1 => vec![],
            2 => vec![("xmlns", &iso)],
            3 => vec![("xmlns:xsi", "http://www.w3.org/2001/XMLSchema-instance"), ("xmlns", &own)],
            4 => vec![("xmlns", &iso), ("xmlns:xsi", "x"), ("xsi:schemaLocation", "urn:x > y.xsd"), ("a:b", "/>")],
            _ => vec![("xmlns:xsi", &own), ("xmlns:s", "urn:s?a=1&b=\"2\"")],
        };
        let (mut styled, mut plain) = (String::new(), String::new());
        let free = Style { char_refs: t.chance(30), ..Style::default() };
        for (k, v) in &attrs {
            let q = if t.chance(50) { '\'' } else { '"' };
            let v2 = xmlref::esc_attr(v, q, &free, t);
            styled.push_str(&format!("{}{k}{}{q}{v2}{q}", t.pick(&[" ", "\n\t", "\r\n  "]), t.pick(&["=", "=", " = ", "=\n"])));
            plain.push_str(&format!(" {k}=\"{}\"", xmlref::esc_attr(v, '"', &Style::default(), t)));
        }
        if !attrs.is_empty() {
            styled.push_str(t.pick(&["", "", " ", "\n"]));
        }
        (styled, plain)
    };
    let mut p = String::new();
    if wrap.is_empty() {
        gap(t, &mut o);
    } else {
        let (a, pa) = ns(t, "env");
        o.push_str(&format!("<{wrap}{a}>"));
        p.push_str(&format!("<{wrap}{pa}>"));
        if !body.is_empty() {
            gap(t, &mut o);
            o.push_str(&format!("<{body}>"));
            p.push_str(&format!("<{body}>"));
        }
    }
    let mut hx = String::new();
    let mut h2 = hdr.clone();
    let (hns, hnp) = ns(t, "head.001.001.02");
    h2.name = "AppHdr".into();
    xmlref::write(&h2, st, t, 1, &mut hx);
    let hx = hx.replacen("<AppHdr", &format!("<AppHdr{hns}"), 1);
    let hp = xmlref::plain(&h2).replacen("<AppHdr", &format!("<AppHdr{hnp}"), 1);
    let mut dx = String::new();
    let (dns, dnp) = ns(t, "doc");
    dx.push_str(&format!("<Document{dns}>"));
    gap(t, &mut dx);
    let mut doc = doc.clone();
    if t.chance(12) {
        doc.attrs.push(("xmlns".into(), "urn:iso:std:iso:20022:tech:xsd:message".into()));
    }
    xmlref::write(&doc, st, t, 2, &mut dx);
    gap(t, &mut dx);
    dx.push_str(t.pick(&["</Document>", "</Document >", "</Document\n>"]));
    let dp = format!("<Document{dnp}>{}</Document>", xmlref::plain(&doc));
    let swap = t.chance(15);
    p.push_str(&if swap { format!("{dp}{hp}") } else { format!("{hp}{dp}") });
    let (a, b) = if swap { (&dx, &hx) } else { (&hx, &dx) };
    gap(t, &mut o);
    o.push_str(a);
    gap(t, &mut o);
    o.push_str(b);
    gap(t, &mut o);
    if !body.is_empty() {
        o.push_str(&format!("</{body}>"));
        p.push_str(&format!("</{body}>"));
    }
    if !wrap.is_empty() {
        o.push_str(&format!("</{wrap}>"));
        p.push_str(&format!("</{wrap}>"));
    }
    (o, p)
}

fn c04(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let (m, v) = build(spec, t, Text::Mixed);
    let st = style(t);
    n.nontrivial = genmsg::leaves(&v) > 1;
    let mut same_attrs = String::new();
    let (plain, styled) = match &m.reg {
        Some(r) => {
            let h = mx::hdr_module();
            let hv = header_value(t, Text::Mixed, &r.full);
            let ht = xmlref::tree(h, h.root, "AppHdr", &hv);
            let dt = xmlref::tree(m, m.root, &r.element, &v);
            let p = format!("<Envelope>{}<Document>{}</Document></Envelope>", xmlref::plain(&ht), xmlref::plain(&dt));
            let (styled, q) = styled_pair(&ht, &dt, &st, t);
            same_attrs = q;
            (p, styled)
        }
        None => {
            let dt = xmlref::tree(m, m.root, &Msg::root_name(m), &v);
            let mut s = String::new();
            xmlref::write(&dt, &st, t, 0, &mut s);
            (xmlref::plain(&dt), s)
        }
    };
    n.nontrivial &= plain != styled;
    n.key(&styled);
    n.sample = Some(json!({"module": m.name, "styled": styled}));
    let inp = json!({"module": m.name, "plain": plain, "styled": styled});
    match &m.reg {
        Some(_) => {
            let a = match MxMessage::from_xml(&plain) {
                Ok(a) => a,
                Err(e) => return fail("plain rendering rejected", format!("{}: {e}", m.name), inp),
            };
            let b = match MxMessage::from_xml(&styled) {
                Ok(b) => b,
                Err(e) => return fail("equivalent rendering rejected", format!("{}: {e}\n{styled}", m.name), inp),
            };
            if a.app_hdr != b.app_hdr || a.document != b.document {
                let d = same(&mxv(&a).unwrap_or_default()["Document"], &mxv(&b).unwrap_or_default()["Document"]);
                return fail("equivalent rendering read differently", format!("{}: {d:?}\n{styled}", m.name), inp);
            }
            match MxMessage::from_xml(&same_attrs) {
                Ok(c) if c == b => {}
                Ok(c) => {
                    let ns = [&c.xmlns, &c.xmlns_xsi, &b.xmlns, &b.xmlns_xsi];
                    return fail("equivalent rendering read with other namespaces", format!("{}: {ns:?}\n{styled}\n{same_attrs}", m.name), inp);
                }
                Err(e) => return fail("plain rendering rejected", format!("{}: {e}\n{same_attrs}", m.name), inp),
            }
        }
        None => {
            let a = Msg::parse_fragment(m, &plain);
            let b = Msg::parse_fragment(m, &styled);
            match (a, b) {
                (Ok(a), Ok(b)) if a.same(&b) => {}
                (Ok(a), Ok(b)) => {
                    return fail("equivalent rendering read differently", format!("{}: {:?}", m.name, same(&a.value(m).unwrap_or_default(), &b.value(m).unwrap_or_default())), inp);
                }
                (a, b) => return fail("equivalent rendering rejected", format!("{}: {:?} {:?}", m.name, a.err(), b.err()), inp),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C14

pub static C14: Check = Check {
    id: "C14",
    rule: "distinct (message, Document-only rendering) with more than one leaf, for which both the Document-only and the envelope entry points produced a result",
    assumptions: &["the message type given to the Document-only parser is the document's own type"],
    cases: |t| codec_cases(t, false, 400).into_iter().filter(|s| module(s).reg.is_some()).collect(),
    run: c14,
    health: no_health,
};

fn c14(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let (m, v) = build(spec, t, Text::MixedCr);
    let r = m.reg.as_ref().unwrap();
    let dt = xmlref::tree(m, m.root, &r.element, &v);
    let st = if t.chance(50) { style(t) } else { Style::default() };
    let mut el = String::new();
    xmlref::write(&dt, &st, t, 1, &mut el);
    let prolog = *t.pick(&["", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>\n<!-- x -->\n", "  \n"]);
    let open = *t.pick(&["<Document>", "<Document xmlns=\"urn:iso:std:iso:20022:tech:xsd:x\">", "<Document\n  xmlns:xsi='u' >\n", "<Document><!-- <Document> -->", "<Document><?p?>"]);
    let open = if t.chance(15) { open.replacen("<Document", &format!("<Document{}", xmlref::odd_attr(t)), 1) } else { open.to_string() };
    let close = *t.pick(&["</Document>", "</Document>\n", "\n</Document >"]);
    let wrapped = t.chance(85);
    let doc = if wrapped { format!("{prolog}{open}{el}{close}") } else { format!("{prolog}{el}") };
    n.nontrivial = genmsg::leaves(&v) > 1;
    n.key(&doc);
    n.sample = Some(json!({"type": r.short, "document": doc}));
    let inp = json!({"type": r.short, "xml": doc});
    let want = json!({"Document": {&r.element: v}});
    match xml_to_json_via_document(&doc, &r.short) {
        Ok(g) => {
            if let Err(e) = same(&want, &g) {
                return fail("Document-only parse differs from the message", format!("{}: {e}\n{doc}", r.short), inp);
            }
        }
        Err(e) => return fail("Document-only parse rejects a valid document", format!("{}: {e}\n{doc}", r.short), inp),
    }
    let env = format!("<Envelope>{}<Document>{}</Document></Envelope>", mx::fixed_header_xml(&r.full), el);
    match MxMessage::from_xml(&env) {
        Ok(a) => {
            let g = mxv(&a).unwrap_or_default();
            if let Err(e) = same(&want["Document"], &g["Document"]) {
                return fail("envelope parse differs from Document-only parse", format!("{}: {e}", r.short), inp);
            }
        }
        Err(e) => return fail("envelope parse rejects a valid document", format!("{}: {e}", r.short), inp),
    }
    for mt in [&r.short, &r.full] {
        for x in [&doc, &env] {
            if let Err(e) = from_mx_xml_envelope_str(x, mt) {
                return fail("from_mx_xml_envelope_str rejects a valid message", format!("{mt}: {e}\n{x}"), inp);
            }
        }
    }
    if wrapped {
        match extract_message_type_from_xml(&doc) {
            Ok(k) if k == r.short => {}
            o => return fail("Document-only type detection wrong", format!("{}: {o:?}\n{doc}", r.short), inp),
        }
    }
    if MxMessage::from_xml(&doc).is_ok() {
        return fail("from_xml accepts XML without a header", doc, inp);
    }
    // raw carriage returns: the two readers agree on what they mean
    if el.contains('\n') || t.chance(20) {
        let el = if el.contains('\n') { el.replace('\n', "\r\n") } else { el.replacen("</", "\r\n-\r</", 1) };
        let doc = if wrapped { format!("{prolog}{open}{el}{close}") } else { format!("{prolog}{el}") };
        let env = format!("<Envelope>{}<Document>{}</Document></Envelope>", mx::fixed_header_xml(&r.full), el);
        let a = xml_to_json_via_document(&doc, &r.short).ok();
        let b = MxMessage::from_xml(&env).ok().and_then(|a| mxv(&a).ok());
        match (&a, &b) {
            (Some(a), Some(b)) => {
                if let Err(e) = same(&b["Document"], &a["Document"]) {
                    return fail("line ends are read differently without a header", format!("{}: {e}", r.short), json!({"type": r.short, "xml": doc}));
                }
            }
            (None, None) => {}
            _ => return fail("line ends are accepted by only one reader", format!("{}: alone {}, in an envelope {}", r.short, a.is_some(), b.is_some()), json!({"type": r.short, "xml": doc})),
        }
    }
    // another type's reader must not take this document for its own
    let s = schema();
    let other = t.pick(&s.registry);
    if other.short != r.short {
        if xml_to_json_via_document(&doc, &other.short).is_ok() {
            return fail("Document-only parse accepts another type's element", format!("{} read as {}", r.short, other.short), inp);
        }
        if from_mx_xml_envelope_str(&doc, &other.short).is_ok() {
            return fail("from_mx_xml_envelope_str accepts another type's element", format!("{} validated as {}", r.short, other.short), inp);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

pub static C15: Check = Check {
    id: "C15",
    rule: "distinct type-specific header or usage-variant message that the common model can represent, read and written through MxMessage",
    assumptions: &["only content representable in the library's common AppHdr or base document type is generated; the differences that cannot be represented are listed as known findings"],
    cases: |t| {
        let mut out: Vec<Value> = codec_cases(t, true, 300)
            .into_iter()
            .filter(|s| {
                let m = module(s);
                m.reg.is_none()
            })
            .collect();
        out.retain(|s| base_of(module(s)).is_some());
        (0..4).flat_map(|x| out.iter().map(move |s| { let mut s = s.clone(); s["x"] = json!(x); s })).collect()
    },
    run: c15,
    health: no_health,
};

/// The module MxMessage uses for what this header/variant module describes.
fn base_of(m: &Module) -> Option<&'static Module> {
    if m.is_header {
        return Some(mx::hdr_module());
    }
    schema().modules.iter().find(|b| b.reg.is_some() && b.name != m.name && m.name.starts_with(&b.name))
}

/// Drop what the base type does not know; None if the base type requires something absent or a
/// value has no counterpart.
fn project(b: &Module, ty: usize, v: &Value) -> Option<Value> {
    match &b.types[ty].def {
        Def::Enum(cs) => v.as_str().filter(|s| cs.iter().any(|c| c == s)).map(|_| v.clone()),
        Def::Struct(fs) => {
            let Some(o) = v.as_object() else { return None };
            let mut r = Map::new();
            for f in fs {
                match o.get(&f.name) {
                    None if matches!(f.card, Card::One | Card::Plus) => return None,
                    None => {}
                    Some(x) => {
                        let vec = matches!(f.card, Card::Plus | Card::Star);
                        let one = |x: &Value| match f.ty {
                            Ty::Ref(c) => project(b, c, x),
                            Ty::Str if !x.is_string() => None,
                            _ => Some(x.clone()),
                        };
                        let y = match (vec, x) {
                            (true, Value::Array(a)) => {
                                Value::Array(a.iter().map(one).collect::<Option<Vec<_>>>()?)
                            }
                            (true, x) => Value::Array(vec![one(x)?]),
                            (false, Value::Array(a)) if a.len() == 1 => one(&a[0])?,
                            (false, Value::Array(_)) => return None,
                            (false, x) => one(x)?,
                        };
                        r.insert(f.name.clone(), y);
                    }
                }
            }
            Some(Value::Object(r))
        }
    }
}

fn c15(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    if spec["k"] == "finding" {
        return c15_finding(spec);
    }
    let (m, v) = build(spec, t, Text::Mixed);
    let b = base_of(m).unwrap();
    let Some(pv) = project(b, b.root, &v) else { return Ok(()) };
    if genmsg::nodes(&pv) != genmsg::nodes(&v) {
        // the common model cannot hold everything: outside this property's generated domain
        return Ok(());
    }
    // what the specific type writes
    let frag = match Msg::load(m, &v).and_then(|a| a.fragment()) {
        Ok(x) => x,
        Err(e) => return fail("specific type cannot be written", format!("{}: {e}", m.name), json!({"module": m.name, "message": v})),
    };
    n.nontrivial = true;
    n.key((&m.name, &frag));
    n.sample = Some(json!({"module": m.name, "xml": frag}));
    c15_read(m, b, &pv, &frag)
}

fn c15_read(m: &Module, b: &Module, pv: &Value, frag: &str) -> Result<(), Fail> {
    let (env, doc_el) = if m.is_header {
        let reg = schema().registry.iter().find(|r| m.name.starts_with(&format!("bah_{}", r.module))).unwrap_or_else(|| {
            // a few header modules are named by type and version only
            schema().registry.iter().find(|r| r.module.starts_with(m.name.trim_start_matches("bah_"))).expect("registry entry for header")
        });
        let dm = &schema().modules[schema().by_name[&reg.module]];
        let mut z = Tape::replay(vec![]);
        let dv = Gen::new(dm, &mut z, Cfg::new(0, 10, Text::Valid)).root();
        let d = xmlref::plain(&xmlref::tree(dm, dm.root, &reg.element, &dv));
        (format!("<Envelope>{frag}<Document>{d}</Document></Envelope>"), reg.element.clone())
    } else {
        let r = b.reg.as_ref().unwrap();
        let root = &m.types[m.root].name;
        let body = frag.trim_start_matches(&format!("<{root}>")).trim_end_matches(&format!("</{root}>"));
        (
            format!("<Envelope>{}<Document><{e}>{body}</{e}></Document></Envelope>", mx::fixed_header_xml(&r.full), e = r.element),
            r.element.clone(),
        )
    };
    let inp = json!({"module": m.name, "xml": env});
    let a = match MxMessage::from_xml(&env) {
        Ok(a) => a,
        Err(e) => return fail("MxMessage rejects a type-specific header or variant", format!("{}: {e}\n{env}", m.name), inp),
    };
    let g = mxv(&a).unwrap_or_default();
    let got = if m.is_header { &g["AppHdr"] } else { &g["Document"][&doc_el] };
    if let Err(e) = same(pv, got) {
        return fail("MxMessage loses type-specific content", format!("{}: {e}\n{env}", m.name), inp);
    }
    // and what MxMessage writes is readable by the specific type again, unchanged
    let x = match a.to_xml() {
        Ok(x) => x,
        Err(e) => return fail("to_xml fails", format!("{}: {e}", m.name), inp),
    };
    let tree = match xmlref::parse(&x) {
        Ok(t) => t,
        Err(e) => return fail("emitted XML is not well formed", format!("{}: {e}", m.name), inp),
    };
    let part = if m.is_header { tree.kids.first() } else { tree.kids.get(1).and_then(|d| d.kids.first()) };
    let Some(part) = part else { return fail("emitted XML lacks the part", x, inp) };
    let mut part = part.clone();
    part.name = Msg::root_name(m);
    match Msg::parse_fragment(m, &xmlref::plain(&part)) {
        Ok(_) => Ok(()),
        Err(e) => fail("the specific type cannot read what MxMessage wrote", format!("{}: {e}\n{x}", m.name), inp),
    }
}

/// The listed divergences: an XML text of the specific type that MxMessage does not keep.
fn c15_finding(spec: &Value) -> Result<(), Fail> {
    let m = module(spec);
    let b = base_of(m).unwrap();
    let v = &spec["message"];
    let frag = match Msg::load(m, v).and_then(|a| a.fragment()) {
        Ok(x) => x,
        Err(e) => return fail("finding case cannot be built", e, json!(null)),
    };
    c15_read(m, b, v, &frag)
}

// ------------------------------------------------------------------ C17

pub static C17: Check = Check {
    id: "C17",
    rule: "distinct (field, decimal literal) pair read from XML and written to XML and JSON",
    assumptions: &["amounts have at most 15 significant digits (ISO 20022 CBPR+ amounts have at most 14, 5 of them fractional); literals are xs:decimal forms without exponent"],
    cases: |t| {
        let mut out = vec![];
        let reps = if t == Tier::Quick { 200 } else { 6000 };
        for m in &schema().modules {
            for (ti, ty) in m.types.iter().enumerate() {
                let Def::Struct(fs) = &ty.def else { continue };
                for (fi, f) in fs.iter().enumerate() {
                    if f.ty == Ty::Num {
                        for r in 0..reps {
                            out.push(json!({"m": m.name, "t": ti, "f": fi, "r": r}));
                        }
                    }
                }
            }
        }
        out
    },
    run: c17,
    health: |a| if a.distinct.len() < 1000 { Err("too few amount fields".into()) } else { Ok(()) },
};

/// A decimal literal with at most 15 significant digits, in any xs:decimal spelling.
fn decimal(t: &mut Tape) -> String {
    let sig = t.range(1, 15);
    let mut d: String = (0..sig).map(|_| char::from(b'0' + t.below(10) as u8)).collect();
    let frac = t.ix(sig + 1).min(*t.pick(&[0, 2, 2, 5, 10, 15]));
    let ip = d.split_off(d.len() - frac);
    let (mut int, fr) = (d, ip);
    if int.is_empty() && !t.chance(20) {
        int.push('0');
    }
    let lead = if t.chance(15) { "0".repeat(t.range(1, 3)) } else { String::new() };
    let trail = if t.chance(25) { "0".repeat(t.range(1, 4)) } else { String::new() };
    let sign = *t.pick(&["", "", "", "", "-", "+"]);
    let mut s = format!("{sign}{lead}{int}");
    if !fr.is_empty() || !trail.is_empty() {
        s.push('.');
        s.push_str(&fr);
        s.push_str(&trail);
    }
    if s.trim_start_matches(['+', '-']).is_empty() {
        s.push('0');
    }
    s
}

/// Canonical exact decimal: sign, digits without leading/trailing zeros.
fn canon(s: &str) -> Option<String> {
    let (neg, u) = match s.strip_prefix('-') {
        Some(u) => (true, u),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let (i, f) = u.split_once('.').unwrap_or((u, ""));
    if (i.is_empty() && f.is_empty()) || !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let i = i.trim_start_matches('0');
    let f = f.trim_end_matches('0');
    if i.is_empty() && f.is_empty() {
        return Some("0".into());
    }
    Some(format!("{}{}.{}", if neg { "-" } else { "" }, i, f))
}

fn find_all<'a>(n: &'a Node, path: &[String], out: &mut Vec<&'a Node>) {
    match path.split_first() {
        None => out.push(n),
        Some((h, rest)) => n.kids.iter().filter(|k| &k.name == h).for_each(|k| find_all(k, rest, out)),
    }
}

fn c17(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let m = module(spec);
    let (ti, fi) = (spec["t"].as_u64().unwrap() as usize, spec["f"].as_u64().unwrap() as usize);
    let f = &m.fields(ti)[fi];
    let lit = decimal(t);
    let want = canon(&lit).expect("decimal literal");
    n.nontrivial = true;
    n.key((&m.name, ti, fi, &lit));
    // build with a marker number, then put the literal into the rendered XML
    let mark = 7777777.25;
    let set = if matches!(f.card, Card::Plus | Card::Star) { json!([mark]) } else { json!(mark) };
    let plan = Plan { path: &m.path_to[ti], fill: Fill::Only(fi), set: Some((fi, set)), vec_len: 1, vec_at: 0 };
    let v = Gen::new(m, t, Cfg::new(0, 10, Text::Valid)).planned(&plan);
    let mut p: Vec<String> = m.path_to[ti].iter().map(|(a, b)| m.fields(*a)[*b].name.clone()).collect();
    if !f.name.starts_with('$') {
        p.push(f.name.clone());
    }
    let tree = xmlref::tree(m, m.root, &Msg::root_name(m), &v);
    let xml = xmlref::plain(&tree).replace("7777777.25", &lit);
    n.sample = Some(json!({"module": m.name, "path": p, "literal": lit}));
    let inp = json!({"module": m.name, "path": p, "literal": lit, "xml": xml});
    let a = match Msg::parse_fragment(m, &xml) {
        Ok(a) => a,
        Err(e) => return fail("decimal amount rejected", format!("{} {}: {lit}: {e}", m.name, p.join("/")), inp),
    };
    let x = match a.fragment() {
        Ok(x) => x,
        Err(e) => return fail("to_xml fails", format!("{}: {e}", m.name), inp),
    };
    let back = match xmlref::parse(&x) {
        Ok(b) => b,
        Err(e) => return fail("emitted XML is not well formed", format!("{}: {e}", m.name), inp),
    };
    let mut hits = vec![];
    find_all(&back, &p, &mut hits);
    if hits.is_empty() {
        return fail("amount lost", format!("{} {}", m.name, p.join("/")), inp);
    }
    for h in &hits {
        let s = h.text.clone().unwrap_or_default();
        if canon(&s).as_deref() != Some(want.as_str()) && !(want == "0" && canon(&s).is_some_and(|c| c == "0")) {
            return fail("amount changed by parse and serialize", format!("{} {}: {lit} became {s}", m.name, p.join("/")), inp);
        }
    }
    // JSON carries the same number, and a JSON round trip keeps it
    let j = match a.value(m) {
        Ok(j) => j,
        Err(e) => return fail("to_json fails", format!("{}: {e}", m.name), inp),
    };
    let mut cur = vec![&j];
    let mut jp: Vec<String> = p.clone();
    if f.name.starts_with('$') {
        jp.push(f.name.clone());
    }
    for k in &jp {
        cur = cur
            .into_iter()
            .flat_map(|v| match v.get(k) {
                Some(Value::Array(a)) => a.iter().collect(),
                Some(v) => vec![v],
                None => vec![],
            })
            .collect();
    }
    let num: f64 = lit.parse().unwrap();
    if cur.is_empty() || !cur.iter().all(|v| v.as_f64() == Some(num)) {
        return fail("amount changed in JSON", format!("{} {}: {lit} became {cur:?}", m.name, jp.join("/")), inp);
    }
    match Msg::load(m, &j) {
        Ok(b) if a.same(&b) => Ok(()),
        Ok(_) => fail("amount changed by the JSON round trip", format!("{} {}: {lit}", m.name, jp.join("/")), inp),
        Err(e) => fail("from_json rejects to_json output", format!("{}: {e}", m.name), inp),
    }
}

// ------------------------------------------------------------------ C18

pub static C18: Check = Check {
    id: "C18",
    rule: "distinct message containing at least one markup-like text, comment, processing instruction or CDATA section placed at a generated position",
    assumptions: &["injected comments, processing instructions and CDATA sections are well formed and placed where XML allows them"],
    cases: |t| {
        let mut out = vec![];
        let k = if t == Tier::Quick { 1500 } else { 40000 };
        for m in schema().modules.iter().filter(|m| m.reg.is_some()) {
            for i in 0..k {
                out.push(json!({"k": if i % 2 == 0 { "text" } else { "misc" }, "m": m.name, "i": i}));
            }
        }
        out
    },
    run: c18,
    health: no_health,
};

/// Text made of markup, including the names this library searches for.
pub fn markup_text(t: &mut Tape) -> String {
    let r = t.pick(&schema().registry);
    let names = [
        "AppHdr", "Document", "Envelope", "BusinessApplicationHeaderV02", "BusinessApplicationHeader", "MsgDefIdr", &r.element, &r.rust, "GrpHdr", "Fr",
    ];
    let mut s = String::new();
    for _ in 0..1 + t.ix(4) {
        let nm = *t.pick(&names);
        match t.ix(12) {
            0 => s.push_str(&format!("<{nm}>")),
            1 => s.push_str(&format!("</{nm}>")),
            2 => s.push_str(&format!("<{nm}/>")),
            3 => s.push_str(&format!("<MsgDefIdr>{}</MsgDefIdr>", r.full)),
            4 => s.push_str("xmlns=\"urn:evil\""),
            5 => s.push_str(&format!("<{nm} xmlns=\"urn:evil\" xmlns:xsi=\"e\">")),
            6 => s.push_str("<!-- "),
            7 => s.push_str(" -->"),
            8 => s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"),
            9 => s.push_str("&lt;Document&gt;"),
            10 => s.push_str(t.pick(&["]]>", "<![CDATA[", "&amp;", "&", "<", ">", "\"", "'", "&#60;"])),
            _ => s.push_str(t.pick(&["a", "Z9", " x ", "/", nm])),
        }
    }
    let r = s.trim().to_string();
    if r.is_empty() { "<".into() } else { r }
}

fn set_strings(m: &Module, ty: usize, v: &mut Value, t: &mut Tape, pct: u64, count: &mut usize) {
    let Def::Struct(fs) = &m.types[ty].def else { return };
    for f in fs {
        let Some(x) = v.get_mut(&f.name) else { continue };
        let xs: Vec<&mut Value> = match x {
            Value::Array(a) => a.iter_mut().collect(),
            x => vec![x],
        };
        for x in xs {
            match f.ty {
                Ty::Str if t.chance(pct) => {
                    *x = json!(markup_text(t));
                    *count += 1;
                }
                Ty::Ref(c) => set_strings(m, c, x, t, pct, count),
                _ => {}
            }
        }
    }
}

/// Insert comments / PIs between nodes and turn some text into CDATA, by a custom writer.
fn write_misc(n: &Node, t: &mut Tape, o: &mut String, count: &mut usize) {
    o.push('<');
    o.push_str(&n.name);
    for (k, v) in &n.attrs {
        o.push_str(&format!(" {k}=\"{}\"", v.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;")));
    }
    o.push('>');
    if n.kids.is_empty() {
        let s = n.text.clone().unwrap_or_default();
        if n.leaf == Some(Ty::Str) && t.chance(30) {
            o.push_str(&format!("<![CDATA[{}]]>", s.replace("]]>", "]]]]><![CDATA[>")));
            *count += 1;
        } else {
            o.push_str(&s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;"));
        }
    }
    for k in &n.kids {
        misc(t, o, count, 12);
        write_misc(k, t, o, count);
    }
    if !n.kids.is_empty() {
        misc(t, o, count, 12);
    }
    o.push_str(&format!("</{}>", n.name));
}
fn misc(t: &mut Tape, o: &mut String, count: &mut usize, pct: u64) {
    while t.chance(pct) {
        *count += 1;
        let body = markup_text(t).replace("--", "- -").replace("?>", "? >");
        if t.chance(60) {
            o.push_str(&format!("<!--{} -->", body.trim_end_matches('-')));
        } else {
            o.push_str(&format!("<?pi {}?>", body.trim_end_matches('?')));
        }
    }
}

/// A start tag that may have attributes that look like markup.
fn odd_tag(name: &str, t: &mut Tape, count: &mut usize) -> String {
    if !t.chance(30) {
        return format!("<{name}>");
    }
    *count += 1;
    format!("<{name}{}{}>", xmlref::odd_attr(t), t.pick(&["", " ", "\n"]))
}

fn c18(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let m = module(spec);
    let r = m.reg.as_ref().unwrap();
    let h = mx::hdr_module();
    let (opt, budget) = *t.pick(&[(10, 20), (25, 60), (40, 100)]);
    let mut v = Gen::new(m, t, Cfg::new(opt, budget, Text::Valid)).root();
    let mut hv = header_value(t, Text::Valid, &r.full);
    let mut count = 0;
    let pct = *t.pick(&[5, 30, 100]);
    set_strings(m, m.root, &mut v, t, pct, &mut count);
    set_strings(h, h.root, &mut hv, t, pct, &mut count);
    hv["MsgDefIdr"] = json!(r.full);
    let j = mx::envelope(&hv, &r.element, &v);
    let inp = |x: &str| json!({"type": r.short, "message": j, "xml": x});
    let env;
    if spec["k"] == "text" {
        let a = match MxMessage::from_json(&j.to_string()) {
            Ok(a) => a,
            Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", r.short), inp("")),
        };
        env = match a.to_xml() {
            Ok(x) => x,
            Err(e) => return fail("to_xml fails", format!("{}: {e}", r.short), inp("")),
        };
    } else {
        let mut o = String::new();
        misc(t, &mut o, &mut count, 40);
        o.push_str(&odd_tag("Envelope", t, &mut count));
        misc(t, &mut o, &mut count, 40);
        let mut hx = String::new();
        write_misc(&xmlref::tree(h, h.root, "AppHdr", &hv), t, &mut hx, &mut count);
        o.push_str(&odd_tag("AppHdr", t, &mut count));
        o.push_str(hx.strip_prefix("<AppHdr>").unwrap());
        misc(t, &mut o, &mut count, 40);
        o.push_str(&odd_tag("Document", t, &mut count));
        misc(t, &mut o, &mut count, 40);
        write_misc(&xmlref::tree(m, m.root, &r.element, &v), t, &mut o, &mut count);
        misc(t, &mut o, &mut count, 40);
        o.push_str("</Document>");
        misc(t, &mut o, &mut count, 40);
        o.push_str("</Envelope>");
        misc(t, &mut o, &mut count, 20);
        env = o;
    }
    n.nontrivial = count > 0;
    n.key(&env);
    n.sample = Some(json!(env));
    let b = match MxMessage::from_xml(&env) {
        Ok(b) => b,
        Err(e) => return fail("markup-like content makes the message unreadable", format!("{}: {e}\n{env}", r.short), inp(&env)),
    };
    let g = mxv(&b).unwrap_or_default();
    if let Err(e) = same(&j, &g) {
        return fail("markup-like content changes the message", format!("{}: {e}\n{env}", r.short), inp(&env));
    }
    match peek_message_type_from_xml(&env) {
        Ok(k) if k == r.short => {}
        o => return fail("markup-like content changes the peeked type", format!("{}: {o:?}\n{env}", r.short), inp(&env)),
    }
    match peek_message_type_from_json(&g.to_string()) {
        Ok(k) if k == r.short => {}
        o => return fail("markup-like content changes the peeked JSON type", format!("{}: {o:?}", r.short), inp(&env)),
    }
    match extract_message_type_from_xml(&env) {
        Ok(k) if k == r.short => {}
        o => return fail("markup-like content changes the detected document type", format!("{}: {o:?}\n{env}", r.short), inp(&env)),
    }
    // the same document without its header
    let mut d = String::new();
    let mut c2 = 0;
    if spec["k"] == "misc" {
        misc(t, &mut d, &mut c2, 50);
    }
    d.push_str(&if spec["k"] == "misc" { odd_tag("Document", t, &mut c2) } else { "<Document>".to_string() });
    if spec["k"] == "misc" {
        misc(t, &mut d, &mut c2, 50);
        write_misc(&xmlref::tree(m, m.root, &r.element, &v), t, &mut d, &mut c2);
    } else {
        d.push_str(&xmlref::plain(&xmlref::tree(m, m.root, &r.element, &v)));
    }
    d.push_str("</Document>");
    match extract_message_type_from_xml(&d) {
        Ok(k) if k == r.short => {}
        o => return fail("markup-like content changes the detected document type", format!("{}: {o:?}\n{d}", r.short), inp(&d)),
    }
    match xml_to_json_via_document(&d, &r.short) {
        Ok(g) => {
            if let Err(e) = same(&json!({&r.element: v}), &g["Document"]) {
                return fail("markup-like content changes a Document-only message", format!("{}: {e}\n{d}", r.short), inp(&d));
            }
        }
        Err(e) => return fail("markup-like content makes a Document-only message unreadable", format!("{}: {e}\n{d}", r.short), inp(&d)),
    }
    if let Err(e) = from_mx_xml_envelope_str(&d, &r.short) {
        return fail("markup-like content makes a Document-only message invalid", format!("{}: {e}\n{d}", r.short), inp(&d));
    }
    Ok(())
}
