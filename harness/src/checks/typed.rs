//! C19: what the typed structures hold. Users work with the Rust fields and enum variants, so the
//! datum under each member name has to sit in the field (or variant) of that name.
use crate::cases::*;
use crate::genmsg::{self, Text};
use crate::mx::{self, Msg};
use crate::runner::*;
use crate::schema::*;
use crate::tape::Tape;
use crate::xmlref;
use mx_message::MxMessage;
use serde_json::{Value, json};

pub static C19: Check = Check {
    id: "C19",
    rule: "distinct generated message (by JSON value) with more than one leaf whose complete typed content, read from JSON and from XML, was compared with the generated value, and which was compared with a copy that differs in one datum",
    assumptions: &[
        "typed content is observed through the structures' derived Debug representation; a Rust field corresponds to an element or attribute when the names agree up to case and underscores (`ref_attr` for `Ref`), a variant `CodeX` to the code X up to punctuation and case",
        "strings are XML-legal and without surrounding XML white space; amounts have at most 15 significant digits",
    ],
    cases: |t| codec_cases(t, true, 250),
    run: c19,
    health: no_health,
};

/// A value as its derived Debug representation shows it.
#[derive(Debug)]
enum D {
    Struct(Vec<(String, D)>),
    Tuple(String, Box<D>),
    List(Vec<D>),
    Text(String),
    Word(String),
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

impl P<'_> {
    fn rest(&self) -> &str {
        &self.s[self.i..]
    }
    fn skip(&mut self) {
        while self.rest().starts_with([' ', '\n', ',']) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        let y = self.rest().starts_with(c);
        if y {
            self.i += c.len_utf8();
        }
        y
    }
    fn value(&mut self) -> Result<D, String> {
        self.skip();
        if self.eat('[') {
            let mut v = vec![];
            loop {
                self.skip();
                if self.eat(']') {
                    return Ok(D::List(v));
                }
                v.push(self.value()?);
            }
        }
        if self.rest().starts_with('"') {
            let mut esc = false;
            for (k, c) in self.rest().char_indices().skip(1) {
                match c {
                    _ if esc => esc = false,
                    '\\' => esc = true,
                    '"' => {
                        let r = self.rest()[..k + 1].to_string();
                        self.i += k + 1;
                        return Ok(D::Text(r));
                    }
                    _ => {}
                }
            }
            return Err("open string".into());
        }
        let n = self.rest().find(|c: char| !(c.is_alphanumeric() || "_.-+#".contains(c))).unwrap_or(self.rest().len());
        if n == 0 {
            return Err(format!("unexpected {:?}", self.rest().chars().take(30).collect::<String>()));
        }
        let w = self.rest()[..n].to_string();
        self.i += n;
        if self.eat('(') {
            let v = self.value()?;
            self.skip();
            return if self.eat(')') { Ok(D::Tuple(w, Box::new(v))) } else { Err("open tuple".into()) };
        }
        if self.rest().starts_with(" {") {
            self.i += 2;
            let mut v = vec![];
            loop {
                self.skip();
                if self.eat('}') {
                    return Ok(D::Struct(v));
                }
                let k = self.rest().find(':').ok_or("no field name")?;
                let name = self.rest()[..k].to_string();
                self.i += k + 1;
                v.push((name, self.value()?));
            }
        }
        Ok(D::Word(w))
    }
}

fn parse(s: &str) -> Result<D, String> {
    let mut p = P { s, i: 0 };
    let d = p.value()?;
    if p.rest().trim().is_empty() { Ok(d) } else { Err("trailing text".into()) }
}

fn plain(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).flat_map(char::to_lowercase).collect()
}

fn field_key(s: &str) -> String {
    plain(s.strip_suffix("_attr").unwrap_or(s))
}

fn cmp(d: &D, v: &Value, path: &str) -> Result<(), String> {
    match (d, v) {
        (D::Struct(fs), Value::Object(o)) => {
            let mut seen = 0;
            for (name, x) in fs {
                let k = field_key(name);
                let mut m = o.iter().filter(|(n, _)| plain(n) == k);
                let (got, twice) = (m.next(), m.next());
                assert!(twice.is_none(), "ambiguous field {name}");
                match (x, got) {
                    (D::Word(w), None) if w == "None" => {}
                    (D::Tuple(w, x), Some((n, y))) if w == "Some" => {
                        seen += 1;
                        cmp(x, y, &format!("{path}.{n}"))?
                    }
                    (x, Some((n, y))) => {
                        seen += 1;
                        cmp(x, y, &format!("{path}.{n}"))?
                    }
                    (x, None) => return Err(format!("{path}: field {name} holds {x:?}, the message has no such datum")),
                }
            }
            if seen != o.len() {
                let ks: Vec<_> = o.keys().filter(|n| !fs.iter().any(|(f, _)| field_key(f) == plain(n))).collect();
                return Err(format!("{path}: no field for {ks:?}"));
            }
            Ok(())
        }
        // the Document: its variant names the message type, its one member is the message element
        (D::Tuple(w, x), Value::Object(o)) if o.len() == 1 => {
            let (e, y) = o.iter().next().unwrap();
            let r = schema().registry.iter().find(|r| r.element == *e).ok_or(format!("{path}: {e}"))?;
            if plain(w) != plain(&r.short) {
                return Err(format!("{path}: {e} was read into variant {w}"));
            }
            cmp(x, y, &format!("{path}.{e}"))
        }
        (D::Word(_), Value::Object(o)) if o.is_empty() => Ok(()),
        (D::List(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Err(format!("{path}: {} items instead of {}", a.len(), b.len()));
            }
            a.iter().zip(b).enumerate().try_for_each(|(i, (x, y))| cmp(x, y, &format!("{path}[{i}]")))
        }
        (D::Text(s), Value::String(t)) if *s == format!("{t:?}") => Ok(()),
        (D::Word(w), Value::String(t)) if plain(w) == format!("code{}", plain(t)) => Ok(()),
        (D::Word(w), Value::Bool(b)) if *w == b.to_string() => Ok(()),
        (D::Word(w), Value::Number(x)) if w.parse::<f64>().is_ok_and(|w| Some(w) == x.as_f64()) => Ok(()),
        (d, v) => Err(format!("{path}: {d:?} instead of {v}")),
    }
}

fn shown(dbg: &str, v: &Value) -> Result<(), String> {
    cmp(&parse(dbg).map_err(|e| format!("cannot read the Debug text ({e})"))?, v, "$")
}

/// Change exactly one datum of the message.
fn change(m: &Module, ty: usize, v: &mut Value, t: &mut Tape) -> Option<String> {
    let fs = m.fields(ty);
    let present: Vec<&Field> = fs.iter().filter(|f| v.get(&f.name).is_some()).collect();
    let absent: Vec<&Field> = fs.iter().filter(|f| f.card == Card::Opt && v.get(&f.name).is_none() && !matches!(f.ty, Ty::Ref(_))).collect();
    if !absent.is_empty() && (present.is_empty() || t.chance(15)) {
        let f = *t.pick(&absent);
        v[&f.name] = match f.ty {
            Ty::Str => json!(""),
            Ty::Num => json!(0.0),
            _ => json!(false),
        };
        return Some(format!("{} added", f.name));
    }
    if present.is_empty() {
        return None;
    }
    let f = *t.pick(&present);
    if matches!(f.card, Card::Opt | Card::Star) && t.chance(10) {
        v.as_object_mut().unwrap().remove(&f.name);
        return Some(format!("{} removed", f.name));
    }
    let mut x = &mut v[&f.name];
    if let Value::Array(a) = x {
        if a.is_empty() {
            return None;
        }
        if t.chance(20) {
            let last = a.last().unwrap().clone();
            a.push(last);
            return Some(format!("{} repeated once more", f.name));
        }
        let i = t.ix(a.len());
        x = &mut a[i];
    }
    match f.ty {
        Ty::Str => *x = json!(format!("{}{}", x.as_str().unwrap(), t.pick(&["x", "\u{301}", "\u{a0}"]))),
        Ty::Num => *x = json!(x.as_f64().unwrap() + if x.as_f64().unwrap().abs() < 1e9 { 1.0 } else { -x.as_f64().unwrap() }),
        Ty::Bool => *x = json!(!x.as_bool().unwrap()),
        Ty::Ref(c) => match &m.types[c].def {
            Def::Enum(codes) => {
                let o: Vec<&String> = codes.iter().filter(|k| *x != json!(k)).collect();
                if o.is_empty() {
                    return None;
                }
                *x = json!(t.pick(&o));
            }
            _ => return change(m, c, x, t).map(|s| format!("{}.{s}", f.name)),
        },
    }
    Some(f.name.clone())
}

fn c19(spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let (m, v) = build(spec, t, Text::Mixed);
    n.nontrivial = genmsg::leaves(&v) > 1;
    let mut w = v.clone();
    let changed = change(m, m.root, &mut w, t);
    match &m.reg {
        Some(r) => {
            let h = mx::hdr_module();
            let hv = header_value(t, Text::Mixed, &r.full);
            let mut j = mx::envelope(&hv, &r.element, &v);
            if t.chance(30) {
                j["@xmlns"] = json!("urn:a");
                if t.chance(50) {
                    j["@xmlns:xsi"] = json!("urn:b");
                }
            }
            n.key(j.to_string());
            n.sample = Some(json!({"module": m.name, "message": j}));
            let inp = || json!({"module": m.name, "message": j});
            let a = match MxMessage::from_json(&j.to_string()) {
                Ok(a) => a,
                Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), inp()),
            };
            if let Err(e) = shown(&format!("{a:?}"), &j) {
                return fail("the typed message holds other data than the JSON it was read from", format!("{}: {e}", m.name), inp());
            }
            let attr = |k: &str| j[k].as_str().map(|u| format!(" {}=\"{u}\"", &k[1..])).unwrap_or_default();
            let x = format!(
                "<Envelope{}{}>{}<Document>{}</Document></Envelope>",
                attr("@xmlns"),
                attr("@xmlns:xsi"),
                xmlref::plain(&xmlref::tree(h, h.root, "AppHdr", &hv)),
                xmlref::plain(&xmlref::tree(m, m.root, &r.element, &v))
            );
            let b = match MxMessage::from_xml(&x) {
                Ok(b) => b,
                Err(e) => return fail("from_xml rejects a valid message", format!("{}: {e}\n{x}", m.name), inp()),
            };
            if let Err(e) = shown(&format!("{b:?}"), &j) {
                return fail("the typed message holds other data than the XML it was read from", format!("{}: {e}\n{x}", m.name), inp());
            }
            if a != b || a.clone() != a {
                return fail("messages of the same content compare unequal", format!("{}\n{x}", m.name), inp());
            }
            // a message put together from its parts
            let c = MxMessage::new(a.app_hdr.clone(), a.document.clone());
            let mut k = j.clone();
            k["@xmlns"] = json!("urn:iso:std:iso:20022:tech:xsd:head.001.001.02");
            k["@xmlns:xsi"] = json!("http://www.w3.org/2001/XMLSchema-instance");
            if let Err(e) = shown(&format!("{c:?}"), &k) {
                return fail("MxMessage::new does not hold its parts and the standard namespaces", format!("{}: {e}", m.name), inp());
            }
            // ... from parts that do not belong together
            if t.chance(25) {
            let full = t.pick(&["pacs.008.001.08", "pacs.008.001.10", "camt.053.001.08", "camt.999.001.01", "", "x"]).to_string();
            let hv2 = header_value(t, Text::Mixed, &full);
            let two = xmlref::plain(&xmlref::tree(h, h.root, "AppHdr", &hv2));
            match quick_xml::de::from_str::<mx_message::header::AppHdr>(&two) {
                Ok(o) => {
                    k["AppHdr"] = hv2;
                    let c = MxMessage::new(o, a.document.clone());
                    if let Err(e) = shown(&format!("{c:?}"), &k) {
                        return fail("MxMessage::new does not hold a header of another type and the document", format!("{}: {e}", m.name), json!({"module": m.name, "message": k}));
                    }
                }
                Err(e) => return fail("a valid header is rejected", format!("{e}\n{two}"), inp()),
            }
            }
            if let Some(what) = changed {
                let mut k = j.clone();
                k["Document"][&r.element] = w.clone();
                match MxMessage::from_json(&k.to_string()) {
                    Ok(o) if o.document == a.document => {
                        return fail("messages of different content compare equal", format!("{}: {what}", m.name), json!({"module": m.name, "message": j, "other": k}));
                    }
                    Ok(_) => {}
                    Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), json!({"module": m.name, "message": k})),
                }
            }
            let mut k = hv.clone();
            if let Some(what) = change(h, h.root, &mut k, t) {
                let o = mx::envelope(&k, &r.element, &v);
                match MxMessage::from_json(&o.to_string()) {
                    Ok(o) if o.app_hdr == a.app_hdr => {
                        return fail("headers of different content compare equal", format!("{}: {what}", m.name), json!({"module": m.name, "message": j, "other": k}));
                    }
                    Ok(_) => {}
                    Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), json!({"module": m.name, "message": o})),
                }
            }
        }
        None => {
            n.key((&m.name, v.to_string()));
            n.sample = Some(json!({"module": m.name, "message": v}));
            let inp = || json!({"module": m.name, "message": v});
            let f = crate::ops::root(&m.name);
            let a = match (f.from_json)(&v.to_string()) {
                Ok(a) => a,
                Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), inp()),
            };
            if let Err(e) = shown(&a.debug(), &v) {
                return fail("the typed message holds other data than the JSON it was read from", format!("{}: {e}", m.name), inp());
            }
            let x = xmlref::plain(&xmlref::tree(m, m.root, &Msg::root_name(m), &v));
            let b = match (f.from_xml)(&x) {
                Ok(b) => b,
                Err(e) => return fail("from_xml rejects a valid message", format!("{}: {e}\n{x}", m.name), inp()),
            };
            if let Err(e) = shown(&b.debug(), &v) {
                return fail("the typed message holds other data than the XML it was read from", format!("{}: {e}\n{x}", m.name), inp());
            }
            if !a.same(b.as_ref()) || !a.dup().same(a.as_ref()) {
                return fail("messages of the same content compare unequal", format!("{}\n{x}", m.name), inp());
            }
            if let Some(what) = changed {
                match (f.from_json)(&w.to_string()) {
                    Ok(o) if o.same(a.as_ref()) => {
                        return fail("messages of different content compare equal", format!("{}: {what}", m.name), json!({"module": m.name, "message": v, "other": w}));
                    }
                    Ok(_) => {}
                    Err(e) => return fail("from_json rejects a valid message", format!("{}: {e}", m.name), json!({"module": m.name, "message": w})),
                }
            }
        }
    }
    Ok(())
}
