//! Independent XML reference: schema-driven tree builder, styled writer, and a small strict parser.
use crate::schema::*;
use crate::tape::Tape;
use serde_json::{Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub text: Option<String>,
    pub kids: Vec<Node>,
    /// leaf type of the text, for typed comparison
    pub leaf: Option<Ty>,
}

/// The element tree the schema prescribes for a value: fields in declared order, one element per
/// occurrence, `@x` fields as attributes, `$value` as character data.
pub fn tree(m: &Module, ty: usize, name: &str, v: &Value) -> Node {
    let mut n = Node { name: name.into(), attrs: vec![], text: None, kids: vec![], leaf: None };
    match &m.types[ty].def {
        Def::Enum(_) => {
            n.text = Some(v.as_str().unwrap_or("").to_string());
            n.leaf = Some(Ty::Str);
        }
        Def::Struct(fs) => {
            for f in fs {
                let Some(fv) = v.get(&f.name) else { continue };
                if let Some(a) = f.name.strip_prefix('@') {
                    n.attrs.push((a.to_string(), leaf_text(fv)));
                } else if f.name == "$value" || f.name == "$text" {
                    n.text = Some(leaf_text(fv));
                    n.leaf = Some(f.ty);
                } else {
                    let each = |x: &Value| match f.ty {
                        Ty::Ref(c) => tree(m, c, &f.name, x),
                        t => Node {
                            name: f.name.clone(),
                            attrs: vec![],
                            text: Some(leaf_text(x)),
                            kids: vec![],
                            leaf: Some(t),
                        },
                    };
                    match fv {
                        Value::Array(xs) if matches!(f.card, Card::Plus | Card::Star) => {
                            n.kids.extend(xs.iter().map(each))
                        }
                        x => n.kids.push(each(x)),
                    }
                }
            }
        }
    }
    n
}

pub fn leaf_text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Bool(b) => b.to_string(),
        Value::Number(n) => fmt_num(n.as_f64().unwrap()),
        Value::Null => String::new(),
        o => o.to_string(),
    }
}

/// Plain decimal notation, shortest digits that identify the value.
pub fn fmt_num(x: f64) -> String {
    format!("{x}")
}

/// Compare a parsed tree (no leaf types) against the prescribed tree.
pub fn cmp_tree(want: &Node, got: &Node, path: &str) -> Result<(), String> {
    let p = format!("{path}/{}", want.name);
    if want.name != got.name {
        return Err(format!("{p}: element <{}> found where <{}> is prescribed", got.name, want.name));
    }
    if want.attrs != got.attrs {
        return Err(format!("{p}: attributes {:?}, prescribed {:?}", got.attrs, want.attrs));
    }
    if want.kids.is_empty() && got.kids.is_empty() {
        let w = want.text.clone().unwrap_or_default();
        let g = got.text.clone().unwrap_or_default();
        let ok = match want.leaf {
            Some(Ty::Num) => {
                let plain = !g.is_empty()
                    && g.strip_prefix('-').unwrap_or(&g).chars().all(|c| c.is_ascii_digit() || c == '.');
                plain && g.parse::<f64>().ok() == w.parse::<f64>().ok()
            }
            _ => w == g,
        };
        return if ok { Ok(()) } else { Err(format!("{p}: text {g:?}, prescribed {w:?}")) };
    }
    if got.text.as_deref().is_some_and(|t| !t.trim().is_empty()) {
        return Err(format!("{p}: unexpected text {:?}", got.text));
    }
    for (i, w) in want.kids.iter().enumerate() {
        match got.kids.get(i) {
            None => return Err(format!("{p}: element <{}> (child {i}) is missing", w.name)),
            Some(g) => cmp_tree(w, g, &p)?,
        }
    }
    if got.kids.len() > want.kids.len() {
        return Err(format!("{p}: extra element <{}>", got.kids[want.kids.len()].name));
    }
    Ok(())
}

/// Read a value back from a tree using only the schema (used to turn XML the library emitted, or
/// the checker wrote, into the JSON shape without the library).
pub fn value_of(m: &Module, ty: usize, n: &Node) -> Value {
    match &m.types[ty].def {
        Def::Enum(_) => Value::String(n.text.clone().unwrap_or_default()),
        Def::Struct(fs) => {
            let mut o = Map::new();
            for f in fs {
                if let Some(a) = f.name.strip_prefix('@') {
                    if let Some((_, v)) = n.attrs.iter().find(|(k, _)| k == a) {
                        o.insert(f.name.clone(), typed(f.ty, v));
                    }
                } else if f.name == "$value" {
                    o.insert(f.name.clone(), typed(f.ty, n.text.as_deref().unwrap_or("")));
                } else {
                    let xs: Vec<Value> = n
                        .kids
                        .iter()
                        .filter(|k| k.name == f.name)
                        .map(|k| match f.ty {
                            Ty::Ref(c) => value_of(m, c, k),
                            t => typed(t, k.text.as_deref().unwrap_or("")),
                        })
                        .collect();
                    if matches!(f.card, Card::Plus | Card::Star) {
                        if !xs.is_empty() {
                            o.insert(f.name.clone(), Value::Array(xs));
                        }
                    } else if let Some(x) = xs.into_iter().next() {
                        o.insert(f.name.clone(), x);
                    }
                }
            }
            Value::Object(o)
        }
    }
}
fn typed(t: Ty, s: &str) -> Value {
    match t {
        Ty::Num => serde_json::json!(s.parse::<f64>().unwrap_or(f64::NAN)),
        Ty::Bool => Value::Bool(s == "true" || s == "1"),
        _ => Value::String(s.to_string()),
    }
}

// ---------------------------------------------------------------- writer

/// Which syntactic freedoms the writer may use. All are XML-equivalent forms of the same tree.
#[derive(Clone, Debug, Default)]
pub struct Style {
    pub indent: bool,
    pub crlf: bool,
    pub char_refs: bool,
    pub cdata: bool,
    pub single_quotes: bool,
    pub tag_space: bool,
    pub comments: bool,
    /// comments, processing instructions and CDATA sections inside text
    pub split: bool,
    pub gt_raw: bool,
    pub pad_text: bool,
    pub pi: bool,
}

pub fn esc_text(s: &str, st: &Style, t: &mut Tape) -> String {
    let mut o = String::new();
    if st.cdata && !s.is_empty() && t.chance(50) {
        // CDATA sections cannot contain "]]>": split it across two sections
        return format!("<![CDATA[{}]]>", s.replace("]]>", "]]]]><![CDATA[>"));
    }
    for (i, c) in s.chars().enumerate() {
        if st.split && i > 0 && t.chance(6) {
            match t.ix(5) {
                0 => o.push_str("<!-- x -->"),
                1 => o.push_str("<?p q?>"),
                2 => o.push_str("<![CDATA[]]>"),
                3 => o.push_str("<!--<b>y</b>-->"),
                _ if c != ']' => {
                    o.push_str(&format!("<![CDATA[{c}]]>"));
                    continue;
                }
                _ => {}
            }
        }
        let must = matches!(c, '<' | '&');
        if must || (c == '>' && !st.gt_raw) || (st.char_refs && t.chance(10)) {
            if st.char_refs && t.chance(50) {
                match t.ix(5) {
                    0 | 1 => o.push_str(&format!("&#{};", c as u32)),
                    2 => o.push_str(&format!("&#x{:x};", c as u32)),
                    3 => o.push_str(&format!("&#x{:X};", c as u32)),
                    _ => o.push_str(&format!("&#{:06};", c as u32)),
                }
            } else {
                match c {
                    '<' => o.push_str("&lt;"),
                    '>' => o.push_str("&gt;"),
                    '&' => o.push_str("&amp;"),
                    '"' => o.push_str("&quot;"),
                    '\'' => o.push_str("&apos;"),
                    c => o.push(c),
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub fn esc_attr(s: &str, q: char, st: &Style, t: &mut Tape) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '&' => o.push_str("&amp;"),
            '>' => o.push_str("&gt;"),
            '"' if q == '"' => o.push_str("&quot;"),
            '\'' if q == '\'' => o.push_str("&apos;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#9;"),
            '\r' => o.push_str("&#13;"),
            c if st.char_refs && t.chance(10) => o.push_str(&format!("&#{};", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub fn write(n: &Node, st: &Style, t: &mut Tape, depth: usize, o: &mut String) {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let pad = |o: &mut String, d: usize| {
        if st.indent {
            o.push_str(nl);
            for _ in 0..d {
                o.push_str("  ");
            }
        }
    };
    o.push('<');
    o.push_str(&n.name);
    for (k, v) in &n.attrs {
        let q = if st.single_quotes && t.chance(50) { '\'' } else { '"' };
        o.push_str(if st.tag_space && t.chance(30) { t.pick(&["  ", "\n", "\t ", "\r\n   "]) } else { " " });
        o.push_str(k);
        o.push_str(if st.tag_space && t.chance(20) { t.pick(&[" = ", "= ", "\n="]) } else { "=" });
        o.push(q);
        o.push_str(&esc_attr(v, q, st, t));
        o.push(q);
    }
    let empty = n.kids.is_empty() && n.text.as_deref().unwrap_or("").is_empty();
    if empty && t.chance(50) {
        o.push_str(if st.tag_space { " />" } else { "/>" });
        return;
    }
    if st.tag_space && t.chance(25) {
        o.push_str(t.pick(&[" ", "\n", "\t\t", "\r\n  "]));
    }
    o.push('>');
    if n.kids.is_empty() {
        let tx = n.text.as_deref().unwrap_or("");
        if st.pad_text && t.chance(40) {
            o.push_str(t.pick(&[" ", "\n", "\n    ", "\t", "  "]));
        }
        o.push_str(&esc_text(tx, st, t));
        if st.pad_text && t.chance(40) {
            o.push_str(t.pick(&[" ", "\n", "\n    ", "\t", "  "]));
        }
    } else {
        for k in &n.kids {
            pad(o, depth + 1);
            if st.comments && t.chance(15) {
                if t.chance(1) {
                    o.push_str(&format!("<!--{}-->", " long".repeat(t.ix(4000))));
                }
                o.push_str(t.pick(&["<!-- note -->", "<!---->", "<!-- <X>1</X> -->", "<!-- & -->"]));
                pad(o, depth + 1);
            }
            if st.pi && t.chance(10) {
                o.push_str("<?app data?>");
                pad(o, depth + 1);
            }
            write(k, st, t, depth + 1, o);
        }
        if st.comments && t.chance(10) {
            o.push_str("<!-- end -->");
        }
        pad(o, depth);
    }
    o.push_str("</");
    o.push_str(&n.name);
    if st.tag_space && t.chance(25) {
        o.push_str(t.pick(&[" ", "\n", "\t\t", "\r\n  "]));
    }
    o.push('>');
}

/// An attribute without meaning to the library whose value looks like markup.
pub fn odd_attr(t: &mut Tape) -> String {
    let v = *t.pick(&["a>b", "/>", ">", "-->", "]]>", "?>", "&lt;Document>", "&lt;/Document>", "&lt;AppHdr>", "Document>", "AppHdr", "xmlns=", "&lt;MsgDefIdr>pacs.002.001.10&lt;/MsgDefIdr>", "&lt;!--", "=", "a > b < c", "&#62;", "&gt;&#10;"]);
    let v = v.replace(" < ", " &lt; ");
    let (q, o) = if t.chance(50) { ('\'', '"') } else { ('"', '\'') };
    let inner = if t.chance(20) { o.to_string() } else { String::new() };
    format!("{}{}={q}{inner}{v}{inner}{q}", t.pick(&[" ", "\n  ", "\t"]), t.pick(&["note", "xsi:schemaLocation", "Document", "xmlns:d", "x", "AppHdr"]))
}

pub fn plain(n: &Node) -> String {
    let mut o = String::new();
    let mut t = Tape::replay(vec![]);
    write(n, &Style::default(), &mut t, 0, &mut o);
    o
}

// ---------------------------------------------------------------- strict little parser

pub fn parse(s: &str) -> Result<Node, String> {
    let mut p = P { b: s.as_bytes(), s, i: 0 };
    p.misc()?;
    let n = p.element(0)?;
    p.misc()?;
    if p.i != p.b.len() {
        return Err(format!("content after the root element at byte {}", p.i));
    }
    Ok(n)
}
struct P<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
}
impl P<'_> {
    fn at(&self, x: &str) -> bool {
        self.s[self.i..].starts_with(x)
    }
    fn skip_to(&mut self, x: &str) -> Result<usize, String> {
        let k = self.s[self.i..].find(x).ok_or_else(|| format!("no {x:?} after byte {}", self.i))?;
        let st = self.i;
        self.i += k + x.len();
        Ok(st)
    }
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.at("<?") {
                self.skip_to("?>")?;
            } else if self.at("<!--") {
                self.skip_to("-->")?;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        while self.i < self.b.len()
            && (self.b[self.i].is_ascii_alphanumeric() || matches!(self.b[self.i], b'_' | b'-' | b'.' | b':') || self.b[self.i] >= 0x80)
        {
            self.i += 1;
        }
        if st == self.i {
            return Err(format!("name expected at byte {st}"));
        }
        Ok(self.s[st..self.i].to_string())
    }
    fn element(&mut self, depth: usize) -> Result<Node, String> {
        if depth > 2000 {
            return Err("too deep".into());
        }
        if !self.at("<") {
            return Err(format!("'<' expected at byte {}", self.i));
        }
        self.i += 1;
        let name = self.name()?;
        let mut attrs = vec![];
        loop {
            self.ws();
            if self.at("/>") {
                self.i += 2;
                return Ok(Node { name, attrs, text: None, kids: vec![], leaf: None });
            }
            if self.at(">") {
                self.i += 1;
                break;
            }
            let k = self.name()?;
            self.ws();
            if !self.at("=") {
                return Err(format!("'=' expected at byte {}", self.i));
            }
            self.i += 1;
            self.ws();
            let q = if self.at("\"") { "\"" } else if self.at("'") { "'" } else { return Err("quote".into()) };
            self.i += 1;
            let st = self.skip_to(q)?;
            let raw = &self.s[st..self.i - 1];
            if raw.contains('<') {
                return Err("'<' in attribute".into());
            }
            attrs.push((k, unescape(raw)?));
        }
        let mut text = String::new();
        let mut any = false;
        let mut kids = vec![];
        loop {
            if self.i >= self.b.len() {
                return Err(format!("<{name}> not closed"));
            }
            if self.at("</") {
                self.i += 2;
                let n = self.name()?;
                if n != name {
                    return Err(format!("</{n}> closes <{name}>"));
                }
                self.ws();
                if !self.at(">") {
                    return Err("'>' expected".into());
                }
                self.i += 1;
                break;
            } else if self.at("<!--") {
                self.skip_to("-->")?;
            } else if self.at("<![CDATA[") {
                self.i += 9;
                let st = self.skip_to("]]>")?;
                text.push_str(&self.s[st..self.i - 3]);
                any = true;
            } else if self.at("<?") {
                self.skip_to("?>")?;
            } else if self.at("<") {
                kids.push(self.element(depth + 1)?);
            } else {
                let k = self.s[self.i..].find('<').unwrap_or(self.s.len() - self.i);
                text.push_str(&unescape(&self.s[self.i..self.i + k])?);
                any = true;
                self.i += k;
            }
        }
        Ok(Node { name, attrs, text: any.then_some(text), kids, leaf: None })
    }
}
fn unescape(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut r = s;
    while let Some(k) = r.find('&') {
        o.push_str(&r[..k]);
        let e = r[k..].find(';').ok_or("unterminated entity")? + k;
        let n = &r[k + 1..e];
        o.push(match n {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let c = if let Some(h) = n.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = n.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                c.and_then(char::from_u32).ok_or_else(|| format!("entity &{n};"))?
            }
        });
        r = &r[e + 1..];
    }
    o.push_str(r);
    Ok(o)
}
