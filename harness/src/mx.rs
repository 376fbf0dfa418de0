//! Access to the library for every message module: registry modules go through MxMessage (the
//! public API users call), the other public modules through their own root types.
use crate::ops::{self, DynMsg, VErr};
use crate::schema::*;
use mx_message::MxMessage;
use mx_message::mx_envelope::Document;
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
use serde_json::{Value, json};

pub const HDR_MODULE: &str = "bah_pacs_008_001_08";

pub fn hdr_module() -> &'static Module {
    let s = schema();
    &s.modules[s.by_name[HDR_MODULE]]
}

pub fn envelope(hdr: &Value, element: &str, doc: &Value) -> Value {
    json!({"AppHdr": hdr, "Document": {element: doc}})
}

/// A fixed, constraint-satisfying header for cases that are about the document.
pub fn fixed_header(full: &str) -> Value {
    json!({
        "Fr": {"FIId": {"FinInstnId": {"BICFI": "BANKDEFFXXX"}}},
        "To": {"FIId": {"FinInstnId": {"BICFI": "BANKGB2LXXX"}}},
        "BizMsgIdr": "MSG-0001",
        "MsgDefIdr": full,
        "BizSvc": "swift.cbprplus.02",
        "CreDt": "2025-01-15T10:30:00+00:00"
    })
}

macro_rules! with_doc {
    ($d:expr, $x:ident => $e:expr) => {
        match $d {
            Document::Pacs008($x) => $e,
            Document::Pacs002($x) => $e,
            Document::Pacs003($x) => $e,
            Document::Pacs004($x) => $e,
            Document::Pacs009($x) => $e,
            Document::Pacs010($x) => $e,
            Document::Pain001($x) => $e,
            Document::Pain002($x) => $e,
            Document::Pain008($x) => $e,
            Document::Camt025($x) => $e,
            Document::Camt029($x) => $e,
            Document::Camt052($x) => $e,
            Document::Camt053($x) => $e,
            Document::Camt054($x) => $e,
            Document::Camt055($x) => $e,
            Document::Camt056($x) => $e,
            Document::Camt057($x) => $e,
            Document::Camt058($x) => $e,
            Document::Camt060($x) => $e,
            Document::Camt105($x) => $e,
            Document::Camt106($x) => $e,
            Document::Camt107($x) => $e,
            Document::Camt108($x) => $e,
            Document::Camt109($x) => $e,
            Document::Admi024($x) => $e,
        }
    };
}

pub fn flat(c: ErrorCollector) -> Vec<VErr> {
    c.errors()
        .into_iter()
        .map(|e| (e.code, e.field.unwrap_or_default(), e.path.unwrap_or_default(), e.message))
        .collect()
}

pub fn validate_document(d: &Document, path: &str, cfg: &ParserConfig, c: &mut ErrorCollector) {
    with_doc!(d, x => Validate::validate(x.as_ref(), path, cfg, c))
}

/// The document's short message type according to the enum variant the library chose.
pub fn variant_short(d: &Document) -> &'static str {
    match d {
        Document::Pacs008(_) => "pacs.008",
        Document::Pacs002(_) => "pacs.002",
        Document::Pacs003(_) => "pacs.003",
        Document::Pacs004(_) => "pacs.004",
        Document::Pacs009(_) => "pacs.009",
        Document::Pacs010(_) => "pacs.010",
        Document::Pain001(_) => "pain.001",
        Document::Pain002(_) => "pain.002",
        Document::Pain008(_) => "pain.008",
        Document::Camt025(_) => "camt.025",
        Document::Camt029(_) => "camt.029",
        Document::Camt052(_) => "camt.052",
        Document::Camt053(_) => "camt.053",
        Document::Camt054(_) => "camt.054",
        Document::Camt055(_) => "camt.055",
        Document::Camt056(_) => "camt.056",
        Document::Camt057(_) => "camt.057",
        Document::Camt058(_) => "camt.058",
        Document::Camt060(_) => "camt.060",
        Document::Camt105(_) => "camt.105",
        Document::Camt106(_) => "camt.106",
        Document::Camt107(_) => "camt.107",
        Document::Camt108(_) => "camt.108",
        Document::Camt109(_) => "camt.109",
        Document::Admi024(_) => "admi.024",
    }
}

/// A message of any module, loaded by the library.
pub enum Msg {
    Mx(Box<MxMessage>),
    Dyn(Box<dyn DynMsg>),
}

impl Msg {
    /// Load a document/header value into the library's typed representation (JSON entry point).
    pub fn load(m: &Module, v: &Value) -> Result<Msg, String> {
        match &m.reg {
            Some(r) => {
                let j = envelope(&fixed_header(&r.full), &r.element, v).to_string();
                MxMessage::from_json(&j).map(|x| Msg::Mx(Box::new(x))).map_err(|e| e.to_string())
            }
            None => (ops::root(&m.name).from_json)(&v.to_string()).map(Msg::Dyn),
        }
    }
    /// Name of the root element this message is written under.
    pub fn root_name(m: &Module) -> String {
        match &m.reg {
            Some(r) => r.element.clone(),
            None if m.is_header => "AppHdr".into(),
            None => m.types[m.root].name.clone(),
        }
    }
    /// Parse an XML fragment whose root element is `root_name`.
    pub fn parse_fragment(m: &Module, xml: &str) -> Result<Msg, String> {
        match &m.reg {
            Some(r) => {
                let x = format!("<Envelope>{}<Document>{xml}</Document></Envelope>", fixed_header_xml(&r.full));
                MxMessage::from_xml(&x).map(|x| Msg::Mx(Box::new(x))).map_err(|e| e.to_string())
            }
            None => (ops::root(&m.name).from_xml)(xml).map(Msg::Dyn),
        }
    }
    /// The XML fragment the library emits for the message part proper.
    pub fn fragment(&self) -> Result<String, String> {
        match self {
            Msg::Mx(x) => {
                let s = x.to_xml().map_err(|e| e.to_string())?;
                let a = s.find("<Document>").ok_or("no <Document>")? + "<Document>".len();
                let b = s.rfind("</Document>").ok_or("no </Document>")?;
                Ok(s[a..b].to_string())
            }
            Msg::Dyn(d) => d.to_xml(),
        }
    }
    /// The JSON value the library emits for the message part proper.
    pub fn value(&self, m: &Module) -> Result<Value, String> {
        match self {
            Msg::Mx(x) => {
                let s = x.to_json().map_err(|e| e.to_string())?;
                let v: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
                let r = m.reg.as_ref().unwrap();
                let d = v.get("Document").ok_or("no Document")?;
                let o = d.as_object().ok_or("Document not an object")?;
                if o.len() != 1 {
                    return Err(format!("Document has {} entries", o.len()));
                }
                d.get(&r.element).cloned().ok_or(format!("Document key {:?}", o.keys().collect::<Vec<_>>()))
            }
            Msg::Dyn(d) => serde_json::from_str(&d.to_json_string()?).map_err(|e| e.to_string()),
        }
    }
    pub fn validate(&self, path: &str, cfg: &ParserConfig) -> (Vec<VErr>, bool) {
        match self {
            Msg::Mx(x) => {
                let mut c = ErrorCollector::new();
                validate_document(&x.document, path, cfg, &mut c);
                let crit = c.has_critical_errors();
                (flat(c), crit)
            }
            Msg::Dyn(d) => d.validate(path, cfg),
        }
    }
    pub fn validate_into(&self, path: &str, cfg: &ParserConfig, c: &mut ErrorCollector) {
        match self {
            Msg::Mx(x) => validate_document(&x.document, path, cfg, c),
            Msg::Dyn(d) => d.validate_into(path, cfg, c),
        }
    }
    pub fn same(&self, o: &Msg) -> bool {
        match (self, o) {
            (Msg::Mx(a), Msg::Mx(b)) => a.document == b.document,
            (Msg::Dyn(a), Msg::Dyn(b)) => a.same(b.as_ref()),
            _ => false,
        }
    }
}

pub fn fixed_header_xml(full: &str) -> String {
    let h = hdr_module();
    crate::xmlref::plain(&crate::xmlref::tree(h, h.root, "AppHdr", &fixed_header(full)))
}
