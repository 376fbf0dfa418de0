//! Uniform, dynamically typed access to the public root type of every message module.
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
use serde::Serialize;
use serde::de::DeserializeOwned;


#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Document,
    Header,
}

/// (code, field, path, message)
pub type VErr = (u32, String, String, String);

pub trait DynMsg {
    fn to_json_string(&self) -> Result<String, String>;
    fn to_xml(&self) -> Result<String, String>;
    fn validate(&self, path: &str, cfg: &ParserConfig) -> (Vec<VErr>, bool);
    fn validate_into(&self, path: &str, cfg: &ParserConfig, c: &mut ErrorCollector);
    fn same(&self, other: &dyn DynMsg) -> bool;
    fn dup(&self) -> Box<dyn DynMsg>;
    fn debug(&self) -> String;
    fn as_any(&self) -> &dyn std::any::Any;
}

impl<T> DynMsg for T
where
    T: Serialize + DeserializeOwned + Validate + Clone + PartialEq + std::fmt::Debug + 'static,
{
    fn to_json_string(&self) -> Result<String, String> {
        serde_json::to_string(self).map_err(|e| e.to_string())
    }
    fn to_xml(&self) -> Result<String, String> {
        quick_xml::se::to_string(self).map_err(|e| e.to_string())
    }
    fn validate(&self, path: &str, cfg: &ParserConfig) -> (Vec<VErr>, bool) {
        let mut c = ErrorCollector::new();
        Validate::validate(self, path, cfg, &mut c);
        let crit = c.has_critical_errors();
        (
            c.errors()
                .into_iter()
                .map(|e| {
                    (
                        e.code,
                        e.field.unwrap_or_default(),
                        e.path.unwrap_or_default(),
                        e.message,
                    )
                })
                .collect(),
            crit,
        )
    }
    fn validate_into(&self, path: &str, cfg: &ParserConfig, c: &mut ErrorCollector) {
        Validate::validate(self, path, cfg, c)
    }
    fn same(&self, other: &dyn DynMsg) -> bool {
        other.as_any().downcast_ref::<T>().is_some_and(|o| o == self)
    }
    fn dup(&self) -> Box<dyn DynMsg> {
        Box::new(self.clone())
    }
    fn debug(&self) -> String {
        format!("{self:?}")
    }
    fn as_any(&self) -> &dyn std::any::Any {
        self
    }
}

pub struct RootOps {
    pub module: &'static str,
    pub kind: Kind,
    pub from_json: fn(&str) -> Result<Box<dyn DynMsg>, String>,
    pub from_xml: fn(&str) -> Result<Box<dyn DynMsg>, String>,
}

fn fj<T: DynMsg + DeserializeOwned + 'static>(s: &str) -> Result<Box<dyn DynMsg>, String> {
    serde_json::from_str::<T>(s).map(|m| Box::new(m) as _).map_err(|e| e.to_string())
}
fn fx<T: DynMsg + DeserializeOwned + 'static>(s: &str) -> Result<Box<dyn DynMsg>, String> {
    quick_xml::de::from_str::<T>(s).map(|m| Box::new(m) as _).map_err(|e| e.to_string())
}

macro_rules! modpath {
    (document, $m:ident, $t:ident) => { mx_message::document::$m::$t };
    (header, $m:ident, $t:ident) => { mx_message::header::$m::$t };
}
macro_rules! kind {
    (document) => { Kind::Document };
    (header) => { Kind::Header };
}
macro_rules! roots {
    ($($name:literal, $kind:ident, $m:ident, $t:ident;)*) => {
        pub static ROOTS: &[RootOps] = &[
            $(RootOps {
                module: $name,
                kind: kind!($kind),
                from_json: fj::<modpath!($kind, $m, $t)>,
                from_xml: fx::<modpath!($kind, $m, $t)>,
            },)*
        ];
    };
}
include!("roots.rs");

pub fn root(module: &str) -> &'static RootOps {
    ROOTS.iter().find(|r| r.module == module).expect("module")
}
