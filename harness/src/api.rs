//! Every public entry point as one text-to-text operation, and a direct driver for the plugins.
use crate::mx;
use crate::ops;
use dataflow_rs::engine::message::{Change, Message};
use dataflow_rs::engine::{AsyncFunctionHandler, FunctionConfig};
use datalogic_rs::DataLogic;
use mx_message::parse_result::ParserConfig;
use mx_message::{MxMessage, message_registry as reg, mx_envelope as env, plugin::common, xml};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::{Arc, LazyLock};

type Handler = Box<dyn AsyncFunctionHandler + Send + Sync>;

pub const PLUGINS: [&str; 4] = ["generate_mx", "publish_mx", "validate_mx", "parse_mx"];

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().unwrap();
}

/// One instance of every plugin serves all calls and threads of a process, as in an engine.
static HANDLERS: LazyLock<HashMap<&'static str, Handler>> =
    LazyLock::new(|| mx_message::plugin::register_mx_functions().into_iter().collect());
static LOGIC: LazyLock<Arc<DataLogic>> = LazyLock::new(|| Arc::new(DataLogic::new()));

pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    RT.with(|r| r.block_on(f))
}

pub fn exec(name: &str, m: &mut Message, c: &FunctionConfig) -> Result<(usize, Vec<Change>), String> {
    let h = HANDLERS.get(name).unwrap_or_else(|| panic!("LIBPANIC plugin {name} is not registered"));
    block_on(h.execute(m, c, LOGIC.clone())).map_err(|e| e.to_string())
}

pub fn custom(name: &str, input: &Value) -> FunctionConfig {
    FunctionConfig::Custom { name: name.to_string(), input: input.clone() }
}

pub fn message(payload: &Value, data: &Value, metadata: &Value, temp: &Value) -> Message {
    let mut m = Message::from_value(payload);
    m.context = json!({"data": data, "metadata": metadata, "temp_data": temp});
    m.invalidate_context_cache();
    m
}

fn s<'a>(o: &'a Value, k: &str) -> &'a str {
    o[k].as_str().unwrap_or("")
}

/// All eight parser configurations.
pub fn cfgs() -> Vec<ParserConfig> {
    let mut v = vec![];
    for a in [false, true] {
        for b in [false, true] {
            for c in [false, true] {
                v.push(crate::checks::validate::cfg(a, b, c));
            }
        }
    }
    v
}

/// What a typed full message looks like from outside.
pub fn show(m: &MxMessage) -> String {
    format!(
        "type {:?} ns {:?} docns {:?}\njson {:?}\nxml {:?}\n",
        m.message_type(),
        m.namespace(),
        m.document.namespace(),
        m.to_json(),
        m.to_xml(),
    )
}

pub fn show_validation(m: &MxMessage, which: usize) -> String {
    let mut o = String::new();
    for (i, c) in cfgs().iter().enumerate() {
        if which == 8 || which == i {
            let mut e = mx_message::parse_result::ErrorCollector::new();
            mx::validate_document(&m.document, "d", c, &mut e);
            let crit = e.has_critical_errors();
            o += &format!("{i}: {crit} {:?}\n", mx::flat(e));
        }
    }
    o
}

/// Timestamps are the only documented time-dependent output.
fn no_time(mut v: Value) -> Value {
    if let Some(t) = v.get_mut("timestamp") {
        *t = json!(t.as_str().is_some_and(|s| chrono::DateTime::parse_from_rfc3339(s).is_ok()));
    }
    v
}

/// Run one operation and render everything observable about its result.
pub fn run_op(o: &Value) -> String {
    match s(o, "op") {
        "from_xml" => match MxMessage::from_xml(s(o, "s")) {
            Ok(m) => show(&m),
            e => format!("{e:?}"),
        },
        "from_json" => match MxMessage::from_json(s(o, "s")) {
            Ok(m) => show(&m),
            e => format!("{e:?}"),
        },
        "validate" => match MxMessage::from_json(s(o, "s")) {
            Ok(m) => show_validation(&m, o["cfg"].as_u64().unwrap_or(8) as usize),
            e => format!("{e:?}"),
        },
        "peek_xml" => format!("{:?}", env::peek_message_type_from_xml(s(o, "s"))),
        "peek_json" => format!("{:?}", env::peek_message_type_from_json(s(o, "s"))),
        "ext" => format!("{:?}", common::extract_message_type_from_xml(s(o, "s")).map_err(|e| e.to_string())),
        "ext_json" => format!("{:?}", common::extract_message_type(&o["v"]).map_err(|e| e.to_string())),
        "content" => format!(
            "{:?}",
            common::extract_mx_content(&o["data"], s(o, "s"), &o["payload"]).map_err(|e| e.to_string())
        ),
        "env_str" => format!("{:?}", xml::from_mx_xml_envelope_str(s(o, "s"), s(o, "t"))),
        "doc" => format!("{:?}", xml::xml_to_json_via_document(s(o, "s"), s(o, "t"))),
        "to_json" => format!("{:?}", xml::from_mx_xml_to_json(s(o, "s"))),
        "lookup" => {
            let k = s(o, "s");
            format!(
                "{:?}",
                (
                    reg::get_namespace(k),
                    reg::normalize_message_type(k),
                    reg::element_to_message_type(k),
                    reg::message_type_to_element(k),
                    reg::message_type_to_rust_type(k),
                    reg::get_full_form(k),
                    env::get_namespace_for_message_type(k),
                    env::normalize_message_type(k),
                    common::map_document_element_to_message_type(k).map_err(|e| e.to_string()),
                )
            )
        }
        "check" => {
            use mx_message::validation::helpers as h;
            let cfg = ParserConfig { fail_fast: o["ff"] == true, ..ParserConfig::default() };
            let mut c = mx_message::parse_result::ErrorCollector::new();
            let lim = |k: &str| o[k].as_u64().map(|x| x as usize);
            let r = match s(o, "k") {
                "pattern" => h::validate_pattern(s(o, "v"), s(o, "f"), s(o, "p"), s(o, "at"), &cfg, &mut c),
                "length" => h::validate_length(s(o, "v"), s(o, "f"), lim("min"), lim("max"), s(o, "at"), &cfg, &mut c),
                _ => h::validate_required(&o["v"].as_str(), s(o, "f"), s(o, "at"), &cfg, &mut c),
            };
            format!("{r} {} {:?} {}", c.has_critical_errors(), c.errors(), h::child_path(s(o, "at"), s(o, "f")))
        }
        "typed" => {
            let r = ops::root(s(o, "m"));
            let f = if o["xml"] == true { r.from_xml } else { r.from_json };
            match f(s(o, "s")) {
                Ok(d) => format!("{:?}\n{:?}\n{:?}", d.to_json_string(), d.to_xml(), d.validate("d", &ParserConfig::default())),
                Err(e) => format!("Err {e}"),
            }
        }
        "plugin" => {
            let mut m = message(&o["payload"], &o["data"], &o["metadata"], &json!({}));
            let name = s(o, "name");
            let r = exec(name, &mut m, &custom(name, &o["input"]));
            let r = r.map(|(c, ch)| {
                (c, ch.iter().map(|c| (c.path.to_string(), no_time((*c.old_value).clone()), no_time((*c.new_value).clone()))).collect::<Vec<_>>())
            });
            let part = |v: &Value| {
                Value::Object(v.as_object().cloned().unwrap_or_default().into_iter().map(|(k, v)| (k, no_time(v))).collect())
            };
            format!("{r:?}\n{}\n{}", part(m.data()), part(m.metadata()))
        }
        k => panic!("operation {k}"),
    }
}
