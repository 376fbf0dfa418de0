mod api;
mod cases;
mod checks;
mod fuzz;
mod genmsg;
mod mx;
mod ops;
mod runner;
mod schema;
mod strgen;
mod tape;
mod xmlref;

use runner::Tier;

fn find(id: &str) -> &'static runner::Check {
    checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match arg(0) {
        "check" => {
            let tier = match arg(2) {
                "thorough" => Tier::Thorough,
                "quick" => Tier::Quick,
                _ if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            runner::check_main(find(arg(1)), tier, seed)
        }
        "worker" => {
            let tier = if arg(2) == "thorough" { Tier::Thorough } else { Tier::Quick };
            runner::worker(find(arg(1)), tier, arg(3).parse().unwrap(), arg(4).as_ref(), arg(5).as_ref(), arg(6).parse().ok());
            0
        }
        "fuzz" => {
            let n = |i: usize| arg(i).parse::<u64>().unwrap();
            fuzz::worker(find(arg(1)), n(2), n(3), n(4), arg(5).as_ref(), arg(6).as_ref());
            0
        }
        "fresh" | "play" => {
            checks::robust::helper(arg(0));
            0
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(arg(1)).expect("replay file")).expect("replay json");
            runner::replay(find(v["property"].as_str().unwrap_or("")), &v)
        }
        "list" => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        "sample" => {
            let m = &schema::schema().modules[schema::schema().by_name[arg(1)]];
            let mut z = tape::Tape::replay(vec![]);
            let v = match m.types.iter().position(|t| t.name == arg(2)) {
                Some(ti) => {
                    let fi = m.fields(ti).iter().position(|f| f.name == arg(3)).unwrap();
                    cases::build(&serde_json::json!({"k": "edge", "m": arg(1), "t": ti, "f": fi}), &mut z, genmsg::Text::Valid).1
                }
                None => genmsg::Gen::new(m, &mut z, genmsg::Cfg::new(0, 10, genmsg::Text::Valid)).root(),
            };
            println!("{v}");
            0
        }
        "probe" => {
            use std::io::Read;
            let mut i = String::new();
            std::io::stdin().read_to_string(&mut i).unwrap();
            runner::install_hook();
            let r = std::panic::catch_unwind(|| match arg(1) {
                "from_xml" => format!("{:?}", mx_message::MxMessage::from_xml(&i).map(|m| m.to_json().unwrap())),
                "to_xml" => format!("{:?}", mx_message::MxMessage::from_json(&i).and_then(|m| m.to_xml())),
                "envstr" => format!("{:?}", mx_message::xml::from_mx_xml_envelope_str(&i, arg(2))),
                "doc" => format!("{:?}", mx_message::xml::xml_to_json_via_document(&i, arg(2))),
                "tojson" => format!("{:?}", mx_message::xml::from_mx_xml_to_json(&i)),
                "peek" => format!("{:?}", mx_message::mx_envelope::peek_message_type_from_xml(&i)),
                "ext" => format!("{:?}", mx_message::plugin::common::extract_message_type_from_xml(&i)),
                o => format!("? {o}"),
            });
            println!("{}", r.unwrap_or_else(|_| "PANIC".into()));
            0
        }
        _ => {
            eprintln!("usage: mxverif check <id> [quick|thorough] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
