//! C21: the box-wrapping post-processor of the code generation changes exactly what its configuration selects.
use crate::runner::*;
use crate::tape::Tape;
use regex::Regex;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};

pub static C21: Check = Check {
    id: "C21",
    rule: "distinct directory of generated modules and configuration for which dry run, run, second run and saved configuration were all compared with the reference",
    assumptions: &[
        "modules have the shape the generator writes: no recursive types, one name per type and module, line feeds as line ends",
        "a single optional field is left as it is, whatever its type",
    ],
    cases: |t| (0..if t == Tier::Quick { 480 } else { 4000 }).map(|r| json!({"r": r})).collect(),
    run: c21,
    health: no_health,
};

#[derive(Clone)]
struct Config {
    always: Vec<String>,
    in_vec: Vec<String>,
    parents: Vec<String>,
    min_fields: u64,
    depth: u64,
    size: bool,
    patterns: bool,
    nesting: bool,
}

/// what the tool uses without a configuration file
fn defaults() -> Config {
    let mut always = vec![];
    for (n, v) in [("ReportEntry", 10), ("EntryDetails", 9), ("EntryTransaction", 10), ("TransactionParties", 6), ("TransactionAgents", 5), ("RemittanceInformation", 16)] {
        for k in 1..4 {
            always.push(format!("{n}{v}{k}"));
        }
    }
    let s = |x: &[&str]| x.iter().map(|s| s.to_string()).collect();
    Config {
        always,
        in_vec: s(&[r".*Entry\d+$", r".*Transaction\d+$", r".*Details\d+$", r".*Parties\d+$"]),
        parents: s(&[r".*Report\d+$", r".*Statement\d+$"]),
        min_fields: 10,
        depth: 4,
        size: true,
        patterns: true,
        nesting: true,
    }
}

/// box-config.json of the repository
fn repo_config() -> Config {
    let mut c = Config { in_vec: vec![], parents: vec![], min_fields: 20, depth: 6, size: false, patterns: false, nesting: false, ..defaults() };
    c.always.retain(|n| n.starts_with("ReportEntry") || n.starts_with("Entry"));
    c
}

#[derive(Clone, Copy, PartialEq)]
enum Shape {
    One,
    Opt,
    Vec,
    OptVec,
    Boxed,
    VecBoxed,
}

struct Field {
    name: String,
    ty: String,
    shape: Shape,
    attr: String,
}

enum Item {
    Struct { name: String, note: String, fields: Vec<Field>, code: String },
    Enum { name: String, codes: usize },
}

const PRIMITIVES: [&str; 6] = ["String", "bool", "f64", "u64", "i32", "char"];
const NAMES: [&str; 22] = [
    "ReportEntry101", "ReportEntry1", "ReportEntry10", "EntryDetails91", "EntryDetails9", "EntryTransaction102", "EntryTransaction1025", "TransactionParties61", "TransactionAgents52", "RemittanceInformation161", "AccountReport251",
    "AccountReport25", "AccountStatement9", "StatementChoice1", "CashAccount401", "Party38Choice1", "PostalAddress241", "Entry", "BatchInformation21", "GroupHeader81", "XEntry1", "MyReport1",
];
const PATTERNS: [&str; 8] = [r".*Entry\d+$", r".*Details\d+$", r"Party\d+", r"[A-C].*1$", r"Entry", r"\w+Choice1", r".*", r"$"];
const FIELDS: [&str; 12] = ["ntry", "ntry_dtls", "dtls", "ntry_dtls1", "id", "acct", "nm", "pub_x", "tx", "tx_id", "vec", "rmt_inf"];
const WORDS: [&str; 8] = ["Set of elements", "Vec<ReportEntry101>", "Zahlung \u{fc}ber", "pub ntry: Vec<EntryDetails91>,", "Box<Entry>", "id: String", "\u{65e5}\u{672c}", "x"];

fn field_type(f: &Field, boxed: bool) -> String {
    let t = if boxed { format!("Box<{}>", f.ty) } else { f.ty.clone() };
    match f.shape {
        Shape::One => t,
        Shape::Opt => format!("Option<{}>", f.ty),
        Shape::Vec => format!("Vec<{t}>"),
        Shape::OptVec => format!("Option<Vec<{t}>>"),
        Shape::Boxed => format!("Box<{}>", f.ty),
        Shape::VecBoxed => format!("Option<Vec<Box<{}>>>", f.ty),
    }
}

fn module(t: &mut Tape) -> Vec<Item> {
    let mut names: Vec<&str> = NAMES.to_vec();
    let mut chosen = vec![];
    for _ in 0..t.range(1, 9) {
        chosen.push(names.remove(t.ix(names.len())));
    }
    let n = chosen.len();
    let mut kinds = vec![];
    for _ in 0..n {
        kinds.push(t.chance(15));
    }
    let mut items = vec![];
    for i in 0..n {
        if kinds[i] {
            items.push(Item::Enum { name: chosen[i].into(), codes: t.range(1, 3) });
            continue;
        }
        let mut fields = vec![];
        let count = if t.chance(30) { t.range(6, 24) } else { t.range(0, 5) };
        for k in 0..count {
            let name = if k < FIELDS.len() { FIELDS[(k + i) % FIELDS.len()].to_string() } else { format!("f{k}") };
            let ty = match t.below(3) {
                // later types only: no recursion
                0 if i + 1 < n => chosen[t.range(i + 1, n - 1)].to_string(),
                1 if !names.is_empty() && t.chance(30) => t.pick(&names).to_string(),
                2 if i + 1 < n => chosen[i + 1].to_string(),
                _ => t.pick(&PRIMITIVES).to_string(),
            };
            let shape = *t.pick(&[Shape::One, Shape::Vec, Shape::OptVec, Shape::Opt, Shape::Boxed, Shape::VecBoxed]);
            let attr = if t.chance(60) { format!("    #[serde(rename = \"X{k}\", skip_serializing_if = \"Option::is_none\")]\n") } else { String::new() };
            fields.push(Field { name, ty, shape, attr });
        }
        let w = t.pick(&chosen).to_string();
        let code = if t.chance(50) { format!("        let _: Vec<{w}> = vec![];\n        let f = |x: Option<Vec<{w}>>, y: {w}| {{ (x, y) }};\n") } else { String::new() };
        items.push(Item::Struct { name: chosen[i].into(), note: t.pick(&WORDS).to_string(), fields, code });
    }
    // definitions in any order
    for i in (1..items.len()).rev() {
        let j = t.ix(i + 1);
        items.swap(i, i - j);
    }
    items
}

fn text(items: &[Item], boxed: &dyn Fn(&str, &Field) -> bool) -> String {
    let mut s = String::from("// Plasmatic MX Message Parsing Library\n\nuse serde::{Deserialize, Serialize};\n\n");
    for i in items {
        match i {
            Item::Struct { name, note, fields, code } => {
                s += &format!("// {name}: {note}\n#[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]\npub struct {name} {{\n");
                for f in fields {
                    s += &format!("{}    pub {}: {},\n", f.attr, f.name, field_type(f, boxed(name, f)));
                }
                s += &format!("}}\n\nimpl Validate for {name} {{\n    fn validate(&self, path: &str) {{\n{code}    }}\n}}\n\n");
            }
            Item::Enum { name, codes } => {
                s += &format!("#[derive(Debug, Default)]\npub enum {name} {{\n    #[default]\n");
                for c in 0..*codes {
                    s += &format!("    Code{c},\n");
                }
                s += "}\n\n";
            }
        }
    }
    s
}

/// The documented policy.
fn selects(c: &Config, items: &[Item], parent: &str, f: &Field) -> bool {
    let known: BTreeMap<&str, &Vec<Field>> = items.iter().filter_map(|i| if let Item::Struct { name, fields, .. } = i { Some((name.as_str(), fields)) } else { None }).collect();
    fn depth(known: &BTreeMap<&str, &Vec<Field>>, name: &str) -> u64 {
        known[name].iter().filter(|f| known.contains_key(f.ty.as_str())).map(|f| 1 + depth(known, &f.ty)).max().unwrap_or(0)
    }
    let any = |ps: &[String], n: &str| ps.iter().any(|p| Regex::new(&format!("^(?:{p})")).unwrap().is_match(n));
    if PRIMITIVES.contains(&f.ty.as_str()) || matches!(f.shape, Shape::Opt | Shape::Boxed | Shape::VecBoxed) {
        return false;
    }
    let list = matches!(f.shape, Shape::Vec | Shape::OptVec);
    c.always.iter().any(|n| *n == f.ty)
        || list
            && (c.patterns && (any(&c.in_vec, &f.ty) || any(&c.parents, parent))
                || c.size && known.get(f.ty.as_str()).is_some_and(|x| x.len() as u64 >= c.min_fields)
                || c.nesting && known.contains_key(f.ty.as_str()) && depth(&known, &f.ty) >= c.depth)
}

static COUNT: AtomicUsize = AtomicUsize::new(0);

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let p = std::env::temp_dir().join(format!("mxverif-box-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(p.join("src/sub")).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn files(dir: &Path) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        if e.path().is_dir() {
            m.extend(files(&e.path()).into_iter().map(|(k, v)| (format!("{}/{k}", e.file_name().to_string_lossy()), v)));
        } else {
            m.insert(e.file_name().to_string_lossy().into(), String::from_utf8_lossy(&std::fs::read(e.path()).unwrap()).into());
        }
    }
    m
}

fn c21(_: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    let repo = std::env::var("MXVERIF_REPO").unwrap_or("/repo".into());
    let dir = Scratch::new();
    let src = dir.0.join("src");
    // the modules
    let mods: Vec<(String, Vec<Item>)> = (0..t.range(1, 4)).map(|i| (format!("{}{i}{}.rs", t.pick(&["camt_", "a", "mod_", "pacs.b", "common_", "test_", "X"]), t.pick(&["", "_mod", "mod", "_mc", "_stp"])), module(t))).collect();
    let never = |_: &str, _: &Field| false;
    let mut start: BTreeMap<String, String> = mods.iter().map(|(f, m)| (f.clone(), text(m, &never))).collect();
    let first = start.values().next().unwrap().clone();
    start.insert("mod.rs".into(), first.clone());
    start.insert("sub/x.rs".into(), first.clone());
    start.insert("notes.txt".into(), first.clone());
    start.insert("old.rs.bak".into(), first);
    for (f, s) in &start {
        std::fs::write(src.join(f), s).unwrap();
    }
    // the configuration
    let mut args: Vec<String> = vec![];
    let (mut c, kind) = match t.below(4) {
        0 => (defaults(), "defaults"),
        1 => {
            args.extend(["--config".into(), format!("{repo}/box-config.json")]);
            (repo_config(), "box-config.json")
        }
        _ => {
            let pats = |t: &mut Tape| (0..t.below(3)).map(|_| t.pick(&PATTERNS).to_string()).collect::<Vec<_>>();
            let c = Config {
                always: (0..t.below(5)).map(|_| t.pick(&NAMES).to_string()).collect(),
                in_vec: pats(t),
                parents: pats(t),
                min_fields: t.below(12),
                depth: t.below(5),
                size: t.chance(50),
                patterns: t.chance(50),
                nesting: t.chance(50),
            };
            let j = json!({"always_box_types": c.always, "box_in_vec_patterns": c.in_vec, "box_vec_if_parent_matches": c.parents, "min_fields_to_box": c.min_fields,
                "max_nesting_depth": c.depth, "use_size_heuristic": c.size, "use_pattern_matching": c.patterns, "use_nesting_analysis": c.nesting});
            let p = dir.0.join("config.json");
            std::fs::write(&p, j.to_string()).unwrap();
            args.extend(["--config".into(), p.to_string_lossy().into()]);
            (c, "own")
        }
    };
    n.class(kind);
    if t.chance(30) {
        c.min_fields = t.below(8);
        args.extend(["--min-fields".into(), c.min_fields.to_string()]);
    }
    if t.chance(30) {
        c.depth = t.below(4);
        args.extend(["--max-depth".into(), c.depth.to_string()]);
    }
    for (flag, on) in [("--no-patterns", &mut c.patterns), ("--no-size", &mut c.size), ("--no-nesting", &mut c.nesting)] {
        if t.chance(20) {
            *on = false;
            args.push(flag.into());
        }
    }
    // what must come out
    let mut want = start.clone();
    let mut report = vec![];
    let mut changed = 0;
    for (f, m) in &mods {
        let new = text(m, &|p, x| selects(&c, m, p, x));
        changed += (new != start[f]) as usize;
        want.insert(f.clone(), new);
        for i in m {
            if let Item::Struct { name, fields, .. } = i {
                for x in fields.iter().filter(|x| selects(&c, m, name, x)) {
                    report.push(if x.shape == Shape::One { format!("{name}.{}: {} -> Box<{1}>", x.name, x.ty) } else { format!("{name}.{}: Vec<{}> -> Vec<Box<{1}>>", x.name, x.ty) });
                }
            }
        }
    }
    report.sort();
    n.nontrivial = true;
    n.key((args.join(" ").replace(&*dir.0.to_string_lossy(), ""), format!("{:?}", start)));
    n.class(if report.is_empty() { "nothing to box" } else { "something to box" });
    n.sample = Some(json!({"args": args, "files": start.len(), "boxed": report}));
    let show = |out: &str| json!({"args": args, "config": std::fs::read_to_string(dir.0.join("config.json")).ok(), "files": start, "expected": want, "output": out});
    let run = |more: &[&str], args: &[String]| -> String {
        let o = Command::new("python3").env("PYTHONDONTWRITEBYTECODE", "1").env("PYTHONUTF8", "1").arg(format!("{repo}/apply-box-wrapping.py")).arg(&src).args(args).args(more).output();
        let o = o.expect("python3");
        format!("{}{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr), if o.status.success() { "" } else { "\nFAILED" })
    };
    let compare = |what: &str, out: &str, want: &BTreeMap<String, String>| -> Result<(), Fail> {
        if out.ends_with("FAILED") {
            return fail(format!("{what} fails"), out.to_string(), show(out));
        }
        let got = files(&src);
        for (f, s) in want {
            let Some(g) = got.get(f) else { return fail(format!("{what} removes a file"), f.clone(), show(out)) };
            if g != s {
                let d = s.lines().zip(g.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("{f}: expected {a:?}, found {b:?}")).unwrap_or(format!("{f}: length"));
                return fail(format!("{what} leaves other text than expected"), d, show(out));
            }
        }
        if got.len() != want.len() {
            return fail(format!("{what} adds a file"), format!("{:?}", got.keys()), show(out));
        }
        Ok(())
    };
    let told = |what: &str, out: &str, report: &[String], changed: usize| -> Result<(), Fail> {
        let total = format!("Summary: {} fields boxed across {changed} files", report.len());
        if !out.lines().any(|l| l == total) {
            return fail(format!("{what} reports other totals"), format!("expected {total:?}"), show(out));
        }
        let mut lines: Vec<String> = out.lines().filter(|l| l.starts_with("  ") && l.contains(" -> ")).map(|l| l.trim().to_string()).collect();
        lines.sort();
        if lines != report {
            return fail(format!("{what} lists other fields"), format!("expected {report:?}"), show(out));
        }
        Ok(())
    };
    let save = dir.0.join("saved.json").to_string_lossy().to_string();
    let o = run(&["--dry-run", "--verbose", "--save-config", &save], &args);
    compare("a dry run", &o, &start)?;
    told("a dry run", &o, &report, changed)?;
    // the configuration in force was saved: it may stand in for all arguments
    let by_saved = t.chance(50);
    let o = if by_saved { run(&["--verbose", "--config", &save], &[]) } else { run(&["--verbose"], &args) };
    compare(if by_saved { "a run with the saved configuration" } else { "a run" }, &o, &want)?;
    told("a run", &o, &report, changed)?;
    let o = run(&["--verbose"], &args);
    compare("a second run", &o, &want)?;
    told("a second run", &o, &[], 0)
}
