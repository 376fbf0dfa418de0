//! The reference model of every message module (committed in spec/schema.json, extracted once from
//! the pinned tree; checks never re-extract it from /repo).
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Card {
    One,
    Opt,
    Plus,
    Star,
}

#[derive(Clone, Debug)]
pub enum Chk {
    Len { min: Option<usize>, max: Option<usize>, gate: bool },
    Pat { re: usize, gate: bool },
    Sub { gate: bool },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Str,
    Num,
    Bool,
    Ref(usize),
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub card: Card,
    pub ty: Ty,
    pub checks: Vec<Chk>,
}

#[derive(Clone, Debug)]
pub enum Def {
    Struct(Vec<Field>),
    Enum(Vec<String>),
}

#[derive(Clone, Debug)]
pub struct Type {
    pub name: String,
    pub def: Def,
}

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub root: usize,
    pub types: Vec<Type>,
    /// one shortest field path (type, field index) from the root to each type
    pub path_to: Vec<Vec<(usize, usize)>>,
    /// likewise through parts that are validated under every setting, where there is such a path
    pub free_to: Vec<Option<Vec<(usize, usize)>>>,
    /// is the module reachable through MxMessage (registry), and with which element name
    pub reg: Option<RegEntry>,
    pub is_header: bool,
    /// can the type (and its required closure) be instantiated with `n` required leaves
    pub min_size: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct RegEntry {
    pub short: String,
    pub full: String,
    pub rust: String,
    pub element: String,
    pub module: String,
}

pub struct Schema {
    pub modules: Vec<Module>,
    pub by_name: HashMap<String, usize>,
    pub registry: Vec<RegEntry>,
    pub pats: Vec<Pat>,
}

pub struct Pat {
    pub src: String,
    pub full: regex::Regex,
    pub hir: regex_syntax::hir::Hir,
}

impl Pat {
    /// XSD pattern facet semantics: the whole (trimmed) value must match.
    pub fn ok(&self, v: &str) -> bool {
        self.full.is_match(v.trim())
    }
}

impl Module {
    pub fn fields(&self, t: usize) -> &[Field] {
        match &self.types[t].def {
            Def::Struct(f) => f,
            _ => &[],
        }
    }
    pub fn is_enum(&self, t: usize) -> bool {
        matches!(self.types[t].def, Def::Enum(_))
    }
    pub fn type_id(&self, n: &str) -> Option<usize> {
        self.types.iter().position(|t| t.name == n)
    }
}

pub fn schema() -> &'static Schema {
    static S: OnceLock<Schema> = OnceLock::new();
    S.get_or_init(load)
}

fn load() -> Schema {
    let raw: serde_json::Value =
        serde_json::from_str(include_str!("../../spec/schema.json")).expect("schema.json");
    let registry: Vec<RegEntry> = raw["registry"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| RegEntry {
            short: r["short"].as_str().unwrap().into(),
            full: r["full"].as_str().unwrap().into(),
            rust: r["rust"].as_str().unwrap().into(),
            element: r["element"].as_str().unwrap().into(),
            module: r["module"].as_str().unwrap().into(),
        })
        .collect();
    let mut pats: Vec<Pat> = vec![];
    let mut pat_ix: BTreeMap<String, usize> = BTreeMap::new();
    let mut modules = vec![];
    let mut by_name = HashMap::new();
    for (mname, m) in raw["modules"].as_object().unwrap() {
        let types_raw = m["types"].as_object().unwrap();
        let names: Vec<&String> = types_raw.keys().collect();
        let ix: HashMap<&str, usize> =
            names.iter().enumerate().map(|(i, n)| (n.as_str(), i)).collect();
        let mut types = vec![];
        for n in &names {
            let t = &types_raw[*n];
            let def = if t["kind"] == "enum" {
                Def::Enum(
                    t["codes"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().into()).collect(),
                )
            } else {
                Def::Struct(
                    t["fields"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|f| {
                            let card = match f["card"].as_str().unwrap() {
                                "1" => Card::One,
                                "?" => Card::Opt,
                                "+" => Card::Plus,
                                "*" => Card::Star,
                                c => panic!("card {c}"),
                            };
                            let ty = match f["type"].as_str().unwrap() {
                                "String" => Ty::Str,
                                "f64" => Ty::Num,
                                "bool" => Ty::Bool,
                                o => Ty::Ref(ix[o]),
                            };
                            let checks = f["checks"]
                                .as_array()
                                .unwrap()
                                .iter()
                                .map(|c| {
                                    let gate = c["gate"].as_bool().unwrap_or(false);
                                    match c["k"].as_str().unwrap() {
                                        "len" => Chk::Len {
                                            min: c["min"].as_u64().map(|x| x as usize),
                                            max: c["max"].as_u64().map(|x| x as usize),
                                            gate,
                                        },
                                        "pat" => {
                                            let src = c["re"].as_str().unwrap().to_string();
                                            let re = *pat_ix.entry(src.clone()).or_insert_with(|| {
                                                pats.push(Pat {
                                                    full: regex::Regex::new(&format!("^(?:{src})$")).unwrap(),
                                                    hir: regex_syntax::parse(&src).unwrap(),
                                                    src,
                                                });
                                                pats.len() - 1
                                            });
                                            Chk::Pat { re, gate }
                                        }
                                        "sub" => Chk::Sub { gate },
                                        k => panic!("check {k}"),
                                    }
                                })
                                .collect();
                            Field { name: f["name"].as_str().unwrap().into(), card, ty, checks }
                        })
                        .collect(),
                )
            };
            types.push(Type { name: (*n).clone(), def });
        }
        let root = ix[m["root"].as_str().unwrap()];
        // BFS shortest paths
        let paths = |allowed: &dyn Fn(&Field) -> bool| {
            let mut path_to: Vec<Option<Vec<(usize, usize)>>> = vec![None; types.len()];
            path_to[root] = Some(vec![]);
            let mut q = VecDeque::from([root]);
            while let Some(t) = q.pop_front() {
                if let Def::Struct(fs) = &types[t].def {
                    for (i, f) in fs.iter().enumerate() {
                        if let Ty::Ref(c) = f.ty
                            && path_to[c].is_none()
                            && allowed(f)
                        {
                            let mut p = path_to[t].clone().unwrap();
                            p.push((t, i));
                            path_to[c] = Some(p);
                            q.push_back(c);
                        }
                    }
                }
            }
            path_to
        };
        let path_to = paths(&|_| true);
        let free_to = paths(&|f| f.checks.iter().any(|c| matches!(c, Chk::Sub { gate: false })));
        let reg = registry.iter().find(|r| &r.module == mname).cloned();
        let mut min_size = vec![usize::MAX; types.len()];
        loop {
            let mut ch = false;
            for t in 0..types.len() {
                let v = match &types[t].def {
                    Def::Enum(_) => 1,
                    Def::Struct(fs) => fs.iter().fold(1usize, |a, f| match (f.card, f.ty) {
                        (Card::One | Card::Plus, Ty::Ref(c)) => a.saturating_add(min_size[c]),
                        (Card::One | Card::Plus, _) => a.saturating_add(1),
                        _ => a,
                    }),
                };
                if v < min_size[t] {
                    min_size[t] = v;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        by_name.insert(mname.clone(), modules.len());
        modules.push(Module {
            name: mname.clone(),
            root,
            types,
            path_to: path_to.into_iter().map(|p| p.expect("unreachable type")).collect(),
            free_to,
            reg,
            is_header: mname.starts_with("bah_"),
            min_size,
        });
    }
    Schema { modules, by_name, registry, pats }
}
