//! Schema-driven message generation (as JSON values; the JSON shape is part of the reference model).
use crate::schema::*;
use crate::strgen;
use crate::tape::Tape;
use serde_json::{Map, Value, json};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Text {
    /// satisfies every field constraint
    Valid,
    /// arbitrary XML-legal text (trimmed, non-empty)
    Wild,
    /// a mix, decided per string
    Mixed,
    /// like Mixed, with carriage returns inside some values
    MixedCr,
    /// any Unicode string at all, including control characters, padding and the empty string
    Any,
    /// nearly every constrained field violates some constraint
    Bad,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub opt_pct: u64,
    pub budget: isize,
    pub text: Text,
    pub vec_max: usize,
}

impl Cfg {
    pub fn new(opt_pct: u64, budget: isize, text: Text) -> Cfg {
        Cfg { opt_pct, budget, text, vec_max: 3 }
    }
}

/// What to do with the fields of the forced target struct.
#[derive(Clone, Debug)]
pub enum Fill {
    Random,
    /// only required fields plus this one
    Only(usize),
    /// every field present
    All,
    /// every field present except this one
    AllBut(usize),
    /// only required fields
    Required,
}

pub struct Plan<'p> {
    pub path: &'p [(usize, usize)],
    pub fill: Fill,
    /// replaces the generated value of this field of the target struct (whole field value)
    pub set: Option<(usize, Value)>,
    /// length of vectors along the path and position of the target inside them
    pub vec_len: usize,
    pub vec_at: usize,
}

pub struct Gen<'a> {
    pub m: &'a Module,
    pub t: &'a mut Tape,
    pub cfg: Cfg,
    pub left: isize,
    /// the content generated last for each type, and the last text and number: equal parts occur together
    last: std::collections::HashMap<usize, Value>,
    last_str: String,
    last_num: f64,
}

impl<'a> Gen<'a> {
    pub fn new(m: &'a Module, t: &'a mut Tape, cfg: Cfg) -> Gen<'a> {
        let left = cfg.budget;
        Gen { m, t, cfg, left, last: Default::default(), last_str: "A".into(), last_num: 1.0 }
    }

    pub fn root(&mut self) -> Value {
        self.strukt(self.m.root, None, 0)
    }

    pub fn planned(&mut self, plan: &Plan) -> Value {
        self.strukt(self.m.root, Some(plan), 0)
    }

    fn leaf_str(&mut self, f: &Field) -> String {
        self.left -= 1;
        if self.t.chance(3) && (self.cfg.text != Text::Valid || strgen::satisfies(f, &self.last_str)) {
            return self.last_str.clone();
        }
        let s = self.fresh_str(f);
        if s.len() < 200 {
            self.last_str.clone_from(&s);
        }
        s
    }

    fn fresh_str(&mut self, f: &Field) -> String {
        match self.cfg.text {
            Text::Valid => strgen::valid(f, self.t),
            Text::Bad if self.t.chance(10) => strgen::valid(f, self.t),
            Text::Bad => strgen::invalid(f, self.t),
            Text::Wild | Text::Mixed | Text::MixedCr if self.t.chance(2) => String::new(),
            Text::MixedCr if self.t.chance(3) => format!("{}\r{}", strgen::wild(self.t, 6), strgen::wild(self.t, 6)),
            Text::Wild => strgen::wild(self.t, 40),
            Text::Any => {
                if self.t.chance(60) {
                    strgen::any(self.t, 24)
                } else {
                    strgen::valid(f, self.t)
                }
            }
            Text::Mixed | Text::MixedCr => {
                if self.t.chance(50) {
                    strgen::wild(self.t, 24)
                } else {
                    strgen::valid(f, self.t)
                }
            }
        }
    }

    pub fn one(&mut self, f: &Field) -> Value {
        match f.ty {
            Ty::Str => Value::String(self.leaf_str(f)),
            Ty::Num => {
                self.left -= 1;
                if !self.t.chance(12) {
                    self.last_num = number(self.t);
                }
                json!(self.last_num)
            }
            Ty::Bool => {
                self.left -= 1;
                Value::Bool(self.t.chance(50))
            }
            Ty::Ref(c) => {
                if let Some(v) = self.last.get(&c)
                    && self.t.chance(4)
                {
                    let v = v.clone();
                    self.left -= leaves(&v) as isize;
                    return v;
                }
                let v = self.strukt(c, None, 0);
                if nodes(&v) < 60 {
                    self.last.insert(c, v.clone());
                }
                v
            }
        }
    }

    /// One more element of a repetition; sometimes the same as the one before.
    fn sibling(&mut self, f: &Field, before: &[Value]) -> Value {
        match before.last() {
            Some(v) if self.t.chance(10) => {
                self.left -= leaves(v) as isize;
                v.clone()
            }
            _ => self.one(f),
        }
    }

    fn forced(&mut self, f: &Field, plan: &Plan, depth: usize) -> Value {
        match f.ty {
            Ty::Ref(c) => self.strukt(c, Some(plan), depth),
            _ => self.one(f),
        }
    }

    pub fn strukt(&mut self, ty: usize, plan: Option<&Plan>, depth: usize) -> Value {
        let m = self.m;
        let fs = match &m.types[ty].def {
            Def::Enum(codes) => {
                self.left -= 1;
                return Value::String(self.t.pick(codes).clone());
            }
            Def::Struct(fs) => fs,
        };
        let mut o = Map::new();
        let forced = plan.and_then(|p| p.path.get(depth)).map(|(_, i)| *i);
        let at_target = plan.is_some_and(|p| p.path.len() == depth);
        for (i, f) in fs.iter().enumerate() {
            if at_target
                && let Some((si, v)) = plan.and_then(|p| p.set.as_ref())
                && *si == i
            {
                if !v.is_null() {
                    o.insert(f.name.clone(), v.clone());
                }
                continue;
            }
            let is_forced = forced == Some(i);
            let mut must = matches!(f.card, Card::One | Card::Plus);
            let mut may = !must;
            if at_target {
                match plan.unwrap().fill {
                    Fill::Random => {}
                    Fill::Only(k) => {
                        may = false;
                        must |= i == k;
                    }
                    Fill::All => must = true,
                    Fill::AllBut(k) => {
                        if k == i {
                            may = false;
                        } else {
                            must = true;
                        }
                    }
                    Fill::Required => may = false,
                }
            }
            let need = match f.ty {
                Ty::Ref(c) => m.min_size[c] as isize,
                _ => 1,
            };
            let present = is_forced
                || must
                || (may && self.left > need && self.cfg.opt_pct > 0 && self.t.chance(self.cfg.opt_pct));
            if !present {
                continue;
            }
            let v = match f.card {
                Card::One | Card::Opt => {
                    if is_forced {
                        self.forced(f, plan.unwrap(), depth + 1)
                    } else {
                        self.one(f)
                    }
                }
                Card::Plus | Card::Star => {
                    let mut xs = vec![];
                    if is_forced {
                        let p = plan.unwrap();
                        let n = p.vec_len.max(1);
                        for k in 0..n {
                            xs.push(if k == p.vec_at.min(n - 1) {
                                self.forced(f, p, depth + 1)
                            } else {
                                self.sibling(f, &xs)
                            });
                        }
                    } else {
                        let max = if self.left > need * 3 { self.cfg.vec_max } else { 1 };
                        let mut n = 1 + self.t.ix(max.max(1));
                        if max > 1 && self.t.chance(3) {
                            n += *self.t.pick(&[1, 5, 9, 14, 30]);
                        }
                        for _ in 0..n {
                            xs.push(self.sibling(f, &xs));
                            if self.left <= 0 {
                                break;
                            }
                        }
                    }
                    Value::Array(xs)
                }
            };
            o.insert(f.name.clone(), v);
        }
        Value::Object(o)
    }
}

/// A decimal amount: at most 15 significant digits, so that binary double precision represents it
/// faithfully (ISO 20022 amounts in CBPR+ have at most 14 digits, 5 of them fractional).
pub fn number(t: &mut Tape) -> f64 {
    match t.ix(6) {
        0 => t.below(1000) as f64,
        1 => {
            let d = t.ix(6) as u32;
            t.below(10u64.pow(9)) as f64 / 10f64.powi(d as i32)
        }
        2 => {
            let d = t.ix(6) as u32;
            let s = format!("{}e-{}", t.below(10u64.pow(14)), d);
            s.parse().unwrap()
        }
        3 => {
            let d = t.ix(11) as u32;
            let s = format!("{}e-{}", t.below(10u64.pow(11)), d);
            s.parse().unwrap()
        }
        4 => *t.pick(&[-0.01, 1000.0, 1000000.0, 0.5, 2.5, 1.5, 0.005, 0.015, 99.995, 0.8, 1e-10, 123.40, 12345.67, 1e9, 2147483648.0, 4294967296.0, 900719925474.099, 0.0, 0.01, 0.1, 0.00001, 1.0, 99999999999999.0, 999999999.99999, 0.3, 1.005, 123456789.01, 1e14, 100.0, 10.5]),
        _ => -(t.below(100000) as f64) / 100.0,
    }
}

/// Number of leaves below a value.
pub fn leaves(v: &Value) -> usize {
    match v {
        Value::Object(o) => o.values().map(leaves).sum(),
        Value::Array(a) => a.iter().map(leaves).sum(),
        _ => 1,
    }
}

/// Number of objects, arrays and leaves below a value.
pub fn nodes(v: &Value) -> usize {
    1 + match v {
        Value::Object(o) => o.values().map(nodes).sum(),
        Value::Array(a) => a.iter().map(nodes).sum(),
        _ => 0,
    }
}

/// Structural equality with numbers compared as f64.
pub fn same(a: &Value, b: &Value) -> Result<(), String> {
    cmp(a, b, "$")
}
fn cmp(a: &Value, b: &Value, p: &str) -> Result<(), String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => cmp(v, w, &format!("{p}.{k}"))?,
                    None => return Err(format!("{p}.{k}: lost (was {})", short(v))),
                }
            }
            for (k, v) in y {
                if !x.contains_key(k) {
                    return Err(format!("{p}.{k}: appeared ({})", short(v)));
                }
            }
            Ok(())
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Err(format!("{p}: {} elements became {}", x.len(), y.len()));
            }
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                cmp(v, w, &format!("{p}[{i}]"))?;
            }
            Ok(())
        }
        (Value::Number(x), Value::Number(y)) => {
            if x.as_f64() == y.as_f64() {
                Ok(())
            } else {
                Err(format!("{p}: {x} became {y}"))
            }
        }
        _ if a == b => Ok(()),
        _ => Err(format!("{p}: {} became {}", short(a), short(b))),
    }
}
pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 120 { s.chars().take(120).collect::<String>() + "…" } else { s }
}
