//! Drives one property's cases: deterministic case list, worker threads, crash isolation in a child
//! process, shrinking, replay files, known findings, evidence.
use crate::tape::{self, Tape};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// stable description of which rule broke and where (no generated content)
    pub sig: String,
    pub detail: String,
    pub input: Value,
}

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>, input: Value) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), detail: detail.into(), input })
}

/// Per-case notes: what the case exercised.
#[derive(Default)]
pub struct Note {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub digest: u64,
    pub sample: Option<Value>,
    pub evals: u64,
    /// additional distinct non-trivial sub-cases inside this case
    pub subs: Vec<u64>,
}

impl Note {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn key<H: Hash>(&mut self, h: H) {
        self.digest = hash(&h);
    }
    pub fn sub<H: Hash>(&mut self, h: H) {
        self.subs.push(hash(&h));
    }
}

pub fn hash<H: Hash>(h: &H) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub cases: fn(Tier) -> Vec<Value>,
    pub run: fn(&Value, &mut Tape, &mut Note) -> Result<(), Fail>,
    /// extra checks on the aggregate (generator health); an Err is an error of the check itself
    pub health: fn(&Agg) -> Result<(), String>,
}

#[derive(Default)]
pub struct Agg {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: BTreeSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub fails: Vec<(usize, Fail, Vec<u64>)>,
}

pub fn no_health(_: &Agg) -> Result<(), String> {
    Ok(())
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Run on a thread with the stack size spawned threads get by default; panics pass through with
/// their location.
pub fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    let r = std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || {
            catch_unwind(AssertUnwindSafe(f)).map_err(|p| (PANIC_AT.with(|a| a.borrow().clone()), p))
        });
        h.unwrap().join().unwrap()
    });
    match r {
        Ok(x) => x,
        Err((at, p)) => {
            PANIC_AT.with(|a| *a.borrow_mut() = at);
            std::panic::resume_unwind(p)
        }
    }
}

/// Marker prefix of harness-internal panics (assertions about the generator or model).
fn is_harness_panic(at: &str) -> bool {
    let loc = at.rsplit(" at ").next().unwrap_or("");
    loc.starts_with("src/") && !at.contains("LIBPANIC") && !loc.contains("/repo/")
}

pub fn guarded(check: &Check, spec: &Value, t: &mut Tape, n: &mut Note) -> Result<(), Fail> {
    match catch_unwind(AssertUnwindSafe(|| (check.run)(spec, t, n))) {
        Ok(r) => r,
        Err(_) => {
            let at = PANIC_AT.with(|p| p.borrow().clone());
            if is_harness_panic(&at) {
                eprintln!("HARNESS ERROR in {} case {spec}: panic {at}", check.id);
                std::process::exit(3);
            }
            let loc = at.rsplit(" at ").next().unwrap_or("").to_string();
            fail(format!("panic at {loc}"), format!("the library panicked: {at}"), json!({"spec": spec}))
        }
    }
}

fn key(spec: &Value) -> u64 {
    // FNV over the rendered spec: stable across runs and rust versions
    let mut h: u64 = 0xcbf29ce484222325;
    for b in spec.to_string().bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

pub const STACK: usize = 64 << 20;

/// A case that runs longer than this does not return for any practical purpose (cases take milliseconds).
const HANG_S: u64 = 120;

fn run_all(check: &'static Check, specs: &[Value], seed: u64, journal: &Path, deadline: Option<Instant>, hang: &(dyn Fn(usize) + Sync)) -> Agg {
    let started: Vec<(AtomicUsize, AtomicUsize)> = (0..threads()).map(|_| Default::default()).collect();
    let started = &started;
    let finished = AtomicUsize::new(0);
    let finished = &finished;
    let epoch = Instant::now();
    let next = AtomicUsize::new(0);
    let agg = Mutex::new(Agg::default());
    let nfail = AtomicUsize::new(0);
    let nt = threads();
    // hand out cases in a fixed pseudo-random order so that a time box samples all kinds
    let mut order: Vec<usize> = (0..specs.len()).collect();
    if deadline.is_some() {
        order.sort_by_cached_key(|i| (*i as u64 ^ seed.rotate_left(32)).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29).wrapping_mul(0xbf58476d1ce4e5b9));
    }
    let jf = std::fs::File::create(journal).expect("journal");
    jf.set_len(8 * nt as u64).unwrap();
    let jf = &jf;
    let (next, agg, nfail, order) = (&next, &agg, &nfail, &order);
    std::thread::scope(|s| {
        s.spawn(move || {
            while finished.load(Ordering::Relaxed) < nt {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let now = epoch.elapsed().as_secs();
                for (at, case) in started {
                    let a = at.load(Ordering::Relaxed) as u64;
                    if a > 0 && now > a + HANG_S {
                        hang(case.load(Ordering::Relaxed));
                    }
                }
            }
        });
        for slot in 0..nt {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    use std::os::unix::fs::FileExt;
                    let mut local = Agg::default();
                    loop {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        if k >= order.len() || nfail.load(Ordering::Relaxed) > 24 {
                            break;
                        }
                        if deadline.is_some_and(|d| Instant::now() > d) {
                            break;
                        }
                        let i = order[k];
                        let _ = jf.write_at(&(i as u64 + 1).to_le_bytes(), 8 * slot as u64);
                        let mut t = Tape::random(seed, key(&specs[i]));
                        let mut n = Note { evals: 1, ..Note::default() };
                        started[slot].1.store(i, Ordering::Relaxed);
                        started[slot].0.store(epoch.elapsed().as_secs() as usize + 1, Ordering::Relaxed);
                        let r = guarded(check, &specs[i], &mut t, &mut n);
                        started[slot].0.store(0, Ordering::Relaxed);
                        local.evaluations += n.evals;
                        for c in &n.classes {
                            *local.classes.entry(c.to_string()).or_default() += 1;
                        }
                        if n.nontrivial {
                            local.nontrivial += 1;
                            local.distinct.insert(n.digest);
                        }
                        local.distinct.extend(n.subs);
                        if let Some(x) = n.sample
                            && local.samples.len() < 3
                        {
                            local.samples.push(x);
                        }
                        if let Err(f) = r {
                            nfail.fetch_add(1, Ordering::Relaxed);
                            local.fails.push((i, f, t.rec));
                        }
                    }
                    let _ = jf.write_at(&0u64.to_le_bytes(), 8 * slot as u64);
                    finished.fetch_add(1, Ordering::Relaxed);
                    let mut a = agg.lock().unwrap();
                    a.evaluations += local.evaluations;
                    a.nontrivial += local.nontrivial;
                    a.distinct.extend(local.distinct);
                    for (k, v) in local.classes {
                        *a.classes.entry(k).or_default() += v;
                    }
                    a.samples.extend(local.samples);
                    a.fails.extend(local.fails);
                })
                .unwrap();
        }
    });
    std::mem::take(&mut *agg.lock().unwrap())
}

fn verif_dir() -> PathBuf {
    std::env::var_os("MXVERIF_HOME").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn load_known(id: &str) -> Vec<Value> {
    let p = verif_dir().join("known_findings.txt");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .map(|l| serde_json::from_str::<Value>(l).expect("known_findings.txt"))
        .filter(|v| v["property"] == id)
        .collect()
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

fn run_once(check: &Check, spec: &Value, data: &[u64]) -> (Result<(), Fail>, Vec<u64>) {
    let mut t = Tape::replay(data.to_vec());
    let mut n = Note::default();
    let r = guarded(check, spec, &mut t, &mut n);
    (r, t.rec)
}

pub fn do_shrink(check: &Check, spec: &Value, f: Fail, rec: Vec<u64>) -> (Fail, Vec<u64>) {
    let sig = f.sig.clone();
    let mut last = f;
    let (r0, rec0) = run_once(check, spec, &rec);
    match r0 {
        Err(f0) if f0.sig == sig => last = f0,
        // not reproducible from its tape: keep the original report
        _ => return (last, rec),
    }
    let t0 = Instant::now();
    let best = tape::shrink(rec0, 1500, &mut |c| {
        if t0.elapsed().as_secs() > 20 {
            return None;
        }
        let (r, rec) = run_once(check, spec, c);
        match r {
            Err(f) if f.sig == sig => Some(rec),
            _ => None,
        }
    });
    if let (Err(f), rec) = run_once(check, spec, &best)
        && f.sig == sig
    {
        return (f, rec);
    }
    (last, best)
}

/// The child: explore, shrink, write the result file. Never prints VIOLATION itself.
pub fn worker(check: &'static Check, tier: Tier, seed: u64, out: &Path, journal: &Path, only: Option<usize>) {
    install_hook();
    let t0 = Instant::now();
    let specs = (check.cases)(tier);
    let mut known_hits = vec![];
    if only.is_none() {
        for k in load_known(check.id) {
            let spec = k["spec"].clone();
            let data: Vec<u64> = k["tape"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
            let (r, _) = on_big_stack(|| run_once(check, &spec, &data));
            let sig = k["sig"].as_str().unwrap_or("").to_string();
            match r {
                Err(f) if f.sig == sig => {
                    known_hits.push(json!({"what": k["what"], "sig": sig}));
                }
                _ => {
                    known_hits.push(json!({"what": k["what"], "sig": sig, "gone": true}));
                }
            }
        }
    }
    let subset: Vec<Value>;
    let list: &[Value] = match only {
        Some(i) => {
            subset = vec![specs[i].clone()];
            &subset
        }
        None => &specs,
    };
    let deadline = match tier {
        Tier::Thorough => Some(
            Instant::now() + std::time::Duration::from_secs(
                std::env::var("MXVERIF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(1500),
            ),
        ),
        Tier::Quick => None,
    };
    let hang = |i: usize| {
        let res = json!({
            "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "cases_listed": list.len(), "known": known_hits,
            "violations": [{
                "sig": "a call does not return",
                "detail": format!("the case runs for more than {HANG_S} s; cases take milliseconds"),
                "input": null, "spec": list[i], "tape": null, "seed": seed,
            }],
        });
        std::fs::write(out, serde_json::to_vec(&res).unwrap()).unwrap();
        std::process::exit(0);
    };
    let mut agg = run_all(check, list, seed, journal, deadline, &hang);
    // one shrunk representative per signature
    let mut by_sig: BTreeMap<String, (usize, Fail, Vec<u64>)> = BTreeMap::new();
    agg.fails.sort_by_key(|(i, _, _)| *i);
    for (i, f, rec) in agg.fails.drain(..) {
        by_sig.entry(f.sig.clone()).or_insert((i, f, rec));
    }
    let mut viol = vec![];
    for (sig, (i, f, rec)) in by_sig {
        let spec = &list[i];
        let (f, rec) = if viol.len() < 6 { on_big_stack(|| do_shrink(check, spec, f, rec)) } else { (f, rec) };
        viol.push(json!({"sig": sig, "detail": f.detail, "input": f.input, "spec": spec, "tape": rec}));
    }
    let health = if viol.is_empty() && only.is_none() && tier == Tier::Quick {
        (check.health)(&agg).err()
    } else {
        None
    };
    let samples: Vec<Value> = agg.samples.iter().take(4).map(trim_sample).collect();
    let res = json!({
        "evaluations": agg.evaluations,
        "nontrivial_cases": agg.nontrivial,
        "distinct_nontrivial": agg.distinct.len(),
        "classes": agg.classes,
        "samples": samples,
        "cases_listed": list.len(),
        "violations": viol,
        "known": known_hits,
        "health": health,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    std::fs::write(out, serde_json::to_vec(&res).unwrap()).unwrap();
}

fn trim_sample(v: &Value) -> Value {
    match v {
        Value::String(s) if s.chars().count() > 700 => Value::String(s.chars().take(700).collect::<String>() + "…"),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), trim_sample(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(trim_sample).collect()),
        v => v.clone(),
    }
}

enum Ended {
    Done,
    Signal(i32),
    Other(i32),
}

fn spawn(check: &Check, tier: Tier, seed: u64, out: &Path, journal: &Path, only: Option<usize>, limit_s: u64) -> Result<Ended, String> {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = std::process::Command::new(exe);
    c.arg("worker").arg(check.id).arg(if tier == Tier::Quick { "quick" } else { "thorough" });
    c.arg(seed.to_string()).arg(out).arg(journal);
    if let Some(i) = only {
        c.arg(i.to_string());
        c.stderr(std::process::Stdio::null());
    }
    let mut ch = c.spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t0.elapsed().as_secs() > limit_s {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(format!("the worker did not finish in {limit_s} s (inconclusive)"));
        }
        std::thread::sleep(std::time::Duration::from_millis(30));
    };
    Ok(match (st.signal(), st.code()) {
        (Some(s), _) => Ended::Signal(s),
        (_, Some(0)) => Ended::Done,
        (_, c) => Ended::Other(c.unwrap_or(-1)),
    })
}

/// The parent: run the worker, interpret its end, write evidence, print verdict. Returns exit code.
pub fn check_main(check: &'static Check, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let dir = verif_dir().join("run").join(check.id);
    let _ = std::fs::create_dir_all(&dir);
    let out = dir.join("result.json");
    let journal = dir.join("journal");
    let _ = std::fs::remove_file(&out);
    let limit = if tier == Tier::Quick { 700 } else { 4 * 3600 };
    let ended = match spawn(check, tier, seed, &out, &journal, None, limit) {
        Ok(e) => e,
        Err(e) => {
            println!("ERROR property={} {e}", check.id);
            return 2;
        }
    };
    let mut res: Value = json!({"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violations": []});
    match ended {
        Ended::Done => match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => res = v,
            None => {
                println!("ERROR property={} worker left no result", check.id);
                return 2;
            }
        },
        Ended::Other(c) => {
            println!("ERROR property={} worker exit code {c}", check.id);
            return 2;
        }
        Ended::Signal(s) => {
            // the process died inside the library: find the case
            let inflight: Vec<usize> = std::fs::read(&journal)
                .unwrap_or_default()
                .chunks(8)
                .filter_map(|c| c.try_into().ok().map(u64::from_le_bytes))
                .filter(|x| *x > 0)
                .map(|x| x as usize - 1)
                .collect();
            let specs = (check.cases)(tier);
            let mut hit = None;
            for i in &inflight {
                let o = dir.join("one.json");
                let _ = std::fs::remove_file(&o);
                if let Ok(Ended::Signal(sg)) = spawn(check, tier, seed, &o, &dir.join("journal1"), Some(*i), 120) {
                    hit = Some((*i, sg));
                    break;
                }
            }
            match hit {
                Some((i, sg)) => {
                    let t = Tape::random(seed, key(&specs[i]));
                    let _ = t;
                    res["violations"] = json!([{
                        "sig": format!("process killed by signal {sg}"),
                        "detail": format!("the library killed the process with signal {sg} (stack overflow or abort) on this case; the case replays from its spec with the run's seed"),
                        "input": null, "spec": specs[i], "tape": null, "seed": seed,
                    }]);
                }
                None => {
                    println!("ERROR property={} worker died with signal {s}; no single case reproduces it", check.id);
                    return 2;
                }
            }
        }
    }
    if let Some(k) = res["known"].as_array() {
        for k in k {
            if k["gone"] == true {
                println!("NOTE property={} listed finding no longer fails: {}", check.id, k["what"].as_str().unwrap_or(""));
            } else {
                println!("KNOWN-FINDING: property={} {}", check.id, k["what"].as_str().unwrap_or(""));
            }
        }
    }
    if let Some(h) = res["health"].as_str() {
        println!("ERROR property={} generator health: {h}", check.id);
        return 2;
    }
    let mut viol = res["violations"].as_array().cloned().unwrap_or_default();
    let mut guided = Value::Null;
    if tier == Tier::Thorough && viol.is_empty() {
        guided = match crate::fuzz::search(check, seed, &dir) {
            Ok((g, v)) => {
                viol = v;
                g
            }
            Err(e) => json!(e),
        };
        println!("coverage-guided search: {guided}");
    }
    let mut lines = vec![];
    for (n, v) in viol.iter().enumerate() {
        let rp = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rp);
        let f = rp.join(format!("{}-{}-{}.json", check.id, seed, n));
        let mut r = v.clone();
        r["property"] = json!(check.id);
        if r.get("seed").is_none() {
            r["seed"] = json!(seed);
        }
        std::fs::write(&f, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
        lines.push((v["sig"].as_str().unwrap_or("").to_string(), v["detail"].as_str().unwrap_or("").to_string(), f));
    }
    let mut ev = json!({
        "property": check.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": check.rule,
            "samples": res["samples"],
            "cases_listed": res["cases_listed"],
            "classes": res["classes"],
            "known_findings_replayed": res["known"],
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": lines.len(),
    });
    if !guided.is_null() {
        ev["coverage"]["coverage_guided"] = guided;
    }
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{}.json", check.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {}: {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        check.id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        res["evaluations"],
        res["distinct_nontrivial"],
        lines.len(),
        t0.elapsed().as_secs_f64()
    );
    let _ = std::io::stdout().flush();
    if lines.is_empty() {
        return 0;
    }
    for (sig, detail, f) in &lines {
        println!("  {sig}: {}", detail.chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={}", check.id, f.display());
    }
    1
}

/// Re-run one replay file against the current library.
pub fn replay(check: &'static Check, file: &Value) -> i32 {
    install_hook();
    let spec = file["spec"].clone();
    let r = on_big_stack(|| match file["tape"].as_array() {
        Some(a) => {
            let data: Vec<u64> = a.iter().filter_map(|x| x.as_u64()).collect();
            if file["mixed"] == true {
                let n = |k: &str| file[k].as_u64().unwrap_or(0);
                let mut t = Tape::mixed(data, n("seed") ^ 0x5eed, n("slot") << 40 | n("exec"));
                return guarded(check, &spec, &mut t, &mut Note::default());
            }
            run_once(check, &spec, &data).0
        }
        None => {
            let mut t = Tape::random(file["seed"].as_u64().unwrap_or(1), key(&spec));
            guarded(check, &spec, &mut t, &mut Note::default())
        }
    });
    match r {
        Ok(()) => {
            println!("replay: property {} holds on this case", check.id);
            0
        }
        Err(f) => {
            println!("replay: property {} fails: {}\n{}\ninput: {}", check.id, f.sig, f.detail, serde_json::to_string_pretty(&f.input).unwrap());
            1
        }
    }
}
