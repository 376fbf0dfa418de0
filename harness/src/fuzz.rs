//! Coverage-guided search (thorough tier): the choice tape of a case is what is mutated; a case that reaches
//! new edge counts in the library joins the corpus. The counters come from SanitizerCoverage, which
//! check.sh switches on for the library and its parsers in a build of its own.
use crate::runner::*;
use crate::tape::Tape;
use serde_json::{Value, json};
use std::collections::HashSet;
use std::io::Write;
use std::path::Path;
use std::sync::Mutex;
use std::time::{Duration, Instant};

static RANGES: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    let mut r = RANGES.lock().unwrap();
    let x = (start as usize, end as usize);
    if x.0 < x.1 && !r.contains(&x) {
        r.push(x);
    }
}

/// Checks whose cases start processes or measure time gain nothing from guidance.
pub const UNGUIDED: [&str; 3] = ["C16", "C20", "C21"];

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// Takes and clears the counters; true if some counter shows a bucket not seen before.
fn novel(seen: &mut [Vec<u8>], ranges: &[(usize, usize)], features: &mut u64) -> bool {
    static ZERO: [u8; 2048] = [0; 2048];
    // comparisons by the C library: this build is not optimised, and nearly all counters are zero
    let empty = |c: &[u8]| unsafe { libc::memcmp(c.as_ptr().cast(), ZERO.as_ptr().cast(), c.len()) == 0 };
    let mut new = false;
    for (s, (a, b)) in seen.iter_mut().zip(ranges) {
        let c = unsafe { std::slice::from_raw_parts_mut(*a as *mut u8, b - a) };
        for (sc, cc) in s.chunks_mut(2048).zip(c.chunks_mut(2048)) {
            if empty(cc) {
                continue;
            }
            for (sc, cc) in sc.chunks_mut(32).zip(cc.chunks_mut(32)) {
                if empty(cc) {
                    continue;
                }
                for (x, y) in sc.iter_mut().zip(cc.iter_mut()) {
                    let k = bucket(*y);
                    if *x & k != k {
                        *x |= k;
                        *features += 1;
                        new = true;
                    }
                    *y = 0;
                }
            }
        }
    }
    new
}

struct Entry {
    spec: usize,
    tape: Vec<u64>,
}

fn mutate(e: &[u64], other: &[u64], t: &mut Tape) -> Vec<u64> {
    let mut v = e.to_vec();
    for _ in 0..1 << t.below(4) {
        let n = v.len();
        if n == 0 {
            break;
        }
        let i = t.ix(n);
        match t.below(8) {
            0 => v[i] = t.below(4),
            1 => v[i] = t.below(256),
            2 => v[i] = t.below(1 << 40),
            3 => v[i] = v[i].wrapping_add(1),
            4 => v[i] = v[i].saturating_sub(1),
            5 => {
                let k = t.range(1, (n - i).min(8));
                v.drain(i..i + k);
            }
            6 => {
                let k = t.range(1, (n - i).min(8));
                let c: Vec<u64> = v[i..i + k].to_vec();
                let at = t.ix(n);
                v.splice(at..at, c);
            }
            _ if !other.is_empty() => {
                let j = t.ix(other.len());
                let k = t.range(1, (other.len() - j).min(32));
                let at = i..(i + k).min(n);
                v.splice(at, other[j..j + k].iter().copied());
            }
            _ => v.truncate(i),
        }
    }
    v
}

/// One process of the search.
pub fn worker(check: &'static Check, seed: u64, secs: u64, slot: u64, out: &Path, inflight: &Path) {
    install_hook();
    // the kinds of cases are those of the quick tier; the draws are searched
    let specs = (check.cases)(Tier::Quick);
    let ranges = RANGES.lock().unwrap().clone();
    let mut seen: Vec<Vec<u8>> = ranges.iter().map(|(a, b)| vec![0; b - a]).collect();
    let mut features = 0;
    novel(&mut seen, &ranges, &mut features);
    let started = Instant::now();
    let file = std::fs::File::create(inflight).unwrap();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut corpus: Vec<Entry> = vec![];
                let mut rnd = Tape::random(seed, slot + 1);
                let (mut execs, mut guided, mut fails) = (0u64, 0u64, vec![]);
                let mut sigs = HashSet::new();
                let mut distinct = HashSet::new();
                while started.elapsed() < Duration::from_secs(secs) && fails.len() < 4 {
                    rnd.rec.clear();
                    execs += 1;
                    let fresh = corpus.len() < 50 || rnd.chance(20);
                    let (spec, data) = if fresh {
                        (rnd.ix(specs.len()), vec![])
                    } else {
                        guided += 1;
                        let n = corpus.len();
                        let i = if rnd.chance(60) { rnd.range(n / 2, n - 1) } else { rnd.ix(n) };
                        let j = rnd.ix(n);
                        let spec = if rnd.chance(5) { corpus[j].spec } else { corpus[i].spec };
                        (spec, mutate(&corpus[i].tape, &corpus[j].tape, &mut rnd))
                    };
                    use std::os::unix::fs::FileExt;
                    let note = json!({"spec": specs[spec], "tape": data, "seed": seed, "slot": slot, "exec": execs}).to_string();
                    let _ = file.write_at(format!("{:>10}{note}", note.len()).as_bytes(), 0);
                    let mut t = Tape::mixed(data, seed ^ 0x5eed, slot << 40 | execs);
                    let mut n = Note { evals: 1, ..Note::default() };
                    let r = guarded(check, &specs[spec], &mut t, &mut n);
                    if n.nontrivial {
                        distinct.insert(n.digest);
                    }
                    distinct.extend(n.subs);
                    if novel(&mut seen, &ranges, &mut features) {
                        corpus.push(Entry { spec, tape: t.rec.clone() });
                    }
                    if let Err(f) = r
                        && sigs.insert(f.sig.clone())
                    {
                        let (f, rec) = do_shrink(check, &specs[spec], f, t.rec);
                        fails.push(json!({"sig": f.sig, "detail": f.detail, "input": f.input, "spec": specs[spec], "tape": rec}));
                    }
                }
                json!({"executions": execs, "guided": guided, "corpus": corpus.len(), "features": features, "distinct_nontrivial": distinct.len(),
                    "counters": seen.iter().map(|s| s.len()).sum::<usize>(), "counters_hit": seen.iter().flatten().filter(|x| **x != 0).count(), "violations": fails})
            })
            .unwrap()
            .join()
            .unwrap()
    });
    std::fs::write(out, r.to_string()).unwrap();
}

/// Starts the processes and merges what they found: (coverage, violations), or why there is none.
pub fn search(check: &'static Check, seed: u64, dir: &Path) -> Result<(Value, Vec<Value>), String> {
    use std::os::unix::process::ExitStatusExt;
    if UNGUIDED.contains(&check.id) {
        return Err("not guided: the cases start processes or measure time".into());
    }
    let exe = std::env::var("MXVERIF_FUZZ").map_err(|_| "no instrumented build".to_string())?;
    let secs: u64 = std::env::var("MXVERIF_FUZZ_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
    let n = threads();
    let mut kids = vec![];
    for k in 0..n {
        let (o, f) = (dir.join(format!("fuzz{k}.json")), dir.join(format!("fuzz{k}.now")));
        let _ = std::fs::remove_file(&o);
        let c = std::process::Command::new(&exe).arg("fuzz").arg(check.id).args([seed.to_string(), secs.to_string(), k.to_string()]).arg(&o).arg(&f).spawn();
        kids.push((c.map_err(|e| e.to_string())?, o, f));
    }
    let start = Instant::now();
    let mut sum = serde_json::Map::new();
    let (mut viol, mut notes) = (vec![], vec![]);
    for (mut c, o, f) in kids {
        let status = loop {
            if let Some(s) = c.try_wait().map_err(|e| e.to_string())? {
                break Some(s);
            }
            if start.elapsed().as_secs() > secs + 180 {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(50));
        };
        if let Some(r) = std::fs::read(&o).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
            for k in ["executions", "guided", "corpus", "distinct_nontrivial"] {
                sum.insert(k.into(), json!(sum.get(k).and_then(|x| x.as_u64()).unwrap_or(0) + r[k].as_u64().unwrap_or(0)));
            }
            for k in ["counters", "counters_hit", "features"] {
                sum.insert(k.into(), json!(sum.get(k).and_then(|x| x.as_u64()).unwrap_or(0).max(r[k].as_u64().unwrap_or(0))));
            }
            viol.extend(r["violations"].as_array().cloned().unwrap_or_default());
            continue;
        }
        let now = std::fs::read_to_string(&f).ok().and_then(|s| {
            let len: usize = s.get(..10)?.trim().parse().ok()?;
            serde_json::from_str::<Value>(s.get(10..10 + len)?).ok()
        });
        match (status.map(|s| s.signal()), now) {
            // 9 is the sandbox short of memory, with eight processes running: no verdict
            (Some(Some(sg)), Some(mut v)) if sg != 9 => {
                // the draws that followed the recorded ones are part of the case
                v["mixed"] = json!(true);
                v["sig"] = json!(format!("process killed by signal {sg}"));
                v["detail"] = json!("the library killed the process (stack overflow or abort) on this case");
                viol.push(v);
            }
            (None, Some(mut v)) => {
                v["mixed"] = json!(true);
                v["sig"] = json!("a call does not return");
                v["detail"] = json!("the case was still running three minutes after the end of the search");
                viol.push(v);
            }
            (s, _) => notes.push(format!("a search process ended without result: {s:?}")),
        }
    }
    let mut seen = HashSet::new();
    viol.retain(|v| seen.insert(v["sig"].to_string()));
    if !notes.is_empty() {
        return Err(notes.join("; "));
    }
    let _ = std::io::stdout().flush();
    Ok((Value::Object(sum), viol))
}
