//! Seeded search over cases, minimisation, replay files and evidence.
use crate::exec::*;
use crate::job::*;
use crate::rng::*;
use crate::server::{Target, bin_dir};
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// number of cases of a tier
    fn cases(&self, t: Tier) -> u64;
    /// one self-contained case; may run the system to learn where faults can strike
    fn generate(&self, r: &mut Rng, ex: &mut Exec, t: Tier) -> Result<Value, No>;
    /// run a case and judge it
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No>;
    /// what makes an evaluation count as non-trivial
    fn rule(&self) -> &'static str;
    /// probes that must have fired at least once for the check to mean anything
    fn required(&self) -> Vec<&'static str> { vec![] }
    fn assumptions(&self) -> Vec<&'static str> { vec![] }
    /// fix what a seed chose (a thread schedule) explicitly, so that it can be minimised
    fn pin(&self, case: &Value, _ex: &mut Exec) -> Value { case.clone() }
    fn one_line(&self, v: &Value) -> String { v.to_string().chars().take(300).collect() }
}

pub fn verif() -> PathBuf { std::env::var_os("AVSIM_VERIF").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif")) }
pub fn base_seed() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
pub fn case_rng(id: &str, idx: u64) -> Rng { Rng::new(mix(mix(base_seed(), hash_bytes(id.as_bytes())), idx)) }
fn workers() -> usize { std::env::var("AVSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)) }
fn wall_cap(t: Tier) -> Duration {
    let d = if t == Tier::Quick { 300 } else { 3600 };
    Duration::from_secs(std::env::var("AVSIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}

struct Shared {
    next: AtomicU64,
    limit: AtomicU64,
    best: Mutex<Option<(u64, Value, Viol)>>,
    harness: Mutex<Option<String>>,
    stats: Mutex<Stats>,
    tally: Mutex<Tally>,
}
#[derive(Default)]
struct Tally { evals: u64, distinct: std::collections::HashSet<u64>, samples: Vec<String>, repeats: u64, repeat_bad: u64, invalid: u64, invalid_why: BTreeMap<String, u64>, elapsed_cut: bool }

fn same(a: &[(Target, Job, Outcome)], b: &[(Target, Job, Outcome)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.1 == y.1 && x.2.end == y.2.end && x.2.stdout == y.2.stdout && x.2.stderr == y.2.stderr && x.2.thash == y.2.thash && x.2.fs == y.2.fs && x.2.edges == y.2.edges && x.2.others == y.2.others && x.2.switches == y.2.switches)
}

/// what a repeated run did differently, for whoever looks into it
fn differing(i: u64, a: &[(Target, Job, Outcome)], b: &[(Target, Job, Outcome)]) {
    if std::env::var_os("AVSIM_DEBUG").is_none() { return; }
    eprintln!("case {i} repeated differently: {} and {} runs", a.len(), b.len());
    for (k, (x, y)) in a.iter().zip(b).enumerate() {
        let f = [x.1 == y.1, x.2.end == y.2.end, x.2.stdout == y.2.stdout, x.2.stderr == y.2.stderr, x.2.thash == y.2.thash, x.2.fs == y.2.fs, x.2.edges == y.2.edges, x.2.others == y.2.others, x.2.switches == y.2.switches];
        if f.contains(&false) {
            let d = x.2.trace.lines().zip(y.2.trace.lines()).enumerate().find(|(_, (p, q))| p != q);
            eprintln!("  run {k}: job, end, stdout, stderr, trace, fs, edges ({} {}), others, switches: {f:?}; first difference {d:?}", x.2.edges, y.2.edges);
        }
    }
}
pub fn search(c: &dyn Check, tier: Tier, cov: &Path) -> (Option<(u64, Value, Viol)>, Stats, Value, Option<String>) {
    let n = std::env::var("AVSIM_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| c.cases(tier));
    let sh = Shared { next: AtomicU64::new(0), limit: AtomicU64::new(n), best: Mutex::new(None), harness: Mutex::new(None), stats: Mutex::default(), tally: Mutex::default() };
    let t0 = Instant::now();
    let cap = wall_cap(tier);
    std::thread::scope(|s| {
        for _ in 0..workers() {
            s.spawn(|| {
                let mut ex = Exec::new(cov.to_str().unwrap());
                let mut t = Tally::default();
                loop {
                    let i = sh.next.fetch_add(1, SeqCst);
                    if i >= sh.limit.load(SeqCst) || sh.harness.lock().unwrap().is_some() { break; }
                    if t0.elapsed() > cap { t.elapsed_cut = true; break; }
                    let mut r = case_rng(c.id(), i);
                    let case = match c.generate(&mut r, &mut ex, tier) {
                        Ok(v) => v,
                        Err(No::Invalid(m)) => { t.invalid += 1; *t.invalid_why.entry(m.chars().take(80).collect()).or_default() += 1; continue; }
                        Err(No::Harness(m)) => { sh.harness.lock().unwrap().get_or_insert(format!("case {i}: {m}")); break; }
                    };
                    // one case in 40 is run twice: a seed must be an exactly repeatable execution
                    let twice = i % 40 == 7;
                    ex.keep = twice;
                    ex.log.clear();
                    ex.nontrivial = false;
                    let r1 = c.eval(&case, &mut ex);
                    if twice && r1.is_ok() {
                        let a = std::mem::take(&mut ex.log);
                        let r2 = c.eval(&case, &mut ex);
                        t.repeats += 1;
                        if !same(&a, &ex.log) || r2.ok() != r1.as_ref().ok().cloned() { t.repeat_bad += 1; differing(i, &a, &ex.log); }
                        ex.log.clear();
                    }
                    ex.keep = false;
                    match r1 {
                        Ok(v) => {
                            t.evals += 1;
                            if ex.nontrivial { t.distinct.insert(hash_bytes(case.to_string().as_bytes())); }
                            if t.samples.len() < 3 { t.samples.push(c.one_line(&case)); }
                            if let Some(v) = v {
                                let mut b = sh.best.lock().unwrap();
                                if b.as_ref().is_none_or(|x| i < x.0) { *b = Some((i, case, v)); }
                                sh.limit.fetch_min(i, SeqCst);
                            }
                        }
                        Err(No::Invalid(m)) => { t.invalid += 1; *t.invalid_why.entry(m.chars().take(80).collect()).or_default() += 1; }
                        Err(No::Harness(m)) => { sh.harness.lock().unwrap().get_or_insert(format!("case {i}: {m}")); break; }
                    }
                }
                sh.stats.lock().unwrap().merge(std::mem::take(&mut ex.st));
                let mut g = sh.tally.lock().unwrap();
                g.evals += t.evals;
                g.distinct.extend(t.distinct);
                if g.samples.len() < 6 { g.samples.extend(t.samples); }
                g.repeats += t.repeats;
                g.repeat_bad += t.repeat_bad;
                g.invalid += t.invalid;
                for (k, v) in t.invalid_why { *g.invalid_why.entry(k).or_default() += v; }
                g.elapsed_cut |= t.elapsed_cut;
            });
        }
    });
    let t = sh.tally.into_inner().unwrap();
    let el = t0.elapsed().as_secs_f64();
    let info = json!({
        "evals": t.evals, "distinct": t.distinct.len(), "samples": t.samples, "repeat_checked": t.repeats, "repeat_mismatches": t.repeat_bad, "skipped_invalid": t.invalid, "skipped_why": t.invalid_why,
        "cut_by_wall_clock": t.elapsed_cut, "planned_cases": n, "search_s": (el * 100.0).round() / 100.0,
    });
    (sh.best.into_inner().unwrap(), sh.stats.into_inner().unwrap(), info, sh.harness.into_inner().unwrap())
}

// ------------------------------------------------------------------ minimisation
fn size(v: &Value) -> usize {
    match v { Value::Array(a) => 1 + a.iter().map(size).sum::<usize>(), Value::Object(o) => 1 + o.iter().map(|(k, v)| k.len() / 8 + size(v)).sum::<usize>(), Value::String(s) => 1 + s.len() / 4, Value::Number(n) => 1 + n.to_string().len() / 3, _ => 1 }
}
fn get<'a>(v: &'a Value, p: &[Value]) -> Option<&'a Value> {
    p.iter().try_fold(v, |v, k| match k { Value::String(s) => v.get(s.as_str()), Value::Number(n) => v.get(n.as_u64()? as usize), _ => None })
}
fn get_mut<'a>(v: &'a mut Value, p: &[Value]) -> Option<&'a mut Value> {
    p.iter().try_fold(v, |v, k| match k { Value::String(s) => v.get_mut(s.as_str()), Value::Number(n) => v.get_mut(n.as_u64()? as usize), _ => None })
}
fn paths(v: &Value, at: &mut Vec<Value>, out: &mut Vec<Vec<Value>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => for (i, x) in a.iter().enumerate() { at.push(json!(i)); paths(x, at, out); at.pop(); },
        Value::Object(o) => for (k, x) in o { at.push(json!(k)); paths(x, at, out); at.pop(); },
        _ => {}
    }
}
/// a fault must stay a fault: an error needs a number, a window a width
fn meaningful(v: &Value) -> bool {
    match v {
        Value::Object(o) => !(o.get("act").and_then(|a| a.as_str()) == Some("err") && o.get("arg").and_then(|a| a.as_i64()).unwrap_or(0) <= 0) && !(o.contains_key("act") && o.get("count").and_then(|a| a.as_i64()) == Some(0)) && o.values().all(meaningful),
        Value::Array(a) => a.iter().all(meaningful),
        _ => true,
    }
}
/// Greedy structural shrinking while the same class of violation remains.
pub fn minimise(c: &dyn Check, case: &Value, v: &Viol, ex: &mut Exec) -> (Value, Viol, u64) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(std::env::var("AVSIM_MIN_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    let mut best = case.clone();
    let mut bv = v.clone();
    let mut tries = 0u64;
    let pinned = c.pin(case, ex);
    if pinned != *case && let Ok(Some(x)) = c.eval(&pinned, ex) && x.class == bv.class { best = pinned; bv = x; }
    let mut attempt = |cand: Value, best: &mut Value, bv: &mut Viol| -> bool {
        if cand == *best || !meaningful(&cand) { return false; }
        tries += 1;
        match c.eval(&cand, ex) {
            Ok(Some(x)) if x.class == bv.class => { *best = cand; *bv = x; true }
            _ => false,
        }
    };
    for round in 0..6 {
        let before = size(&best);
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        // largest subtrees first
        ps.sort_by_key(|p| std::cmp::Reverse(get(&best, p).map(size).unwrap_or(0)));
        for p in ps {
            if t0.elapsed() > limit { return (best, bv, tries); }
            let Some(here) = get(&best, &p).cloned() else { continue };
            match here {
                Value::Array(a) if !a.is_empty() => {
                    let mut cur = a;
                    let mut step = cur.len();
                    while step >= 1 {
                        let mut i = 0;
                        while i < cur.len() {
                            if t0.elapsed() > limit { return (best, bv, tries); }
                            let mut less = cur.clone();
                            less.drain(i..(i + step).min(cur.len()));
                            let mut cand = best.clone();
                            *get_mut(&mut cand, &p).unwrap() = Value::Array(less.clone());
                            if attempt(cand, &mut best, &mut bv) { cur = less; } else { i += step; }
                        }
                        step /= 2;
                    }
                }
                Value::Object(o) => {
                    for k in o.keys() {
                        if t0.elapsed() > limit { return (best, bv, tries); }
                        let mut cand = best.clone();
                        if let Some(Value::Object(m)) = get_mut(&mut cand, &p) { m.shift_remove(k); }
                        attempt(cand, &mut best, &mut bv);
                    }
                    // a complicated type becomes a plain one
                    for k in ["t", "ret"] {
                        if o.get(k).is_some_and(|x| x.is_object() && x.get("P").is_none()) {
                            let mut cand = best.clone();
                            if let Some(Value::Object(m)) = get_mut(&mut cand, &p) { m.insert(k.into(), json!({"P": "int"})); m.shift_remove("d"); }
                            attempt(cand, &mut best, &mut bv);
                        }
                    }
                }
                Value::Number(_) => {
                    let mut cand = best.clone();
                    *get_mut(&mut cand, &p).unwrap() = json!(0);
                    attempt(cand, &mut best, &mut bv);
                }
                Value::Bool(true) => {
                    let mut cand = best.clone();
                    *get_mut(&mut cand, &p).unwrap() = json!(false);
                    attempt(cand, &mut best, &mut bv);
                }
                Value::String(s) if round == 0 && s.len() > 40 => {
                    for cut in [s.len() / 2, s.len() / 4] {
                        let Some(h) = s.get(..cut) else { continue };
                        let mut cand = best.clone();
                        *get_mut(&mut cand, &p).unwrap() = json!(h);
                        if attempt(cand, &mut best, &mut bv) { break; }
                    }
                }
                _ => {}
            }
        }
        if size(&best) >= before { break; }
    }
    (best, bv, tries)
}

// ------------------------------------------------------------------ replay files
fn outcome_json(t: Target, j: &Job, o: &Outcome) -> Value {
    json!({
        "target": if t == Target::Cli { "avdl" } else { "avdl-driver" }, "job": j.to_json(), "end": format!("{:?}", o.end), "stdout": bytes_to_json(&o.stdout), "stderr": bytes_to_json(&o.stderr),
        "fs_changes": crate::case::fs_changes(&crate::case::image(j), &o.fs).iter().map(|(p, w)| format!("{w} {p}")).collect::<Vec<_>>(),
        "others": o.others.iter().map(|s| json!({"end": format!("{:?}", s.end), "stdout": bytes_to_json(&s.stdout), "stderr": bytes_to_json(&s.stderr)})).collect::<Vec<_>>(),
        "trace_hash": format!("{:016x}", o.thash), "edges": o.edges, "faults_fired": o.fired, "schedule": o.switches, "trace": o.trace.lines().collect::<Vec<_>>(),
    })
}
pub fn write_replay(c: &dyn Check, idx: u64, case: &Value, v: &Viol, ex: &mut Exec, tries: u64) -> PathBuf {
    ex.keep = true;
    ex.log.clear();
    let _ = c.eval(case, ex);
    ex.keep = false;
    let runs: Vec<Value> = ex.log.iter().map(|(t, j, o)| outcome_json(*t, j, o)).collect();
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.json", c.id(), base_seed(), idx));
    let doc = json!({"property": c.id(), "seed": base_seed(), "case_index": idx, "class": v.class, "violation": v.detail, "minimiser_runs": tries, "case": case, "runs": runs});
    std::fs::write(&p, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
    p
}
/// 1 = reproduced exactly, 0 = did not reproduce
pub fn replay(c: &dyn Check, doc: &Value, ex: &mut Exec) -> i32 {
    ex.keep = true;
    ex.log.clear();
    let r = c.eval(&doc["case"], ex);
    match r {
        Ok(Some(v)) => {
            println!("VIOLATION property={} class={}\n{}", c.id(), v.class, v.detail);
            let exact = ex.log.len() == doc["runs"].as_array().map_or(0, |a| a.len())
                && ex.log.iter().zip(doc["runs"].as_array().unwrap()).all(|((_, _, o), r)| r["trace_hash"] == json!(format!("{:016x}", o.thash)) && r["end"] == json!(format!("{:?}", o.end)) && r["stdout"] == bytes_to_json(&o.stdout));
            println!("replay: {}", if exact { "every run has the recorded trace, end and output" } else { "same violation; the runs differ from the recorded ones (different code?)" });
            1
        }
        Ok(None) => { println!("replay: no violation (property {} holds on this case)", c.id()); 0 }
        Err(e) => { println!("harness: {e:?}"); 3 }
    }
}

// ------------------------------------------------------------------ known findings
pub struct Known { pub property: String, pub case: PathBuf, pub text: String }
/// lines: `finding: property=<id> case=<file under /verif> class=<class> <text>`; `fixed:` lines suppress nothing
pub fn known(id: &str) -> Vec<(Known, String)> {
    let Ok(s) = std::fs::read_to_string(verif().join("known-findings.txt")) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let get = |k: &str| l.split(' ').find_map(|w| w.strip_prefix(k)).map(String::from);
            let (p, case, class) = (get("property=")?, get("case=")?, get("class=")?);
            if p != id { return None; }
            let text = l.splitn(4, ' ').nth(3).unwrap_or("").to_string();
            Some((Known { property: p, case: verif().join(case), text }, class))
        })
        .collect()
}

// ------------------------------------------------------------------ a whole check
fn cov_count(p: &Path) -> u64 {
    ["cli", "drv"].iter().map(|t| std::fs::read(format!("{}.{t}", p.display())).map(|b| b.iter().filter(|x| **x != 0).count() as u64).unwrap_or(0)).sum()
}
pub fn run_check(c: &dyn Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let id = c.id();
    let cov = bin_dir().join(format!("cov.{}", std::process::id()));
    for t in ["cli", "drv"] {
        let f = std::fs::File::create(format!("{}.{t}", cov.display())).expect("coverage file");
        f.set_len(1 << 20).unwrap();
    }
    let (best, st, info, harness) = search(c, tier, &cov);
    let edges = cov_count(&cov);
    for t in ["cli", "drv"] { let _ = std::fs::remove_file(format!("{}.{t}", cov.display())); }
    let mut rc = 0;
    let mut viols = 0;
    if let Some(h) = &harness { eprintln!("HARNESS-ERROR property={id} {h}"); rc = 3; }
    let mut ex = Exec::new("");
    for (k, class) in known(id) {
        let r = std::fs::read_to_string(&k.case).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()).map(|d| c.eval(&d["case"], &mut ex));
        match r { Some(Ok(Some(v))) if v.class == class => println!("KNOWN-FINDING: property={id} {}", k.text), _ => {} }
    }
    if let Some((idx, case, v)) = best {
        viols = 1;
        let (m, mv, tries) = minimise(c, &case, &v, &mut ex);
        let p = write_replay(c, idx, &m, &mv, &mut ex, tries);
        println!("violation class: {}\n{}", mv.class, mv.detail);
        println!("VIOLATION property={id} replay={}", p.display());
        rc = 1;
    }
    for p in c.required() {
        if rc == 0 && !st.probes.contains_key(p) && std::env::var_os("AVSIM_CASES").is_none() { eprintln!("note: probe `{p}` never fired"); }
    }
    let wall = t0.elapsed().as_secs_f64();
    let search_s = info["search_s"].as_f64().unwrap_or(1.0).max(0.01);
    let evals = info["evals"].as_u64().unwrap_or(0);
    let mut covr = Map::new();
    covr.insert("evaluations".into(), json!(evals));
    covr.insert("distinct_nontrivial".into(), info["distinct"].clone());
    covr.insert("rule".into(), json!(c.rule()));
    covr.insert("samples".into(), info["samples"].clone());
    covr.insert("simulated_runs".into(), json!(st.runs));
    covr.insert("simulated_runs_cli".into(), json!(st.cli_runs));
    covr.insert("simulated_runs_library".into(), json!(st.drv_runs));
    covr.insert("runs_per_hour".into(), json!((st.runs as f64 * 3600.0 / search_s) as u64));
    covr.insert("seeds_per_hour".into(), json!((evals as f64 * 3600.0 / search_s) as u64));
    covr.insert("simulated_time_s".into(), json!(st.sim_ns as f64 / 1e9));
    covr.insert("simulated_system_calls".into(), json!(st.ops));
    covr.insert("faults_injected".into(), json!(st.fired));
    covr.insert("run_ends".into(), json!(st.ends));
    covr.insert("probes".into(), json!(st.probes));
    covr.insert("distinct_interleavings".into(), json!(st.traces.len()));
    covr.insert("distinct_interleavings_measure".into(), json!("distinct hashes of the full sequence (thread, operation, path, result) of simulated system calls and thread switches of a run"));
    covr.insert("code_edges_reached".into(), json!(edges));
    covr.insert("context_switches".into(), json!(st.switches));
    covr.insert("repeat_checked".into(), info["repeat_checked"].clone());
    covr.insert("repeat_mismatches".into(), info["repeat_mismatches"].clone());
    covr.insert("planned_cases".into(), info["planned_cases"].clone());
    covr.insert("cut_by_wall_clock".into(), info["cut_by_wall_clock"].clone());
    covr.insert("skipped_invalid".into(), json!({"count": info["skipped_invalid"], "why": info["skipped_why"]}));
    covr.insert("fork_server_restarts".into(), json!(st.restarts));
    covr.insert("real_components".into(), json!(["avdl binary and library, all of /repo/src, built from the working tree (sancov instrumented)", "all dependencies (antlr runtime, miette, serde_json, walkdir, lexopt)", "Rust std and glibc above the system-call layer"]));
    covr.insert("stub_components".into(), json!(["system calls, file system, standard streams, clock, randomness, futexes, thread scheduler (libsimos)", "nothing of the allocator but its failures and its accounting (glibc serves the memory)"]));
    let mut asm: Vec<Value> = c.assumptions().iter().map(|s| json!(s)).collect();
    asm.push(json!("libsimos answers system calls as Linux would for the operations avdl uses"));
    asm.push(json!("seeded sampling: absence of a violation covers the explored executions only"));
    let ev = json!({
        "property": id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": base_seed(), "level": "exploration", "coverage": covr, "assumptions": asm, "wall_s": (wall * 100.0).round() / 100.0, "violations": viols,
    });
    let d = verif().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    eprintln!("{id}: {evals} cases, {} runs, {:.1}s, {} distinct traces, {} code edges, skipped {}", st.runs, wall, st.traces.len(), edges, info["skipped_invalid"]);
    if std::env::var("AVSIM_DEBUG").as_deref() == Ok("1") { eprintln!("{}", serde_json::to_string_pretty(&json!({"ends": st.ends, "fired": st.fired, "probes": st.probes, "info": info})).unwrap()); }
    rc
}
