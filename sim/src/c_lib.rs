//! C08 (library objects with a history) and C09 (concurrent library calls).
use crate::case::*;
use crate::common::*;
use crate::exec::*;
use crate::frame::*;
use crate::gener::*;
use crate::job::*;
use crate::rng::Rng;
use crate::spec::*;
use serde_json::{Value, json};

fn to(c: &Case) -> Value { serde_json::to_value(c).unwrap() }
fn op(o: &Value) -> &str { o["op"].as_str().unwrap_or("") }
fn is_call(o: &Value) -> bool { matches!(op(o), "path" | "str") }
fn is_world(o: &Value) -> bool { matches!(op(o), "write" | "remove" | "mkdir" | "symlink" | "chdir" | "faults") }
/// persistent errors on one path: they do not depend on how often a call looks
pub fn lasting(r: &mut Rng, base: &Outcome) -> Option<Fault> {
    let ps: Vec<Point> = points(base).into_iter().filter(|p| matches!(p.op.as_str(), "open" | "read" | "stat" | "realpath" | "opendir" | "readdir" | "access") && !p.path.starts_with("/drv") && !p.path.starts_with('<')).collect();
    if ps.is_empty() { return None; }
    let q = r.pick(&ps);
    let e = errno(r.pick(&errnos(&q.op, &q.path)));
    Some(Fault { op: q.op.clone(), path: q.path.clone(), from: 0, count: 1_000_000, act: "err".into(), arg: e, proc: None })
}
/// a call on a builder: any file of the tree, a directory, something missing, or source text
pub fn gen_call(r: &mut Rng, w: &World, b: u64, kind: &str) -> Value {
    let idl: Vec<&File> = w.files.iter().filter(|f| matches!(f.body, Body::Idl { .. })).collect();
    let f = r.pick(&idl);
    match r.below(12) {
        0..=4 => json!({"op": "path", "b": b, "path": w.main}),
        5 => json!({"op": "path", "b": b, "path": f.path}),
        6 => json!({"op": "path", "b": b, "path": relpath(&w.cwd, &f.path)}),
        7 if kind == "sch" => json!({"op": "path", "b": b, "path": r.pick(&["/w", "/w/sub", "/inc1", "."])}),
        7 => json!({"op": "path", "b": b, "path": r.pick(&["/w/none.avdl", "/w", "sub"])}),
        8 => { let src = format!("import idl \"{}\";\nrecord FromStr {{ int a; }}\nschema FromStr;", r.pick(&[f.path.clone(), relpath(&w.cwd, &f.path), w.main.clone()])); json!({"op": "str", "b": b, "src": src, "name": "given"}) }
        _ => {
            let src = render(&f.body).0;
            if r.chance(1, 3) { json!({"op": "str", "b": b, "src": src, "name": r.pick(&["<in>", "main.avdl", "x y"])}) } else { json!({"op": "str", "b": b, "src": src}) }
        }
    }
}

// ------------------------------------------------------------------ C08
pub struct C08;
impl Check for C08 {
    fn id(&self) -> &'static str { "C08" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 4_000 } else { 60_000 } }
    fn rule(&self) -> &'static str { "seeded histories on 1-3 library objects: conversions and extractions of files, directories and strings, drains, added import directories, files rewritten, removed, relinked, working-directory changes and I/O errors lasting for chosen calls; every call is compared with the same call on a new object in a new process; non-trivial: at least two calls on one object" }
    fn required(&self) -> Vec<&'static str> { vec!["call-ok", "call-err", "call-under-fault", "drained"] }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(1, 3) { Opts::wide() } else { Opts::small() };
        o.warn = *r.pick(&[10, 40]);
        o.files = o.files.max(2);
        let mut w = Gen::new(r, o).world();
        for d in ["/w/sub", "/inc1", "/inc2"] { w.dirs.push(d.into()); }
        let orig = w.clone();
        if r.chance(1, 6) { sabotage(r, &mut w); }
        let mut c = Case::new(w, Cmd::Idl { out: None, stdin: false });
        let nb = r.range(1, 3) as u64;
        let kinds: Vec<&str> = (0..nb).map(|_| *r.pick(&["idl", "sch"])).collect();
        let mut ops: Vec<Value> = vec![];
        for (b, k) in kinds.iter().enumerate() {
            ops.push(json!({"op": "new", "b": b, "kind": k}));
            for d in &c.world.idirs { ops.push(json!({"op": "dir", "b": b, "path": d})); }
        }
        if r.chance(1, 10) { ops.push(json!({"op": "drain", "b": 0})); }
        let mut faulty = false;
        for k in 0..(if r.chance(1, 20) { r.range(12, 24) } else { r.range(3, 7) }) as u64 {
            for _ in 0..r.below(3) {
                let idl: Vec<&File> = orig.files.iter().collect();
                let f = r.pick(&idl);
                ops.push(match r.below(12) {
                    0..=3 => { let mut b = f.body.clone(); edit(r, &mut b, k); json!({"op": "write", "path": f.path, "content": render(&b).0}) }
                    4 => json!({"op": "write", "path": f.path, "content": render(&f.body).0}),
                    5 => json!({"op": "remove", "path": f.path}),
                    // a file in front of another one
                    6 => { let mut b = f.body.clone(); edit(r, &mut b, k); json!({"op": "write", "path": format!("{}/{}", r.pick(&["/w", "/w/sub", "/inc1", "/inc2"]), base(&f.path)), "content": render(&b).0}) }
                    7 => json!({"op": "symlink", "path": f.path, "target": r.pick(&idl).path}),
                    8 => json!({"op": "chdir", "path": r.pick(&["/w", "/w/sub", "/inc1", "/"])}),
                    9 => json!({"op": "dir", "b": r.below(nb as usize), "path": r.pick(&["/inc1", "/inc2", "sub", "/w", ".."])}),
                    _ => { let s = render(&{ let mut b = f.body.clone(); if let Body::Idl { tail, .. } = &mut b { *tail = "recrod X {".into(); } b }).0; json!({"op": "write", "path": f.path, "content": s}) }
                });
            }
            let b = if r.chance(2, 3) { 0 } else { r.below(nb as usize) };
            let hit = r.chance(1, 4);
            if hit != faulty { ops.push(json!({"op": "faults", "on": hit})); faulty = hit; }
            ops.push(gen_call(r, &orig, b as u64, kinds[b]));
            for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) { ops.push(json!({"op": "drain", "b": b})); }
        }
        if r.chance(1, 2) { ops.push(json!({"op": "drain", "b": 0})); }
        ops.insert(0, json!({"op": "faults", "on": false}));
        let mut p = Plan { seed: r.u64(), ..Default::default() };
        if r.chance(1, 4) { noise(r, &mut p); p.knobs.remove("write_chunk"); }
        let fs = c.job(&Plan::default()).fs;
        let s0: Vec<Value> = ops.iter().filter(|o| op(o) != "faults").cloned().collect();
        let o0 = ex.drv(&drv_job(&fs, &c.world.cwd, &Value::Array(s0), &Plan::default()))?;
        for _ in 0..r.range(1, 2) { if let Some(f) = lasting(r, &o0) { p.faults.push(f); } }
        c.plans.push(p);
        c.note = Value::Array(ops);
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        let (Some(p), Some(ops)) = (c.plans.first(), c.note.as_array()) else { return Err(No::Invalid("shape".into())) };
        if p.faults.iter().any(|f| f.act != "err" || f.from != 0 || f.count < 1_000_000) { return Err(No::Invalid("fault".into())); }
        let bid = |o: &Value| o["b"].as_u64().unwrap_or(0);
        for (i, o) in ops.iter().enumerate() {
            if matches!(op(o), "dir" | "path" | "str" | "drain") && !ops[..i].iter().any(|x| op(x) == "new" && bid(x) == bid(o)) { return Err(No::Invalid("no object".into())); }
            if !["new", "dir", "path", "str", "drain"].contains(&op(o)) && !is_world(o) { return Err(No::Invalid("op".into())); }
        }
        let fs = c.job(&Plan::default()).fs;
        let o = ex.drv(&drv_job(&fs, &c.world.cwd, &c.note, p))?;
        let got = match drv_out(&o) { Ok(g) => g, Err(v) => return Ok(Some(v)) };
        for (i, g) in got.iter().enumerate() { if lib_panic(g) { return Ok(viol("panic", format!("step {i} ({}): {}", short(&ops[i]), show(&o.stderr)))); } }
        let calls: Vec<usize> = (0..ops.len()).filter(|&i| is_call(&ops[i])).collect();
        ex.nontrivial = calls.iter().any(|&i| calls.iter().any(|&j| j < i && bid(&ops[i]) == bid(&ops[j])));
        // a drain before any call finds nothing
        for (i, d) in ops.iter().enumerate() {
            if op(d) == "drain" && !ops[..i].iter().any(|x| is_call(x) && bid(x) == bid(d)) && got[i] != json!({"drained": []}) { return Ok(viol("drain", format!("step {i}: warnings before any call: {}", short(&got[i])))); }
        }
        for &i in &calls {
            let b = bid(&ops[i]);
            let mut s: Vec<Value> = vec![];
            let mut at: Vec<usize> = vec![];
            // the world as it is at this moment, and a new object with the same import directories
            for o in &ops[..i] { if is_world(o) { s.push(o.clone()); } }
            let start = ops[..i].iter().rposition(|x| op(x) == "new" && bid(x) == b).unwrap();
            s.push(ops[start].clone());
            for o in &ops[start..i] { if op(o) == "dir" && bid(o) == b { s.push(o.clone()); } }
            s.push(ops[i].clone());
            at.push(i);
            for (k, o) in ops.iter().enumerate().skip(i + 1) {
                if bid(o) == b && (is_call(o) || op(o) == "new") { break; }
                if bid(o) == b && op(o) == "drain" { s.push(o.clone()); at.push(k); }
            }
            let skip = s.len() - at.len();
            let o = ex.drv(&drv_job(&fs, &c.world.cwd, &Value::Array(s), p))?;
            let want = match drv_out(&o) { Ok(g) => g, Err(v) => return Ok(Some(v)) };
            if let Some(g) = want.iter().find(|g| lib_panic(g)) { return Ok(viol("panic", short(g))); }
            for (n, &k) in at.iter().enumerate() {
                let (g, w) = (&got[k], &want[skip + n]);
                if k == i {
                    ex.st.probe(if g.get("err").is_some() { "call-err" } else { "call-ok" });
                    let on = ops[..i].iter().rev().find(|o| op(o) == "faults").is_none_or(|o| o["on"] == json!(true));
                    if on && o.fired.iter().sum::<u64>() > 0 { ex.st.probe("call-under-fault"); }
                } else if g != &json!({"drained": []}) { ex.st.probe("drained"); }
                if g != w {
                    let class = if k != i { "drain" } else if g.get("err").is_some() != w.get("err").is_some() { "result" } else if g.get("err") != w.get("err") { "error-text" } else if g.get("warnings") != w.get("warnings") { "warnings" } else { "result" };
                    return Ok(viol(class, format!("step {k} {}: on the reused object {}\nbut on a new one {}", short(&ops[k]).chars().take(200).collect::<String>(), diffs(g, w).0, diffs(g, w).1)));
                }
            }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["'at that moment' includes the process's working directory, which relative import directories are resolved against"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| format!("{} files; {}", c.world.files.len(), c.note.as_array().into_iter().flatten().map(|o| { let t = o.get("path").and_then(|p| p.as_str()).unwrap_or(""); format!("{} {t}", op(o)) }).collect::<Vec<_>>().join(", "))).unwrap_or_default() }
}
/// the differing ends of two results
pub fn diffs(a: &Value, b: &Value) -> (String, String) {
    let (x, y): (Vec<char>, Vec<char>) = (a.to_string().chars().collect(), b.to_string().chars().collect());
    let k = x.iter().zip(&y).take_while(|(p, q)| p == q).count().saturating_sub(60);
    (x.iter().skip(k).take(400).collect(), y.iter().skip(k).take(400).collect())
}

// ------------------------------------------------------------------ C09
pub struct C09;
fn threads(c: &Case) -> Result<(bool, Vec<Vec<Value>>), No> {
    let l = c.note["threads"].as_array().ok_or(No::Invalid("shape".into()))?;
    let v: Vec<Vec<Value>> = l.iter().map(|s| s.as_array().cloned().unwrap_or_default()).collect();
    for s in &v {
        for (i, o) in s.iter().enumerate() {
            if !["new", "dir", "path", "str", "drain"].contains(&op(o)) { return Err(No::Invalid("op".into())); }
            if op(o) != "new" && !s[..i].iter().any(|x| op(x) == "new" && x["b"].as_u64().unwrap_or(0) == o["b"].as_u64().unwrap_or(0)) { return Err(No::Invalid("no object".into())); }
        }
    }
    Ok((c.note["warm"].as_bool().unwrap_or(false), v))
}
fn job9(c: &Case, p: &Plan, fs: &Fs, warm: bool, l: &[Vec<Value>]) -> Job {
    let mut s = vec![];
    if warm { s.push(json!({"op": "warm"})); }
    s.push(json!({"op": "threads", "scripts": l}));
    drv_job(fs, &c.world.cwd, &Value::Array(s), p)
}
fn sched_of(c: &Case) -> Option<Vec<(u64, u64)>> { c.note["schedule"].as_array().map(|a| a.iter().map(|x| (x[0].as_u64().unwrap_or(0), x[1].as_u64().unwrap_or(0))).collect()) }
impl C09 {
    fn one(&self, c: &Case, p: &Plan, fs: &Fs, warm: bool, l: &[Vec<Value>], alone: &[Value], ex: &mut Exec) -> Result<(Option<Viol>, Outcome), No> {
        let mut j = job9(c, p, fs, warm, l);
        j.schedule = sched_of(c);
        let o = ex.drv(&j)?;
        let got = match drv_out(&o) { Ok(g) => g, Err(v) => return Ok((Some(v), o)) };
        let rs = got.last().cloned().unwrap_or_default();
        if lib_panic(&rs) { return Ok((viol("panic", show(&o.stderr)), o)); }
        for (t, want) in alone.iter().enumerate() {
            if rs[t] == *want { continue; }
            let k = rs[t].as_array().map_or(0, |a| a.iter().zip(want.as_array().unwrap()).take_while(|(x, y)| x == y).count());
            let d = diffs(&rs[t][k], &want[k]);
            return Ok((viol("interference", format!("thread {t} step {k} ({}) gave {}\nbut alone {}", short(&l[t][k]).chars().take(200).collect::<String>(), d.0, d.1)), o));
        }
        Ok((None, o))
    }
}
impl Check for C09 {
    fn id(&self) -> &'static str { "C09" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 1_500 } else { 40_000 } }
    fn rule(&self) -> &'static str { "2-8 threads, each with its own library objects and 1-3 calls on one seeded tree (same or different files, valid or not, strings, directories, lasting I/O errors), run alone and then under 6 seeded preemptive schedules; non-trivial: at least 10 thread switches" }
    fn required(&self) -> Vec<&'static str> { vec!["racing-first-use"] }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = Opts::small();
        o.warn = *r.pick(&[10, 50]);
        o.types = 2;
        let mut w = Gen::new(r, o).world();
        for d in ["/w/sub", "/inc1", "/inc2"] { w.dirs.push(d.into()); }
        let orig = w.clone();
        if r.chance(1, 4) { sabotage(r, &mut w); }
        let mut c = Case::new(w, Cmd::Idl { out: None, stdin: false });
        let mut l: Vec<Vec<Value>> = vec![];
        for _ in 0..*r.pick(&[2, 2, 2, 2, 2, 3, 3, 4, 4, 8]) {
            let kind = *r.pick(&["idl", "idl", "sch"]);
            let mut s = vec![json!({"op": "new", "b": 0, "kind": kind})];
            // threads may look in different places
            let mut dirs = c.world.idirs.clone();
            if r.chance(1, 3) { r.shuffle(&mut dirs); dirs.truncate(r.below(dirs.len() + 1)); }
            for d in &dirs { s.push(json!({"op": "dir", "b": 0, "path": d})); }
            for _ in 0..r.range(1, 3) {
                s.push(gen_call(r, &orig, 0, kind));
                if r.chance(1, 2) { s.push(json!({"op": "drain", "b": 0})); }
            }
            l.push(s);
        }
        let warm = r.chance(1, 2);
        let fs = c.job(&Plan::default()).fs;
        let mut faults = vec![];
        if r.chance(1, 5) {
            let o0 = ex.drv(&job9(&c, &Plan::default(), &fs, warm, &l))?;
            if let Some(f) = lasting(r, &o0) { faults.push(f); }
        }
        for _ in 0..6 {
            let mut p = Plan { seed: r.u64(), ..Default::default() };
            p.faults = faults.clone();
            p.knobs.insert("sched_mode".into(), 1);
            p.knobs.insert("sched_mean".into(), *r.pick(&[60, 300, 1000, 3000, 5000, 20_000, 100_000, 400_000]));
            if r.chance(1, 3) { p.knobs.insert("spurious_pm".into(), *r.pick(&[10, 200])); }
            if r.chance(1, 4) { p.knobs.insert("file_chunk".into(), 64); }
            if r.chance(1, 8) { p.knobs.insert("eintr_pm".into(), 100); }
            c.plans.push(p);
        }
        c.note = json!({"warm": warm, "threads": l});
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        let (warm, l) = threads(&c)?;
        let Some(p0) = c.plans.first() else { return Err(No::Invalid("no plan".into())) };
        if c.plans.iter().any(|p| p.faults != p0.faults || p.faults.iter().any(|f| f.act != "err" || f.from != 0 || f.count < 1_000_000)) { return Err(No::Invalid("fault".into())); }
        let fs = c.job(&Plan::default()).fs;
        let mut alone = vec![];
        for s in &l {
            let o = ex.drv(&job9(&c, &Plan { seed: p0.seed, faults: p0.faults.clone(), ..Default::default() }, &fs, warm, std::slice::from_ref(s)))?;
            match drv_out(&o) { Ok(g) => alone.push(g.last().map(|x| x[0].clone()).unwrap_or_default()), Err(v) => return Ok(Some(v)) }
            if lib_panic(alone.last().unwrap()) { return Ok(viol("panic-alone", show(&o.stderr))); }
        }
        ex.st.probe(if warm { "warm" } else { "racing-first-use" });
        for p in &c.plans {
            let (v, o) = self.one(&c, p, &fs, warm, &l, &alone, ex)?;
            if o.switches.len() >= 10 { ex.nontrivial = true; }
            if v.is_some() { return Ok(v); }
        }
        Ok(None)
    }
    /// keep the violating schedule only, spelled out switch by switch
    fn pin(&self, case: &Value, ex: &mut Exec) -> Value {
        let Ok(c) = de::<Case>(case) else { return case.clone() };
        for p in &c.plans {
            let mut d = c.clone();
            d.plans = vec![p.clone()];
            let keep = ex.keep;
            ex.keep = true;
            ex.log.clear();
            let r = self.eval(&to(&d), ex);
            ex.keep = keep;
            let sw = ex.log.last().map(|x| x.2.switches.clone());
            ex.log.clear();
            if let (Ok(Some(_)), Some(sw)) = (r, sw) {
                d.note["schedule"] = json!(sw);
                return to(&d);
            }
        }
        case.clone()
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["threads are switched at basic-block edges and system calls; memory is sequentially consistent in the simulator"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| format!("{} files; {}", c.world.files.len(), c.note["threads"].as_array().into_iter().flatten().map(|t| format!("[{}]", t.as_array().into_iter().flatten().map(|o| format!("{} {}", op(o), o.get("path").and_then(|p| p.as_str()).unwrap_or(""))).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" || "))).unwrap_or_default() }
}
