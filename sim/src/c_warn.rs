//! C10 (every warning exactly once) and C12 (directories of inputs).
use crate::case::*;
use crate::common::*;
use crate::exec::*;
use crate::frame::*;
use crate::gener::*;
use crate::job::*;
use crate::model::*;
use crate::rng::Rng;
use crate::spec::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

fn to(c: &Case) -> Value { serde_json::to_value(c).unwrap() }
/// the IDL files below a directory, depth first in file-name order
pub fn dir_inputs(fs: &Fs, cwd: &str, dir: &str) -> Vec<String> {
    let Some(root) = realpath(fs, &join(cwd, dir)) else { return vec![] };
    let pre = if root == "/" { "/".to_string() } else { format!("{root}/") };
    let mut v: Vec<Vec<String>> = vec![];
    for (p, n) in fs {
        let Some(rel) = p.strip_prefix(&pre) else { continue };
        if n.kind == b'd' { continue; }
        let b = base(rel);
        if b.strip_suffix(".avdl").is_some_and(|s| !s.is_empty()) { v.push(rel.split('/').map(String::from).collect()); }
    }
    v.sort_by(|a, b| a.iter().map(|s| s.as_bytes()).cmp(b.iter().map(|s| s.as_bytes())));
    let d = if dir.ends_with('/') { dir.to_string() } else { format!("{dir}/") };
    v.into_iter().map(|c| format!("{d}{}", c.join("/"))).collect()
}
/// whether some file of the tree imports the main file
pub fn imports_main(w: &World, fs: &Fs) -> bool {
    let m = main_real(w);
    w.files.iter().any(|f| match &f.body { Body::Idl { decls, .. } => decls.iter().any(|d| matches!(d, Decl::I(_, p) if lookup(fs, &w.cwd, &w.idirs, &parent(&f.path), p).as_deref() == Some(m.as_str()))), _ => false })
}

// ------------------------------------------------------------------ C10
pub struct C10;
/// no IDL file, protocol or schema
const HOPELESS: [&str; 3] = ["{", "[1,2", "protocol"];
/// the file that could not be read, if the faults of a run had that effect
fn unreadable(o: &Outcome, fs: &Fs, fault: Option<&Fault>) -> Result<Option<String>, No> {
    let Some(f) = fault else { return Ok(None) };
    let es: Vec<bool> = o.events().iter().filter(|e| e.op == f.op && realpath(fs, &e.path).as_deref() == Some(f.path.as_str())).map(|e| e.ret < 0).collect();
    if es.iter().any(|x| *x != es[0]) { return Err(No::Invalid("the file is reached in several ways".into())); }
    Ok(es.first().copied().unwrap_or(false).then(|| f.path.clone()))
}
struct Want {
    /// token, unit of compilation, rank of the file in it
    must: Vec<(String, usize, usize)>,
    /// may be reported, at most this often
    may: BTreeMap<String, usize>,
    all: BTreeSet<String>,
}
fn own_failure(b: &Body) -> bool {
    match b {
        Body::Raw(_) => true,
        Body::Idl { tail, decls, .. } => !tail.is_empty() || decls.iter().any(|d| matches!(d, Decl::T(Type { def: Def::Rec { fields, .. }, .. }) if fields.iter().any(|f| f.t == Ty::P("int".into()) && f.d.as_ref().is_some_and(|d| !d.is_number())))),
        _ => false,
    }
}
fn want(w: &World, fs: &Fs, units: &[String], unreadable: Option<&str>) -> Want {
    let mut w2 = w.clone();
    if let Some(p) = unreadable { for f in &mut w2.files { if f.path == p { f.body = Body::Raw("unreadable".into()); } } }
    let mut o = Want { must: vec![], may: BTreeMap::new(), all: w.files.iter().flat_map(|f| f.body.warn_tokens()).collect() };
    // whatever is wrong with the text itself stops the file before its imports are looked at
    for f in &mut w2.files { if own_failure(&f.body) { f.body = Body::Raw("unreadable".into()); } }
    let lenient: BTreeSet<String> = w2.files.iter().filter(|f| own_failure(&f.body)).flat_map(|f| w.file(&f.path).map(|g| g.body.warn_tokens()).unwrap_or_default()).collect();
    for (u, p) in units.iter().enumerate() {
        let m = meaning(&w2, fs, &join(&w.cwd, p));
        for t in &lenient { *o.may.entry(t.clone()).or_default() += 1; }
        for (rank, f) in m.files.iter().enumerate() {
            for t in w2.file(f).map(|f| f.body.warn_tokens()).unwrap_or_default() { if m.warnings.contains(&t) && !lenient.contains(&t) { o.must.push((t, u, rank)); } }
        }
        if m.fail.is_some() { break; }
    }
    o
}
/// the planted places a list of rendered warnings is about, in order
fn places(blocks: &[String], all: &BTreeSet<String>) -> Vec<String> {
    let of = |s: &str| all.iter().filter(|t| s.contains(t.as_str())).cloned().collect::<Vec<_>>();
    // the message names the place, or else the excerpt does; neighbouring lines of an excerpt do not count
    blocks.iter().flat_map(|b| { let v = of(b.split("╭─").next().unwrap_or("")); if v.is_empty() { of(b) } else { v } }).collect()
}
fn judge(want: &Want, got: &[String]) -> Option<Viol> {
    let mut n: BTreeMap<&str, usize> = BTreeMap::new();
    for t in got { *n.entry(t).or_default() += 1; }
    let mut exp: BTreeMap<&str, Vec<(usize, usize)>> = BTreeMap::new();
    for (t, u, r) in &want.must { exp.entry(t).or_default().push((*u, *r)); }
    for (t, at) in &exp {
        let k = n.get(t).copied().unwrap_or(0);
        if k == 0 { return viol("lost", format!("{t} was not reported; reported: {got:?}")); }
        if k > at.len() + want.may.get(*t).copied().unwrap_or(0) { return viol("repeated", format!("{t} was reported {k} times: {got:?}")); }
    }
    for (t, k) in &n {
        if exp.contains_key(t) { continue; }
        if *k > want.may.get(*t).copied().unwrap_or(0) { return viol("unexpected", format!("{t} was reported {k} times, but its file was not taken in: {got:?}")); }
    }
    // main first, then imports in order; only where every place belongs to one compilation
    if exp.values().all(|v| v.len() == 1) {
        let seq: Vec<(usize, usize)> = got.iter().filter_map(|t| exp.get(t.as_str()).map(|v| v[0])).collect();
        if seq.windows(2).any(|x| x[0] > x[1]) { return viol("order", format!("reported as {got:?}; files in order have {:?}", want.must)); }
    }
    None
}
fn blocks(stderr: &[u8]) -> Vec<String> {
    let s = String::from_utf8_lossy(stderr);
    let mut v: Vec<String> = vec![];
    let mut on = false;
    for l in s.lines() {
        match l.trim_start().chars().next() { Some('⚠') if l.starts_with("  ⚠") => { v.push(String::new()); on = true; } Some('×') if l.starts_with("  ×") => on = false, _ => {} }
        if l.starts_with("Error:") { on = false; }
        if on { let b = v.last_mut().unwrap(); b.push_str(l); b.push('\n'); }
    }
    v
}
impl Check for C10 {
    fn id(&self) -> &'static str { "C10" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 24_000 } else { 400_000 } }
    fn rule(&self) -> &'static str { "seeded trees with uniquely named warning-worthy places in many files, valid or failing at any stage (syntax, imports, duplicates, undefined names, unreadable files, unwritable output), compiled by command or library, file, string, stdin or directory; the places reported are compared with the reference model; non-trivial: at least one warning is due" }
    fn required(&self) -> Vec<&'static str> { vec!["warnings-of-success", "warnings-of-failure", "library", "directory"] }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(1, 2) { Opts::wide() } else { Opts::small() };
        o.warn = *r.pick(&[30, 60, 90]);
        o.files = r.range(1, 7);
        o.json = 20;
        let mut w = Gen::new(r, o).world();
        if r.chance(2, 5) { mistakes(r, &mut w); }
        for f in &mut w.files { if matches!(&f.body, Body::Raw(s) if !HOPELESS.contains(&s.as_str())) { f.body = Body::Raw(r.pick(&HOPELESS).to_string()); } }
        let fs = w.fs();
        let cmd = gen_cmd(r, &w);
        let mut c = Case::new(w, cmd);
        let mut p = Plan { seed: r.u64(), ..Default::default() };
        if r.chance(1, 3) { noise(r, &mut p); }
        let cwd_main = parent(&main_real(&c.world)) == c.world.cwd && c.world.main_abs() == main_real(&c.world) && !imports_main(&c.world, &fs);
        let mut how = "cli".to_string();
        match r.below(10) {
            0 if cwd_main => if let Cmd::Idl { stdin, .. } = &mut c.cmd { *stdin = true; },
            1 | 2 => { let d = r.pick(&["/w", "/w/sub", "/inc1", "sub", "."]).to_string(); c.world.dirs.extend(["/w/sub".to_string(), "/inc1".to_string()]); c.cmd = Cmd::Schemata { input: Some(d), out: Some("/out/x".into()) }; }
            3 => how = "path".into(),
            4 => { how = "path".into(); let d = r.pick(&["/w", "/w/sub", "/inc1"]).to_string(); c.world.dirs.extend(["/w/sub".to_string(), "/inc1".to_string()]); c.cmd = Cmd::Schemata { input: Some(d), out: None }; }
            5 if cwd_main => how = "str".into(),
            _ => {}
        }
        if how == "cli" { with_out_dirs(&mut c); }
        let mut earlier = false;
        if how != "cli" { earlier = r.chance(1, 3); }
        match r.below(8) {
            // an import that cannot be read
            0 => {
                let f = r.pick(&c.world.files).path.clone();
                let act = if r.chance(1, 2) { "open" } else { "read" };
                let e = errno(*r.pick(&["EIO", "EACCES"]));
                p.faults.push(Fault { op: act.into(), path: f, from: 0, count: 1_000_000, act: "err".into(), arg: e, proc: None });
            }
            // output that cannot be written
            1 | 2 if how == "cli" => match c.out_abs() {
                None => { p.knobs.insert("stdout_kind".into(), SINK_FULL); p.knobs.insert("stdout_limit".into(), r.below(50) as i64); }
                Some(_) => {
                    let base = ex.cli(&c.job(&p))?;
                    let ps: Vec<Point> = points(&base).into_iter().filter(|q| matches!(q.op.as_str(), "write" | "mkdir" | "open") && realpath(&fs, &q.path).is_none() && !q.path.starts_with('<')).collect();
                    if !ps.is_empty() { let q = r.pick(&ps); let f = err_fault(r, q); p.faults.push(f); }
                }
            },
            _ => {}
        }
        c.note = json!({"how": how, "earlier": earlier});
        c.plans.push(p);
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        sane(&c.world)?;
        if c.world.files.iter().any(|f| matches!(&f.body, Body::Raw(s) if !HOPELESS.contains(&s.as_str()))) { return Err(No::Invalid("raw".into())); }
        let Some(p) = c.plans.first() else { return Err(No::Invalid("no plan".into())) };
        let how = c.note["how"].as_str().unwrap_or("cli");
        let j = c.job(p);
        if p.faults.iter().any(|f| c.world.file(&f.path).is_none() && realpath(&j.fs, &f.path).is_some_and(|r| c.world.file(&r).is_some())) { return Err(No::Invalid("fault".into())); }
        let inputs: Vec<&Fault> = p.faults.iter().filter(|f| c.world.file(&f.path).is_some()).collect();
        if inputs.iter().any(|f| f.from != 0 || f.count < 1_000_000 || f.act != "err" || !matches!(f.op.as_str(), "open" | "read") || !matches!(f.arg, 5 | 13)) || inputs.len() > 1 { return Err(No::Invalid("fault".into())); }
        let dir = match &c.cmd { Cmd::Schemata { input: Some(d), .. } => Some(d.clone()), _ => None };
        let tree = c.world.fs();
        if how == "str" || matches!(c.cmd, Cmd::Idl { stdin: true, .. }) {
            if dir.is_some() || parent(&main_real(&c.world)) != c.world.cwd || c.world.main_abs() != main_real(&c.world) || imports_main(&c.world, &tree) { return Err(No::Invalid("stdin".into())); }
            if inputs.first().is_some_and(|f| f.path == main_real(&c.world)) { return Err(No::Invalid("stdin".into())); }
        }
        let units = match &dir { Some(d) => dir_inputs(&j.fs, &c.world.cwd, d), None => vec![c.world.main.clone()] };
        if units.iter().any(|u| realpath(&tree, &join(&c.world.cwd, u)).is_none_or(|r| c.world.file(&r).is_none())) { return Err(No::Invalid("input".into())); }
        let want = |o: &Outcome| -> Result<Want, No> { Ok(want(&c.world, &tree, &units, unreadable(o, &tree, inputs.first().copied())?.as_deref())) };
        if dir.is_some() { ex.st.probe("directory"); }
        if how == "cli" {
            let o = ex.cli(&j)?;
            if let Some(x) = clean_end(&o) { return Ok(Some(x)); }
            let want = want(&o)?;
            ex.nontrivial = !want.must.is_empty();
            if p.faults.iter().any(|f| f.path == "<stderr>") { return Err(No::Invalid("stderr fault".into())); }
            if !want.must.is_empty() { ex.st.probe(if o.ok() { "warnings-of-success" } else { "warnings-of-failure" }); }
            return Ok(judge(&want, &places(&blocks(&o.stderr), &want.all)).map(|x| Viol { class: x.class, detail: format!("{} {}\n{}", ended(&o), x.detail, show(&o.stderr)) }));
        }
        let mut s = vec![json!({"op": "new", "b": 1, "kind": if c.is_schemata() { "sch" } else { "idl" }})];
        for d in &c.world.idirs { s.push(json!({"op": "dir", "b": 1, "path": d})); }
        if c.note["earlier"] == json!(true) { s.push(json!({"op": "str", "b": 1, "src": "protocol E {\n\n\n/** WOEarlierX */\n\n\n\nimport idl \"gone.avdl\"; }"})); }
        if how == "str" { s.push(json!({"op": "str", "b": 1, "src": c.world.file(&main_real(&c.world)).map(|f| render(&f.body).0)})); } else { s.push(json!({"op": "path", "b": 1, "path": dir.as_ref().unwrap_or(&c.world.main)})); }
        s.push(json!({"op": "drain", "b": 1}));
        s.push(json!({"op": "drain", "b": 1}));
        let n = s.len();
        let o = ex.drv(&drv_job(&j.fs, &c.world.cwd, &Value::Array(s), p))?;
        let got = match drv_out(&o) { Ok(g) => g, Err(v) => return Ok(Some(v)) };
        if got.iter().any(lib_panic) { return Ok(viol("panic", show(&o.stderr))); }
        ex.st.probe("library");
        let want = want(&o)?;
        ex.nontrivial = !want.must.is_empty();
        let list = |v: &Value| -> Vec<String> { v.as_array().into_iter().flatten().filter_map(|s| s.as_str().map(String::from)).collect() };
        let (call, d1, d2) = (&got[n - 3], list(&got[n - 2]["drained"]), list(&got[n - 1]["drained"]));
        let mut all = want.all.clone();
        all.insert("WOEarlierX".into());
        if !d2.is_empty() { return Ok(viol("drained-twice", format!("{d2:?}"))); }
        let ws = if call.get("err").is_some() { d1.clone() } else {
            if !d1.is_empty() { return Ok(viol("drained-after-success", format!("{d1:?}"))); }
            list(&call["warnings"])
        };
        if !want.must.is_empty() { ex.st.probe(if call.get("err").is_none() { "warnings-of-success" } else { "warnings-of-failure" }); }
        Ok(judge(&want, &places(&ws, &all)))
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["a file that does not parse need not report its own warnings", "extracting a directory may report a shared import once, or once for each file of the directory that imports it"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| format!("{} {}", c.note, summary(&c))).unwrap_or_default() }
}

// ------------------------------------------------------------------ C12
pub struct C12;
impl Check for C12 {
    fn id(&self) -> &'static str { "C12" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 6_000 } else { 100_000 } }
    fn rule(&self) -> &'static str { "seeded directory trees (nested, empty and hidden directories, names that sort differently as paths, links, other file types), each file extracted alone by the library, then the directory by library and command under shuffled listings, unknown entry types and 6 listing and reading faults; non-trivial: at least two IDL files" }
    fn required(&self) -> Vec<&'static str> { vec!["complete", "failed-under-fault", "complete-under-fault"] }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = Opts::small();
        o.files = r.range(1, 5);
        o.links = 0;
        o.warn = 15;
        let mut w = Gen::new(r, o).world();
        let dirs = ["/w", "/w/a", "/w/a/b", "/w/a-b", "/w/a.d", "/w/.hid", "/w/B", "/w/é", "/w/sub", "/w/sub/deep/er", "/w/z"];
        for k in 0..r.range(0, 9) {
            let d = r.pick(&dirs).to_string();
            let n = r.pick(&["a", "a.b", "A", "b", "main", ".x", "zz", "é", "a b", "-", "a-"]).to_string();
            let p = format!("{d}/{n}{}", r.pick(&[".avdl", ".avdl", ".avdl", ".avdl", ".AVDL", ".avdl.bak", ".txt", ".avsc"]));
            if w.files.iter().any(|f| f.path == p) || w.extra.iter().any(|e| e.0 == p) { continue; }
            if !p.ends_with(".avdl") { w.extra.push((p, "recrod X {".into())); continue; }
            let ns = if r.chance(1, 3) { Some("dir.ns".to_string()) } else { None };
            let t = |i: usize| Decl::T(Type { name: format!("D{k}x{i}"), ns: ns.clone(), def: Def::Fixed { size: 3 }, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] });
            let decls: Vec<Decl> = (0..k % 3).map(t).collect();
            w.files.push(File { path: p, body: Body::Idl { proto: if k % 2 == 0 { Some(format!("DP{k}")) } else { None }, ns: None, doc: None, props: vec![], main: None, decls, msgs: vec![], style: 0, wtail: vec![], tail: String::new() } });
        }
        for d in dirs { if r.chance(1, 3) { w.dirs.push(d.into()); } }
        if r.chance(1, 10) {
            // a deep tree, or one with many files
            let deep = r.chance(1, 2);
            let mut d = "/w".to_string();
            for k in 0..r.range(12, 45) {
                if deep { d = format!("{d}/{}{}", r.pick(&["d", "x.avdl", ".h"]), k % 3); }
                if deep && k > 2 && r.chance(1, 2) { continue; }
                let t = Type { name: format!("M{k}"), ns: Some("many".into()), def: Def::Fixed { size: 3 }, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] };
                w.files.push(File { path: format!("{d}/m{}.avdl", k * 7 % 50), body: Body::Idl { proto: None, ns: None, doc: None, props: vec![], main: None, decls: vec![Decl::T(t)], msgs: vec![], style: 0, wtail: if k % 9 == 0 { vec![format!("WT{k}X")] } else { vec![] }, tail: String::new() } });
            }
        }
        if r.chance(1, 6) { let f = r.pick(&w.files).path.clone(); let l = format!("{}/ln.avdl", r.pick(&["/w", "/w/sub"])); w.links.push((l, f)); w.dirs.push("/w/sub".into()); }
        if r.chance(1, 8) { w.links.push(("/w/lnd".into(), r.pick(&["/inc1", "sub", ".", "/w/a"]).to_string())); for d in ["/inc1", "/w/sub", "/w/a"] { w.dirs.push(d.into()); } }
        if r.chance(1, 6) { sabotage(r, &mut w); }
        let d = r.pick(&["/w", "/w", ".", "./", "sub", "/w/a", "/w/../w/", "/w/sub"]).to_string();
        for x in ["/w/sub", "/w/a"] { w.dirs.push(x.into()); }
        let mut c = Case::new(w, Cmd::Schemata { input: Some(d), out: Some("/out/x".into()) });
        let mut p = Plan { seed: r.u64(), ..Default::default() };
        p.knobs.insert("readdir_mode".into(), r.below(4) as i64);
        if r.chance(1, 3) { p.knobs.insert("dtype_unknown".into(), 1); }
        if r.chance(1, 4) { noise(r, &mut p); }
        let base = ex.cli(&c.job(&p))?;
        c.plans.push(p.clone());
        let fs = c.job(&Plan::default()).fs;
        let ps: Vec<Point> = points(&base).into_iter().filter(|q| fs.get(&q.path).is_some_and(|n| n.kind == b'd') && matches!(q.op.as_str(), "opendir" | "readdir" | "stat" | "open") || matches!(q.op.as_str(), "stat" | "open" | "read") && q.path.ends_with(".avdl")).collect();
        let named: BTreeSet<String> = dir_inputs(&fs, &c.world.cwd, match &c.cmd { Cmd::Schemata { input: Some(d), .. } => d, _ => "." }).iter().filter_map(|u| realpath(&fs, &join(&c.world.cwd, u))).collect();
        let ls: Vec<&Point> = ps.iter().filter(|q| matches!(q.op.as_str(), "opendir" | "readdir")).collect();
        for _ in 0..6 {
            let mut q = p.clone();
            q.seed = r.u64();
            let pt = if r.chance(2, 3) && !ls.is_empty() { *r.pick(&ls) } else if ps.is_empty() { break } else { r.pick(&ps) };
            // it may also be gone by the time it is opened
            let f = if (pt.op == "opendir" || pt.op == "open" && named.contains(&pt.path)) && r.chance(1, 5) { fault(pt, "err", errno("ENOENT"), 1_000_000) } else { err_fault(r, pt) };
            q.faults.push(f);
            c.plans.push(q);
        }
        c.note = json!(r.chance(1, 3));
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        let Cmd::Schemata { input: Some(d), out: Some(_) } = &c.cmd else { return Err(No::Invalid("no directory".into())) };
        let fs = c.job(&Plan::default()).fs;
        if realpath(&fs, &join(&c.world.cwd, d)).and_then(|p| fs.get(&p)).is_none_or(|n| n.kind != b'd') { return Err(No::Invalid("no directory".into())); }
        let units = dir_inputs(&fs, &c.world.cwd, d);
        // "not there" is no fault, except where the listing has just named it
        let gone = |f: &Fault| f.count > 1000 && (f.op == "opendir" || f.op == "open" && units.iter().any(|u| realpath(&fs, &join(&c.world.cwd, u)).is_some_and(|u| u == f.path)));
        if c.plans.iter().flat_map(|p| &p.faults).any(|f| f.act != "err" || f.arg == 20 || f.arg == 2 && !gone(f)) { return Err(No::Invalid("fault".into())); }
        ex.nontrivial = units.len() >= 2;
        // each file on its own
        let mut s = vec![];
        for (k, u) in units.iter().enumerate() {
            s.push(json!({"op": "new", "b": k, "kind": "sch"}));
            for d in &c.world.idirs { s.push(json!({"op": "dir", "b": k, "path": d})); }
            s.push(json!({"op": "path", "b": k, "path": u}));
        }
        let o = ex.drv(&drv_job(&fs, &c.world.cwd, &Value::Array(s.clone()), &Plan::default()))?;
        let singles: Vec<Value> = match drv_out(&o) { Ok(g) => g.into_iter().zip(&s).filter(|(_, s)| s["op"] == "path").map(|x| x.0).collect(), Err(v) => return Ok(Some(v)) };
        if singles.iter().any(lib_panic) { return Ok(viol("panic", show(&o.stderr))); }
        let fails = singles.iter().any(|x| x.get("err").is_some());
        let cat = |k: &str| -> Vec<Value> { singles.iter().flat_map(|x| x[k].as_array().cloned().unwrap_or_default()).collect() };
        let (schemas, warnings) = (cat("schemas"), cat("warnings"));
        let lib = c.note == json!(true);
        for (i, p) in c.plans.iter().enumerate() {
            let here = |x: String| format!("plan {i} ({}): {x}", crate::c_cli::describe(p));
            let (ok, fired);
            if lib {
                let mut s = vec![json!({"op": "new", "b": 0, "kind": "sch"})];
                for d in &c.world.idirs { s.push(json!({"op": "dir", "b": 0, "path": d})); }
                s.push(json!({"op": "path", "b": 0, "path": d}));
                let o = ex.drv(&drv_job(&fs, &c.world.cwd, &Value::Array(s), p))?;
                let got = match drv_out(&o) { Ok(g) => g.last().cloned().unwrap_or_default(), Err(v) => return Ok(Some(v)) };
                if lib_panic(&got) { return Ok(viol("panic", here(show(&o.stderr)))); }
                ok = got.get("err").is_none();
                fired = o.fired.iter().sum::<u64>() > 0;
                if ok && !fails {
                    let g = got["schemas"].as_array().cloned().unwrap_or_default();
                    let (a, b): (Vec<&Value>, Vec<&Value>) = (g.iter().map(|x| &x[0]).collect(), schemas.iter().map(|x| &x[0]).collect());
                    if a != b { return Ok(viol("schemas", here(format!("got {a:?}, the files on their own give {b:?}")))); }
                    if g != schemas { return Ok(viol("schema-text", here(short(&got)))); }
                    if got["warnings"] != json!(warnings) { return Ok(viol("warnings", here(format!("got {}, want {}", short(&got["warnings"]), short(&json!(warnings)))))); }
                }
            } else {
                let j = c.job(p);
                let o = ex.cli(&j)?;
                if let Some(x) = clean_end(&o) { return Ok(viol(&x.class, here(x.detail))); }
                ok = o.ok();
                fired = o.fired.iter().sum::<u64>() > 0;
                if ok && !fails {
                    let mut texts: BTreeMap<String, Vec<String>> = BTreeMap::new();
                    for x in &schemas { texts.entry(format!("/out/x/{}.avsc", x[0].as_str().unwrap())).or_default().push(format!("{}\n", x[1].as_str().unwrap())); }
                    let out = c.out_abs().unwrap();
                    let made: BTreeMap<&String, &Node> = o.fs.iter().filter(|(q, n)| n.kind == b'f' && parent(q) == out).collect();
                    for (q, t) in &texts {
                        let q = format!("{out}/{}", base(q));
                        match made.get(&q) { None => return Ok(viol("schemas", here(format!("{q} was not written")))), Some(n) => if !t.iter().any(|t| t.as_bytes() == n.data) { return Ok(viol("schema-text", here(format!("{q}: {}", show(&n.data))))); } }
                    }
                    if let Some((q, _)) = made.iter().find(|(q, _)| !texts.keys().any(|t| base(t) == base(q))) { return Ok(viol("schema-extra", here(format!("{q}")))); }
                }
            }
            if ok && fails { return Ok(viol("accepted", here("a file of the directory fails on its own, but the directory does not".into()))); }
            if !ok && !fails && p.faults.is_empty() { return Ok(viol("rejected", here("every file of the directory compiles on its own".into()))); }
            if !fails { ex.st.probe(match (ok, fired) { (true, false) => "complete", (true, true) => "complete-under-fault", (false, _) => "failed-under-fault" }); }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["directories reached only through links are not part of the tree", "files whose schemas share a simple name overwrite each other's .avsc, as with the Java tool"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| format!("{:?} {}", c.world.files.iter().map(|f| f.path.as_str()).collect::<Vec<_>>(), summary(&c))).unwrap_or_default() }
}
