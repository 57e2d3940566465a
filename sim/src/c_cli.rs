//! C01, C02, C03, C04: the command line under noise, faults and crashes.
use crate::case::*;
use crate::common::*;
use crate::exec::*;
use crate::frame::*;
use crate::gener::*;
use crate::job::*;
use crate::model::*;
use crate::rng::Rng;
use crate::spec::*;
use serde_json::{Value, json};
use std::collections::BTreeSet;

fn to(c: &Case) -> Value { serde_json::to_value(c).unwrap() }

// ------------------------------------------------------------------ C01
pub struct C01;
impl Check for C01 {
    fn id(&self) -> &'static str { "C01" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 4800 } else { 40_000 } }
    fn rule(&self) -> &'static str { "seeded source trees (valid and with planted errors), each run in 4 environments that differ in hash seed, listing order, chunking, EINTR, heap layout and clock; non-trivial: at least two runs had different system-call traces or hash seeds and produced output or diagnostics" }
    fn generate(&self, r: &mut Rng, _ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(1, 2) { Opts::wide() } else { Opts::small() };
        if r.chance(1, 3) { o.warn = 60; }
        let mut c = gen_case(r, o);
        if r.chance(1, 4) { inline_message_types(r, &mut c.world); }
        if r.chance(1, 2) { let k = sabotage(r, &mut c.world); c.note = json!(k); if r.chance(1, 4) { sabotage(r, &mut c.world); } }
        if r.chance(1, 5) {
            // a directory of inputs
            let d = r.pick(&["/w", "/w/sub", "/"]).to_string();
            if d != "/" { c.world.dirs.push(d.clone()); }
            c.cmd = Cmd::Schemata { input: Some(d), out: Some("/out/x".into()) };
        }
        for i in 0..4 { let mut p = Plan::default(); if i == 0 { p.seed = r.u64(); } else { noise(r, &mut p); } c.plans.push(p); }
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        if c.plans.len() < 2 { return Err(No::Invalid("one plan".into())); }
        let a = ex.cli(&c.job(&c.plans[0]))?;
        ex.nontrivial = !a.stdout.is_empty() || !a.stderr.is_empty() || a.ok();
        ex.st.probe(if a.ok() { "tree-compiles" } else { "tree-fails" });
        if let Some(k) = c.note.as_str() { ex.st.probe(&format!("error:{k}")); }
        for (i, p) in c.plans.iter().enumerate().skip(1) {
            let b = ex.cli(&c.job(p))?;
            if a.end != b.end { return Ok(viol("status", format!("plan 0: {}, plan {i}: {}\n{}\n{}", ended(&a), ended(&b), show(&a.stderr), show(&b.stderr)))); }
            if a.stdout != b.stdout { return Ok(viol("stdout", first_diff(&a.stdout, &b.stdout))); }
            if a.stderr != b.stderr { return Ok(viol("stderr", first_diff(&a.stderr, &b.stderr))); }
            if let Some((p, w)) = fs_changes(&a.fs, &b.fs).first() { return Ok(viol("files", format!("{w} {p}: {}", first_diff(&a.fs.get(p).map(|n| n.data.clone()).unwrap_or_default(), &b.fs.get(p).map(|n| n.data.clone()).unwrap_or_default())))); }
        }
        Ok(None)
    }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| summary(&c)).unwrap_or_default() }
}
pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let (x, y) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    for (i, (l, m)) in x.lines().zip(y.lines()).enumerate() { if l != m { return format!("line {}: {l:?} against {m:?}", i + 1); } }
    format!("lengths {} and {}", a.len(), b.len())
}
/// imported protocol JSON whose messages define types inline, some of them twice
fn inline_message_types(r: &mut Rng, w: &mut World) {
    let mut ms = serde_json::Map::new();
    for i in 0..r.range(2, 5) {
        let t = json!({"type": "record", "name": format!("Inl{}", r.below(2)), "fields": [{"name": "a", "type": "int"}]});
        ms.insert(format!("im{i}"), json!({"request": [{"name": "x", "type": t}], "response": if r.chance(1, 2) { json!({"type": "enum", "name": "InlE", "symbols": ["A"]}) } else { json!("null") }}));
    }
    let text = json!({"protocol": "Inl", "namespace": "inl.ns", "types": [], "messages": ms}).to_string();
    let dir = parent(&main_real(w));
    w.extra.push((format!("{dir}/inline.avpr"), text));
    if let Some(Body::Idl { decls, .. }) = w.files.first_mut().map(|f| &mut f.body) { decls.push(Decl::I("protocol".into(), "inline.avpr".into())); }
}

// ------------------------------------------------------------------ C02
pub struct C02;
impl Check for C02 {
    fn id(&self) -> &'static str { "C02" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 1900 } else { 12_000 } }
    fn rule(&self) -> &'static str { "seeded source tree and command, undisturbed run, then 12 fault plans aimed at the system calls that run made (errors of every class, once or from then on, full disk, full or failing output devices, pairs of faults, under chunking and EINTR); non-trivial: at least one fault actually fired" }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = Opts::small();
        o.warn = *r.pick(&[0, 10, 40]);
        // files of one name in several places: a look-up that goes wrong finds another one
        if r.chance(1, 4) { o.decoys = 70; o.idirs = 90; o.files = 5; }
        let mut c = gen_case(r, o);
        if r.chance(1, 10) { sabotage(r, &mut c.world); }
        match r.below(8) {
            0 => { let d = r.pick(&["/w", "/w/sub", "/w/my dir", "/inc1"]).to_string(); c.world.dirs.push(d.clone()); c.cmd = Cmd::Schemata { input: Some(d), out: Some("/out/x".into()) }; }
            1 => if let Cmd::Idl { stdin, .. } = &mut c.cmd { *stdin = true; },
            2 if r.chance(1, 3) => c.cmd = if r.chance(3, 4) { help_cmd(r) } else { wrong_cmd(r, &c.world.main.clone()) },
            _ => {}
        }
        let j0 = c.job(&Plan::default());
        let mut base = ex.cli(&j0)?;
        let news = written_files(&j0, &base);
        if !news.is_empty() && r.chance(1, 2) { earlier_outputs(r, &mut c, &news); base = ex.cli(&c.job(&Plan::default()))?; }
        let ps = points(&base);
        let outs: Vec<&Point> = ps.iter().filter(|p| news.iter().any(|n| n.0 == norm(&p.path)) || p.op == "mkdir").collect();
        let total: i64 = base.stdout.len() as i64;
        let written: i64 = news.iter().map(|n| n.1.len() as i64).sum();
        for _ in 0..12 {
            let mut p = Plan::default();
            if r.chance(1, 3) { noise(r, &mut p); } else { p.seed = r.u64(); }
            match r.below(12) {
                0 => { p.knobs.insert("stdout_kind".into(), SINK_FULL); p.knobs.insert("stdout_limit".into(), r.below(total as usize + 2) as i64); }
                1 if written > 0 => { p.knobs.insert("disk_free".into(), r.below(written as usize + 2) as i64); }
                2 => { p.knobs.insert("stderr_kind".into(), *r.pick(&[SINK_FULL, SINK_BROKEN, SINK_CLOSED])); if r.chance(1, 2) && !ps.is_empty() { let q = r.pick(&ps); p.faults.push(err_fault(r, q)); } }
                3 => { p.knobs.insert("stdout_kind".into(), SINK_FULL); p.knobs.insert("stdout_limit".into(), (total - 1 - r.below(3) as i64).max(0)); }
                _ => for _ in 0..r.range(1, 2) {
                    if ps.is_empty() { break; }
                    // look-ups and listings are rarer than reads and writes but carry the subtler faults
                    let pool: Vec<&Point> = if r.chance(1, 2) { ps.iter().filter(|p| matches!(p.op.as_str(), "stat" | "realpath" | "opendir" | "readdir" | "getcwd" | "mkdir" | "close" | "access")).collect() } else if !outs.is_empty() && r.chance(1, 3) { outs.clone() } else { ps.iter().collect() };
                    if pool.is_empty() { continue; }
                    let q = *r.pick(&pool);
                    let f = if q.op == "write" && r.chance(1, 3) { fault(q, "short", r.below(20) as i64, *r.pick(&[1, 1_000_000])) } else { err_fault(r, q) };
                    p.faults.push(f);
                },
            }
            c.plans.push(p);
        }
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        let j0 = c.job(&Plan::default());
        let a = ex.cli(&j0)?;
        if let Some(x) = clean_end(&a) { return Ok(Some(Viol { class: format!("undisturbed-{}", x.class), detail: x.detail })); }
        for (i, p) in c.plans.iter().enumerate() {
            if p.faults.iter().any(|f| f.act == "err" && matches!(f.arg, 2 | 20 | 32) && f.op != "getcwd") { return Err(No::Invalid("errno".into())); }
            let j = c.job(p);
            let b = ex.cli(&j)?;
            let fired = b.fired.iter().sum::<u64>() > 0;
            if fired || p.knobs.keys().any(|k| ["stdout_kind", "disk_free", "stderr_kind"].contains(&k.as_str())) { ex.nontrivial = true; }
            let here = |x: &str| format!("plan {i} ({}): {x}", describe(p));
            if let Some(x) = clean_end(&b) { return Ok(viol(&x.class, here(&x.detail))); }
            if b.ok() {
                ex.st.probe(if fired { "tolerated-a-fault" } else { "ok" });
                if !a.ok() { return Ok(viol("succeeds-only-under-faults", here(&format!("undisturbed run: {}; stdout {}", ended(&a), show(&b.stdout))))); }
                if a.stdout != b.stdout { return Ok(viol("stdout-incomplete", here(&format!("{} of {} bytes arrived: {}", b.stdout.len(), a.stdout.len(), first_diff(&a.stdout, &b.stdout))))); }
                if let Some((p, w)) = fs_changes(&a.fs, &b.fs).first() { return Ok(viol("output-files-differ", here(&format!("exit 0 but {p} {w}: {}", first_diff(&a.fs.get(p).map(|n| n.data.clone()).unwrap_or_default(), &b.fs.get(p).map(|n| n.data.clone()).unwrap_or_default()))))); }
            } else {
                ex.st.probe("failed-with-status");
                let stderr_hit = p.knobs.contains_key("stderr_kind") || p.faults.iter().any(|f| f.path == "<stderr>");
                if b.stderr.is_empty() && !stderr_hit { return Ok(viol("silent-failure", here(&ended(&b)))); }
            }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["an import directory or file reported absent (ENOENT, ENOTDIR) is a legitimate answer, not a fault", "memory exhaustion may abort the process (Rust's default) and is exercised under C04", "a stdout reader that goes away is C15"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| summary(&c)).unwrap_or_default() }
}
pub fn describe(p: &Plan) -> String {
    let f: Vec<String> = p.faults.iter().map(|f| format!("{} {} #{} x{}: {} {}", f.op, f.path, f.from, f.count, f.act, if f.act == "err" { errname(f.arg).to_string() } else { f.arg.to_string() })).collect();
    format!("faults {f:?}, knobs {:?}, seed {}", p.knobs, p.seed)
}

// ------------------------------------------------------------------ C03
/// What a successful run may touch.
pub fn allowed(c: &Case, names: &[String]) -> Box<dyn Fn(&str) -> bool> {
    let out = c.out_abs();
    let names: BTreeSet<String> = names.iter().map(|n| n.rsplit('.').next().unwrap().to_string()).collect();
    let sch = c.is_schemata();
    Box::new(move |p: &str| match &out {
        None => false,
        Some(o) if !sch => p == o,
        Some(o) => {
            if o == p || (o.starts_with(p) && o.as_bytes().get(p.len()) == Some(&b'/')) { return true; }
            let rest = if o == "/" { p.strip_prefix('/') } else { p.strip_prefix(o.as_str()).and_then(|x| x.strip_prefix('/')) };
            rest.is_some_and(|x| x.strip_suffix(".avsc").is_some_and(|n| names.contains(n)))
        }
    })
}
pub struct C03;
impl Check for C03 {
    fn id(&self) -> &'static str { "C03" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 14_000 } else { 60_000 } }
    fn rule(&self) -> &'static str { "seeded source trees with errors of every kind in any file (or input read faults, or none) and pre-existing outputs, compiled to stdout, file or directory; non-trivial: the run failed because of its input, or succeeded and wrote files" }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let o = if r.chance(1, 3) { Opts::wide() } else { Opts::small() };
        let mut c = gen_case(r, o);
        // outputs that are already there
        let m = meaning(&c.world, &c.world.fs(), &c.world.main_abs());
        match c.out_abs() {
            Some(o) if !c.is_schemata() => if r.chance(2, 3) { c.pre.push((o, "{\"old\": \"output\"}\n".into())); },
            Some(o) => {
                if r.chance(1, 2) { c.pre.push((format!("{}/", if o == "/" { "/w" } else { &o }), String::new())); }
                for (n, _) in &m.types { if r.chance(1, 3) { c.pre.push((norm(&format!("{o}/{}.avsc", n.rsplit('.').next().unwrap())), "old\n".into())); } }
                if r.chance(1, 3) { c.pre.push((norm(&format!("{o}/Unrelated.avsc")), "\"int\"".into())); c.pre.push((norm(&format!("{o}/notes.txt")), "keep".into())); }
            }
            None => {}
        }
        let mut p = Plan { seed: r.u64(), ..Default::default() };
        match r.below(10) {
            0..=4 => {
                let k = sabotage(r, &mut c.world);
                c.note = json!(k);
                // also where the output could not be written: nothing is made ready for it
                if r.chance(1, 8) { if let Cmd::Idl { out: Some(o), .. } = &mut c.cmd { *o = r.pick(&["fresh/dir/o.avpr", "/out/not/there.avsc", "/w/sub/../fresh/o.avpr"]).to_string(); } }
            }
            5..=7 => {
                if r.chance(1, 4) { let d = r.pick(&["/w", "/w/sub", "/inc1"]).to_string(); c.world.dirs.push(d.clone()); c.cmd = Cmd::Schemata { input: Some(d), out: Some("/out/x".into()) }; }
                let base = ex.cli(&c.job(&Plan::default()))?;
                let ins: BTreeSet<String> = c.job(&Plan::default()).fs.keys().cloned().collect();
                let ps: Vec<Point> = points(&base).into_iter().filter(|p| matches!(p.op.as_str(), "open" | "read" | "stat" | "realpath" | "opendir" | "readdir") && ins.contains(&p.path) && !base.fs.get(&p.path).is_some_and(|_| c.pre.iter().any(|q| q.0.trim_end_matches('/') == p.path))).collect();
                if !ps.is_empty() { let q = r.pick(&ps); p.faults.push(err_fault(r, q)); c.note = json!("read-fault"); }
            }
            8 if r.chance(1, 3) => { c.cmd = if r.chance(1, 4) { help_cmd(r) } else { wrong_cmd(r, &c.world.main.clone()) }; c.note = json!("arguments"); }
            8 => { c.world.main = r.pick(&["nothere.avdl", "sub", "/w"]).to_string(); c.note = json!("no-input"); }
            _ => {}
        }
        if r.chance(1, 4) { noise(r, &mut p); }
        c.plans.push(p);
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        let Some(p) = c.plans.first() else { return Err(No::Invalid("no plan".into())) };
        // only faults on inputs: an output fault may leave a partial output (C02, C04)
        if let Some(o) = c.out_abs() && p.faults.iter().any(|f| !matches!(f.op.as_str(), "open" | "read" | "stat" | "realpath" | "opendir" | "readdir") || norm(&f.path) == o) { return Err(No::Invalid("output fault".into())); }
        let j = c.job(p);
        let before = image(&j);
        let o = ex.cli(&j)?;
        if let Some(x) = clean_end(&o) { return Ok(Some(x)); }
        let ch = fs_changes(&before, &o.fs);
        if !o.ok() {
            ex.nontrivial = true;
            ex.st.probe("failing-run");
            if let Some(k) = c.note.as_str() { ex.st.probe(&format!("failed-on:{k}")); }
            if !o.stdout.is_empty() { return Ok(viol("stdout-on-failure", format!("{}: {}", ended(&o), show(&o.stdout)))); }
            if let Some((p, w)) = ch.first() { return Ok(viol("file-touched-on-failure", format!("{} and {p} was {w}; stderr: {}", ended(&o), show(&o.stderr)))); }
            return Ok(None);
        }
        if !ch.is_empty() { ex.nontrivial = true; ex.st.probe("writing-run"); }
        let names: Vec<String> = match &c.cmd {
            Cmd::Schemata { input: Some(_), .. } => c.world.files.iter().flat_map(|f| f.body.types().iter().map(|t| t.name.clone()).collect::<Vec<_>>()).collect(),
            _ => {
                let m = meaning(&c.world, &c.world.fs(), &c.world.main_abs());
                if m.fail.is_none() { m.types.into_iter().map(|t| t.0).collect() } else { c.world.files.iter().flat_map(|f| f.body.types().iter().map(|t| t.name.clone()).collect::<Vec<_>>()).collect() }
            }
        };
        let ok = allowed(&c, &names);
        for (p, w) in &ch { if *w == "removed" || !ok(p) { return Ok(viol("touched-something-else", format!("success, but {p} was {w}"))); } }
        Ok(None)
    }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| summary(&c)).unwrap_or_default() }
}

// ------------------------------------------------------------------ C04
/// what a run writes: files and their content
fn written_files(j: &Job, o: &Outcome) -> Vec<(String, Vec<u8>)> { fs_changes(&image(j), &o.fs).into_iter().filter_map(|(p, _)| o.fs.get(&p).filter(|n| n.kind == b'f').map(|n| (p, n.data.clone()))).collect() }
/// leave outputs of earlier runs where this one writes
fn earlier_outputs(r: &mut Rng, c: &mut Case, news: &[(String, Vec<u8>)]) {
    for (p, d) in news {
        let new = String::from_utf8_lossy(d).into_owned();
        match r.below(6) {
            0 => c.pre.push((p.clone(), format!("{new}{new}{new}"))),
            1 => c.pre.push((p.clone(), "old".into())),
            2 => c.pre.push((p.clone(), new.clone())),
            3 => { let k = r.below(new.len()); c.pre.push((p.clone(), String::from_utf8_lossy(&d[..k]).into_owned())); }
            _ => {}
        }
    }
}
pub struct C04;
impl Check for C04 {
    fn id(&self) -> &'static str { "C04" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 900 } else { 9_000 } }
    fn rule(&self) -> &'static str { "seeded source tree, writing command and pre-existing outputs; 12 crash points per tree taken from the run's own system calls (before, after, or part way through, all output calls first) or a failing allocation, each followed by a rerun; non-trivial: the process died at the chosen point" }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut c = gen_case(r, Opts { twins: 0, ..Opts::small() });
        let bare = matches!(c.world.files[0].body, Body::Idl { proto: None, main: None, .. });
        if c.out_abs().is_none() {
            c.cmd = if bare || r.chance(1, 2) { Cmd::Schemata { input: None, out: Some("gen/d".into()) } } else { Cmd::Idl { out: Some("/w/out.avpr".into()), stdin: false } };
        }
        let j0 = c.job(&Plan::default());
        let base = ex.cli(&j0)?;
        let news = written_files(&j0, &base);
        if news.is_empty() { return Err(No::Invalid("writes nothing".into())); }
        earlier_outputs(r, &mut c, &news);
        let base = ex.cli(&c.job(&Plan::default()))?;
        let ps = points(&base);
        let outs: Vec<&Point> = ps.iter().filter(|p| news.iter().any(|n| n.0 == norm(&p.path)) || p.op == "mkdir").collect();
        for i in 0..12 {
            let mut p = Plan { seed: r.u64(), ..Default::default() };
            if r.chance(1, 3) { noise(r, &mut p); p.knobs.remove("alloc_pad"); }
            if i == 11 { p.knobs.insert("malloc_fail_at".into(), r.range(1, base.mallocs.max(2) as usize) as i64); c.plans.push(p); continue; }
            let q: &Point = if !outs.is_empty() && r.chance(3, 4) { *r.pick(&outs) } else { r.pick(&ps) };
            let act = if q.op == "write" && r.chance(1, 2) { "crash_partial" } else { *r.pick(&["crash_before", "crash_after"]) };
            let f = fault(q, act, r.range(0, q.ret.max(1) as usize) as i64, 1);
            p.faults.push(f);
            c.plans.push(p);
        }
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        if c.out_abs().is_none() { return Err(No::Invalid("no output".into())); }
        let j0 = c.job(&Plan::default());
        let full = ex.cli(&j0)?;
        if !full.ok() { return Err(No::Invalid("does not compile".into())); }
        let before = image(&j0);
        let names: Vec<String> = meaning(&c.world, &c.world.fs(), &c.world.main_abs()).types.into_iter().map(|t| t.0).collect();
        let declared = allowed(&c, &names);
        for (i, p) in c.plans.iter().enumerate() {
            let j = c.job(p);
            let o = ex.cli(&j)?;
            let died = match &o.end { End::Crashed | End::Signal(_) => true, End::Exit(_) => false, e => return Ok(viol("hang", format!("plan {i}: {e:?}"))) };
            if died { ex.nontrivial = true; ex.st.probe(if p.faults.is_empty() { "died-of-allocation" } else { "crashed" }); }
            let here = |x: String| format!("plan {i} ({}): {x}", describe(p));
            for (path, what) in fs_changes(&before, &o.fs) {
                if !declared(&path) {
                    if what == "created" { continue; } // not a loss; a rerun must still work, see below
                    return Ok(viol("other-file-lost", here(format!("{path} was {what}"))));
                }
                let now = o.fs.get(&path);
                let new = full.fs.get(&path);
                match (now, new) {
                    (Some(n), Some(w)) if n.kind == w.kind && w.data.starts_with(&n.data) => {}
                    (None, _) => return Ok(viol("output-removed", here(format!("{path} is gone")))),
                    (Some(n), _) => return Ok(viol("output-mixed", here(format!("{path} is neither old, new nor a prefix of the new content: {}", show(&n.data))))),
                }
            }
            if died && matches!(o.fs.values().map(|n| n.kind).max(), Some(_)) && fs_changes(&before, &o.fs).iter().any(|(p, _)| o.fs.get(p).is_some_and(|n| n.kind == b'f' && full.fs.get(p).is_some_and(|w| w.data != n.data))) { ex.st.probe("left-a-partial-output"); }
            // run it again on what was left
            let mut j2 = j0.clone();
            j2.fs = o.fs.clone();
            j2.seed = p.seed ^ 1;
            let again = ex.cli(&j2)?;
            if again.end != full.end || again.stdout != full.stdout || again.stderr != full.stderr { return Ok(viol("rerun-differs", here(format!("rerun: {}, uninterrupted: {}; {}", ended(&again), ended(&full), show(&again.stderr))))); }
            for (path, what) in fs_changes(&full.fs, &again.fs) {
                if what == "created" && !declared(&path) && o.fs.contains_key(&path) { continue; }
                return Ok(viol("rerun-differs", here(format!("after the rerun {path} {what} compared with an uninterrupted run"))));
            }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["a crash is the death of the process; the file system keeps what the system calls before it wrote (no power-loss reordering, avdl never syncs)", "a run that survives its failing allocation is judged like a crash that left some outputs"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| summary(&c)).unwrap_or_default() }
}
