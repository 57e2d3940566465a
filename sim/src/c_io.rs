//! C11 (channels), C13 (artefacts), C15 (a reader that stops), C16 (descriptors).
use crate::c_warn::imports_main;
use crate::case::*;
use crate::common::*;
use crate::exec::*;
use crate::frame::*;
use crate::gener::*;
use crate::job::*;
use crate::model::*;
use crate::rng::Rng;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;

fn to(c: &Case) -> Value { serde_json::to_value(c).unwrap() }

// ------------------------------------------------------------------ C11
pub struct C11;
/// One way to hand over the same source and to take the result.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
struct Way {
    /// path, stdin, stdin-dash, lib-path, lib-str, lib-named
    how: String,
    cwd: String,
    path: String,
    idirs: Vec<String>,
    /// absent: stdout or, for schemas, the working directory
    #[serde(default, skip_serializing_if = "Option::is_none")]
    out: Option<String>,
    #[serde(default)]
    plan: Plan,
}
type Res = Result<BTreeMap<String, Vec<u8>>, String>;
/// links beside the main file, for the variants that use them
fn sibling(m: &str) -> String { format!("{}/sibling link.avdl", parent(m)) }
fn way_fs(c: &Case, src: &[u8]) -> Fs {
    let mut fs = c.world.fs();
    let m = main_real(&c.world);
    if let Some(n) = fs.get_mut(&m) { n.data = src.to_vec(); }
    fs.insert(sibling(&m), Node { kind: b'l', mode: 0o777, data: base(&m).as_bytes().to_vec() });
    fs.insert("/elsewhere".into(), Node { kind: b'd', mode: 0o755, data: vec![] });
    fs.insert("/out".into(), Node { kind: b'd', mode: 0o755, data: vec![] });
    add_parents(&mut fs);
    fs
}
fn run_way(c: &Case, w: &Way, src: &[u8], ex: &mut Exec) -> Result<Result<(Res, Outcome), Viol>, No> {
    let sch = c.is_schemata();
    let fs = way_fs(c, src);
    if let Some(kind) = w.how.strip_prefix("lib-") {
        let mut s = vec![json!({"op": "new", "b": 1, "kind": if sch { "sch" } else { "idl" }})];
        for d in &w.idirs { s.push(json!({"op": "dir", "b": 1, "path": d})); }
        s.push(match kind {
            "path" => json!({"op": "path", "b": 1, "path": w.path}),
            "str" => json!({"op": "str", "b": 1, "src": std::str::from_utf8(src).map_err(|_| No::Invalid("not text".into()))?}),
            _ => json!({"op": "str", "b": 1, "name": w.path, "src": std::str::from_utf8(src).map_err(|_| No::Invalid("not text".into()))?}),
        });
        let o = ex.drv(&drv_job(&fs, &w.cwd, &Value::Array(s), &w.plan))?;
        let got = match drv_out(&o) { Ok(g) => g, Err(v) => return Ok(Err(v)) };
        let r = got.last().cloned().unwrap_or_default();
        if lib_panic(&r) { return Ok(Err(Viol { class: "panic".into(), detail: show(&o.stderr) })); }
        let res = if let Some(e) = r.get("err") { Err(short(e)) } else if sch {
            Ok(r["schemas"].as_array().into_iter().flatten().map(|x| (x[0].as_str().unwrap().to_string(), format!("{}\n", x[1].as_str().unwrap()).into_bytes())).collect())
        } else { Ok(BTreeMap::from([(String::new(), r["ok"].as_str().unwrap_or("").as_bytes().to_vec())])) };
        return Ok(Ok((res, o)));
    }
    let mut j = Job::new(w.plan.seed);
    j.argv.push(if sch { "idl2schemata" } else { "idl" }.into());
    for d in &w.idirs { j.argv.push("--import-dir".into()); j.argv.push(d.clone()); }
    match w.how.as_str() {
        "path" => j.argv.push(w.path.clone()),
        "stdin-dash" => j.argv.push("-".into()),
        "stdin" => if w.out.is_some() { j.argv.push("-".into()); },
        h => return Err(No::Invalid(h.to_string())),
    }
    if w.how.starts_with("stdin") { j.stdin = src.to_vec(); }
    if let Some(o) = &w.out { j.argv.push(o.clone()); }
    j.cwd = w.cwd.clone();
    j.fs = fs;
    j.knobs = w.plan.knobs.clone();
    j.env = w.plan.env.clone();
    let o = ex.cli(&j)?;
    if let Some(v) = clean_end(&o) { return Ok(Err(v)); }
    let res = if !o.ok() { Err(format!("{} {}", ended(&o), show(&o.stderr))) } else if sch {
        let d = norm(&join(&w.cwd, w.out.as_deref().unwrap_or(".")));
        let mut m = BTreeMap::new();
        for (p, k) in fs_changes(&j.fs, &o.fs) {
            match p.strip_prefix(&format!("{}/", if d == "/" { "" } else { &d })).and_then(|x| x.strip_suffix(".avsc")) {
                Some(n) if k != "removed" => { m.insert(n.to_string(), o.fs[&p].data.clone()); }
                _ => if p != d && !d.starts_with(&format!("{p}/")) { return Ok(Err(Viol { class: "elsewhere".into(), detail: format!("{p} was {k}") })); }
            }
        }
        Ok(m)
    } else {
        match w.out.as_deref() {
            None | Some("-") => {
                if let Some((p, k)) = fs_changes(&j.fs, &o.fs).first() { return Ok(Err(Viol { class: "elsewhere".into(), detail: format!("{p} was {k}") })); }
                Ok(BTreeMap::from([(String::new(), o.stdout.clone())]))
            }
            Some(f) => {
                let f = norm(&join(&w.cwd, f));
                if !o.stdout.is_empty() { return Ok(Err(Viol { class: "stdout-too".into(), detail: show(&o.stdout) })); }
                let Some(n) = o.fs.get(&f) else { return Ok(Err(Viol { class: "no-output".into(), detail: f })) };
                let Some(t) = n.data.strip_suffix(b"\n") else { return Ok(Err(Viol { class: "no-final-newline".into(), detail: show(&n.data) })) };
                Ok(BTreeMap::from([(String::new(), t.to_vec())]))
            }
        }
    };
    Ok(Ok((res, o)))
}
fn envs(r: &mut Rng) -> Vec<String> {
    let all = ["NO_COLOR=1", "CLICOLOR_FORCE=1", "FORCE_COLOR=3", "TERM=xterm-256color", "TERM=dumb", "COLORTERM=truecolor", "LANG=C", "LANG=de_DE.ISO-8859-1", "LC_ALL=C", "LC_ALL=tr_TR.UTF-8", "COLUMNS=20", "LINES=5", "RUST_BACKTRACE=full", "FORCE_HYPERLINK=1", "PWD=/elsewhere", "HOME=/elsewhere", "CI=1", "TZ=Asia/Kathmandu", "RUST_LOG=trace", "TMPDIR=/nowhere"];
    let k = r.range(1, 6);
    (0..k).map(|_| r.pick(&all).to_string()).collect()
}
impl Check for C11 {
    fn id(&self) -> &'static str { "C11" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 2_000 } else { 60_000 } }
    fn rule(&self) -> &'static str { "seeded source trees; the same source given as a file (relative, absolute, dotted, linked), standard input in chunks, a library string or path, from other working directories, taken on pipe, file, terminal, '-', as a file, under other environments; 7 ways per tree compared with the plain one; non-trivial: the plain one compiles" }
    fn required(&self) -> Vec<&'static str> { vec!["stdin", "lib-str", "path", "to-file"] }
    fn generate(&self, r: &mut Rng, _ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(1, 3) { Opts::wide() } else { Opts::small() };
        o.idirs = 60;
        o.warn = 15;
        if r.chance(1, 4) { o.cycles = false; }
        let mut c = gen_case(r, o);
        c.pre.clear();
        if r.chance(1, 8) { sabotage(r, &mut c.world); }
        c.cmd = if c.is_schemata() || r.chance(1, 4) { Cmd::Schemata { input: None, out: Some("/out/base".into()) } } else { Cmd::Idl { out: None, stdin: false } };
        let fs = c.world.fs();
        let m = main_real(&c.world);
        let md = parent(&m);
        let stdin_ok = !imports_main(&c.world, &fs);
        let abs = |d: &String| join(&c.world.cwd, d);
        let mut ways: Vec<Way> = vec![];
        for _ in 0..7 {
            let mut w = Way::default();
            if r.chance(1, 2) { noise(r, &mut w.plan); } else { w.plan.seed = r.u64(); }
            if r.chance(1, 3) { w.plan.env = envs(r); }
            let how = r.below(if stdin_ok { 10 } else { 5 });
            let sch = c.is_schemata();
            w.how = match how { 0..=3 => "path", 4 => "lib-path", 5 | 6 if !sch => "stdin", 7 if !sch => "stdin-dash", 8 | 5 => "lib-str", 9 | 6 => "lib-named", _ => "path" }.into();
            let fixed = w.how.starts_with("stdin") || matches!(w.how.as_str(), "lib-str" | "lib-named");
            w.cwd = if fixed { md.clone() } else { r.pick(&[c.world.cwd.clone(), md.clone(), "/".into(), "/elsewhere".into(), "/w".into()]).clone() };
            w.idirs = c.world.idirs.iter().map(|d| if w.cwd == c.world.cwd && r.chance(1, 2) { d.clone() } else { abs(d) }).collect();
            w.path = match r.below(7) {
                0 => m.clone(),
                1 => relpath(&w.cwd, &m),
                2 => format!("./{}", relpath(&w.cwd, &m)),
                3 => format!("{md}/./{}", base(&m)),
                4 => format!("{md}/../{}/{}", base(&md), base(&m)),
                5 => sibling(&m),
                _ => relpath(&w.cwd, &sibling(&m)),
            };
            if w.how == "lib-named" { w.path = r.pick(&["<input>", "", "x.avdl", "/nowhere/é", "main.avdl"]).to_string(); }
            if sch { w.out = match r.below(4) { 0 => None, 1 => Some("/out/a/b".into()), 2 => Some(relpath(&w.cwd, "/out/rel")), _ => Some("./new dir/x/".into()) }; }
            else {
                w.out = match r.below(6) { 0 => Some("-".into()), 1 => Some("/out/r.json".into()), 2 => Some(relpath(&w.cwd, "/out/r.avsc")), _ => None };
                if r.chance(1, 2) { w.plan.knobs.insert("stdout_kind".into(), *r.pick(&[SINK_FILE, SINK_TTY])); }
            }
            if r.chance(1, 4) { w.plan.knobs.insert("stderr_kind".into(), *r.pick(&[SINK_FILE, SINK_TTY])); }
            ways.push(w);
        }
        // how the text itself is stored: the same bytes on every way in
        let mut d: Vec<Dmg> = vec![];
        let ins = |off: usize, data: &str| Dmg { path: m.clone(), kind: "ins".into(), off, len: 0, arg: 0, data: hex(data.as_bytes()) };
        match r.below(12) {
            0 => d.push(ins(0, "\u{feff}")),
            1 => d.push(ins(usize::MAX, "\u{1a}trailing")),
            2 => d.push(ins(usize::MAX, "\r\n// end")),
            3 | 7 => d.push(Dmg { path: m.clone(), kind: "crlf".into(), off: 0, len: 0, arg: 0, data: String::new() }),
            4 => d.push(ins(usize::MAX, " \u{0}")),
            5 => { let n = r.range(1000, 40_000); d.push(ins(usize::MAX, &format!("\n// {}\n", "long comment é ".repeat(n / 14)))); }
            6 => d.push(Dmg { path: m.clone(), kind: "set".into(), off: r.below(200), len: 0, arg: 0, data: "ff".into() }),
            _ => {}
        }
        c.plans.push(Plan { dmg: d, ..Default::default() });
        c.note = serde_json::to_value(&ways).unwrap();
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        let ways: Vec<Way> = de(&c.note)?;
        let fs = c.world.fs();
        let m = main_real(&c.world);
        let Some(f) = c.world.file(&m) else { return Err(No::Invalid("no main".into())) };
        if fs.contains_key(&sibling(&m)) || !c.pre.is_empty() { return Err(No::Invalid("in the way".into())); }
        let mut src = render(&f.body).0.into_bytes();
        for d in c.plans.iter().flat_map(|p| &p.dmg) {
            if d.kind == "crlf" { src = String::from_utf8_lossy(&src).replace('\n', "\r\n").into_bytes(); } else { d.apply(&mut src); }
        }
        let fs = way_fs(&c, &src);
        let sch = c.is_schemata();
        // the plain way
        let plain = Way { how: "path".into(), cwd: c.world.cwd.clone(), path: c.world.main.clone(), idirs: c.world.idirs.clone(), out: if sch { Some("/out/base".into()) } else { None }, plan: Plan::default() };
        let (a, _) = match run_way(&c, &plain, &src, ex)? { Ok(x) => x, Err(v) => return Ok(Some(Viol { class: format!("plain-{}", v.class), detail: v.detail })) };
        ex.nontrivial = a.is_ok();
        for (i, w) in ways.iter().enumerate() {
            // the variants must mean the same
            if w.plan.faults.iter().any(|_| true) || !w.plan.muts.is_empty() || w.cwd != "/" && !fs.get(&w.cwd).is_some_and(|n| n.kind == b'd') { return Err(No::Invalid("way".into())); }
            let same_dir = |a: &str, b: &str| norm(a) == norm(b) || realpath(&fs, a).is_some() && realpath(&fs, a) == realpath(&fs, b);
            if w.idirs.len() != c.world.idirs.len() || w.idirs.iter().zip(&c.world.idirs).any(|(x, y)| !same_dir(&join(&w.cwd, x), &join(&c.world.cwd, y))) { return Err(No::Invalid("directories".into())); }
            if w.how == "path" || w.how == "lib-path" {
                let p = join(&w.cwd, &w.path);
                if realpath(&fs, &p).as_deref() != Some(m.as_str()) || realpath(&fs, &parent(&p)).as_deref() != Some(parent(&m).as_str()) { return Err(No::Invalid("path".into())); }
            } else if w.cwd != parent(&m) || imports_main(&c.world, &fs) { return Err(No::Invalid("stdin".into())); }
            if w.how.starts_with("stdin") && sch { return Err(No::Invalid("stdin".into())); }
            match (&w.out, sch) {
                (Some(o), false) if o != "-" => if fs.contains_key(&norm(&join(&w.cwd, o))) || !fs.get(&parent(&norm(&join(&w.cwd, o)))).is_some_and(|n| n.kind == b'd') { return Err(No::Invalid("out".into())); },
                (o, true) => { let d = norm(&join(&w.cwd, o.as_deref().unwrap_or("."))); if fs.iter().any(|(p, n)| n.kind != b'd' && parent(p) == d && p.ends_with(".avsc")) { continue; } }
                _ => {}
            }
            if matches!(w.how.as_str(), "lib-str" | "lib-named") && std::str::from_utf8(&src).is_err() { continue; }
            let here = |x: String| format!("way {i} {}: {x}", serde_json::to_string(w).unwrap());
            let (b, o) = match run_way(&c, w, &src, ex)? { Ok(x) => x, Err(v) => return Ok(viol(&v.class, here(v.detail))) };
            let _ = o;
            ex.st.probe(&w.how);
            if !sch && !w.how.starts_with("lib") && w.out.as_deref().is_some_and(|o| o != "-") { ex.st.probe("to-file"); }
            match (&a, &b) {
                (Ok(x), Ok(y)) => {
                    if let Some(k) = x.keys().chain(y.keys()).find(|k| x.get(*k) != y.get(*k)) {
                        let e: &[u8] = &[];
                        return Ok(viol("json-differs", here(format!("{k}: {}", crate::c_cli::first_diff(x.get(k).map(|v| &v[..]).unwrap_or(e), y.get(k).map(|v| &v[..]).unwrap_or(e))))));
                    }
                }
                (Ok(_), Err(e)) => return Ok(viol("only-plain-compiles", here(e.clone()))),
                (Err(e), Ok(_)) => return Ok(viol("plain-does-not-compile", here(e.clone()))),
                _ => {}
            }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["standard input and strings have no file identity, so sources that are themselves imported are left out there", "diagnostics may name the source differently"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| format!("{} {}", c.note[0], summary(&c))).unwrap_or_default() }
}

// ------------------------------------------------------------------ C15
pub struct C15;
impl Check for C15 {
    fn id(&self) -> &'static str { "C15" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 800 } else { 40_000 } }
    fn rule(&self) -> &'static str { "seeded valid trees compiled to stdout; 12 byte counts per tree at which the reader goes away (none, one, around line ends and buffer sizes, the last byte, after the end), under chunking and interruption; non-trivial: the reader left before the end" }
    fn required(&self) -> Vec<&'static str> { vec!["left-early", "left-before-the-last-byte", "left-after-the-end"] }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(1, 2) { Opts::wide() } else { Opts::small() };
        o.dup = 0;
        if r.chance(1, 6) { o.types = 40; o.files = 4; }
        let mut c = gen_case(r, o);
        c.pre.clear();
        if r.chance(1, 12) { c.cmd = help_cmd(r); } else {
        if matches!(c.world.file(&main_real(&c.world)).map(|f| &f.body), Some(Body::Idl { proto: None, main: None, .. })) { return Err(No::Invalid("bare".into())); }
        c.cmd = Cmd::Idl { out: if r.chance(1, 4) { Some("-".into()) } else { None }, stdin: false };
        }
        let a = ex.cli(&c.job(&Plan::default()))?;
        if !a.ok() { return Err(No::Invalid("does not compile".into())); }
        let n = a.stdout.len();
        let nl: Vec<usize> = a.stdout.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0).collect();
        for i in 0..12 {
            let k = match i { 0 => 0, 1 => 1, 2 => n.saturating_sub(1), 3 => n, 4 => n + r.below(5000), 5 => 1024 * r.range(1, 9), 6 | 7 if !nl.is_empty() => *r.pick(&nl) + r.below(3), 8 => n.saturating_sub(r.below(40)), _ => r.below(n + 2) };
            let mut p = Plan::default();
            if r.chance(1, 3) { noise(r, &mut p); } else { p.seed = r.u64(); }
            p.knobs.insert("stdout_kind".into(), SINK_BROKEN);
            p.knobs.insert("stdout_limit".into(), k as i64);
            c.plans.push(p);
        }
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        if c.is_schemata() || c.out_abs().is_some() { return Err(No::Invalid("not to stdout".into())); }
        let a = ex.cli(&c.job(&Plan::default()))?;
        if !a.ok() { return Err(No::Invalid("does not compile".into())); }
        for (i, p) in c.plans.iter().enumerate() {
            if !p.faults.is_empty() || p.knobs.get("stdout_kind") != Some(&SINK_BROKEN) || p.knobs.contains_key("stderr_kind") { return Err(No::Invalid("plan".into())); }
            let k = p.knobs.get("stdout_limit").copied().unwrap_or(0).max(0) as usize;
            let j = c.job(p);
            let b = ex.cli(&j)?;
            let here = |x: String| format!("plan {i} (reader leaves after {k} of {} bytes): {x}", a.stdout.len());
            if let Some(x) = clean_end(&b) { return Ok(viol(&x.class, here(x.detail))); }
            if k < a.stdout.len() { ex.nontrivial = true; ex.st.probe(if k + 1 == a.stdout.len() { "left-before-the-last-byte" } else { "left-early" }); } else { ex.st.probe("left-after-the-end"); }
            if !b.ok() { return Ok(viol("status", here(format!("{} {}", ended(&b), show(&b.stderr))))); }
            if b.stderr != a.stderr { return Ok(viol("message", here(crate::c_cli::first_diff(&a.stderr, &b.stderr)))); }
            if !a.stdout.starts_with(&b.stdout) { return Ok(viol("not-a-prefix", here(crate::c_cli::first_diff(&a.stdout, &b.stdout)))); }
            if k >= a.stdout.len() && b.stdout != a.stdout { return Ok(viol("cut-short", here(format!("only {} bytes were written", b.stdout.len())))); }
            if let Some((p, w)) = fs_changes(&j.fs, &b.fs).first() { return Ok(viol("file-changed", here(format!("{p} was {w}")))); }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["SIGPIPE is ignored, as Rust programs have it by default; writing fails with EPIPE"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| summary(&c)).unwrap_or_default() }
}

// ------------------------------------------------------------------ C16
pub struct C16;
fn simple(name: &str, ns: Option<&str>) -> Type { Type { name: name.into(), ns: ns.map(String::from), def: Def::Fixed { size: 8 }, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] } }
fn idl(proto: Option<String>, decls: Vec<Decl>) -> Body { Body::Idl { proto, ns: None, doc: None, props: vec![], main: None, decls, msgs: vec![], style: 0, wtail: vec![], tail: String::new() } }
/// many files: chains, fans, trees, with JSON leaves, some failing at the end
fn crowd(r: &mut Rng) -> World {
    let mut w = World { cwd: "/w".into(), main: "main.avdl".into(), ..Default::default() };
    let n = r.range(25, 90);
    let shape = r.below(4);
    let json_pct = *r.pick(&[0, 0, 30, 80]);
    let path = |i: usize, k: u8| format!("/w/{}{i}.{}", if i % 5 == 0 { "d/" } else { "" }, ["avdl", "avpr", "avsc"][k as usize]);
    let kinds: Vec<u8> = (0..n).map(|i| if i + 1 < n && shape == 0 { 0 } else if r.chance(json_pct, 100) { 1 + r.below(2) as u8 } else { 0 }).collect();
    let imp = |from: &str, i: usize| Decl::I(["idl", "protocol", "schema"][kinds[i] as usize].into(), relpath(&parent(from), &path(i, kinds[i])));
    let mut kids: Vec<Vec<usize>> = vec![vec![]; n + 1]; // n is the main file
    match shape {
        0 => { kids[n].push(0); for i in 0..n - 1 { kids[i].push(i + 1); } }
        1 => kids[n] = (0..n).collect(),
        _ => { kids[n].push(0); let mut open = vec![n]; if kinds[0] == 0 { open.push(0); } for i in 1..n { let p = *r.pick(&open); kids[p].push(i); if kinds[i] == 0 { open.push(i); } } }
    }
    let mut d: Vec<Decl> = kids[n].iter().map(|&i| imp("/w/main.avdl", i)).collect();
    d.push(Decl::T(simple("Main", None)));
    w.files.push(File { path: "/w/main.avdl".into(), body: idl(Some("Main".into()), d) });
    for i in 0..n {
        let p = path(i, kinds[i]);
        let t = simple(&format!("F{i}"), None);
        let body = match kinds[i] {
            1 => Body::Avpr { name: format!("P{i}"), ns: None, types: vec![t], msgs: vec![], inline: false, style: 0 },
            2 => Body::Avsc { types: vec![t], wrap: 0, style: 0 },
            _ => { let mut d: Vec<Decl> = kids[i].iter().map(|&k| imp(&p, k)).collect(); let at = r.below(d.len() + 1); d.insert(at, Decl::T(t)); idl(if r.chance(1, 2) { Some(format!("P{i}")) } else { None }, d) }
        };
        w.files.push(File { path: p, body });
    }
    if r.chance(1, 5) { let i = r.range(1, n); let f = &mut w.files[i]; match &mut f.body { Body::Idl { tail, .. } => *tail = "}}".into(), b => *b = Body::Raw("[1,2".into()) } }
    w
}
/// a directory of many files, deep or wide
fn grove(r: &mut Rng) -> World {
    let mut w = World { cwd: "/w".into(), main: "t/main.avdl".into(), ..Default::default() };
    w.files.push(File { path: "/w/t/main.avdl".into(), body: idl(Some("Main".into()), vec![Decl::I("idl".into(), "../lib.avdl".into()), Decl::T(simple("Main", None))]) });
    w.files.push(File { path: "/w/lib.avdl".into(), body: idl(None, vec![Decl::T(simple("Lib", None))]) });
    let n = r.range(25, 70);
    let deep = r.chance(1, 2);
    let mut d = "/w/t".to_string();
    for i in 0..n {
        if deep && i % 2 == 0 { d = format!("{d}/{}", r.pick(&["a", "b", "zz"])); } else if r.chance(1, 10) { d = format!("/w/t/s{i}"); }
        let mut ds = vec![Decl::T(simple(&format!("G{i}"), None))];
        if r.chance(1, 3) { ds.insert(0, Decl::I("idl".into(), relpath(&d, "/w/lib.avdl"))); }
        w.files.push(File { path: format!("{d}/g{i}.avdl"), body: idl(if i % 2 == 0 { Some(format!("P{i}")) } else { None }, ds) });
        if r.chance(1, 8) { w.dirs.push(format!("{d}/empty{i}")); }
    }
    w
}
/// reserved for the process itself (standard streams, the runtime) and a small constant for the compiler
const FEW: i64 = 20;
impl Check for C16 {
    fn id(&self) -> &'static str { "C16" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 2_500 } else { 12_000 } }
    fn rule(&self) -> &'static str { "import chains, fans and trees of 25 to 90 files, directories of as many, and histories of 25 to 60 calls on one library object with failing reads and look-ups, each run with no descriptor limit and with limits from 20 up; results must agree; non-trivial: more files than the limit were opened" }
    fn required(&self) -> Vec<&'static str> { vec!["graph", "directory", "history"] }
    fn generate(&self, r: &mut Rng, _ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let kind = r.below(5);
        let (w, cmd, note) = match kind {
            0 | 1 => { let w = crowd(r); let cmd = if r.chance(1, 2) { Cmd::Schemata { input: None, out: Some("/out/x".into()) } } else { Cmd::Idl { out: if r.chance(1, 2) { Some("/w/o.avpr".into()) } else { None }, stdin: false } }; (w, cmd, json!("graph")) }
            2 | 3 => (grove(r), Cmd::Schemata { input: Some(r.pick(&["t", "/w/t", "."]).to_string()), out: Some("/out/x".into()) }, json!("directory")),
            _ => {
                let mut o = Opts::small();
                o.files = r.range(2, 6);
                o.cycles = true;
                let mut w = Gen::new(r, o).world();
                if r.chance(1, 3) { sabotage(r, &mut w); }
                let n = r.range(25, 60);
                let mut s: Vec<String> = vec![];
                for _ in 0..n { s.push(r.pick(&["main", "main", "main", "other", "gone.avdl", "dir", "str"]).to_string()); }
                (w, if r.chance(1, 2) { Cmd::Schemata { input: None, out: None } } else { Cmd::Idl { out: None, stdin: false } }, json!({"history": s}))
            }
        };
        let mut c = Case::new(w, cmd);
        c.note = note;
        for _ in 0..2 {
            let mut p = Plan::default();
            if r.chance(1, 3) { noise(r, &mut p); } else { p.seed = r.u64(); }
            if r.chance(1, 3) { let f = r.pick(&c.world.files).path.clone(); let op = r.pick(&["read", "open", "stat", "realpath", "close"]).to_string(); let e = errno(*r.pick(&["EIO", "EACCES"])); p.faults.push(Fault { op, path: f, from: r.below(3) as u64, count: *r.pick(&[1, 1_000_000]), act: "err".into(), arg: e, proc: None }); }
            p.knobs.insert("fd_limit".into(), *r.pick(&[FEW, FEW, FEW + 1, FEW + 5, 64]));
            c.plans.push(p);
        }
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        for (i, p) in c.plans.iter().enumerate() {
            let lim = p.knobs.get("fd_limit").copied().unwrap_or(0);
            if lim < FEW || p.faults.iter().any(|f| f.act != "err" || matches!(f.arg, 2 | 20 | 23 | 24)) { return Err(No::Invalid("plan".into())); }
            let mut free = p.clone();
            free.knobs.remove("fd_limit");
            let here = |x: String| format!("plan {i} ({}): {x}", crate::c_cli::describe(p));
            let (a, b);
            if let Some(h) = c.note.get("history") {
                let h: Vec<String> = de(h)?;
                let m = c.world.main.clone();
                let mut s = vec![json!({"op": "new", "b": 1, "kind": if c.is_schemata() { "sch" } else { "idl" }})];
                for d in &c.world.idirs { s.push(json!({"op": "dir", "b": 1, "path": d})); }
                for x in &h {
                    s.push(match x.as_str() {
                        "main" => json!({"op": "path", "b": 1, "path": m}),
                        "other" => json!({"op": "path", "b": 1, "path": c.world.files.last().map(|f| f.path.clone())}),
                        "dir" => json!({"op": "path", "b": 1, "path": c.world.cwd}),
                        "str" => json!({"op": "str", "b": 1, "src": format!("protocol S {{ import idl \"{}\"; import schema \"gone\"; }}", m)}),
                        x => json!({"op": "path", "b": 1, "path": x}),
                    });
                }
                let s = Value::Array(s);
                a = ex.drv(&drv_job(&c.world.fs(), &c.world.cwd, &s, &free))?;
                b = ex.drv(&drv_job(&c.world.fs(), &c.world.cwd, &s, p))?;
                ex.st.probe("history");
            } else {
                let k = c.note.as_str().unwrap_or("graph").to_string();
                a = ex.cli(&c.job(&free))?;
                b = ex.cli(&c.job(p))?;
                ex.st.probe(&k);
            }
            if a.events().iter().filter(|e| matches!(e.op.as_str(), "open" | "opendir")).count() as i64 > lim { ex.nontrivial = true; }
            if let Some(x) = clean_end(&b) && clean_end(&a).is_none() { return Ok(viol(&x.class, here(x.detail))); }
            if a.end != b.end { return Ok(viol("status", here(format!("no limit: {}, limit {lim}: {} {}", ended(&a), ended(&b), show(&b.stderr))))); }
            if a.stdout != b.stdout { return Ok(viol("result", here(crate::c_cli::first_diff(&a.stdout, &b.stdout)))); }
            if a.stderr != b.stderr { return Ok(viol("diagnostics", here(crate::c_cli::first_diff(&a.stderr, &b.stderr)))); }
            if let Some((p, w)) = fs_changes(&a.fs, &b.fs).first() { return Ok(viol("files", here(format!("{p} {w}")))); }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["a limit of 20 open files is above the constant (three standard streams and at most ten directories of a walk)"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| format!("{} {}", c.note.to_string().chars().take(60).collect::<String>(), summary(&c))).unwrap_or_default() }
}

// ------------------------------------------------------------------ C13
pub struct C13;
/// the named types of an artefact, in canonical form
fn canon(text: &[u8]) -> Result<Canon, String> { parse(text).map(|v| canon_output(&v)).ok_or_else(|| "not JSON".to_string()) }
fn by_name(c: &Canon) -> BTreeMap<String, Value> { c.types.iter().cloned().collect() }
/// all the artefacts of a compile: path and text
fn artefacts(j: &Job, o: &Outcome) -> Vec<(String, Vec<u8>)> {
    fs_changes(&j.fs, &o.fs).into_iter().filter(|(p, w)| *w == "created" && (p.ends_with(".avsc") || p.ends_with(".avpr"))).filter_map(|(p, _)| o.fs.get(&p).filter(|n| n.kind == b'f').map(|n| (p.clone(), n.data.clone()))).collect()
}
/// import each of some files into a file of its own
fn reimport(files: &[(String, Vec<u8>)], seed: u64, ex: &mut Exec) -> Result<Result<Vec<Value>, Viol>, No> {
    let mut fs = Fs::new();
    let mut s = vec![];
    for (i, (p, d)) in files.iter().enumerate() {
        let q = format!("/re/{i}/{}", base(p));
        fs.insert(q.clone(), Node { kind: b'f', mode: 0o644, data: d.clone() });
        let avpr = p.ends_with(".avpr");
        let (b, src) = if avpr { (json!("idl"), format!("protocol Again {{ import protocol \"{}\"; }}", base(p))) } else { (json!("sch"), format!("protocol Again {{ import schema \"{}\"; }}", base(p))) };
        fs.insert(format!("/re/{i}/again.avdl"), Node { kind: b'f', mode: 0o644, data: src.into_bytes() });
        s.push(json!({"op": "new", "b": i, "kind": b}));
        s.push(json!({"op": "path", "b": i, "path": format!("/re/{i}/again.avdl")}));
    }
    add_parents(&mut fs);
    let o = ex.drv(&drv_job(&fs, "/re", &Value::Array(s), &Plan { seed, ..Default::default() }))?;
    let got = match drv_out(&o) { Ok(g) => g, Err(v) => return Ok(Err(v)) };
    if got.iter().any(lib_panic) { return Ok(Err(Viol { class: "panic".into(), detail: show(&o.stderr) })); }
    Ok(Ok(got.into_iter().skip(1).step_by(2).collect()))
}
/// whether an artefact lost something: what remains of it is not all of its JSON
fn torn(cut: &[u8], full: &[u8]) -> bool { cut.len() < full.trim_ascii_end().len() }
impl Check for C13 {
    fn id(&self) -> &'static str { "C13" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 2_600 } else { 60_000 } }
    fn rule(&self) -> &'static str { "seeded valid trees compiled to schema files or a protocol file; every artefact is checked for self-containment and imported again on its own; prefixes of it, and what crashes and full disks during the same command leave, are imported too; non-trivial: an artefact with named types was re-imported" }
    fn required(&self) -> Vec<&'static str> { vec!["schema-again", "protocol-again", "torn-refused", "interrupted-writer"] }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(1, 2) { Opts::wide() } else { Opts::small() };
        o.dup = 0; o.warn = 0; o.bare = 10;
        o.types = r.range(1, 6);
        o.msgs = r.range(0, 4);
        let w = Gen::new(r, o).world();
        let bare = matches!(w.file(&main_real(&w)).map(|f| &f.body), Some(Body::Idl { proto: None, main: None, .. }));
        let proto = matches!(w.file(&main_real(&w)).map(|f| &f.body), Some(Body::Idl { proto: Some(_), .. }));
        let cmd = if bare || r.chance(1, 2) { Cmd::Schemata { input: None, out: Some("/art".into()) } } else { Cmd::Idl { out: Some(if proto { "/art/p.avpr" } else { "/art/s.avsc" }.into()), stdin: false } };
        let mut c = Case::new(w, cmd);
        with_out_dirs(&mut c);
        let j = c.job(&Plan::default());
        let base = ex.cli(&j)?;
        if !base.ok() { return Err(No::Invalid("does not compile".into())); }
        let arts = artefacts(&j, &base);
        if arts.is_empty() { return Err(No::Invalid("no artefacts".into())); }
        // cuts: which artefact, where
        let mut cuts = vec![];
        for _ in 0..6 {
            let i = r.below(arts.len());
            let d = &arts[i].1;
            let ends: Vec<usize> = d.iter().enumerate().filter(|x| matches!(x.1, b'}' | b']' | b'\n' | b',')).map(|x| x.0).collect();
            let k = match r.below(6) { 0 => 0, 1 => d.len() - 1, 2 => d.len().saturating_sub(2), 3 | 4 if !ends.is_empty() => *r.pick(&ends) + r.below(2), _ => r.below(d.len()) };
            cuts.push(json!([arts[i].0, k]));
        }
        c.note = json!(cuts);
        let ps: Vec<Point> = points(&base).into_iter().filter(|p| arts.iter().any(|a| a.0 == norm(&p.path)) && matches!(p.op.as_str(), "write" | "open" | "close")).collect();
        let total: usize = arts.iter().map(|a| a.1.len()).sum();
        for _ in 0..2 {
            let mut p = Plan { seed: r.u64(), ..Default::default() };
            if r.chance(1, 3) { p.knobs.insert("write_chunk".into(), *r.pick(&[1, 7, 100])); }
            if r.chance(1, 3) || ps.is_empty() { p.knobs.insert("disk_free".into(), r.below(total + 1) as i64); } else {
                let q = r.pick(&ps);
                let f = if q.op == "write" && r.chance(2, 3) { let k = r.range(0, q.ret.max(1) as usize) as i64; fault(q, "crash_partial", k, 1) } else { fault(q, r.pick(&["crash_before", "crash_after"]), 0, 1) };
                p.faults.push(f);
            }
            c.plans.push(p);
        }
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        let j = c.job(&Plan::default());
        let a = ex.cli(&j)?;
        if !a.ok() { return Err(No::Invalid("does not compile".into())); }
        let arts = artefacts(&j, &a);
        if arts.is_empty() { return Err(No::Invalid("no artefacts".into())); }
        let mut canons = vec![];
        for (p, d) in &arts {
            let k = match canon(d) { Ok(k) => k, Err(e) => return Ok(viol("not-json", format!("{p}: {e}: {}", show(d)))) };
            if let Some(x) = k.problems.first() { return Ok(viol("not-self-contained", format!("{p}: {x}"))); }
            canons.push(k);
        }
        // each on its own gives back the same definitions
        let again = match reimport(&arts, 1, ex)? { Ok(x) => x, Err(v) => return Ok(Some(v)) };
        for (((p, d), k), g) in arts.iter().zip(&canons).zip(&again) {
            if let Some(e) = g.get("err") { return Ok(viol("re-import-fails", format!("{p}: {}\n{}", short(e), show(d)))); }
            let want = by_name(k);
            ex.nontrivial |= !want.is_empty();
            if p.ends_with(".avpr") {
                ex.st.probe("protocol-again");
                let h = match canon(g["ok"].as_str().unwrap_or("").as_bytes()) { Ok(h) => h, Err(e) => return Ok(viol("not-json", e)) };
                if let Some(x) = h.problems.first() { return Ok(viol("not-self-contained", format!("after re-importing {p}: {x}"))); }
                if let Some(n) = want.keys().chain(by_name(&h).keys()).find(|n| want.get(*n) != by_name(&h).get(*n)) { return Ok(viol("definition-changed", format!("{p}: {n}: was {:?} became {:?}", want.get(n), by_name(&h).get(n)))); }
                if let Some(n) = k.messages.keys().chain(h.messages.keys()).find(|n| k.messages.get(*n) != h.messages.get(*n)) { return Ok(viol("message-changed", format!("{p}: {n}: was {:?} became {:?}", k.messages.get(n), h.messages.get(n)))); }
            } else {
                ex.st.probe("schema-again");
                let mut got: BTreeMap<String, Value> = BTreeMap::new();
                for x in g["schemas"].as_array().into_iter().flatten() {
                    let h = match canon(x[1].as_str().unwrap_or("").as_bytes()) { Ok(h) => h, Err(e) => return Ok(viol("not-json", e)) };
                    if let Some(x) = h.problems.first() { return Ok(viol("not-self-contained", format!("after re-importing {p}: {x}"))); }
                    if let Some((n, d)) = h.types.first() { got.insert(n.clone(), d.clone()); }
                }
                if let Some(n) = want.keys().chain(got.keys()).find(|n| want.get(*n) != got.get(*n)) { return Ok(viol("definition-changed", format!("{p}: {n}: was {:?} became {:?}", want.get(n), got.get(n)))); }
            }
        }
        // torn artefacts
        let mut cut: Vec<(String, Vec<u8>)> = vec![];
        for x in c.note.as_array().into_iter().flatten() {
            let (Some(p), Some(k)) = (x[0].as_str(), x[1].as_u64()) else { return Err(No::Invalid("cut".into())) };
            let Some((p, d)) = arts.iter().find(|a| a.0 == p) else { continue };
            cut.push((p.clone(), d[..(k as usize).min(d.len())].to_vec()));
        }
        let names: Vec<&str> = c.world.files.iter().flat_map(|f| f.body.types().into_iter().map(|t| t.name.as_str())).collect();
        let shared = |q: &str| c.is_schemata() && names.iter().filter(|n| base(q).strip_suffix(".avsc") == Some(**n)).count() > 1;
        for (i, p) in c.plans.iter().enumerate() {
            if p.faults.iter().any(|f| !f.act.starts_with("crash")) { return Err(No::Invalid("plan".into())); }
            let o = ex.cli(&c.job(p))?;
            if let End::Exit(0) = o.end { continue; }
            ex.st.probe("interrupted-writer");
            // of types that share a file, another one may be in it
            for (q, _) in &arts { if !shared(q) && let Some(n) = o.fs.get(q) { cut.push((q.clone(), n.data.clone())); } }
            let _ = i;
        }
        let again = match reimport(&cut, 2, ex)? { Ok(x) => x, Err(v) => return Ok(Some(v)) };
        for ((p, d), g) in cut.iter().zip(&again) {
            let full = &arts.iter().find(|a| &a.0 == p).unwrap().1;
            if torn(d, full) {
                if g.get("err").is_none() { return Ok(viol("torn-accepted", format!("{p}, {} of {} bytes, was imported: {}\n{}", d.len(), full.len(), short(g), show(d)))); }
                ex.st.probe("torn-refused");
            } else if let Some(e) = g.get("err") { return Ok(viol("complete-refused", format!("{p}: {}", short(e)))); }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["definitions are compared in canonical form: key order and the spelling of namespaces do not count", "an artefact that lost no more than its final newline is complete"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| summary(&c)).unwrap_or_default() }
}
