//! C05, C06: what a graph of files means, against the reference model.
use crate::case::*;
use crate::common::*;
use crate::exec::*;
use crate::frame::*;
use crate::gener::*;
use crate::job::*;
use crate::model::*;
use crate::rng::Rng;
use crate::spec::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;

fn to(c: &Case) -> Value { serde_json::to_value(c).unwrap() }

/// Compare the end of a run with what the model says the tree means.
pub fn against_model(c: &Case, j: &Job, o: &Outcome, m: &Meaning) -> Option<Viol> {
    let must_fail = m.fail.clone().or(if m.bare && !c.is_schemata() { Some("neither a protocol nor a schema".into()) } else { None });
    if let Some(why) = must_fail {
        if o.ok() { return viol("accepted", format!("must fail ({why}) but exit 0: {}", show(&o.stdout))); }
        if let Some(p) = why.strip_prefix("import not found: ") && !squeeze(&o.stderr).contains(&squeeze(p.as_bytes())) { return viol("import-not-named", format!("import {p} cannot be found, but stderr does not name it: {}", show(&o.stderr))); }
        return None;
    }
    if !o.ok() { return viol("rejected", format!("must compile, but {}: {}", ended(o), show(&o.stderr))); }
    if !c.is_schemata() {
        let text: Vec<u8> = match c.out_abs() {
            None => o.stdout.clone(),
            Some(p) => match o.fs.get(&p) { Some(n) => n.data.clone(), None => return viol("no-output", format!("{p} was not written")) },
        };
        let Some(v) = parse(&text) else { return viol("not-json", show(&text)) };
        return diff(&m.canon_idl().unwrap(), &canon_output(&v)).map(|(k, d)| Viol { class: k, detail: d });
    }
    let out = c.out_abs().unwrap();
    let mut made: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (p, _) in fs_changes(&image(j), &o.fs) {
        if parent(&p) == out && let (Some(n), Some(s)) = (o.fs.get(&p), base(&p).strip_suffix(".avsc")) { made.insert(s.to_string(), n.data.clone()); }
    }
    let simple = |n: &str| n.rsplit('.').next().unwrap().to_string();
    for (n, _) in &m.types {
        let s = &simple(n);
        // two types of one simple name share a file, as with the Java tool: either may be in it
        if m.types.iter().any(|(k, _)| k != n && simple(k) == *s) {
            if !made.contains_key(s) { return viol("schema-missing", format!("no file for {n}")); }
            continue;
        }
        let Some(t) = made.remove(s) else { return viol("schema-missing", format!("no file for {n}")) };
        let Some(v) = parse(&t) else { return viol("not-json", show(&t)) };
        if let Some((k, d)) = diff(&m.canon_avsc(n), &canon_output(&v)) { return viol(&format!("schema-{k}"), format!("{s}.avsc: {d}")); }
    }
    if let Some(s) = made.keys().find(|s| !m.types.iter().any(|(k, _)| simple(k) == **s)) { return viol("schema-extra", format!("{s}.avsc was written")); }
    None
}
fn imports(w: &World) -> usize { w.files.iter().map(|f| match &f.body { Body::Idl { decls, .. } => decls.iter().filter(|d| matches!(d, Decl::I(..))).count(), _ => 0 }).sum() }
pub fn bytes(w: &World) -> usize { w.files.iter().map(|f| render(&f.body).0.len()).sum() }

// ------------------------------------------------------------------ C05
pub struct C05;
/// layers of files, each importing every file of the next, some importing back
fn lattice(r: &mut Rng) -> World {
    let (layers, width) = *r.pick(&[(8, 2), (14, 2), (5, 4), (3, 8), (20, 2), (24, 1), (10, 3)]);
    let mut w = World { cwd: "/w".into(), main: "main.avdl".into(), ..Default::default() };
    let name = |l: usize, i: usize| format!("l{l}x{i}.avdl");
    let dir = |l: usize| if l.is_multiple_of(3) { "/w/sub" } else { "/w" };
    let rec = |n: String, f: Option<String>| Decl::T(Type { name: n, ns: None, def: Def::Rec { err: false, fields: f.into_iter().map(|t| Field { n: "a".into(), t: Ty::R(t), d: None, doc: None, order: None, aliases: vec![], props: vec![], wunion: vec![] }).collect() }, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] });
    let idl = |n: &str, decls: Vec<Decl>| Body::Idl { proto: Some(n.into()), ns: Some("lat".into()), doc: None, props: vec![], main: None, decls, msgs: vec![], style: 0, wtail: vec![], tail: String::new() };
    let back = r.chance(1, 2);
    for l in 0..layers {
        for i in 0..width {
            let mut d = vec![];
            if l + 1 < layers { for k in 0..width { d.push(Decl::I("idl".into(), relpath(dir(l), &format!("{}/{}", dir(l + 1), name(l + 1, k))))); } }
            if back && r.chance(1, 2) { let (bl, bi) = (r.below(l + 1), r.below(width)); d.push(Decl::I("idl".into(), relpath(dir(l), &format!("{}/{}", dir(bl), name(bl, bi))))); }
            r.shuffle(&mut d);
            d.push(rec(format!("L{l}x{i}"), if l + 1 < layers { Some(format!("lat.L{}x0", l + 1)) } else { None }));
            w.files.push(File { path: format!("{}/{}", dir(l), name(l, i)), body: idl(&format!("P{l}x{i}"), d) });
        }
    }
    let mut d: Vec<Decl> = (0..width).map(|i| Decl::I("idl".into(), relpath("/w", &format!("{}/{}", dir(0), name(0, i))))).collect();
    d.push(rec("Main".into(), None));
    w.files.insert(0, File { path: "/w/main.avdl".into(), body: idl("Main", d) });
    w
}
/// the same file reached through many names, and names reached in many directories
fn tangle(r: &mut Rng, w: &mut World) {
    let n = w.files.len();
    for d in ["/w/sub", "/w/sub/deep", "/inc1", "/inc2", "/inc1/pkg"] { w.dirs.push(d.into()); }
    for k in 0..r.range(1, 4) {
        let t = w.files[r.below(n)].path.clone();
        let ext = t.rsplit('.').next().unwrap().to_string();
        let d = r.pick(&["/w", "/w/sub", "/inc1", "/inc2"]).to_string();
        let l = format!("{d}/tangle{k}.{ext}");
        if w.links.iter().any(|x| x.0 == l) { continue; }
        w.links.push((l.clone(), if r.chance(1, 2) { t.clone() } else { relpath(&d, &t) }));
        let kind = match ext.as_str() { "avdl" => "idl", "avpr" => "protocol", _ => "schema" };
        for _ in 0..r.range(1, 2) {
            let a = r.below(n);
            let dir = parent(&w.files[a].path);
            let s = match r.below(5) { 0 => l.clone(), 1 => format!("./{}", relpath(&dir, &l)), 2 => format!("./././{}", relpath(&dir, &l)), 3 => t.clone(), _ => relpath(&dir, &l) };
            let fs = w.fs();
            if lookup(&fs, &w.cwd, &w.idirs, &dir, &s).is_none() { continue; }
            if let Body::Idl { decls, .. } = &mut w.files[a].body { let at = r.below(decls.len() + 1); decls.insert(at, Decl::I(kind.into(), s)); }
        }
    }
}
/// directories with several names: search directories, imports and the main file reached through links to directories
fn detours(r: &mut Rng, w: &mut World) {
    let n = w.files.len();
    for k in 0..r.range(1, 3) {
        let to = parent(&w.files[r.below(n)].path);
        if to == "/" { continue; }
        let at = r.pick(&["/w", "/w/sub", "/opt/lib", "/inc1"]).to_string();
        let l = format!("{at}/via{k}");
        if norm(&to).starts_with(&format!("{l}/")) { continue; }
        w.dirs.push(at.clone());
        // now and then a link to a link
        let target = if r.chance(1, 2) { to.clone() } else { relpath(&at, &to) };
        let target = if target.is_empty() { ".".into() } else { target };
        if r.chance(1, 4) { w.links.push((format!("{at}/hop{k}"), target)); w.links.push((l.clone(), format!("hop{k}"))); } else { w.links.push((l.clone(), target)); }
        if r.chance(2, 3) {
            let d = match r.below(4) { 0 => relpath(&w.cwd, &l), 1 => format!("{l}/"), 2 => format!("{l}/."), _ => l.clone() };
            let fs = w.fs();
            match w.idirs.iter().position(|d| realpath(&fs, &join(&w.cwd, d)).as_deref() == Some(to.as_str())) {
                Some(i) if r.chance(2, 3) => w.idirs[i] = d,
                _ => { let i = r.below(w.idirs.len() + 1); w.idirs.insert(i, d); }
            }
        }
        for _ in 0..r.range(1, 4) {
            let a = r.below(n);
            let there: Vec<String> = w.files.iter().filter(|f| f.path.starts_with(&format!("{to}/")) && !f.path.ends_with("main.avdl") | r.chance(1, 3)).map(|f| f.path[to.len() + 1..].to_string()).collect();
            if there.is_empty() { break; }
            let f = r.pick(&there).clone();
            let kind = match f.rsplit('.').next().unwrap() { "avdl" => "idl", "avpr" => "protocol", _ => "schema" };
            let dir = parent(&w.files[a].path);
            let s = match r.below(4) { 0 => format!("{l}/{f}"), 1 => relpath(&dir, &format!("{l}/{f}")), 2 => f.clone(), _ => relpath(&dir, &format!("{to}/{f}")) };
            let fs = w.fs();
            if lookup(&fs, &w.cwd, &w.idirs, &dir, &s).is_none() { continue; }
            if let Body::Idl { decls, .. } = &mut w.files[a].body { let at = r.below(decls.len() + 1); decls.insert(at, Decl::I(kind.into(), s)); }
        }
        let m = main_real(w);
        if parent(&m) == to && r.chance(1, 3) { w.main = if r.chance(1, 2) { format!("{l}/{}", base(&m)) } else { relpath(&w.cwd, &format!("{l}/{}", base(&m))) }; }
    }
}
/// an import that several places could satisfy
fn contested(r: &mut Rng, w: &mut World) {
    let name = r.pick(&["cont.avdl", "pkg/cont.avdl", "../cont.avdl", "a b/cont é.avdl"]).to_string();
    let mut dirs: Vec<String> = vec!["/inc1".into(), "/inc2".into(), "/w/my dir".into(), "/w/sub".into()];
    r.shuffle(&mut dirs);
    let k = r.range(1, 4);
    w.idirs = dirs[..k].iter().map(|d| match r.below(3) { 0 => relpath("/w", d), 1 => format!("{d}/"), _ => d.clone() }).collect();
    for d in &dirs { w.dirs.push(d.clone()); }
    let i = { let v: Vec<usize> = (0..w.files.len()).filter(|&i| matches!(w.files[i].body, Body::Idl { .. })).collect(); *r.pick(&v) };
    let here = parent(&w.files[i].path);
    let mut places: Vec<String> = dirs.clone();
    places.push(here.clone());
    places.push(w.cwd.clone());
    let mut any = 0;
    for (n, d) in places.iter().enumerate() {
        let p = norm(&format!("{d}/{name}"));
        if !r.chance(2, 5) || w.files.iter().any(|f| f.path == p) || w.links.iter().any(|l| l.0 == p) { continue; }
        let t = Type { name: format!("From{n}"), ns: Some("cont.est".into()), def: Def::Fixed { size: 4 }, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] };
        // in some places the name is a dangling or indirect link, or a directory stands in the way
        match r.below(6) {
            0 => w.links.push((p, "/nowhere/else.avdl".into())),
            1 => { let real = format!("{d}/real{n}.avdl"); w.files.push(File { path: real.clone(), body: idl1(t) }); w.links.push((p, real)); }
            _ => w.files.push(File { path: p, body: idl1(t) }),
        }
        any += 1;
    }
    let _ = any;
    let imp = match r.below(4) { 0 => format!("./{name}"), _ => name };
    if let Body::Idl { decls, .. } = &mut w.files[i].body { let at = r.below(decls.len() + 1); decls.insert(at, Decl::I("idl".into(), imp)); }
}
fn idl1(t: Type) -> Body { Body::Idl { proto: None, ns: None, doc: None, props: vec![], main: None, decls: vec![Decl::T(t)], msgs: vec![], style: 0, wtail: vec![], tail: String::new() } }
impl Check for C05 {
    fn id(&self) -> &'static str { "C05" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 16_000 } else { 200_000 } }
    fn rule(&self) -> &'static str { "seeded import graphs: decoy files in later search directories, links, dotted and absolute spellings, self-imports, cycles, diamonds and dense layered graphs, names contested between directories or found nowhere, look-ups that fail; non-trivial: the tree has at least two imports" }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let kind = r.below(10);
        let w = if kind == 0 { lattice(r) } else {
            let mut o = if r.chance(1, 2) { Opts::wide() } else { Opts::small() };
            o.files = r.range(2, 9);
            o.dup = 0; o.types = 2; o.msgs = 1; o.links = 50; o.decoys = 50; o.idirs = 70; o.warn = 5;
            let mut w = Gen::new(r, o).world();
            if r.chance(1, 3) { tangle(r, &mut w); }
            if r.chance(2, 5) { detours(r, &mut w); }
            if r.chance(1, 3) { contested(r, &mut w); }
            w
        };
        let cmd = if r.chance(1, 4) { Cmd::Schemata { input: None, out: Some("/out/d".into()) } } else { Cmd::Idl { out: None, stdin: false } };
        let mut c = Case::new(w, cmd);
        if kind == 1 && let Some(Body::Idl { decls, .. }) = c.world.files.first_mut().map(|f| &mut f.body) {
            let p = r.pick(&["gone.avdl", "no/such dir/x.avpr", "/abs/missing.avsc", "main.avdl/x.avdl", "lnloop.avdl"]).to_string();
            let k = match p.rsplit('.').next().unwrap() { "avdl" => "idl", "avpr" => "protocol", _ => "schema" };
            let at = r.below(decls.len() + 1);
            decls.insert(at, Decl::I(k.into(), p));
        }
        let mut p = Plan { seed: r.u64(), ..Default::default() };
        if r.chance(1, 3) { noise(r, &mut p); }
        if kind == 2 {
            // one look-up fails: the run must not quietly use another directory's file
            let base = ex.cli(&c.job(&Plan::default()))?;
            let ps: Vec<Point> = points(&base).into_iter().filter(|p| matches!(p.op.as_str(), "stat" | "realpath" | "access" | "open")).collect();
            let name = |p: &str| p.rsplit('/').next().unwrap_or("").to_string();
            let rivals: Vec<&Point> = ps.iter().filter(|p| c.world.files.iter().filter(|f| name(&f.path) == name(&p.path)).count() > 1).collect();
            for _ in 0..4 {
                if ps.is_empty() { break; }
                let q = if !rivals.is_empty() && r.chance(3, 4) { *r.pick(&rivals) } else { r.pick(&ps) };
                let mut p = p.clone();
                p.faults.push(err_fault(r, q));
                c.plans.push(p);
            }
        }
        c.plans.push(p);
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        sane(&c.world)?;
        if c.plans.is_empty() { return Err(No::Invalid("no plan".into())); }
        if c.plans.iter().flat_map(|p| &p.faults).any(|f| f.act == "err" && matches!(f.arg, 2 | 20 | 36)) { return Err(No::Invalid("errno".into())); }
        let m = meaning(&c.world, &c.job(&Plan::default()).fs, &c.world.main_abs());
        let n = imports(&c.world);
        ex.nontrivial = n >= 2;
        for p in &c.plans {
            let j = c.job(p);
            let o = ex.cli(&j)?;
            if let Some(x) = clean_end(&o) { return Ok(Some(x)); }
            if o.fired.iter().sum::<u64>() > 0 && !o.ok() { ex.st.probe("failed-look-up"); continue; }
            ex.st.probe(match &m.fail { None => "resolves", Some(f) if f.starts_with("import not found") => "import-missing", Some(_) => "fails-otherwise" });
            if n + 1 > c.world.files.len() { ex.st.probe("cycle-or-diamond"); }
            if let Some(x) = against_model(&c, &j, &o, &m) { return Ok(viol(&x.class, format!("{} [{}]", x.detail, crate::c_cli::describe(p)))); }
            // work proportional to what there is to read, with a wide margin
            let quiet = p.knobs.is_empty() && p.faults.is_empty();
            let ops = 600 + 60 * c.world.files.len() as u64 + 20 * (n * (2 + c.world.idirs.len())) as u64 + 8 * m.types.len() as u64 + bytes(&c.world) as u64 / 8;
            // (diagnostics are printed piecewise)
            let nops = o.nops - o.events().iter().filter(|e| e.op == "write" && e.path == "<stderr>").count() as u64;
            if quiet && nops > ops { return Ok(viol("too-much-work", format!("{nops} system calls for {} files and {n} imports", c.world.files.len()))); }
            let work = 20_000_000 + 40_000 * bytes(&c.world) as u64;
            if o.edges > work { return Ok(viol("too-much-work", format!("{} steps for {} bytes of source", o.edges, bytes(&c.world)))); }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["the reference model's path resolution follows POSIX; two hard links count as two files", "the directory of an imported file is that of its real path"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| summary(&c)).unwrap_or_default() }
}

// ------------------------------------------------------------------ C06
pub struct C06;
impl Check for C06 {
    fn id(&self) -> &'static str { "C06" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 14_000 } else { 200_000 } }
    fn rule(&self) -> &'static str { "seeded graphs of IDL, protocol and schema files with colliding type and message names, forward and cyclic references, undefined names, compiled to stdout, file or directory under noise; the output is compared, in canonical form, with the reference model; non-trivial: at least one import" }
    fn generate(&self, r: &mut Rng, _ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(2, 3) { Opts::wide() } else { Opts::small() };
        o.files = r.range(1, 8);
        o.dup = 30; o.links = 15; o.decoys = 10; o.idirs = 30; o.warn = 5;
        o.types = r.range(1, 5);
        o.msgs = r.range(0, 4);
        let mut c = gen_case(r, o);
        if r.chance(1, 8) { let k = mistakes(r, &mut c.world); c.note = json!(k); }
        let mut p = Plan { seed: r.u64(), ..Default::default() };
        if r.chance(1, 3) { noise(r, &mut p); }
        c.plans.push(p);
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        sane(&c.world)?;
        let Some(p) = c.plans.first() else { return Err(No::Invalid("no plan".into())) };
        if !p.faults.is_empty() { return Err(No::Invalid("faults".into())); }
        let j = c.job(p);
        let m = meaning(&c.world, &j.fs, &c.world.main_abs());
        ex.nontrivial = imports(&c.world) > 0;
        let o = ex.cli(&j)?;
        if let Some(x) = clean_end(&o) { return Ok(Some(x)); }
        ex.st.probe(match &m.fail { None => "means-something", Some(f) => f.split(' ').next().unwrap_or("fails") });
        if m.fail.as_deref() == Some("raw") || matches!(c.world.file(&main_real(&c.world)).map(|f| &f.body), Some(Body::Raw(_))) { return Ok(None); }
        Ok(against_model(&c, &j, &o, &m))
    }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| summary(&c)).unwrap_or_default() }
}
