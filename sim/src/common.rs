//! Pieces shared by several checks.
use crate::case::*;
use crate::exec::*;
use crate::gener::*;
use crate::job::*;
use crate::model::*;
use crate::rng::Rng;
use crate::spec::*;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// A command over a world; outputs never collide with inputs.
pub fn gen_cmd(r: &mut Rng, w: &World) -> Cmd {
    let bare = matches!(&w.file(&main_real(w)).map(|f| &f.body), Some(Body::Idl { proto: None, main: None, .. }));
    match r.below(if bare { 3 } else { 9 }) {
        0 => Cmd::Schemata { input: None, out: None },
        1 => Cmd::Schemata { input: None, out: Some("gen".into()) },
        2 => Cmd::Schemata { input: None, out: Some(r.pick(&["gen/a/b", "/out/x", "../g2", "./gen/"]).to_string()) },
        3 => Cmd::Idl { out: Some("out.json".into()), stdin: false },
        4 => Cmd::Idl { out: Some(r.pick(&["/out/p.avpr", "o/p.avpr", "../p2.avpr"]).to_string()), stdin: false },
        5 => Cmd::Idl { out: Some("-".into()), stdin: false },
        _ => Cmd::Idl { out: None, stdin: false },
    }
}
pub fn main_real(w: &World) -> String { realpath(&w.fs(), &w.main_abs()).unwrap_or_else(|| w.main_abs()) }
/// directories that must exist for an output file
pub fn with_out_dirs(c: &mut Case) {
    if let (Cmd::Idl { .. }, Some(o)) = (&c.cmd, c.out_abs()) { let d = parent(&o); if d != "/" { c.pre.push((format!("{d}/"), String::new())); } }
}
/// one source tree and one command
pub fn gen_case(r: &mut Rng, mut o: Opts) -> Case {
    if o.bare == 0 && r.chance(1, 12) { o.bare = 100; }
    let w = Gen::new(r, o).world();
    let cmd = gen_cmd(r, &w);
    let mut c = Case::new(w, cmd);
    if r.chance(1, 4) { c.argstyle = r.below(6) as u8; }
    with_out_dirs(&mut c);
    c
}
/// Arguments that ask for help or the version.
pub fn help_cmd(r: &mut Rng) -> Cmd {
    let a: &[&str] = r.pick(&[&["--help"] as &[&str], &["-h"], &["-V"], &["--version"], &["idl", "--help"], &["idl", "-h"], &["idl2schemata", "--help"], &["idl2schemata", "-h"], &["idl", "main.avdl", "--help"], &["idl2schemata", "--import-dir", "/inc1", "-h"]]);
    Cmd::Raw { args: a.iter().map(|s| s.to_string()).collect() }
}
/// Arguments that make no sense.
pub fn wrong_cmd(r: &mut Rng, main: &str) -> Cmd {
    let a: &[&str] = r.pick(&[&[] as &[&str], &["idl2schemata"], &["nosuch"], &["--nosuch"], &["-x"], &["idl", "--nosuch", "MAIN"], &["idl", "MAIN", "/out/p.avpr", "--nosuch"], &["idl", "MAIN", "/out/p.avpr", "--import-dir"], &["idl2schemata", "--import-dir", "/inc1"], &["idl2schemata", "MAIN", "/out/fresh", "--bogus"], &["idl2schemata", "MAIN", "/out/fresh", "--import-dir"], &["idl"], &["idl", "-"], &["MAIN"], &["-o", "/out/p.avpr", "idl", "MAIN"]]);
    Cmd::Raw { args: a.iter().map(|s| s.replace("MAIN", main)).collect() }
}
/// Several defaults that do not fit the definitions they refer to.
fn bad_defaults(r: &mut Rng, w: &mut World) -> &'static str {
    let all: Vec<String> = w.files.iter().flat_map(|f| f.body.types().into_iter().map(|t| t.full_in(&f.body.ns())).collect::<Vec<_>>()).collect();
    if all.is_empty() { return "none"; }
    let mut done = false;
    for _ in 0..r.range(2, 6) {
        let rf = Ty::R(r.pick(&all).clone());
        let bad = r.pick(&[json!(17), json!({"no_such_field": 1}), json!("no symbol"), json!([1, "a"]), json!({})]).clone();
        let (t, d) = match r.below(4) { 0 => (Ty::A(Box::new(rf)), json!([bad, bad])), 1 => (Ty::M(Box::new(rf)), json!({"k": bad, "a": bad})), _ => (rf, bad) };
        let f = Field { n: format!("bd{}", r.below(10_000)), t, d: Some(d), doc: None, order: None, aliases: vec![], props: vec![], wunion: vec![] };
        let j = r.below(w.files.len());
        let mut ts = w.files[j].body.types_mut();
        if ts.is_empty() { continue; }
        let t = r.below(ts.len());
        if let Def::Rec { fields, .. } = &mut ts[t].def { fields.push(f); done = true; }
    }
    if done { "bad-defaults" } else { "none" }
}
/// Errors of the kinds a user makes, in any file. Returns what was done.
pub fn sabotage(r: &mut Rng, w: &mut World) -> &'static str { if r.chance(1, 8) { bad_defaults(r, w) } else { mistakes(r, w) } }
/// The same, but for the defaults, which the reference model does not judge.
pub fn mistakes(r: &mut Rng, w: &mut World) -> &'static str {
    let idl: Vec<usize> = (0..w.files.len()).filter(|&i| matches!(w.files[i].body, Body::Idl { .. })).collect();
    if idl.is_empty() { return "none"; }
    let i = *r.pick(&idl);
    let k = r.below(1000);
    match r.below(8) {
        7 => {
            // a name that Avro does not allow, in any file
            let t = Type { name: format!("Bad-x{k}"), ns: None, def: Def::Fixed { size: 4 }, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] };
            let j = r.below(w.files.len());
            match &mut w.files[j].body {
                Body::Idl { decls, .. } => { let at = r.below(decls.len() + 1); decls.insert(at, Decl::T(t)); }
                Body::Avpr { types, .. } | Body::Avsc { types, .. } => { let at = r.below(types.len() + 1); types.insert(at, t); }
                _ => return "none",
            }
            "bad-name"
        }
        0 => {
            let toks = ["record { }", "recrod X { int a; }", "record Z { int ; }", "}}", "enum E { A, A, }", "@x(", "record Y { unknown_é<int> x; }", "import idl;", "fixed F(;", "union { int } ;"];
            if let Body::Idl { tail, .. } = &mut w.files[i].body { *tail = r.pick(&toks).to_string(); }
            "syntax"
        }
        1 | 2 => {
            // several undefined names in types and messages of one or more files
            let n = w.files.len();
            for _ in 0..r.range(1, 4) {
                let j = r.below(n);
                let bad = Ty::R(format!("missing.pkg.Nope{}", r.below(30)));
                let bad = match r.below(4) { 0 => Ty::A(Box::new(bad)), 1 => Ty::U(vec![Ty::P("null".into()), bad]), _ => bad };
                let fname = format!("bad{}", r.below(10_000));
                let f = Field { n: fname, t: bad, d: None, doc: None, order: None, aliases: vec![], props: vec![], wunion: vec![] };
                let to_msg = r.chance(1, 2);
                match &mut w.files[j].body {
                    Body::Idl { msgs, .. } | Body::Avpr { msgs, .. } if to_msg && !msgs.is_empty() => { let m = r.below(msgs.len()); msgs[m].params.push(f); continue; }
                    _ => {}
                }
                let mut ts = w.files[j].body.types_mut();
                if ts.is_empty() { continue; }
                let t = r.below(ts.len());
                if let Def::Rec { fields, .. } = &mut ts[t].def { fields.push(f); }
            }
            "undefined"
        }
        3 => {
            if let Body::Idl { decls, .. } = &mut w.files[i].body { let at = r.below(decls.len() + 1); decls.insert(at, Decl::I("idl".into(), format!("gone/missing{k}.avdl"))); }
            "missing-import"
        }
        4 => {
            let t = w.files[i].body.types().first().map(|t| (*t).clone());
            if let (Body::Idl { decls, .. }, Some(t)) = (&mut w.files[i].body, t) { decls.push(Decl::T(t)); }
            "duplicate"
        }
        5 => {
            let j = r.below(w.files.len());
            w.files[j].body = Body::Raw(r.pick(&["", "{", "\u{0}\u{1}", "[1,2", "\"unterminated", "protocol", "{\"type\":\"record\"}", "{\"protocol\":\"X\",\"types\":[{\"type\":\"what\"}]}", "namespace a.b;\n", "é"]).to_string());
            "garbage"
        }
        _ => {
            let j = r.below(w.files.len());
            if j > 0 { w.files.remove(j); return "file-missing"; }
            if let Body::Idl { decls, .. } = &mut w.files[0].body {
                decls.push(Decl::T(Type { name: format!("Bad{k}"), ns: None, def: Def::Rec { err: false, fields: vec![Field { n: "a".into(), t: Ty::P("int".into()), d: Some(serde_json::json!("no int")), doc: None, order: None, aliases: vec![], props: vec![], wunion: vec![] }] }, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] }));
            }
            "bad-default"
        }
    }
}
pub struct Point { pub op: String, pub path: String, pub nth: u64, pub ret: i64 }
/// The places of a run where a fault can strike.
pub fn points(o: &Outcome) -> Vec<Point> {
    let mut seen: BTreeMap<(String, String), u64> = BTreeMap::new();
    let mut v = vec![];
    let dirs: std::collections::BTreeSet<String> = o.events().iter().filter(|e| e.op == "opendir").map(|e| e.path.clone()).collect();
    for e in o.events() {
        // closedir of an open directory does not fail in practice (std asserts it)
        if e.op == "close" && dirs.contains(&e.path) { continue; }
        if !OPS.contains(&e.op.as_str()) || matches!(e.op.as_str(), "misc" | "any" | "malloc") { continue; }
        let c = seen.entry((e.op.clone(), e.path.clone())).or_default();
        v.push(Point { op: e.op, path: e.path, nth: *c, ret: e.ret });
        *c += 1;
    }
    v
}
/// errors such a call really reports, other than "it is not there"
pub fn errnos(op: &str, path: &str) -> Vec<&'static str> {
    if path == "<stdout>" || path == "<stderr>" { return vec!["ENOSPC", "EIO", "EAGAIN"]; }
    match op {
        "open" => vec!["EACCES", "EIO", "EMFILE", "ENFILE", "ENOMEM", "ELOOP", "ESTALE", "EPERM"],
        "read" => vec!["EIO", "EISDIR", "ESTALE", "EAGAIN"],
        "write" => vec!["ENOSPC", "EIO", "EDQUOT", "EFBIG"],
        "close" => vec!["EIO", "ENOSPC", "EDQUOT"],
        "stat" => vec!["EACCES", "EIO", "ENOMEM", "ELOOP", "ESTALE"],
        "realpath" => vec!["EACCES", "EIO", "ENOMEM", "ELOOP", "ENAMETOOLONG"],
        "opendir" => vec!["EACCES", "EIO", "EMFILE", "ENOMEM"],
        "readdir" => vec!["EIO", "ESTALE"],
        "mkdir" => vec!["EACCES", "ENOSPC", "EROFS", "EDQUOT", "EIO"],
        "getcwd" => vec!["EACCES", "ENOMEM", "ENOENT"],
        "rename" | "unlink" | "link" | "chmod" | "trunc" | "sync" => vec!["EIO", "EACCES", "ENOSPC", "EROFS"],
        "access" => vec!["EACCES", "EIO"],
        _ => vec!["EIO"],
    }
}
pub fn fault(p: &Point, act: &str, arg: i64, count: u64) -> Fault { Fault { op: p.op.clone(), path: p.path.clone(), from: p.nth, count, act: act.into(), arg, proc: None } }
pub fn err_fault(r: &mut Rng, p: &Point) -> Fault {
    let e = errno(r.pick(&errnos(&p.op, &p.path)));
    fault(p, "err", e, *r.pick(&[1, 1, 1_000_000]))
}
/// how a run ended, coarsely: never the text
pub fn ended(o: &Outcome) -> String { match &o.end { End::Exit(c) => format!("exit {c}"), End::Signal(s) => format!("signal {s}"), e => format!("{e:?}") } }
/// A run must end by itself, with a status, and without a panic.
pub fn clean_end(o: &Outcome) -> Option<Viol> {
    match &o.end {
        End::Exit(_) if !panicked(o) => None,
        End::Exit(c) => viol("panic", format!("exit {c}, stderr: {}", show(&o.stderr))),
        End::Signal(s) => viol("killed", format!("signal {s}, stderr: {}", show(&o.stderr))),
        End::Budget => viol("hang", "the run exceeded its work budget"),
        End::Deadlock => viol("deadlock", "no thread can run"),
        End::Crashed => None,
        e => viol("abnormal", format!("{e:?}")),
    }
}
pub fn parse(b: &[u8]) -> Option<Value> {
    let mut d = serde_json::Deserializer::from_slice(b);
    d.disable_recursion_limit();
    let v = Value::deserialize(&mut d).ok()?;
    d.end().ok()?;
    Some(v)
}
/// stderr without what line wrapping and boxes add
pub fn squeeze(b: &[u8]) -> String { String::from_utf8_lossy(b).chars().filter(|c| !c.is_whitespace() && !('\u{2500}'..='\u{257f}').contains(c) && !('\u{2190}'..='\u{21ff}').contains(c)).collect() }
pub fn summary(c: &Case) -> String {
    let faults: Vec<String> = c.plans.iter().flat_map(|p| p.faults.iter().map(|f| format!("{} {} #{} {} {}", f.op, f.path, f.from, f.act, if f.act == "err" { errname(f.arg) } else { "" }))).take(3).collect();
    format!("argv {:?}, {} files, {} links, {} plans; faults e.g. {:?}; main: {}", c.argv(), c.world.files.len(), c.world.links.len(), c.plans.len(), faults, c.world.file(&main_real(&c.world)).map(|f| render(&f.body).0.chars().take(160).collect::<String>()).unwrap_or_default())
}
/// Cases whose shape the model does not cover (only the minimiser makes them).
/// Is `v` a default for the named type `n`, whichever definition of it is used?
fn fits(v: &Value, n: &str, w: &World, depth: usize) -> bool {
    depth > 0 && w.files.iter().all(|f| f.body.types().into_iter().filter(|t| t.full_in(&f.body.ns()) == n).all(|t| match &t.def {
        Def::Enum { syms, .. } => v.as_str().is_some_and(|v| syms.iter().any(|s| s == v)),
        Def::Fixed { size } => v.as_str().is_some_and(|v| v.chars().count() == *size as usize),
        Def::Rec { fields, .. } => v.as_object().is_some_and(|o| o.len() == fields.len() && fields.iter().all(|f| o.get(&f.n).is_some_and(|v| match &f.t { Ty::R(m) => fits(v, m, w, depth - 1), Ty::N(_) => v.is_null() || f.d.as_ref() == Some(v), _ => f.d.as_ref() == Some(v) || f.d.is_none() }))),
    }))
}
/// defaults of fields that refer to named types which do not fit
pub fn misfits(w: &World) -> Vec<(usize, String, String)> {
    let mut out = vec![];
    for (i, f) in w.files.iter().enumerate() {
        for t in f.body.types() {
            if let Def::Rec { fields, .. } = &t.def {
                for x in fields { if let (Ty::R(n), Some(d)) = (&x.t, &x.d) && !fits(d, n, w, 8) { out.push((i, t.name.clone(), x.n.clone())); } }
            }
        }
    }
    out
}
pub fn sane(w: &World) -> Result<(), No> {
    let bad = |m: &str| Err(No::Invalid(m.to_string()));
    fn ty(t: &Ty) -> bool {
        match t {
            Ty::U(v) => !v.is_empty() && v.iter().all(ty) && v.iter().enumerate().all(|(i, a)| v[..i].iter().all(|b| std::mem::discriminant(a) != std::mem::discriminant(b) || (matches!(a, Ty::P(_) | Ty::R(_)) && a != b))),
            Ty::A(t) | Ty::M(t) | Ty::AnnA(t, ..) => ty(t),
            Ty::N(t) => matches!(**t, Ty::P(_) | Ty::R(_) | Ty::L(_)) && **t != Ty::P("null".into()) && ty(t),
            Ty::P(p) | Ty::R(p) | Ty::L(p) | Ty::Ann(p, ..) => !p.is_empty(),
            Ty::Dec(p, s) => *p > 0 && s <= p,
            Ty::X(t, ps) => {
                let log = |k: &str| matches!(k, "logicalType" | "precision" | "scale");
                let dec = ps.iter().any(|p| p.0 == "logicalType" && p.1 == "decimal") && ps.iter().any(|p| p.0 == "precision");
                ty(t) && !ps.is_empty() && ps.iter().enumerate().all(|(i, p)| !p.0.is_empty() && ps[..i].iter().all(|q| q.0 != p.0) && (!log(&p.0) || matches!(**t, Ty::P(_))))
                    && matches!(**t, Ty::P(_) | Ty::L(_) | Ty::Dec(..) | Ty::A(_) | Ty::M(_)) && (!dec || ps.iter().any(|p| p.0 == "scale") && ps.iter().all(|p| !matches!(p.0.as_str(), "precision" | "scale") || p.1.as_u64().is_some_and(|n| n > 0 || p.0 == "scale")))
            }
        }
    }
    let field = |f: &Field| ty(&f.t) && !f.n.is_empty();
    if !misfits(w).is_empty() { return bad("default"); }
    for f in &w.files {
        for t in f.body.types() {
            if t.name.is_empty() { return bad("name"); }
            match &t.def {
                Def::Rec { fields, .. } => if !fields.iter().all(field) { return bad("field"); },
                Def::Enum { syms, def } => if syms.is_empty() || def.as_ref().is_some_and(|d| !syms.contains(d)) { return bad("enum"); },
                Def::Fixed { size } => if *size == 0 { return bad("fixed"); },
            }
        }
        match &f.body {
            Body::Idl { msgs, .. } | Body::Avpr { msgs, .. } => for m in msgs {
                if m.name.is_empty() || !m.params.iter().all(field) || m.ret.as_ref().is_some_and(|t| !ty(t)) { return bad("message"); }
                if m.oneway && m.ret.is_some() { return bad("oneway"); }
                if m.ret.is_some() && !m.props.is_empty() { return bad("props"); }
            },
            Body::Avsc { types, .. } => if types.is_empty() { return bad("empty schema file"); },
            _ => {}
        }
    }
    Ok(())
}

/// A run of the library driver: the tree, a script and a plan.
pub fn drv_job(fs: &Fs, cwd: &str, script: &Value, p: &Plan) -> Job {
    let mut j = Job::new(p.seed);
    j.cwd = cwd.to_string();
    j.fs = fs.clone();
    j.fs.insert("/drv/script".into(), Node { kind: b'f', mode: 0o644, data: script.to_string().into_bytes() });
    add_parents(&mut j.fs);
    for d in &p.dmg { if let Some(n) = j.fs.get_mut(&d.path) && n.kind == b'f' { d.apply(&mut n.data); } }
    j.faults = p.faults.clone();
    j.muts = p.muts.clone();
    j.knobs = p.knobs.clone();
    j.env = p.env.clone();
    j
}
/// The results of a driver script, one per step.
pub fn drv_out(o: &Outcome) -> Result<Vec<Value>, Viol> {
    if let Some(v) = clean_end(o) { return Err(v); }
    match (&o.end, parse(&o.stdout)) {
        (End::Exit(0), Some(Value::Array(a))) => Ok(a),
        _ => Err(Viol { class: "abnormal".into(), detail: format!("driver: {}: {}", ended(o), show(&o.stderr)) }),
    }
}
/// a result in which the library panicked
pub fn lib_panic(v: &Value) -> bool {
    match v { Value::Object(m) => m.contains_key("panic") || m.values().any(lib_panic), Value::Array(a) => a.iter().any(lib_panic), Value::String(s) => s == "thread panicked", _ => false }
}
pub fn short(v: &Value) -> String { v.to_string().chars().take(500).collect() }
/// A text cut short, or with something in it that does not belong there.
pub fn broken(r: &mut Rng, s: &str) -> String {
    let mut at = r.below(s.len() + 1);
    while !s.is_char_boundary(at) { at -= 1; }
    if r.chance(1, 2) { s[..at].to_string() } else { format!("{}{}{}", &s[..at], r.pick(&["}", "\"", ",,", "[", "#!", "@"]), &s[at..]) }
}
/// Change a file the way an editor would: another valid version, or one with an error.
pub fn edit(r: &mut Rng, b: &mut Body, k: u64) {
    let nt = |k: u64| Type { name: format!("Ed{k}"), ns: None, def: Def::Rec { err: false, fields: vec![Field { n: "e".into(), t: Ty::P("long".into()), d: None, doc: None, order: None, aliases: vec![], props: vec![], wunion: vec![] }] }, doc: Some(format!("edited {k}")), aliases: vec![], props: vec![], worphan: vec![], walias: vec![] };
    for _ in 0..r.range(1, 3) {
        match b {
            Body::Idl { decls, msgs, doc, wtail, tail, style, proto, .. } => match r.below(12) {
                0 | 1 => { let at = r.below(decls.len() + 1); decls.insert(at, Decl::T(nt(k))); }
                2 | 3 => if !decls.is_empty() { let i = r.below(decls.len()); decls.remove(i); },
                4 => wtail.push(format!("WE{k}X")),
                5 => *tail = r.pick(&["}}", "recrod X {", "record Z { int ; }", "union { int } ;"]).to_string(),
                6 => *style = r.u64() % 1_000_000,
                7 => if !msgs.is_empty() { let i = r.below(msgs.len()); msgs.remove(i); },
                8 => decls.push(Decl::I("idl".into(), format!("gone{k}.avdl"))),
                9 => if let Some(p) = proto { *p = format!("Edited{k}"); *doc = Some(format!("edited {k}")); },
                _ => for d in decls.iter_mut() { if let Decl::T(t) = d { t.doc = Some(format!("edited {k}")); if r.chance(1, 3) { t.worphan.push(format!("WO{k}{}X", t.name)); } } },
            },
            Body::Avpr { types, msgs, style, .. } => match r.below(5) {
                0 => types.push(nt(k)),
                1 => if !types.is_empty() { let i = r.below(types.len()); types.remove(i); },
                2 => if !msgs.is_empty() { let i = r.below(msgs.len()); msgs.remove(i); },
                3 => *style = r.u64() % 1_000_000,
                _ => for t in types.iter_mut() { t.doc = Some(format!("edited {k}")); },
            },
            Body::Avsc { types, .. } => if r.chance(1, 2) { types.push(nt(k)) } else { for t in types.iter_mut() { t.doc = Some(format!("edited {k}")); } },
            Body::Raw(s) => match r.below(4) {
                0 => s.push(' '),
                1 => *s = format!("\n\n{s}"),
                2 => *s = s.replace("\"name\"", &format!("\"nane{k}\"")),
                _ => *s = broken(r, s),
            },
        }
    }
    if r.chance(1, 16) { *b = Body::Raw(broken(r, &render(b).0)); }
    if r.chance(1, 20) { *b = Body::Raw(r.pick(&["", "{", "\"int\"", "protocol Q { }", "[1,2"]).to_string()); }
}
