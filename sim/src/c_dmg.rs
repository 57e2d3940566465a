//! C07 (damaged input) and C14 (files replaced while the compiler runs).
use crate::case::*;
use crate::common::*;
use crate::exec::*;
use crate::frame::*;
use crate::gener::*;
use crate::job::*;
use crate::rng::Rng;
use crate::spec::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;

fn to(c: &Case) -> Value { serde_json::to_value(c).unwrap() }
const SOUP: [&str; 72] = [
    "{", "}", "[", "]", "(", ")", "<", ">", ";", ",", "=", "@", "?", "\"", "'", "`", "/*", "*/", "/**", "//", "\\", "\\u12", "\\uD800", "-", ".", "..", "-1", "1e999", "0x7f", "99999999999999999999", "NaN", "-Infinity", "null", "true", "import", "idl",
    "schema", "protocol", "namespace", "record", "error", "enum", "fixed", "union", "array<", "map<", "decimal(", "decimal(5,9)", "oneway", "throws", "void", "date", "uuid", "@namespace(", "@aliases([", "@order(\"", "@logicalType(\"decimal\")", "{\"type\":", "\"fields\":[", "\u{feff}", "\u{1a}", "\u{2028}", "é", "𝔸",
    "\u{a0}", "\u{3000}", "\u{85}", "/**/", "/***/", "/** a\n\u{a0}b\n\u{a0} c */", "/** a\n\t\u{3000}b\n\t\u{3000}\u{2003} c */", "/** é\r\n * ü\n */",
];
const BAD: [&str; 12] = ["ff", "c3", "e282", "f09f98", "eda080", "c0af", "fe", "80", "00", "0d", "efbbbf", "f4908080"];
/// Damage of every kind to one of the given files.
pub fn damage(r: &mut Rng, files: &[(String, Vec<u8>)]) -> Option<Dmg> {
    if files.is_empty() { return None; }
    let (path, b) = r.pick(files);
    let n = b.len();
    // half of the time at a token boundary, where structure changes rather than names
    let at = |r: &mut Rng| -> usize {
        if n == 0 { return 0; }
        if r.chance(1, 2) { return r.below(n + 1); }
        let v: Vec<usize> = (0..n).filter(|&i| !b[i].is_ascii_alphanumeric()).collect();
        if v.is_empty() { r.below(n + 1) } else { *r.pick(&v) + r.below(2) }
    };
    let off = at(r);
    let off2 = at(r);
    let len = *r.pick(&[1, 2, 3, 5, 8, 16, 40, 64, 200, 512]);
    let mut d = Dmg { path: path.clone(), kind: String::new(), off, len, arg: 0, data: String::new() };
    let kind = match r.below(18) {
        0 | 1 => "trunc",
        2..=4 => { d.arg = r.below(8); "flip" }
        5 => { if r.chance(1, 2) { d.off = off & !511; d.len = 512; } "zero" }
        6 | 7 => { d.arg = *r.pick(&[1, 1, 2, 4, 8]); "dup" }
        8 => { d.arg = off2; "swap" }
        9 => { d.arg = off2; "over" }
        10 => { d.data = r.pick(&BAD).to_string(); "set" }
        11 => { d.data = r.pick(&BAD).to_string(); "ins" }
        12 => "del",
        13 => { d.data = hex(r.pick(&SOUP).as_bytes()); "set" }
        14 => { d.data = hex(r.pick(&SOUP).repeat(r.range(1, 30)).as_bytes()); "ins" }
        15 => { let k = r.range(1, 24); d.data = hex(&(0..k).map(|_| r.u64() as u8).collect::<Vec<_>>()); if r.chance(1, 2) { "set" } else { "ins" } }
        _ => { let k = r.range(1, 6); let mut s = String::new(); for _ in 0..k { s.push_str(r.pick(&SOUP)); s.push_str(r.pick(&["", " ", "\n"])); } d.data = hex(s.as_bytes()); "ins" }
    };
    d.kind = kind.into();
    Some(d)
}
pub struct C07;
impl Check for C07 {
    fn id(&self) -> &'static str { "C07" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 3_600 } else { 120_000 } }
    fn rule(&self) -> &'static str { "seeded source tree and command, 8 damage plans each (truncation, bit flips, zeroed, duplicated, swapped, overwritten and removed blocks, invalid UTF-8, stray tokens) to any file it reads, at rest or struck between two reads of it; non-trivial: the damage changed what was read" }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(1, 4) { Opts::wide() } else { Opts::small() };
        o.warn = 15;
        let mut c = gen_case(r, o);
        // (each diagnostic prints its whole source line, so that damage to large files costs much)
        if crate::c_imp::bytes(&c.world) > 16_000 { c = gen_case(r, Opts { bulk: 0, ..Opts::small() }); }
        if r.chance(1, 8) { sabotage(r, &mut c.world); }
        match r.below(6) {
            0 => if let Cmd::Idl { stdin, .. } = &mut c.cmd { *stdin = true; },
            1 => { let d = r.pick(&["/w", "/w/sub", "/inc1"]).to_string(); c.world.dirs.push(d.clone()); c.cmd = Cmd::Schemata { input: Some(d), out: Some("/out/x".into()) }; }
            _ => {}
        }
        let j0 = c.job(&Plan::default());
        let base = ex.cli(&j0)?;
        let mut files: Vec<(String, Vec<u8>)> = vec![];
        for e in base.events() { if e.op == "read" && let Some(n) = j0.fs.get(&e.path) && n.kind == b'f' && !files.iter().any(|f| f.0 == e.path) { files.push((e.path.clone(), n.data.clone())); } }
        if !j0.stdin.is_empty() { files.push(("<stdin>".into(), j0.stdin.clone())); }
        for _ in 0..8 {
            let mut p = Plan { seed: r.u64(), ..Default::default() };
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) { if let Some(d) = damage(r, &files) { p.dmg.push(d); } }
            if r.chance(1, 8) && let Some(d) = p.dmg.first().cloned() && d.path != "<stdin>" {
                // strikes between two reads of the file
                let mut b = files.iter().find(|f| f.0 == d.path).unwrap().1.clone();
                d.apply(&mut b);
                p.dmg.clear();
                p.knobs.insert("file_chunk".into(), *r.pick(&[7, 64]));
                p.muts.push(Mut { kind: "overwrite".into(), path: d.path.clone(), data: b, mode: 0o644 });
                p.faults.push(Fault { op: "read".into(), path: d.path, from: r.range(1, 6) as u64, count: 1, act: "mutate".into(), arg: 0, proc: None });
            } else if r.chance(1, 6) { noise(r, &mut p); }
            c.plans.push(p);
        }
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        let clean = c.job(&Plan::default());
        for (i, p) in c.plans.iter().enumerate() {
            if p.faults.iter().any(|f| f.act != "mutate") { return Err(No::Invalid("fault".into())); }
            let mut j = c.job(p);
            // every diagnostic prints its whole source line, so work may grow with the product of that and the size
            let l = j.fs.values().map(|n| n.data.as_slice()).chain([j.stdin.as_slice()]).chain(p.muts.iter().map(|m| m.data.as_slice())).flat_map(|b| b.split(|x| *x == b'\n').map(|l| l.len())).max().unwrap_or(0) as i64;
            let n = l * (j.fs.values().map(|n| n.data.len()).sum::<usize>() + j.stdin.len() + p.muts.iter().map(|m| m.data.len()).sum::<usize>()) as i64;
            j.knobs.insert("edge_budget".into(), 400_000_000 + 4_000 * n);
            j.knobs.insert("step_budget".into(), 200_000 + 10 * n);
            let o = ex.cli(&j)?;
            let here = |x: String| format!("plan {i} ({}): {x}", describe_dmg(p));
            if j.fs != clean.fs || j.stdin != clean.stdin || o.fired.iter().sum::<u64>() > 0 { ex.nontrivial = true; }
            if let Some(x) = clean_end(&o) { return Ok(viol(&x.class, here(x.detail))); }
            // files the fault itself rewrote
            let mine = |q: &str| p.muts.iter().any(|m| m.path == q);
            let ch: Vec<(String, &str)> = fs_changes(&image(&j), &o.fs).into_iter().filter(|(q, _)| !mine(q)).collect();
            match &o.end {
                End::Exit(0) => {
                    ex.st.probe("survived-damage");
                    if matches!(&c.cmd, Cmd::Idl { .. }) && c.out_abs().is_none() && parse(&o.stdout).is_none() { return Ok(viol("not-json", here(format!("exit 0 with {}", show(&o.stdout))))); }
                    for (q, _) in ch { if let Some(n) = o.fs.get(&q) && n.kind == b'f' && parse(&n.data).is_none() { return Ok(viol("not-json", here(format!("{q}: {}", show(&n.data))))); } }
                }
                End::Exit(1) => {
                    ex.st.probe("rejected-damage");
                    if o.stderr.iter().all(|b| b.is_ascii_whitespace()) { return Ok(viol("silent", here("exit 1 without a diagnostic".into()))); }
                    if !o.stdout.is_empty() { return Ok(viol("stdout-on-failure", here(show(&o.stdout)))); }
                    if let Some((q, w)) = ch.first() { return Ok(viol("file-touched-on-failure", here(format!("{q} was {w}")))); }
                }
                e => return Ok(viol("status", here(format!("{e:?}")))),
            }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["bounded work is judged as 200 thousand system calls and 400 million executed edges, plus 10 and 4000 per byte of the sources and byte of the longest line, for inputs of up to 16 kilobytes (each diagnostic prints its whole source line, piecewise)", "nesting stays below the depth at which the parser's recursion exhausts the stack (see the known finding)"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| format!("{}; damage e.g. {}", summary(&c), c.plans.first().map(describe_dmg).unwrap_or_default())).unwrap_or_default() }
}
pub fn describe_dmg(p: &Plan) -> String {
    let f: Vec<String> = p.dmg.iter().map(|d| format!("{} {} at {} len {} arg {} {}", d.kind, d.path, d.off, d.len, d.arg, d.data)).collect();
    let m: Vec<String> = p.faults.iter().filter_map(|f| Some(format!("{} of {} before {} #{}", p.muts.get(f.arg as usize)?.kind, p.muts.get(f.arg as usize)?.path, f.op, f.from))).collect();
    format!("{f:?} {m:?} knobs {:?}", p.knobs)
}

// ------------------------------------------------------------------ C14
pub struct C14;
/// what a run did, apart from the replaced files themselves
fn seen(o: &Outcome, p: &[Mut]) -> (String, Vec<u8>, Vec<u8>, Fs) {
    let mut fs = o.fs.clone();
    for m in p { fs.remove(&m.path); }
    (ended(o), o.stdout.clone(), o.stderr.clone(), fs)
}
impl Check for C14 {
    fn id(&self) -> &'static str { "C14" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 1_200 } else { 60_000 } }
    fn rule(&self) -> &'static str { "seeded source tree and command (or library call); 10 plans each atomically replace one or two of the files it reads, by other valid or invalid versions, just before a randomly chosen system call; the outcome must be that of one combination of whole versions; non-trivial: a replacement happened while the command ran and the versions differ in outcome" }
    fn required(&self) -> Vec<&'static str> { vec!["old-version", "new-version"] }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(1, 3) { Opts::wide() } else { Opts::small() };
        o.warn = *r.pick(&[10, 40]);
        let mut c = gen_case(r, o);
        if r.chance(1, 10) { sabotage(r, &mut c.world); }
        if r.chance(1, 6) { let i = r.below(c.world.files.len()); let b = &mut c.world.files[i].body; *b = Body::Raw(broken(r, &render(b).0)); }
        c.note = json!(r.chance(1, 4));
        if r.chance(1, 8) && let Cmd::Idl { stdin, .. } = &mut c.cmd { *stdin = true; }
        let base = run14(&c, &Plan::default(), None, ex)?;
        let ps: Vec<Point> = points(&base).into_iter().filter(|p| !p.path.starts_with("/drv/") && p.path != "<stderr>" || r.chance(1, 20)).collect();
        let fs = c.job(&Plan::default()).fs;
        let mut read: Vec<String> = vec![];
        for e in base.events() { if e.op == "read" && fs.get(&e.path).is_some_and(|n| n.kind == b'f') && !read.contains(&e.path) { read.push(e.path.clone()); } }
        if read.is_empty() || ps.is_empty() { return Err(No::Invalid("nothing read".into())); }
        let mut env = [Plan { seed: r.u64(), ..Default::default() }, Plan::default()];
        noise(r, &mut env[1]);
        if r.chance(1, 2) { env[0].knobs.insert("file_chunk".into(), *r.pick(&[16, 64, 200])); }
        for e in &mut env { e.knobs.remove("write_chunk"); }
        for k in 0..10 {
            let mut p = env[k as usize % 2].clone();
            for _ in 0..*r.pick(&[1, 1, 1, 2]) {
                let path = r.pick(&read).clone();
                if p.muts.iter().any(|m| m.path == path) { continue; }
                let Some(f) = c.world.file(&path) else { continue };
                let mut b = f.body.clone();
                edit(r, &mut b, k);
                // at calls on the file itself, before its last read, or anywhere
                let last = ps.iter().rposition(|q| q.path == path && q.op == "read").unwrap_or(ps.len() - 1);
                let v: Vec<&Point> = match r.below(3) { 0 => ps.iter().filter(|q| q.path == path).collect(), 1 => ps[..=last].iter().collect(), _ => ps.iter().collect() };
                let q = if v.is_empty() { r.pick(&ps) } else { *r.pick(&v) };
                let mut f = fault(q, "mutate", p.muts.len() as i64, 1);
                if f.op == "read" && p.knobs.contains_key("file_chunk") && r.chance(1, 2) { f.from = r.below(20) as u64; }
                p.faults.push(f);
                p.muts.push(Mut { kind: "replace".into(), path, data: render(&b).0.into_bytes(), mode: 0o644 });
            }
            if !p.muts.is_empty() { c.plans.push(p); }
        }
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Case = de(v)?;
        if matches!(&c.cmd, Cmd::Schemata { input: Some(_), .. }) { return Err(No::Invalid("directory".into())); }
        let inputs = c.job(&Plan::default()).fs;
        let mut olds: Vec<(u64, BTreeMap<String, i64>, Outcome)> = vec![];
        for (i, p) in c.plans.iter().enumerate() {
            if p.faults.iter().any(|f| f.act != "mutate") || p.muts.iter().any(|m| m.kind != "replace" || !inputs.get(&m.path).is_some_and(|n| n.kind == b'f')) || p.muts.len() > 2 { return Err(No::Invalid("fault".into())); }
            if p.muts.len() == 2 && p.muts[0].path == p.muts[1].path { return Err(No::Invalid("same file".into())); }
            let o = run14(&c, p, None, ex)?;
            if let Some(x) = clean_end(&o) { return Ok(Some(x)); }
            let got = seen(&o, &p.muts);
            let mut all = vec![];
            let mut hit = false;
            for mask in 0..1usize << p.muts.len() {
                // the run with the old version of every file is shared between plans
                let o2 = match olds.iter().find(|x| mask == 0 && x.0 == p.seed && x.1 == p.knobs) {
                    Some(x) => x.2.clone(),
                    None => { let o = run14(&c, p, Some(mask), ex)?; if mask == 0 { olds.push((p.seed, p.knobs.clone(), o.clone())); } o }
                };
                if let Some(x) = clean_end(&o2) { return Ok(Some(x)); }
                let s = seen(&o2, &p.muts);
                if s == got && !hit { hit = true; ex.st.probe(if mask == 0 { "old-version" } else { "new-version" }); }
                all.push(s);
            }
            if o.fired.iter().sum::<u64>() > 0 && all.iter().any(|s| *s != all[0]) { ex.nontrivial = true; }
            if !hit {
                let m: Vec<String> = p.faults.iter().map(|f| format!("{} replaced before {} {} #{}", p.muts.get(f.arg as usize).map_or("", |m| m.path.as_str()), f.op, f.path, f.from)).collect();
                let side = |s: &(String, Vec<u8>, Vec<u8>, Fs)| format!("{}: {} | {} | {} files", s.0, show(&s.1).chars().take(200).collect::<String>(), show(&s.2).chars().take(200).collect::<String>(), s.3.len());
                return Ok(viol("mixed-versions", format!("plan {i}, {m:?}: {}\nmatches neither {}", side(&got), all.iter().map(side).collect::<Vec<_>>().join("\nnor "))));
            }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["a replacement is atomic (write to a new file, rename over); in-place rewriting is storage damage (C07)", "one command compiles one file; a directory of inputs compiles each on its own and may see a shared import in two versions"] }
    fn one_line(&self, v: &Value) -> String { de::<Case>(v).map(|c| summary(&c)).unwrap_or_default() }
}
/// the command or the library call; `versions`: no replacement, but the files given are new from the start
fn run14(c: &Case, p: &Plan, versions: Option<usize>, ex: &mut Exec) -> Result<Outcome, No> {
    let lib = c.note.as_bool() == Some(true);
    let mut j = if lib {
        let b = c.job(&Plan::default());
        let mut s = vec![json!({"op": "new", "b": 1, "kind": if c.is_schemata() { "sch" } else { "idl" }})];
        for d in &c.world.idirs { s.push(json!({"op": "dir", "b": 1, "path": d})); }
        s.push(json!({"op": "path", "b": 1, "path": c.world.main}));
        s.push(json!({"op": "drain", "b": 1}));
        drv_job(&b.fs, &c.world.cwd, &Value::Array(s), p)
    } else { c.job(p) };
    if let Some(mask) = versions {
        for (k, m) in p.muts.iter().enumerate() { if mask >> k & 1 == 1 && let Some(n) = j.fs.get_mut(&m.path) { n.data = m.data.clone(); } }
        // standard input was rendered from the old version and stays
        j.faults.clear();
        j.muts.clear();
    }
    if lib { ex.drv(&j) } else { ex.cli(&j) }
}
