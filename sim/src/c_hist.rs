//! C18: commands one after the other over one file system that keeps what they left.
use crate::case::*;
use crate::common::*;
use crate::exec::*;
use crate::frame::*;
use crate::gener::*;
use crate::job::*;
use crate::rng::Rng;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step {
    /// files written before the run, files removed
    #[serde(default)]
    pub set: Vec<File>,
    #[serde(default)]
    pub del: Vec<String>,
    /// the written files keep an old modification time (restored, copied with times)
    #[serde(default)]
    pub aged: bool,
    pub main: String,
    pub cmd: Cmd,
    /// time that passes before the run, in nanoseconds (negative: the clock is set back)
    #[serde(default)]
    pub dt: i64,
    #[serde(default)]
    pub plan: Plan,
    /// outputs of earlier steps that others have damaged: which (of those there are), how
    #[serde(default)]
    pub spoil: Vec<(usize, u8)>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Hist { pub world: World, pub steps: Vec<Step> }
const T0: u64 = 1_600_000_000_000_000_000;
const HOUR: u64 = 3_600_000_000_000;

fn base_case(w: &World, s: &Step) -> Case {
    let mut w = w.clone();
    w.main = s.main.clone();
    let mut c = Case::new(w, s.cmd.clone());
    for d in ["/out/", "/w/o/", "/w/gen/"] { c.pre.push((d.into(), String::new())); }
    c
}
/// another text of the same length
fn same_length(r: &mut Rng, b: &mut Body) -> bool {
    let digit = |s: &mut String, r: &mut Rng| -> bool {
        let Some(i) = s.rfind(|c: char| c.is_ascii_digit()) else { return false };
        let old = s.as_bytes()[i];
        let mut new = b'0' + r.below(10) as u8;
        if new == old { new = if old == b'9' { b'1' } else { old + 1 }; }
        s.replace_range(i..i + 1, &(new as char).to_string());
        true
    };
    let mut done = false;
    if let Body::Idl { doc: Some(d), .. } = b { done |= digit(d, r); }
    for t in b.types_mut() {
        if let Some(d) = &mut t.doc { done |= digit(d, r); }
        if let Def::Fixed { size } = &mut t.def && t.props.is_empty() && *size < 60 && *size % 10 != 9 && *size > 0 { *size += 1; done = true; }
    }
    done
}
pub struct C18;
impl Check for C18 {
    fn id(&self) -> &'static str { "C18" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 3_500 } else { 80_000 } }
    fn rule(&self) -> &'static str { "seeded histories of 3-7 commands over one file system with edits in between (also of equal length, with old modification times, or files removed, or outputs damaged by others), time passing or set back, and runs that fail or are killed; every undisturbed command is compared with the same command over the bare sources; non-trivial: an earlier run left an output that this one writes again" }
    fn required(&self) -> Vec<&'static str> { vec!["rewrote-an-output", "after-a-crash", "after-an-error", "same-length-edit", "aged-edit", "clock-back", "damaged-output"] }
    fn generate(&self, r: &mut Rng, _ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = if r.chance(1, 4) { Opts::wide() } else { Opts::small() };
        o.warn = *r.pick(&[10, 30]);
        let w = Gen::new(r, o).world();
        let mut cur = w.clone();
        let mut steps: Vec<Step> = vec![];
        let mut cmd = gen_cmd(r, &w);
        for i in 0..r.range(3, 8) {
            let mut s = Step { set: vec![], del: vec![], aged: r.chance(1, 3), main: w.main.clone(), cmd: cmd.clone(), dt: *r.pick(&[0, 1, 1_000_000, 1_000_000_000, HOUR as i64, -(HOUR as i64)]), plan: Plan { seed: r.u64(), ..Default::default() }, spoil: vec![] };
            if i > 0 && r.chance(1, 3) { for _ in 0..r.range(1, 4) { s.spoil.push((r.below(20), r.below(7) as u8)); } }
            if i > 0 && r.chance(1, 4) { s.cmd = gen_cmd(r, &w); if r.chance(1, 2) { cmd = s.cmd.clone(); } }
            if r.chance(1, 12) { s.cmd = Cmd::Schemata { input: Some(r.pick(&["/w", "."]).to_string()), out: Some("gen".into()) }; }
            if i > 0 && r.chance(3, 4) {
                for _ in 0..r.range(1, 3) {
                    if cur.files.is_empty() { break; }
                    let k = r.below(cur.files.len());
                    match r.below(8) {
                        0 => { s.del.push(cur.files[k].path.clone()); cur.files.remove(k); continue; }
                        1..=3 => { if !same_length(r, &mut cur.files[k].body) { continue; } }
                        // back to what it was in the beginning
                        4 => { let p = cur.files[k].path.clone(); if let Some(f) = w.file(&p) { cur.files[k] = f.clone(); } }
                        _ => edit(r, &mut cur.files[k].body, i as u64 * 10 + 1),
                    }
                    let f = cur.files[k].clone();
                    s.set.retain(|x| x.path != f.path);
                    s.set.push(f);
                }
            }
            // what was removed comes back
            for f in &w.files { if cur.file(&f.path).is_none() && !s.del.contains(&f.path) && r.chance(1, 2) { cur.files.push(f.clone()); s.set.push(f.clone()); } }
            if r.chance(1, 4) { noise(r, &mut s.plan); }
            if i > 0 && r.chance(1, 3) {
                let op = r.pick(&["write", "write", "write", "open", "mkdir", "any", "rename", "close"]).to_string();
                let from = if op == "any" { r.below(120) } else { r.below(4) } as u64;
                let (act, arg) = match r.below(4) { 0 if op == "write" || op == "open" => ("err", errno(r.pick(&["ENOSPC", "EIO"]))), 1 if op == "write" => ("crash_partial", r.below(200) as i64), 2 => ("crash_after", 0), _ => ("crash_before", 0) };
                s.plan.faults.push(Fault { op, path: "*".into(), from, count: 1, act: act.into(), arg, proc: None });
            }
            steps.push(s);
        }
        Ok(serde_json::to_value(&Hist { world: w, steps }).unwrap())
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let h: Hist = de(v)?;
        if h.steps.is_empty() { return Err(No::Invalid("no steps".into())); }
        let mut cur = h.world.clone();
        let mut fs = base_case(&cur, &h.steps[0]).job(&Plan::default()).fs;
        // a file that goes leaves its directory
        let dirs = |fs: &Fs| fs.iter().filter(|(p, n)| n.kind == b'd' && p.as_str() != "/").map(|(p, _)| p.clone()).collect::<Vec<_>>();
        cur.dirs = dirs(&fs);
        let mut times: BTreeMap<String, u64> = fs.keys().map(|p| (p.clone(), T0 - HOUR)).collect();
        let mut now = T0;
        let (mut crashed, mut failed) = (false, false);
        for (i, s) in h.steps.iter().enumerate() {
            for p in &s.del { cur.files.retain(|f| f.path != *p); fs.remove(p); times.remove(p); }
            for f in &s.set {
                if let Some(o) = cur.files.iter_mut().find(|x| x.path == f.path) {
                    if render(&o.body).0.len() == render(&f.body).0.len() && o.body != f.body { ex.st.probe("same-length-edit"); }
                    *o = f.clone();
                } else { cur.files.push(f.clone()); }
                if fs.get(&f.path).is_some_and(|n| n.kind != b'f') { return Err(No::Invalid("file over a directory".into())); }
                fs.insert(f.path.clone(), Node { kind: b'f', mode: 0o644, data: render(&f.body).0.into_bytes() });
                times.insert(f.path.clone(), if s.aged { T0 - HOUR } else { now });
                if s.aged { ex.st.probe("aged-edit"); }
            }
            if !s.set.is_empty() {
                let mut files: Fs = s.set.iter().map(|f| (f.path.clone(), Node { kind: b'f', mode: 0o644, data: vec![] })).collect();
                add_parents(&mut files);
                cur.dirs.extend(dirs(&files));
            }
            add_parents(&mut fs);
            let outs: Vec<String> = fs.iter().filter(|(p, n)| n.kind == b'f' && cur.file(p).is_none() && h.world.file(p).is_none()).map(|(p, _)| p.clone()).collect();
            for (k, how) in &s.spoil {
                if outs.is_empty() { break; }
                let p = &outs[k % outs.len()];
                let d = &mut fs.get_mut(p).unwrap().data;
                match how {
                    0 => d.extend(b"rest of a longer file\n"),
                    1 => d.truncate(d.len() / 2),
                    2 => d.clear(),
                    3 => if let Some(b) = d.last_mut() { *b ^= 1 },
                    4 => d.truncate(d.len().saturating_sub(1)),
                    5 => d.insert(0, b' '),
                    _ => if let Some(i) = d.iter().position(|b| b.is_ascii_digit()) { d[i] ^= 1 },
                }
                ex.st.probe("damaged-output");
                if !s.aged { times.insert(p.clone(), now); }
            }
            now = now.saturating_add_signed(s.dt);
            if s.dt < 0 { ex.st.probe("clock-back"); }
            let c = base_case(&cur, s);
            let mut j = c.job(&s.plan);
            j.fs = fs.clone();
            j.now = now;
            j.mtimes = times.iter().filter(|(p, _)| fs.contains_key(*p)).map(|(p, t)| (p.clone(), *t)).collect();
            let o = ex.cli(&j)?;
            let before = std::mem::replace(&mut fs, o.fs.clone());
            times = o.mtimes.clone();
            now = o.now.max(now);
            if o.fired.iter().any(|f| *f > 0) { if o.end == End::Crashed { crashed = true; } else { failed = true; } continue; }
            if let Some(v) = clean_end(&o) { return Ok(viol(&v.class, format!("step {i}: {}", v.detail))); }
            // the same command where no run has been before
            let j0 = c.job(&Plan::default());
            let fresh = ex.cli(&j0)?;
            let made: BTreeMap<String, Node> = fs_changes(&j0.fs, &fresh.fs).into_iter().filter_map(|(p, _)| fresh.fs.get(&p).map(|n| (p, n.clone()))).collect();
            for (p, n) in &made {
                if cur.files.iter().any(|f| f.path == *p) || h.world.links.iter().any(|l| l.0 == *p) || before.get(p).is_some_and(|b| b.kind != n.kind) { return Err(No::Invalid("outputs over inputs".into())); }
                if n.kind == b'f' && before.contains_key(p) { ex.nontrivial = true; ex.st.probe("rewrote-an-output"); }
            }
            let here = |x: String| format!("step {i} ({:?}): {x}", c.argv());
            if (&o.end, &o.stdout, &o.stderr) != (&fresh.end, &fresh.stdout, &fresh.stderr) {
                return Ok(viol("history-shows", here(format!("{}; stdout {}; stderr {}\nbut over the bare sources: {}; stdout {}; stderr {}", ended(&o), show(&o.stdout), show(&o.stderr), ended(&fresh), show(&fresh.stdout), show(&fresh.stderr)))));
            }
            for (p, n) in &made { if o.fs.get(p) != Some(n) { return Ok(viol("stale-output", here(format!("{p} is {}\nbut over the bare sources {}", o.fs.get(p).map(|n| show(&n.data)).unwrap_or("missing".into()), show(&n.data))))); } }
            let outs: BTreeSet<&String> = made.keys().collect();
            for (p, what) in fs_changes(&before, &o.fs) { if !outs.contains(&p) { return Ok(viol("touched-something-else", here(format!("{p} was {what}")))); } }
            if crashed { ex.st.probe("after-a-crash"); }
            if failed { ex.st.probe("after-an-error"); }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["outputs of one step are never sources of another", "an output and an output directory never share a path"] }
    fn one_line(&self, v: &Value) -> String { de::<Hist>(v).map(|h| format!("{} files; {}", h.world.files.len(), h.steps.iter().map(|s| format!("{:+}s {}{}{}", s.dt / 1_000_000_000, s.set.iter().map(|f| format!("edit {} ", f.path)).collect::<String>(), base_case(&h.world, s).argv().join(" "), s.plan.faults.iter().map(|f| format!(" [{} {}]", f.op, f.act)).collect::<String>())).collect::<Vec<_>>().join("; "))).unwrap_or_default() }
}
