//! C17: several commands at the same time over one file system.
use crate::c_cli::describe;
use crate::case::*;
use crate::common::*;
use crate::exec::*;
use crate::frame::*;
use crate::gener::*;
use crate::job::*;
use crate::rng::Rng;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PCmd { pub main: String, pub cmd: Cmd }
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Par {
    pub world: World,
    pub cmds: Vec<PCmd>,
    #[serde(default)]
    pub pre: Vec<(String, String)>,
    /// files the first command makes and the second one reads
    #[serde(default)]
    pub feed: Vec<String>,
    #[serde(default)]
    pub plans: Vec<Plan>,
    /// (operation, process), instead of what the plan's seed chooses
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub schedule: Option<Vec<(u64, u64)>>,
}
fn to(c: &Par) -> Value { serde_json::to_value(c).unwrap() }
impl Par {
    fn alone(&self, k: usize) -> Case {
        let mut w = self.world.clone();
        w.main = self.cmds[k].main.clone();
        let mut c = Case::new(w, self.cmds[k].cmd.clone());
        c.pre = self.pre.clone();
        c
    }
    fn solo(&self, k: usize) -> Job { self.alone(k).job(&Plan::default()) }
    fn joint(&self, p: &Plan) -> Job {
        let mut j = self.alone(0).job(p);
        j.others = (1..self.cmds.len()).map(|k| { let o = self.solo(k); Proc { argv: o.argv, env: p.env.clone(), cwd: o.cwd, stdin: o.stdin } }).collect();
        j.schedule = self.schedule.clone();
        j
    }
}
type Res = (End, Vec<u8>, Vec<u8>);
fn res(o: &Outcome) -> Res { (o.end.clone(), o.stdout.clone(), o.stderr.clone()) }
fn all(o: &Outcome) -> Vec<Res> { std::iter::once(res(o)).chain(o.others.iter().map(|s| (s.end.clone(), s.stdout.clone(), s.stderr.clone()))).collect() }
/// what a run changed: path and what is there now
fn delta(a: &Fs, b: &Fs) -> BTreeMap<String, Option<Node>> { fs_changes(a, b).into_iter().map(|(p, _)| { let n = b.get(&p).cloned(); (p, n) }).collect() }
fn bad_end(r: &Res) -> Option<Viol> {
    match &r.0 {
        End::Exit(c) if *c != 101 && !String::from_utf8_lossy(&r.2).contains("panicked at") => None,
        End::Crashed => None,
        End::Exit(_) => viol("panic", show(&r.2)),
        End::Budget | End::Deadlock => viol("hang", format!("{:?}", r.0)),
        e => viol("abnormal", format!("{e:?}: {}", show(&r.2))),
    }
}
fn tell(r: &Res) -> String { format!("{:?}; stdout {}; stderr {}", r.0, show(&r.1), show(&r.2)) }

pub struct C17;
impl C17 {
    fn beside(&self, c: &Par, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let n = c.cmds.len();
        let mut solo = vec![];
        let fs0 = image(&c.solo(0));
        let mut want: BTreeMap<String, Option<Node>> = BTreeMap::new();
        let mut by: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for k in 0..n {
            let o = ex.cli(&c.solo(k))?;
            let d = delta(&fs0, &o.fs);
            for (p, v) in d {
                if c.world.files.iter().any(|f| f.path == p) { return Err(No::Invalid("writes an input".into())); }
                if want.get(&p).is_some_and(|w| *w != v) { return Err(No::Invalid("commands that disagree".into())); }
                by.entry(p.clone()).or_default().insert(k);
                want.insert(p, v);
            }
            // an output that was there already, with the same content, is written all the same
            for e in o.events() { let q = norm(&e.path); if e.op == "open" && o.fs.contains_key(&q) && !c.world.files.iter().any(|f| f.path == q) { by.entry(q).or_default().insert(k); } }
            solo.push(o);
        }
        for (i, p) in c.plans.iter().enumerate() {
            let hit: Option<usize> = if p.faults.is_empty() { None } else { p.faults[0].proc.map(|k| k as usize) };
            if p.faults.iter().any(|f| f.proc.map(|k| k as usize) != hit || f.proc.is_none()) { return Err(No::Invalid("fault of no one process".into())); }
            let o = ex.cli(&c.joint(p))?;
            if o.switches.len() >= 3 { ex.nontrivial = true; ex.st.probe("interleaved"); }
            let here = |x: String| format!("plan {i} ({}): {x}", describe(p));
            for (k, r) in all(&o).iter().enumerate() {
                if let Some(v) = bad_end(r) { return Ok(viol(&v.class, here(format!("process {k} ({:?}): {}", c.alone(k).argv(), v.detail)))); }
                if Some(k) == hit && o.fired.iter().any(|f| *f > 0) { ex.st.probe(if r.0 == End::Crashed { "one-died" } else { "one-failed" }); continue; }
                if *r != res(&solo[k]) { return Ok(viol("disturbed", here(format!("process {k} ({:?}): {}\nbut alone: {}", c.alone(k).argv(), tell(r), tell(&res(&solo[k])))))); }
            }
            let got = delta(&fs0, &o.fs);
            for p in want.keys().chain(got.keys()).collect::<BTreeSet<_>>() {
                let w = by.get(p);
                if let (Some(h), Some(w)) = (hit, w) && w.contains(&h) { continue; }
                if hit.is_some() && w.is_none() && !fs0.contains_key(p) { continue; } // what a dead process leaves is for C04
                if want.get(p) != got.get(p) { return Ok(viol("files-differ", here(format!("{p} is {} after running together, and {} after running one by one", say(got.get(p)), say(want.get(p)))))); }
            }
            if by.values().any(|s| s.len() > 1) { ex.st.probe("shared-output"); }
        }
        Ok(None)
    }
    fn feeding(&self, c: &Par, ex: &mut Exec) -> Result<Option<Viol>, No> {
        if c.cmds.len() != 2 { return Err(No::Invalid("two commands".into())); }
        let maker = ex.cli(&c.solo(0))?;
        let fs0 = image(&c.solo(0));
        let made = delta(&fs0, &maker.fs);
        // also what it writes again with the same content
        let mut his: BTreeSet<String> = made.keys().cloned().collect();
        for e in maker.events() { let q = norm(&e.path); if e.op == "open" && maker.fs.contains_key(&q) && !c.world.files.iter().any(|f| f.path == q) { his.insert(q); } }
        if !maker.ok() { return Err(No::Invalid("the maker fails".into())); }
        if c.feed.iter().any(|f| fs0.contains_key(f) && made.contains_key(f)) || c.feed.len() > 3 || c.feed.is_empty() { return Err(No::Invalid("changed artefacts".into())); }
        // what the reader gives over every set of complete artefacts
        let mut fine: Vec<(Res, BTreeMap<String, Option<Node>>)> = vec![];
        let news: Vec<&String> = c.feed.iter().filter(|f| made.contains_key(*f)).collect();
        for m in 0..1u32 << news.len() {
            let mut j = c.solo(1);
            for (i, f) in news.iter().enumerate() { if m >> i & 1 == 1 { if let Some(Some(n)) = made.get(*f) { j.fs.insert((*f).clone(), n.clone()); } } }
            add_parents(&mut j.fs);
            let f0 = j.fs.clone();
            let o = ex.cli(&j)?;
            let d = delta(&f0, &o.fs);
            if d.keys().any(|p| his.contains(p) && made.get(p) != d.get(p)) { return Err(No::Invalid("both write".into())); }
            if o.ok() { fine.push((res(&o), d)); }
        }
        for (i, p) in c.plans.iter().enumerate() {
            if p.faults.iter().any(|f| f.proc != Some(0)) { return Err(No::Invalid("only the maker fails".into())); }
            let o = ex.cli(&c.joint(p))?;
            if o.switches.len() >= 3 { ex.nontrivial = true; ex.st.probe("interleaved"); }
            let rs = all(&o);
            let here = |x: String| format!("plan {i} ({}): {x}", describe(p));
            for (k, r) in rs.iter().enumerate() { if let Some(v) = bad_end(r) { return Ok(viol(&v.class, here(format!("process {k}: {}", v.detail)))); } }
            let died = o.fired.iter().any(|f| *f > 0);
            if died { ex.st.probe("maker-died"); } else if rs[0] != res(&maker) { return Ok(viol("disturbed", here(format!("the maker: {}\nbut alone: {}", tell(&rs[0]), tell(&res(&maker)))))); }
            let got = delta(&fs0, &o.fs);
            let r = &rs[1];
            let own: BTreeMap<String, Option<Node>> = got.iter().filter(|(p, _)| !his.contains(*p)).map(|(p, n)| (p.clone(), n.clone())).collect();
            if r.0 == End::Exit(0) {
                ex.st.probe("reader-ok");
                if !fine.iter().any(|(w, d)| w == r && d.iter().filter(|(p, _)| !his.contains(*p)).eq(own.iter())) {
                    return Ok(viol("half-read", here(format!("the reader succeeded with a result no complete set of artefacts gives: {}; wrote {:?}", tell(r), own.keys().collect::<Vec<_>>()))));
                }
            } else {
                ex.st.probe("reader-failed");
                if !r.1.is_empty() { return Ok(viol("stdout-on-failure", here(tell(r)))); }
                if r.2.is_empty() { return Ok(viol("silent-failure", here(tell(r)))); }
                if let Some((p, _)) = own.iter().next() && !died { return Ok(viol("file-touched-on-failure", here(format!("{p}; {}", tell(r))))); }
            }
            if !died { for (p, n) in &made { if got.get(p) != Some(n) { return Ok(viol("files-differ", here(format!("{p} is {}, alone it is {}", say(got.get(p)), say(Some(n)))))); } } }
        }
        Ok(None)
    }
}
fn say(n: Option<&Option<Node>>) -> String { match n { None => "unchanged".into(), Some(None) => "gone".into(), Some(Some(n)) => format!("{} {}", n.kind as char, show(&n.data)) } }
impl Check for C17 {
    fn id(&self) -> &'static str { "C17" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 1_500 } else { 40_000 } }
    fn rule(&self) -> &'static str { "2-4 commands over one seeded tree, run alone and then together under 4-6 seeded interleavings of their system calls, with one of them failing or dying at a chosen call in some; or a command that reads what another is writing; non-trivial: at least 3 switches between processes" }
    fn required(&self) -> Vec<&'static str> { vec!["interleaved", "shared-output", "one-died", "one-failed", "reader-ok", "reader-failed", "maker-died"] }
    fn generate(&self, r: &mut Rng, ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let mut o = Opts { twins: 0, ..Opts::small() };
        o.types = *r.pick(&[2, 3, 4]);
        let w = Gen::new(r, o).world();
        let mut c = Par { world: w, cmds: vec![], pre: vec![], feed: vec![], plans: vec![], schedule: None };
        let feed = r.chance(2, 5);
        let mut runs = vec![];
        if feed {
            let proto = matches!(&c.world.file(&main_real(&c.world)).map(|f| &f.body), Some(Body::Idl { proto: Some(_), .. }));
            let cmd = if proto && r.chance(1, 2) { Cmd::Idl { out: Some("gen/p.avpr".into()), stdin: false } } else { Cmd::Schemata { input: None, out: Some("gen".into()) } };
            if matches!(cmd, Cmd::Idl { .. }) || r.chance(1, 2) { c.pre.push(("/w/gen/".into(), String::new())); }
            c.cmds.push(PCmd { main: c.world.main.clone(), cmd });
            let o = ex.cli(&c.solo(0))?;
            if !o.ok() { return Err(No::Invalid("the maker fails".into())); }
            let mut made: Vec<(String, Node)> = delta(&image(&c.solo(0)), &o.fs).into_iter().filter_map(|(p, n)| n.filter(|n| n.kind == b'f').map(|n| (p, n))).collect();
            if made.is_empty() { return Err(No::Invalid("makes nothing".into())); }
            r.shuffle(&mut made);
            made.truncate(*r.pick(&[1, 1, 2]));
            let mut decls = vec![];
            let dir = r.pick(&["/w", "/w/use", "/inc1"]).to_string();
            for (p, n) in &made {
                let kind = if p.ends_with(".avpr") { "protocol" } else { "schema" };
                let spell = if !c.world.idirs.is_empty() && r.chance(1, 3) { c.world.idirs.push("/w/gen".into()); base(p).to_string() } else if r.chance(1, 4) { p.clone() } else { relpath(&dir, p) };
                decls.push(Decl::I(kind.into(), spell.clone()));
                c.feed.push(p.clone());
                match r.below(6) {
                    // the same content is there already and is written again
                    0 => c.pre.push((p.clone(), String::from_utf8_lossy(&n.data).into_owned())),
                    // another copy, found while this one is not there
                    1 => { c.world.idirs.push("/inc2".into()); c.pre.push((norm(&format!("/inc2/{spell}")), "{\"type\":\"fixed\",\"name\":\"Older\",\"size\":3}".into())); }
                    _ => {}
                }
            }
            let nt = |k: u64| Type { name: format!("Use{k}"), ns: None, def: Def::Rec { err: false, fields: vec![Field { n: "u".into(), t: Ty::P("long".into()), d: None, doc: None, order: None, aliases: vec![], props: vec![], wunion: vec![] }] }, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] };
            decls.push(Decl::T(nt(1)));
            let f = File { path: format!("{dir}/user.avdl"), body: Body::Idl { proto: Some("User".into()), ns: Some("use.r".into()), doc: None, props: vec![], main: None, decls, msgs: vec![], style: 0, wtail: vec![], tail: String::new() } };
            let main = if r.chance(1, 2) { f.path.clone() } else { relpath("/w", &f.path) };
            c.world.files.push(f);
            let cmd = match r.below(3) { 0 => Cmd::Idl { out: None, stdin: false }, 1 => Cmd::Idl { out: Some("/w/user.avpr".into()), stdin: false }, _ => Cmd::Schemata { input: None, out: Some("/out2".into()) } };
            c.cmds.push(PCmd { main, cmd });
            for k in 0..2 { runs.push(ex.cli(&c.solo(k))?); }
        } else {
            if r.chance(1, 5) { sabotage(r, &mut c.world); }
            for d in ["/w/sub", "/inc1"] { c.world.dirs.push(d.into()); }
            let idl: Vec<String> = c.world.files.iter().filter(|f| matches!(f.body, Body::Idl { .. })).map(|f| f.path.clone()).collect();
            let main0 = c.world.main.clone();
            if idl.is_empty() { return Err(No::Invalid("nothing to compile".into())); }
            let n = *r.pick(&[2, 2, 2, 2, 2, 3, 3, 4]);
            let dir = r.pick(&["gen", "gen/a/b", "/out/x", "../g2", "."]).to_string();
            while c.cmds.len() < n {
                let main = match r.below(6) { 0..=2 => main0.clone(), 3 => relpath("/w", r.pick(&idl)), _ => r.pick(&idl).clone() };
                let k = c.cmds.len();
                let cmd = match r.below(10) {
                    0 if k > 0 => { let d = c.cmds[k - 1].clone(); c.cmds.push(d); continue; }
                    1 => Cmd::Idl { out: None, stdin: false },
                    2 => Cmd::Idl { out: Some(format!("/w/out{k}.avpr")), stdin: false },
                    3 => { let d = r.pick(&["/w", "/w/sub", "/inc1", "."]).to_string(); Cmd::Schemata { input: Some(d), out: Some(dir.clone()) } }
                    4 => Cmd::Schemata { input: None, out: if r.chance(1, 2) { None } else { Some(format!("{dir}/p{k}")) } },
                    _ => Cmd::Schemata { input: None, out: Some(dir.clone()) },
                };
                c.cmds.push(PCmd { main, cmd });
            }
            for k in 0..n { runs.push(ex.cli(&c.solo(k))?); }
            let fs0 = image(&c.solo(0));
            let news: Vec<(String, Node)> = runs.iter().flat_map(|o| delta(&fs0, &o.fs)).filter_map(|(p, n)| n.filter(|n| n.kind == b'f').map(|n| (p, n))).collect();
            for (p, n) in news {
                if c.pre.iter().any(|q| q.0 == p) { continue; }
                match r.below(8) { 0 => c.pre.push((p, "old".into())), 1 => c.pre.push((p, String::from_utf8_lossy(&n.data).into_owned())), 2 => c.pre.push((p, String::from_utf8_lossy(&n.data).repeat(2))), _ => {} }
            }
            runs.clear();
            for k in 0..n { runs.push(ex.cli(&c.solo(k))?); }
        }
        for i in 0..6 {
            let mut p = Plan { seed: r.u64(), ..Default::default() };
            if r.chance(1, 3) { noise(r, &mut p); p.seed = r.u64(); }
            if r.chance(1, 2) { p.knobs.insert("write_chunk".into(), *r.pick(&[1, 5, 30])); }
            p.knobs.insert("sched_mode".into(), 1);
            p.knobs.insert("psched_pm".into(), *r.pick(&[10, 40, 150, 400, 800]));
            if i >= 3 && r.chance(2, 3) {
                let k = if feed { 0 } else { r.below(runs.len()) };
                let ps = points(&runs[k]);
                if !ps.is_empty() {
                    let outs: Vec<&Point> = ps.iter().filter(|p| matches!(p.op.as_str(), "write" | "mkdir") || p.op == "open" && p.path.ends_with(".avsc")).collect();
                    let q: &Point = if !outs.is_empty() && r.chance(2, 3) { *r.pick(&outs) } else { r.pick(&ps) };
                    let mut f = match r.below(3) { 0 => err_fault(r, q), 1 if q.op == "write" => fault(q, "crash_partial", r.range(0, q.ret.max(1) as usize) as i64, 1), _ => fault(q, *r.pick(&["crash_before", "crash_after"]), 0, 1) };
                    f.proc = Some(k as u32);
                    p.faults.push(f);
                }
            }
            c.plans.push(p);
        }
        Ok(to(&c))
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let c: Par = de(v)?;
        if c.cmds.is_empty() || c.cmds.len() > 4 { return Err(No::Invalid("commands".into())); }
        if c.feed.is_empty() { self.beside(&c, ex) } else { self.feeding(&c, ex) }
    }
    /// keep the violating interleaving only, spelled out switch by switch
    fn pin(&self, case: &Value, ex: &mut Exec) -> Value {
        let Ok(c) = de::<Par>(case) else { return case.clone() };
        for p in &c.plans {
            let mut d = c.clone();
            d.plans = vec![p.clone()];
            let keep = ex.keep;
            ex.keep = true;
            ex.log.clear();
            let r = self.eval(&to(&d), ex);
            ex.keep = keep;
            let sw = ex.log.last().map(|x| x.2.switches.clone());
            ex.log.clear();
            if let (Ok(Some(_)), Some(sw)) = (r, sw) {
                d.schedule = Some(sw);
                for k in ["sched_mode", "psched_pm"] { d.plans[0].knobs.remove(k); }
                return to(&d);
            }
        }
        case.clone()
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["processes are switched at system calls, which are the only points at which they can affect each other; each call is atomic", "commands whose outputs disagree about a file are not run together"] }
    fn one_line(&self, v: &Value) -> String { de::<Par>(v).map(|c| format!("{} files; {}; {}", c.world.files.len(), (0..c.cmds.len()).map(|k| c.alone(k).argv().join(" ")).collect::<Vec<_>>().join(" || "), if c.feed.is_empty() { String::new() } else { format!("feeding {:?}", c.feed) })).unwrap_or_default() }
}
