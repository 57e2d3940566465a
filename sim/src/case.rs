//! The serialisable case shared by the command-line checks, and helpers.
use crate::exec::*;
use crate::job::*;
use crate::rng::Rng;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Cmd {
    /// `idl`: output file (absent: stdout), input through stdin
    Idl { out: Option<String>, stdin: bool },
    /// `idl2schemata`: input (absent: the world's main), output directory
    Schemata { input: Option<String>, out: Option<String> },
    /// any other arguments: help, version, mistakes
    Raw { args: Vec<String> },
}
/// Damage to a stored file (or to standard input, `<stdin>`).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Dmg {
    pub path: String,
    /// trunc, flip, zero, dup, swap, over, set, ins, del
    pub kind: String,
    #[serde(default)]
    pub off: usize,
    #[serde(default)]
    pub len: usize,
    #[serde(default)]
    pub arg: usize,
    /// hex
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub data: String,
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(h: &str) -> Vec<u8> { (0..h.len() / 2).filter_map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect() }
impl Dmg {
    pub fn apply(&self, b: &mut Vec<u8>) {
        let n = b.len();
        let a = self.off.min(n);
        let e = (a + self.len).min(n);
        match self.kind.as_str() {
            "trunc" => b.truncate(a),
            "flip" => if a < n { b[a] ^= 1 << (self.arg % 8); },
            "zero" => b[a..e].fill(0),
            "dup" => { let blk = b[a..e].to_vec(); for _ in 0..self.arg.clamp(1, 40) { b.splice(e..e, blk.iter().copied()); } }
            "swap" => { let c = self.arg.min(n); for i in 0..e - a { if c + i < n && a + i < n { b.swap(a + i, c + i); } } }
            "over" => { let src: Vec<u8> = b.iter().skip(self.arg).take(e - a).copied().collect(); let k = src.len(); b[a..a + k.min(e - a)].copy_from_slice(&src[..k.min(e - a)]); }
            "set" => { let d = unhex(&self.data); for (i, x) in d.iter().enumerate() { if a + i < n { b[a + i] = *x; } } }
            "ins" => { b.splice(a..a, unhex(&self.data)); }
            _ => { b.drain(a..e); }
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Plan {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub dmg: Vec<Dmg>,
    #[serde(default)]
    pub seed: u64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub muts: Vec<Mut>,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub knobs: BTreeMap<String, i64>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub env: Vec<String>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Case {
    pub world: World,
    pub cmd: Cmd,
    #[serde(default)]
    pub plans: Vec<Plan>,
    /// what is in the output places before the run: path, content (a trailing slash makes a directory)
    #[serde(default)]
    pub pre: Vec<(String, String)>,
    #[serde(default)]
    pub note: Value,
    /// how the arguments are spelled: `--import-dir=D`, and options before, after or between the rest
    #[serde(default)]
    pub argstyle: u8,
}
impl Case {
    pub fn new(world: World, cmd: Cmd) -> Case { Case { world, cmd, plans: vec![], pre: vec![], note: Value::Null, argstyle: 0 } }
    pub fn argv(&self) -> Vec<String> {
        let mut a = vec![];
        let w = &self.world;
        let opts: Vec<Vec<String>> = w.idirs.iter().map(|d| if self.argstyle & 1 != 0 { vec![format!("--import-dir={d}")] } else { vec!["--import-dir".into(), d.clone()] }).collect();
        let sub = match &self.cmd {
            Cmd::Idl { out, stdin } => {
                if *stdin { if out.is_some() { a.push("-".into()); } } else { a.push(w.main.clone()); }
                if let Some(o) = out { a.push(o.clone()); }
                "idl"
            }
            Cmd::Schemata { input, out } => {
                a.push(input.clone().unwrap_or_else(|| w.main.clone()));
                if let Some(o) = out { a.push(o.clone()); }
                "idl2schemata"
            }
            Cmd::Raw { args } => return args.clone(),
        };
        let at = match self.argstyle >> 1 { 0 => 0, 1 => a.len(), _ => a.len().min(1) };
        let mut v = vec![sub.to_string()];
        v.extend_from_slice(&a[..at]);
        v.extend(opts.into_iter().flatten());
        v.extend_from_slice(&a[at..]);
        v
    }
    pub fn job(&self, p: &Plan) -> Job {
        let mut j = Job::new(p.seed);
        j.argv = self.argv();
        j.cwd = self.world.cwd.clone();
        j.fs = self.world.fs();
        for (path, s) in &self.pre {
            match path.strip_suffix('/') {
                Some(d) => { j.fs.insert(d.to_string(), Node { kind: b'd', mode: 0o755, data: vec![] }); }
                None => { j.fs.insert(path.clone(), Node { kind: b'f', mode: 0o644, data: s.clone().into_bytes() }); }
            }
        }
        add_parents(&mut j.fs);
        if let Cmd::Idl { stdin: true, .. } = self.cmd { if let Some(f) = self.world.file(&self.world.main_abs()) { j.stdin = render(&f.body).0.into_bytes(); } }
        for d in &p.dmg {
            if d.path == "<stdin>" { d.apply(&mut j.stdin); } else if let Some(n) = j.fs.get_mut(&d.path) && n.kind == b'f' { d.apply(&mut n.data); }
        }
        j.faults = p.faults.clone();
        j.muts = p.muts.clone();
        j.knobs = p.knobs.clone();
        j.env = p.env.clone();
        j
    }
    /// directories the command may create, and the directory or file it may write
    pub fn out_abs(&self) -> Option<String> {
        let c = &self.world.cwd;
        match &self.cmd {
            Cmd::Idl { out: Some(o), .. } if o != "-" => Some(norm(&join(c, o))),
            Cmd::Idl { .. } | Cmd::Raw { .. } => None,
            Cmd::Schemata { out, .. } => Some(norm(&join(c, out.as_deref().unwrap_or(".")))),
        }
    }
    pub fn is_schemata(&self) -> bool { matches!(self.cmd, Cmd::Schemata { .. }) }
}
/// lexical normalisation (outputs are never placed behind links)
pub fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c) }
    }
    format!("/{}", v.join("/"))
}
pub fn de<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, No> { T::deserialize(v).map_err(|e| No::Invalid(e.to_string())) }
pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let s: String = s.chars().take(600).collect();
    s
}
/// files that differ between two images: path and what happened
pub fn fs_changes(a: &Fs, b: &Fs) -> Vec<(String, &'static str)> {
    let mut v = vec![];
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        match (a.get(k), b.get(k)) {
            (Some(_), None) => v.push((k.clone(), "removed")),
            (None, Some(_)) => v.push((k.clone(), "created")),
            (Some(x), Some(y)) if x != y => v.push((k.clone(), "changed")),
            _ => {}
        }
    }
    v
}
/// A panic of the program under test, as Rust reports it.
pub fn panicked(o: &Outcome) -> bool { o.end == End::Exit(101) || String::from_utf8_lossy(&o.stderr).contains("panicked at") }
/// The exact input tree as the simulator hands it back (used to compare against after-images).
pub fn image(j: &Job) -> Fs {
    j.fs.clone()
}
/// Random environment noise that must never show: hash seeds, orders, chunking, interruptions.
pub fn noise(r: &mut Rng, p: &mut Plan) {
    p.seed = r.u64();
    let mut set = |k: &str, v: i64| { p.knobs.insert(k.into(), v); };
    if r.chance(1, 2) { set("readdir_mode", r.range(1, 3) as i64); }
    if r.chance(1, 4) { set("dtype_unknown", 1); }
    if r.chance(1, 2) { set("file_chunk", *r.pick(&[1, 3, 7, 64, 500, 4096])); }
    if r.chance(1, 2) { set("stdin_chunk", *r.pick(&[1, 2, 5, 17, 100, 4096])); }
    if r.chance(1, 2) { set("write_chunk", *r.pick(&[1, 3, 10, 100, 4096])); }
    if r.chance(1, 3) { set("eintr_pm", *r.pick(&[20, 100, 300])); }
    if r.chance(1, 3) { set("alloc_pad", *r.pick(&[64, 512, 4096])); }
    if r.chance(1, 3) { set("clock_mode", 1); }
}
