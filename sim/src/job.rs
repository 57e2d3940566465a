//! A job is everything one simulated execution depends on besides the code.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{Map, Value, json};
use std::collections::BTreeMap;

mod bytes_serde {
    use super::*;
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> { bytes_to_json(b).serialize(s) }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> { Ok(bytes_from_json(&Value::deserialize(d)?)) }
}

pub const OPS: [&str; 23] = [
    "any", "open", "read", "write", "close", "stat", "realpath", "opendir", "readdir", "mkdir", "unlink", "rename", "sync", "trunc", "seek", "getcwd", "readlink", "link", "chmod", "access", "chdir",
    "malloc", "misc",
];
pub fn op_code(name: &str) -> u64 {
    OPS.iter().position(|o| *o == name).expect("op name") as u64
}
pub const ERRNOS: [(&str, i64); 21] = [
    ("EPERM", 1), ("ENOENT", 2), ("EINTR", 4), ("EIO", 5), ("EBADF", 9), ("EAGAIN", 11), ("ENOMEM", 12), ("EACCES", 13), ("EEXIST", 17), ("ENOTDIR", 20), ("EISDIR", 21), ("ENFILE", 23),
    ("EMFILE", 24), ("EFBIG", 27), ("ENOSPC", 28), ("EROFS", 30), ("EPIPE", 32), ("ENAMETOOLONG", 36), ("ELOOP", 40), ("ESTALE", 116), ("EDQUOT", 122),
];
pub fn errno(name: &str) -> i64 {
    ERRNOS.iter().find(|e| e.0 == name).expect("errno").1
}
pub fn errname(n: i64) -> &'static str {
    ERRNOS.iter().find(|e| e.1 == n).map(|e| e.0).unwrap_or("E?")
}
pub const ACTS: [&str; 7] = ["", "err", "short", "crash_before", "crash_after", "crash_partial", "mutate"];
pub const MUTS: [&str; 7] = ["", "replace", "overwrite", "remove", "symlink", "chmod", "trunc"];

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: u8, // b'd' b'f' b'l' b'h'
    pub mode: u32,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault {
    pub op: String,
    pub path: String,
    pub from: u64,
    pub count: u64,
    pub act: String,
    pub arg: i64,
    /// strikes this process only (of several)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub proc: Option<u32>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mut {
    pub kind: String,
    pub path: String,
    #[serde(with = "bytes_serde")]
    pub data: Vec<u8>,
    pub mode: u32,
}
pub type Fs = BTreeMap<String, Node>;

/// A further process that runs at the same time over the same file system.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Proc {
    pub argv: Vec<String>,
    pub env: Vec<String>,
    pub cwd: String,
    pub stdin: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Job {
    pub seed: u64,
    pub argv: Vec<String>,
    pub env: Vec<String>,
    pub cwd: String,
    pub stdin: Vec<u8>,
    pub stdin_closed: bool,
    pub fs: Fs,
    pub faults: Vec<Fault>,
    pub muts: Vec<Mut>,
    /// processes 1, 2, … beside this one
    pub others: Vec<Proc>,
    /// explicit schedule: (schedule clock, thread), or (operation, process) if there are several
    pub schedule: Option<Vec<(u64, u64)>>,
    /// the time at which the run starts (0: chosen by the seed)
    pub now: u64,
    /// modification times of files that do not have the time of the start
    pub mtimes: BTreeMap<String, u64>,
    pub knobs: BTreeMap<String, i64>,
}

/// name, default; the wire order is this order
pub const KNOBS: [(&str, i64); 20] = [
    ("step_budget", 1_000_000), ("edge_budget", 400_000_000), ("disk_free", -1), ("malloc_fail_at", 0), ("alloc_pad", 0), ("stdin_chunk", 0), ("file_chunk", 0), ("write_chunk", 0), ("eintr_pm", 0),
    ("readdir_mode", 0), ("dtype_unknown", 0), ("sched_mode", 0), ("sched_mean", 1000), ("spurious_pm", 0), ("stdout_kind", 0), ("stderr_kind", 0), ("stdout_limit", 0), ("stderr_limit", 0),
    ("fd_limit", 0), ("clock_mode", 0),
];
pub const SINK_PIPE: i64 = 0;
pub const SINK_FILE: i64 = 1;
pub const SINK_TTY: i64 = 2;
pub const SINK_FULL: i64 = 3;
pub const SINK_BROKEN: i64 = 4;
pub const SINK_CLOSED: i64 = 5;

pub fn bytes_to_json(b: &[u8]) -> Value {
    match std::str::from_utf8(b) {
        Ok(s) => Value::String(s.to_string()),
        Err(_) => json!({"hex": b.iter().map(|x| format!("{x:02x}")).collect::<String>()}),
    }
}
pub fn bytes_from_json(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.as_bytes().to_vec(),
        Value::Object(o) => {
            let h = o.get("hex").and_then(|h| h.as_str()).unwrap_or("");
            (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
        }
        _ => vec![],
    }
}
pub fn fs_to_json(fs: &Fs) -> Value {
    let mut m = Map::new();
    for (p, n) in fs {
        m.insert(p.clone(), json!([(n.kind as char).to_string(), format!("{:o}", n.mode), bytes_to_json(&n.data)]));
    }
    Value::Object(m)
}
pub fn fs_from_json(v: &Value) -> Fs {
    let mut fs = Fs::new();
    for (p, n) in v.as_object().into_iter().flatten() {
        fs.insert(p.clone(), Node { kind: n[0].as_str().unwrap().as_bytes()[0], mode: u32::from_str_radix(n[1].as_str().unwrap(), 8).unwrap(), data: bytes_from_json(&n[2]) });
    }
    fs
}

impl Job {
    pub fn new(seed: u64) -> Job {
        Job { seed, argv: vec![], env: vec![], cwd: "/".into(), stdin: vec![], stdin_closed: false, fs: Fs::new(), faults: vec![], muts: vec![], others: vec![], schedule: None, now: 0, mtimes: BTreeMap::new(), knobs: BTreeMap::new() }
    }
    pub fn knob(&self, k: &str) -> i64 {
        self.knobs.get(k).copied().unwrap_or_else(|| KNOBS.iter().find(|x| x.0 == k).expect("knob").1)
    }
    pub fn set(&mut self, k: &str, v: i64) -> &mut Job {
        let d = KNOBS.iter().find(|x| x.0 == k).expect("knob").1;
        if v == d { self.knobs.remove(k); } else { self.knobs.insert(k.to_string(), v); }
        self
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = Vec::new();
        let w = |o: &mut Vec<u8>, v: u64| o.extend_from_slice(&v.to_le_bytes());
        let b = |o: &mut Vec<u8>, d: &[u8]| {
            o.extend_from_slice(&(d.len() as u64).to_le_bytes());
            o.extend_from_slice(d);
        };
        w(&mut o, 0x51305);
        w(&mut o, self.seed);
        for (k, _) in KNOBS {
            let v = if k == "sched_mode" && self.schedule.is_some() { 2 } else { self.knob(k) };
            w(&mut o, v as u64);
        }
        w(&mut o, 0); // root_user
        w(&mut o, self.stdin_closed as u64);
        w(&mut o, self.argv.len() as u64);
        for a in &self.argv { b(&mut o, a.as_bytes()); }
        w(&mut o, self.env.len() as u64);
        for a in &self.env { b(&mut o, a.as_bytes()); }
        b(&mut o, self.cwd.as_bytes());
        b(&mut o, &self.stdin);
        w(&mut o, self.fs.len() as u64);
        // directories first, hard links last, so that parents and targets exist
        let rank = |n: &Node| match n.kind { b'd' => 0, b'h' => 2, _ => 1 };
        let mut v: Vec<_> = self.fs.iter().collect();
        v.sort_by_key(|(p, n)| (rank(n), p.len(), (*p).clone()));
        for (p, n) in v {
            w(&mut o, n.kind as u64);
            w(&mut o, n.mode as u64);
            b(&mut o, p.as_bytes());
            b(&mut o, &n.data);
        }
        w(&mut o, self.faults.len() as u64);
        for f in &self.faults {
            w(&mut o, op_code(&f.op));
            w(&mut o, f.from);
            w(&mut o, f.count);
            w(&mut o, ACTS.iter().position(|a| *a == f.act).expect("act") as u64);
            w(&mut o, f.arg as u64);
            w(&mut o, f.proc.map_or(-1i64, |p| p as i64) as u64);
            b(&mut o, f.path.as_bytes());
        }
        w(&mut o, self.muts.len() as u64);
        for m in &self.muts {
            w(&mut o, MUTS.iter().position(|a| *a == m.kind).expect("mut") as u64);
            w(&mut o, m.mode as u64);
            b(&mut o, m.path.as_bytes());
            b(&mut o, &m.data);
        }
        let empty = vec![];
        let s = self.schedule.as_ref().unwrap_or(&empty);
        w(&mut o, s.len() as u64);
        for (p, t) in s { w(&mut o, *p); w(&mut o, *t); }
        w(&mut o, self.knobs.get("psched_pm").copied().unwrap_or(0) as u64);
        w(&mut o, self.others.len() as u64);
        for p in &self.others {
            w(&mut o, p.argv.len() as u64);
            for a in &p.argv { b(&mut o, a.as_bytes()); }
            w(&mut o, p.env.len() as u64);
            for a in &p.env { b(&mut o, a.as_bytes()); }
            b(&mut o, p.cwd.as_bytes());
            b(&mut o, &p.stdin);
        }
        w(&mut o, self.now);
        w(&mut o, self.mtimes.len() as u64);
        for (p, t) in &self.mtimes { b(&mut o, p.as_bytes()); w(&mut o, *t); }
        o
    }
    pub fn to_json(&self) -> Value {
        json!({
            "seed": self.seed, "argv": self.argv, "env": self.env, "cwd": self.cwd, "stdin": bytes_to_json(&self.stdin), "stdin_closed": self.stdin_closed,
            "knobs": self.knobs, "fs": fs_to_json(&self.fs),
            "faults": self.faults.iter().map(|f| json!({"op": f.op, "path": f.path, "from": f.from, "count": f.count, "act": f.act, "arg": f.arg, "proc": f.proc, "errno": if f.act == "err" { errname(f.arg) } else { "" }})).collect::<Vec<_>>(),
            "muts": self.muts.iter().map(|m| json!({"kind": m.kind, "path": m.path, "data": bytes_to_json(&m.data), "mode": m.mode})).collect::<Vec<_>>(),
            "schedule": self.schedule, "now": self.now, "mtimes": self.mtimes,
            "others": self.others.iter().map(|p| json!({"argv": p.argv, "env": p.env, "cwd": p.cwd, "stdin": bytes_to_json(&p.stdin)})).collect::<Vec<_>>(),
        })
    }
    pub fn from_json(v: &Value) -> Job {
        let st = |k: &str| v[k].as_str().unwrap_or("").to_string();
        let strs = |k: &str| v[k].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()).collect::<Vec<_>>();
        Job {
            seed: v["seed"].as_u64().unwrap_or(0),
            argv: strs("argv"),
            env: strs("env"),
            cwd: st("cwd"),
            stdin: bytes_from_json(&v["stdin"]),
            stdin_closed: v["stdin_closed"].as_bool().unwrap_or(false),
            fs: fs_from_json(&v["fs"]),
            faults: v["faults"].as_array().into_iter().flatten().map(|f| Fault { op: f["op"].as_str().unwrap().into(), path: f["path"].as_str().unwrap().into(), from: f["from"].as_u64().unwrap(), count: f["count"].as_u64().unwrap(), act: f["act"].as_str().unwrap().into(), arg: f["arg"].as_i64().unwrap(), proc: f["proc"].as_u64().map(|p| p as u32) }).collect(),
            muts: v["muts"].as_array().into_iter().flatten().map(|m| Mut { kind: m["kind"].as_str().unwrap().into(), path: m["path"].as_str().unwrap().into(), data: bytes_from_json(&m["data"]), mode: m["mode"].as_u64().unwrap() as u32 }).collect(),
            others: v["others"].as_array().into_iter().flatten().map(|p| { let l = |k: &str| p[k].as_array().into_iter().flatten().map(|x| x.as_str().unwrap_or("").to_string()).collect(); Proc { argv: l("argv"), env: l("env"), cwd: p["cwd"].as_str().unwrap_or("/").into(), stdin: bytes_from_json(&p["stdin"]) } }).collect(),
            schedule: v["schedule"].as_array().map(|s| s.iter().map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap())).collect()),
            now: v["now"].as_u64().unwrap_or(0),
            mtimes: v["mtimes"].as_object().into_iter().flatten().map(|(k, x)| (k.clone(), x.as_u64().unwrap_or(0))).collect(),
            knobs: v["knobs"].as_object().into_iter().flatten().map(|(k, x)| (k.clone(), x.as_i64().unwrap())).collect(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub n: u64,
    pub tid: u64,
    pub op: String,
    pub path: String,
    pub ret: i64,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Crashed,
    Budget,
    Deadlock,
    TimedOut,
    /// the simulator could not carry the run: never evidence about the code
    Harness(String),
}
/// How one of the further processes ended.
#[derive(Clone, Debug, PartialEq)]
pub struct Side {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub trace: String,
    pub fs: Fs,
    pub inodes: BTreeMap<String, u64>,
    pub mtimes: BTreeMap<String, u64>,
    pub now: u64,
    pub switches: Vec<(u64, u64)>,
    pub fired: Vec<u64>,
    pub nops: u64,
    pub edges: u64,
    /// most bytes in use at a time
    pub heap_peak: u64,
    pub mallocs: u64,
    pub points: u64,
    pub nswitch: u64,
    pub thash: u64,
    pub newedges: u64,
    pub unmodelled: u64,
    pub sim_ns: u64,
    pub eintrs: u64,
    pub shorts: u64,
    pub spurious: u64,
    pub clockjumps: u64,
    pub shuffles: u64,
    pub trace_over: bool,
    pub others: Vec<Side>,
}
pub fn unpct(s: &str) -> String {
    if s == "%" { return String::new(); }
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    String::from_utf8_lossy(&o).into_owned()
}
impl Outcome {
    pub fn decode(d: &[u8]) -> Result<Outcome, String> {
        let mut p = 0usize;
        macro_rules! w { () => {{ let v = u64::from_le_bytes(d.get(p..p + 8).ok_or("short result")?.try_into().unwrap()); p += 8; v }}; }
        macro_rules! b { () => {{ let n = w!() as usize; let s = d.get(p..p + n).ok_or("short blob")?.to_vec(); p += n; s }}; }
        if w!() != 0x51306 { return Err("bad result magic".into()); }
        let status = w!();
        let wst = w!() as i32;
        let timed = w!();
        let (nops, edges, mallocs, points, nswitch, thash, newedges, unmodelled, now, sim_ns) = (w!(), w!(), w!(), w!(), w!(), w!(), w!(), w!(), w!(), w!());
        let (eintrs, shorts, spurious, clockjumps, shuffles, trace_over, heap_peak) = (w!(), w!(), w!(), w!(), w!(), w!(), w!());
        let msg = String::from_utf8_lossy(&b!()).into_owned();
        let stdout = b!();
        let stderr = b!();
        let trace = String::from_utf8_lossy(&b!()).into_owned();
        let n = w!();
        let mut switches = vec![];
        for _ in 0..n { let a = w!(); let t = w!(); switches.push((a, t)); }
        let n = w!();
        let mut fired = vec![];
        for _ in 0..n { fired.push(w!()); }
        let n = w!();
        let mut fs = Fs::new();
        let mut inodes = BTreeMap::new();
        let mut mtimes = BTreeMap::new();
        for _ in 0..n {
            let kind = w!() as u8;
            let mode = w!() as u32;
            let ino = w!();
            let mtime = w!();
            let path = String::from_utf8_lossy(&b!()).into_owned();
            let data = b!();
            inodes.insert(path.clone(), ino);
            mtimes.insert(path.clone(), mtime);
            fs.insert(path, Node { kind, mode, data });
        }
        fs.remove("/dev");
        let ended = |status: u64, wst: i32, msg: String| match status {
            1 => End::Crashed,
            2 => End::Budget,
            3 => End::Deadlock,
            4 | 5 => End::Harness(msg),
            _ if timed != 0 => End::TimedOut,
            _ if unmodelled != 0 => End::Harness(format!("{unmodelled} unmodelled system calls")),
            _ if wst & 0x7f == 0 => End::Exit((wst >> 8) & 0xff),
            _ => End::Signal(wst & 0x7f),
        };
        let mut others = vec![];
        for _ in 0..w!() {
            let (status, wst) = (w!(), w!() as i32);
            let msg = String::from_utf8_lossy(&b!()).into_owned();
            others.push(Side { end: ended(status, wst, msg), stdout: b!(), stderr: b!() });
        }
        let end = ended(status, wst, msg);
        // a harness failure of any process is one of the run
        let end = others.iter().find(|o| matches!(o.end, End::Harness(_))).map(|o| o.end.clone()).unwrap_or(end);
        Ok(Outcome { end, stdout, stderr, trace, fs, inodes, mtimes, now, switches, fired, nops, edges, mallocs, points, nswitch, thash, newedges, unmodelled, sim_ns, eintrs, shorts, spurious, clockjumps, shuffles, trace_over: trace_over != 0, heap_peak, others })
    }
    pub fn events(&self) -> Vec<Ev> {
        self.trace
            .lines()
            .filter_map(|l| {
                let mut f = l.split(' ');
                Some(Ev { n: f.next()?.parse().ok()?, tid: f.next()?.get(1..)?.parse().ok()?, op: f.next()?.to_string(), path: unpct(f.next()?), ret: f.next()?.parse().ok()? })
            })
            .collect()
    }
    pub fn out(&self) -> String { String::from_utf8_lossy(&self.stdout).into_owned() }
    pub fn err(&self) -> String { String::from_utf8_lossy(&self.stderr).into_owned() }
    pub fn ok(&self) -> bool { self.end == End::Exit(0) }
}
