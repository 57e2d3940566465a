//! Running jobs and keeping count of what actually happened.
use crate::job::*;
use crate::server::*;
use std::collections::{BTreeMap, HashSet};

/// Why a case gives no verdict.
#[derive(Debug)]
pub enum No {
    /// the case itself makes no sense (only the minimiser meets these)
    Invalid(String),
    /// the simulator failed: an error of the check, never of the code
    Harness(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
pub fn viol(class: &str, detail: impl Into<String>) -> Option<Viol> { Some(Viol { class: class.into(), detail: detail.into() }) }

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub cli_runs: u64,
    pub drv_runs: u64,
    pub sim_ns: u64,
    pub ops: u64,
    pub edges: u64,
    pub newedges: u64,
    pub switches: u64,
    pub fired: BTreeMap<String, u64>,
    pub ends: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub traces: HashSet<u64>,
    pub restarts: u64,
}
impl Stats {
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.to_string()).or_default() += 1; }
    pub fn merge(&mut self, o: Stats) {
        self.runs += o.runs; self.cli_runs += o.cli_runs; self.drv_runs += o.drv_runs; self.sim_ns += o.sim_ns; self.ops += o.ops;
        self.edges += o.edges; self.newedges += o.newedges; self.switches += o.switches; self.restarts += o.restarts;
        for (k, v) in o.fired { *self.fired.entry(k).or_default() += v; }
        for (k, v) in o.ends { *self.ends.entry(k).or_default() += v; }
        for (k, v) in o.probes { *self.probes.entry(k).or_default() += v; }
        self.traces.extend(o.traces);
    }
}
pub struct Exec {
    cov: String,
    cli: Option<Server>,
    drv: Option<Server>,
    pub st: Stats,
    /// jobs and outcomes of the current case, kept when a replay file is written
    pub keep: bool,
    /// set by a check when the current case exercised what the property is about
    pub nontrivial: bool,
    pub log: Vec<(Target, Job, Outcome)>,
}
impl Exec {
    pub fn new(cov: &str) -> Exec { Exec { cov: cov.to_string(), cli: None, drv: None, st: Stats::default(), keep: false, nontrivial: false, log: vec![] } }
    fn go(&mut self, t: Target, job: &Job) -> Result<Outcome, No> {
        let mut last = String::new();
        for attempt in 0..3 {
            let slot = if t == Target::Cli { &mut self.cli } else { &mut self.drv };
            if slot.is_none() { *slot = Some(Server::spawn(t, &if self.cov.is_empty() { String::new() } else { format!("{}.{}", self.cov, if t == Target::Cli { "cli" } else { "drv" }) })); }
            let o = slot.as_mut().unwrap().run(job);
            match &o.end {
                // a broken pipe to the fork server (for instance out of memory) is retried; an escape is not
                End::Harness(m) if m.starts_with("fork server") => { last = m.clone(); *slot = None; self.st.restarts += 1; let _ = attempt; continue; }
                End::Harness(m) => return Err(No::Harness(m.clone())),
                End::TimedOut => { last = "wall-clock limit".into(); continue; }
                _ => {}
            }
            self.count(t, job, &o);
            if self.keep { self.log.push((t, job.clone(), o.clone())); }
            return Ok(o);
        }
        Err(No::Harness(last))
    }
    pub fn cli(&mut self, job: &Job) -> Result<Outcome, No> { self.go(Target::Cli, job) }
    pub fn drv(&mut self, job: &Job) -> Result<Outcome, No> { self.go(Target::Driver, job) }
    fn count(&mut self, t: Target, job: &Job, o: &Outcome) {
        let s = &mut self.st;
        s.runs += 1;
        if t == Target::Cli { s.cli_runs += 1 } else { s.drv_runs += 1 }
        s.sim_ns += o.sim_ns;
        s.ops += o.nops;
        s.edges += o.edges;
        s.newedges += o.newedges;
        s.switches += o.nswitch;
        s.traces.insert(o.thash);
        for (f, n) in job.faults.iter().zip(&o.fired) {
            if *n > 0 {
                let what = match f.act.as_str() { "err" => errname(f.arg).to_string(), "mutate" => job.muts.get(f.arg as usize).map(|m| format!("mutate-{}", m.kind)).unwrap_or_default(), a => a.to_string() };
                *s.fired.entry(format!("{}:{}", f.op, what)).or_default() += n;
            }
        }
        let mut add = |k: &str, v: u64| if v > 0 { *s.fired.entry(k.to_string()).or_default() += v; };
        add("eintr", o.eintrs);
        add("short-transfer", o.shorts);
        add("spurious-wakeup", o.spurious);
        add("clock-jump", o.clockjumps);
        add("readdir-reorder", o.shuffles);
        add(if job.others.is_empty() { "thread-preemption" } else { "process-switch" }, o.nswitch);
        if job.knob("malloc_fail_at") != 0 && o.mallocs >= job.knob("malloc_fail_at") as u64 { add("malloc-fail", 1); }
        match (job.knob("stdout_kind"), job.knob("stdout_limit")) { (SINK_FULL, _) => add("stdout-full", 1), (SINK_BROKEN, _) => add("stdout-closed-by-reader", 1), _ => {} }
        if job.knob("stderr_kind") == SINK_FULL || job.knob("stderr_kind") == SINK_BROKEN { add("stderr-broken", 1); }
        if job.knob("disk_free") >= 0 { add("small-disk", 1); }
        if job.knob("fd_limit") > 0 { add("fd-limit", 1); }
        let e = match &o.end { End::Exit(c) => format!("exit-{c}"), End::Signal(s) => format!("signal-{s}"), e => format!("{e:?}").to_lowercase() };
        *s.ends.entry(e).or_default() += 1;
    }
}
