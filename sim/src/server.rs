//! One fork server per (worker, target): runs jobs inside the simulated OS.
use crate::job::{End, Fs, Job, Outcome};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Target { Cli, Driver }

pub struct Server {
    child: Child,
    tx: ChildStdin,
    rx: ChildStdout,
}

pub fn bin_dir() -> PathBuf {
    std::env::var_os("AVSIM_BIN").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif/target/bin"))
}
pub fn wall_limit_ms() -> u64 { 60_000 }

impl Server {
    pub fn spawn(t: Target, cov: &str) -> Server {
        let d = bin_dir();
        let bin = d.join(if t == Target::Cli { "avdl" } else { "avdl-driver" });
        let mut c = Command::new(&bin);
        c.args(vec!["x"; 64]);
        c.env_clear();
        c.env("LD_PRELOAD", d.join("libsimos.so"));
        c.env("SIMOS_SERVER", "1");
        c.env("SIMOS_COV", cov);
        c.current_dir("/");
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if std::env::var("AVSIM_DEBUG").as_deref() == Ok("1") { Stdio::inherit() } else { Stdio::null() });
        let mut child = c.spawn().unwrap_or_else(|e| { eprintln!("harness: cannot start {}: {e}", bin.display()); std::process::exit(3) });
        let tx = child.stdin.take().unwrap();
        let rx = child.stdout.take().unwrap();
        Server { child, tx, rx }
    }
    pub fn run(&mut self, job: &Job) -> Outcome {
        match self.try_run(job) {
            Ok(o) => o,
            Err(e) => Outcome {
                end: End::Harness(format!("fork server: {e}")),
                stdout: vec![], stderr: vec![], trace: String::new(), fs: Fs::new(), inodes: Default::default(), switches: vec![], fired: vec![], nops: 0, edges: 0, heap_peak: 0, mallocs: 0, points: 0, nswitch: 0, thash: 0, newedges: 0,
                unmodelled: 0, now: 0, mtimes: Default::default(), sim_ns: 0, eintrs: 0, shorts: 0, spurious: 0, clockjumps: 0, shuffles: 0, trace_over: false, others: vec![],
            },
        }
    }
    fn try_run(&mut self, job: &Job) -> Result<Outcome, String> {
        let b = job.encode();
        let e = |x: std::io::Error| x.to_string();
        self.tx.write_all(&(b.len() as u64).to_le_bytes()).map_err(e)?;
        self.tx.write_all(&wall_limit_ms().to_le_bytes()).map_err(e)?;
        self.tx.write_all(&b).map_err(e)?;
        self.tx.flush().map_err(e)?;
        let mut h = [0u8; 8];
        self.rx.read_exact(&mut h).map_err(e)?;
        let n = u64::from_le_bytes(h) as usize;
        let mut d = vec![0u8; n];
        self.rx.read_exact(&mut d).map_err(e)?;
        Outcome::decode(&d)
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
