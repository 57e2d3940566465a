//! Drives avdl's public library API from a script, inside the simulator.
//!
//! The script is a JSON array in the (simulated) file `/drv/script`; results go
//! to stdout as one JSON array. Every file the library touches, every thread
//! and every lock is simulated by libsimos.so.
use avdl::{Idl, Idl2Schemata};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

unsafe extern "C" {
    fn simos_ctl(cmd: i32, arg: i64) -> i64;
}
fn ctl(cmd: i32, arg: i64) {
    unsafe { simos_ctl(cmd, arg) };
}

enum B {
    Idl(Idl),
    Sch(Idl2Schemata),
}

/// whether planned faults may strike (between world changes)
static ARMED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
fn arm() {
    ctl(if ARMED.load(std::sync::atomic::Ordering::SeqCst) { 2 } else { 1 }, 0);
}
fn leak(s: &str) -> &'static str {
    String::leak(s.to_string())
}
fn render(ws: Vec<miette::Report>) -> Value {
    Value::Array(ws.iter().map(|w| Value::String(format!("{w:?}"))).collect())
}

#[derive(Default)]
struct Env {
    b: HashMap<u64, B>,
}

fn s<'a>(op: &'a Value, k: &str) -> &'a str {
    op.get(k).and_then(|v| v.as_str()).unwrap_or("")
}

impl Env {
    fn step(&mut self, op: &Value) -> Value {
        let id = op.get("b").and_then(|v| v.as_u64()).unwrap_or(0);
        match s(op, "op") {
            "new" => {
                let b = if s(op, "kind") == "idl" { B::Idl(Idl::new()) } else { B::Sch(Idl2Schemata::new()) };
                self.b.insert(id, b);
                Value::Null
            }
            "dir" => {
                match self.b.get_mut(&id).expect("builder") {
                    B::Idl(i) => { i.import_dir(s(op, "path")); }
                    B::Sch(i) => { i.import_dir(s(op, "path")); }
                }
                Value::Null
            }
            "path" | "str" => {
                let b = self.b.get_mut(&id).expect("builder");
                let r = catch_unwind(AssertUnwindSafe(|| run(b, op)));
                r.unwrap_or_else(|_| json!({"panic": true}))
            }
            "drain" => match self.b.get_mut(&id).expect("builder") {
                B::Idl(i) => json!({"drained": render(i.drain_warnings())}),
                B::Sch(i) => json!({"drained": render(i.drain_warnings())}),
            },
            // the world changing between calls: no faults hit these
            "write" => world(|| std::fs::write(s(op, "path"), s(op, "content"))),
            "remove" => world(|| std::fs::remove_file(s(op, "path"))),
            "mkdir" => world(|| std::fs::create_dir_all(s(op, "path"))),
            "symlink" => world(|| { let _ = std::fs::remove_file(s(op, "path")); std::os::unix::fs::symlink(s(op, "target"), s(op, "path")) }),
            "chdir" => world(|| std::env::set_current_dir(s(op, "path"))),
            // planned faults strike only while on
            "faults" => { ARMED.store(op.get("on").and_then(|v| v.as_bool()).unwrap_or(true), std::sync::atomic::Ordering::SeqCst); arm(); Value::Null }
            "mark" => { ctl(3, op.get("n").and_then(|v| v.as_i64()).unwrap_or(0)); Value::Null }
            "warm" => { let _ = Idl::new().convert_str("protocol W { }"); Value::Null }
            other => panic!("unknown op {other}"),
        }
    }
}

fn world(f: impl FnOnce() -> std::io::Result<()>) -> Value {
    ctl(1, 0);
    let r = f();
    arm();
    json!({"world": r.is_ok()})
}

fn run(b: &mut B, op: &Value) -> Value {
    let by_path = s(op, "op") == "path";
    match b {
        B::Idl(i) => {
            let r = if by_path { i.convert(s(op, "path")) }
                else if op.get("name").is_some() { i.convert_str_named(leak(s(op, "src")), leak(s(op, "name"))) }
                else { i.convert_str(leak(s(op, "src"))) };
            match r {
                Ok(o) => json!({"ok": serde_json::to_string_pretty(&o.json).unwrap(), "warnings": render(o.warnings)}),
                Err(e) => json!({"err": format!("{e:?}")}),
            }
        }
        B::Sch(i) => {
            let r = if by_path { i.extract(s(op, "path")) }
                else if op.get("name").is_some() { i.extract_str_named(leak(s(op, "src")), leak(s(op, "name"))) }
                else { i.extract_str(leak(s(op, "src"))) };
            match r {
                Ok(o) => {
                    let schemas: Vec<Value> = o.schemas.iter().map(|x| json!([x.name, serde_json::to_string_pretty(&x.schema).unwrap()])).collect();
                    json!({"schemas": schemas, "warnings": render(o.warnings)})
                }
                Err(e) => json!({"err": format!("{e:?}")}),
            }
        }
    }
}

fn main() {
    ctl(1, 0);
    std::panic::set_hook(Box::new(|i| {
        let _ = writeln!(std::io::stderr(), "PANIC {i}");
    }));
    let script: Value = serde_json::from_slice(&std::fs::read("/drv/script").expect("script")).expect("script json");
    ctl(2, 0);
    let mut env = Env::default();
    let mut out = Vec::new();
    for op in script.as_array().expect("array") {
        if s(op, "op") == "threads" {
            let lists: Vec<Vec<Value>> = op["scripts"].as_array().unwrap().iter().map(|l| l.as_array().unwrap().clone()).collect();
            let handles: Vec<_> = lists
                .into_iter()
                .map(|l| std::thread::spawn(move || { let mut e = Env::default(); l.iter().map(|o| e.step(o)).collect::<Vec<_>>() }))
                .collect();
            let rs: Vec<Value> = handles.into_iter().map(|h| h.join().map(Value::Array).unwrap_or_else(|_| json!("thread panicked"))).collect();
            out.push(Value::Array(rs));
        } else {
            out.push(env.step(op));
        }
    }
    ctl(1, 0);
    let text = serde_json::to_vec(&Value::Array(out)).unwrap();
    let mut so = std::io::stdout();
    so.write_all(&text).unwrap();
    so.write_all(b"\n").unwrap();
    so.flush().unwrap();
}
