#![allow(dead_code)]
mod c_cli;
mod c_dmg;
mod c_hist;
mod c_work;
mod c_imp;
mod c_io;
mod c_lib;
mod c_par;
mod c_warn;
mod case;
mod common;
mod exec;
mod frame;
mod gener;
mod job;
mod model;
mod rng;
mod server;
mod spec;
use frame::*;

fn checks() -> Vec<Box<dyn Check>> { vec![Box::new(c_cli::C01), Box::new(c_cli::C02), Box::new(c_cli::C03), Box::new(c_cli::C04), Box::new(c_imp::C05), Box::new(c_imp::C06), Box::new(c_dmg::C07), Box::new(c_dmg::C14), Box::new(c_lib::C08), Box::new(c_lib::C09), Box::new(c_warn::C10), Box::new(c_warn::C12), Box::new(c_io::C11), Box::new(c_io::C13), Box::new(c_io::C15), Box::new(c_io::C16), Box::new(c_par::C17), Box::new(c_hist::C18), Box::new(c_work::C19)] }

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let all = checks();
    let find = |id: &str| all.iter().find(|c| c.id() == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) });
    let rc = match a.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["check", id] => run_check(find(id).as_ref(), if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick }),
        ["check", id, t] => run_check(find(id).as_ref(), if t == "thorough" { Tier::Thorough } else { Tier::Quick }),
        ["replay", f] => {
            let d: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("json");
            replay(find(d["property"].as_str().unwrap()).as_ref(), &d, &mut exec::Exec::new(""))
        }
        // the encoded job of one recorded run, for a debugger
        ["dump", f, n] => {
            use std::io::Write;
            let d: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("json");
            let b = job::Job::from_json(&d["runs"][n.parse::<usize>().unwrap()]["job"]).encode();
            let mut o = std::io::stdout();
            o.write_all(&(b.len() as u64).to_le_bytes()).unwrap();
            o.write_all(&60000u64.to_le_bytes()).unwrap();
            o.write_all(&b).unwrap();
            0
        }
        // print one generated case
        ["case", id, n] => {
            let mut r = case_rng(id, n.parse().unwrap());
            let v = find(id).generate(&mut r, &mut exec::Exec::new(""), Tier::Quick);
            match v { Ok(v) => println!("{}", serde_json::to_string_pretty(&v).unwrap()), Err(e) => println!("{e:?}") }
            0
        }
        // evaluate one case and show what its runs did
        ["eval", id, f] => {
            let d: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("case file")).expect("json");
            let mut ex = exec::Exec::new("");
            ex.keep = true;
            let t = std::time::Instant::now();
            let r = find(id).eval(d.get("case").unwrap_or(&d), &mut ex);
            for (_, j, o) in &ex.log { println!("{:?} ops {} edges {} switches {} trace {:016x} knobs {:?}", o.end, o.nops, o.edges, o.switches.len(), o.thash, j.knobs); }
            println!("{r:?} {:?}", t.elapsed());
            0
        }
        _ => { eprintln!("usage: avsim check <ID> [quick|thorough] | replay <file> | case <ID> <n>"); 2 }
    };
    std::process::exit(rc);
}
