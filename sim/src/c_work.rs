//! C19: work and memory grow slowly with the size of what is compiled.
use crate::case::*;
use crate::common::*;
use crate::exec::*;
use crate::frame::*;
use crate::job::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Part {
    pub kind: String,
    /// choice within the kind
    pub var: usize,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Work {
    pub parts: Vec<Part>,
    /// how often every part repeats in the smaller tree; four times that in the larger
    pub n: usize,
    pub schemata: bool,
    #[serde(default)]
    pub plan: Plan,
}
/// what a tree of one size consists of
#[derive(Default)]
struct Tree { head: String, body: String, files: BTreeMap<String, String>, idirs: usize, dir: bool }

pub const KINDS: [&str; 35] = [
    "diamond", "diamond-default", "cycle", "fields", "types", "messages", "enum", "props", "aliases", "doc", "docs", "nest", "union", "undefined", "undefined-json",
    "orphans", "bad-aliases", "syntax", "lexer", "long-name", "long-string", "json-deep", "json-wide", "default-deep", "default-wide", "default-refs", "import-chain", "import-diamond", "import-star",
    "import-json", "import-json-diamond", "import-json-nested", "comments", "override", "dir",
];
fn build(w: &Work, n: usize) -> Tree {
    let mut t = Tree::default();
    for (k, p) in w.parts.iter().enumerate() { part(&mut t, &p.kind, p.var, n, &format!("K{k}")); }
    t
}
fn wrap(v: usize, x: &str) -> String {
    match v % 5 { 0 => x.to_string(), 1 => format!("array<{x}>"), 2 => format!("map<{x}>"), 3 => format!("union {{ null, {x} }}"), _ => format!("{x}?") }
}
fn part(t: &mut Tree, kind: &str, v: usize, n: usize, k: &str) {
    let b = &mut t.body;
    match kind {
        // every type mentions the one before twice
        "diamond" | "diamond-default" => {
            let n = n.min(60);
            let _ = writeln!(b, "record {k}L0 {{ int a; }}");
            for i in 1..=n { let p = wrap(if kind == "diamond" { v + i % (v % 3 + 1) } else { v }, &format!("{k}L{}", i - 1)); let _ = writeln!(b, "record {k}L{i} {{ {p} a; {p} b; }}"); }
            if v % 2 == 1 { let _ = writeln!(b, "{k}L{n} {k}m({k}L{n} x, array<{k}L{n}> y = []);"); }
            if kind == "diamond-default" {
                // accepted or refused, the answer must not take long
                let d = match v / 5 % 4 { 0 => "{}".to_string(), 1 => "{\"a\": {}, \"b\": {}}".into(), 2 => "{\"a\": null, \"b\": null}".into(), _ => "{\"a\": [], \"b\": []}".into() };
                let _ = writeln!(b, "record {k}Z {{ {k}L{n} f = {d}; }}");
            }
        }
        "cycle" => { let n = n.min(48); for i in 0..n { let _ = writeln!(b, "record {k}C{i} {{ {k}C{} next; {k}C{}? other; }}", (i + 1) % n, (i * 7 + 3) % n); } if v % 2 == 1 { let _ = writeln!(b, "{k}C0 {k}m({k}C1 x);"); } }
        "fields" => { let _ = writeln!(b, "record {k}R {{"); for i in 0..n { let _ = writeln!(b, "  {} f{i}{};", ["int", "string", "union { null, int }", "array<string>"][(v + i) % 4], if v % 2 == 0 { "" } else { [" = 1", " = \"x\"", " = null", " = []"][(v + i) % 4] }); } b.push_str("}\n"); }
        "types" => for i in 0..n { let _ = match (v + i) % 3 { 0 => writeln!(b, "record {k}T{i} {{ int a; }}"), 1 => writeln!(b, "enum {k}T{i} {{ A, B }}"), _ => writeln!(b, "fixed {k}T{i}(4);") }; },
        "messages" => for i in 0..n { let _ = writeln!(b, "{} {k}m{i}(int a, string b = \"x\"){};", if v % 2 == 0 { "void" } else { "string" }, if v % 2 == 0 && i % 2 == 0 { " oneway" } else { "" }); },
        "enum" => { let _ = writeln!(b, "enum {k}E {{ {} }}", (0..n).map(|i| format!("{k}S{i}")).collect::<Vec<_>>().join(", ")); }
        "props" => { for i in 0..n { let _ = writeln!(b, "@{k}p{i}({{\"x\": {i}}})"); } let _ = writeln!(b, "record {k}R {{ int a; }}"); }
        "aliases" => { let _ = writeln!(b, "@aliases([{}]) record {k}R {{ int a; }}", (0..n).map(|i| format!("\"{k}Al{i}\"")).collect::<Vec<_>>().join(", ")); }
        "doc" => { let _ = writeln!(b, "/** first\n{}*/\nrecord {k}R {{ int a; }}", (0..n).map(|i| format!("   * line {i} é\n")).collect::<String>()); }
        "docs" => for i in 0..n { let _ = writeln!(b, "/** doc {i} */ fixed {k}D{i}(3);"); },
        "nest" => {
            let d = n.min(150);
            let (x, y) = [("array<", ">"), ("map<", ">"), ("array<union { null, ", "} >"), ("map<union { string, ", "}>")][v % 4];
            let inner = ["int", "Missing", "union { null, int }", "@p(1) long"][v / 4 % 4];
            let (x, y) = (x.repeat(d), y.repeat(d));
            let _ = match v % 3 { 0 => writeln!(b, "void {k}m({x}{inner}{y} a);"), _ => writeln!(b, "record {k}R {{ {x}{inner}{y} a{}; }}", if v % 4 < 2 && v % 3 == 1 { [" = []", " = {}"][v % 2] } else { "" }) };
        }
        "union" => { for i in 0..n { let _ = writeln!(b, "record {k}U{i} {{ int a; }}"); } let _ = writeln!(b, "record {k}R {{ union {{ null, {} }} u{}; }}", (0..n).map(|i| format!("{k}U{i}")).collect::<Vec<_>>().join(", "), if v % 2 == 0 { " = null" } else { "" }); }
        "undefined" => for i in 0..n { let _ = writeln!(b, "record {k}V{i} {{ {} a; }}", if v % 2 == 0 { format!("{k}VX{i}") } else { format!("not.there{i}.Nope") }); },
        "undefined-json" => { let f = format!("{k}u.avsc"); let v: Vec<String> = (0..n).map(|i| format!("{{\"type\":\"record\",\"name\":\"{k}J{i}\",\"fields\":[{{\"name\":\"a\",\"type\":\"{k}Gone{i}\"}}]}}")).collect(); t.files.insert(f.clone(), format!("[{}]", v.join(","))); let _ = writeln!(t.head, "import schema \"{f}\";"); }
        "orphans" => for i in 0..n { let _ = writeln!(b, "record {k}O{i} {{ int a;\n/** lost {i} */\n}}"); },
        "bad-aliases" => for i in 0..n { let _ = writeln!(b, "@aliases([\"a-{i}\"]) fixed {k}B{i}(2);"); },
        "syntax" => for i in 0..n { let _ = writeln!(b, "{}", [format!("record {k}X{i} {{ int ; }}"), format!("recrod {k}X{i} {{ int a; }}"), "}}".to_string(), format!("@({i}) record"), format!("enum {k}X{i} {{ A B }}"), format!("record {k}X{i} {{ array<int a; }}")][(v + if v > 9 { i } else { 0 }) % 6]); },
        "lexer" => for i in 0..n { let _ = writeln!(b, "{} record {k}Y{i} {{ int a; }}", ["#", "§", "\\", "~~", "\"open"][v % 5]); },
        "long-name" => { let n = n.min(30); let name = format!("{k}{}", "Name".repeat(n * 4)); let _ = writeln!(b, "record {name} {{ int {}; }}\nrecord {k}R {{ {}{name}{} a; }}", "f".repeat(n * 8), if v % 2 == 0 { "" } else { "x.y." }, if v % 3 == 0 { "" } else { "s" }); }
        "long-string" => { let _ = writeln!(b, "@note(\"{}\") record {k}R {{ string s = \"{}\"; }}", ["x", "\\n", "é", "\\u00e9"][v % 4].repeat(n * 20), ["y", "\\\"", "日"][v % 3].repeat(n * 20)); }
        "json-deep" => { let d = n.min(150); let (x, y) = if v % 2 == 0 { ("[", "]") } else { ("{\"a\":", "}") }; let _ = writeln!(b, "@deep({}1{}) record {k}R {{ int a; }}", x.repeat(d), y.repeat(d)); }
        "json-wide" => { let s = (0..n).map(|i| if v % 2 == 0 { format!("{i}") } else { format!("\"k{i}\": {i}") }).collect::<Vec<_>>().join(", "); let _ = writeln!(b, "@wide({}{s}{}) record {k}R {{ int a; }}", if v % 2 == 0 { "[" } else { "{" }, if v % 2 == 0 { "]" } else { "}" }); }
        // a default that goes all the way down
        "default-deep" => {
            let d = n.min(100);
            let _ = writeln!(b, "record {k}D0 {{ int a; }}");
            for i in 1..=d { let _ = writeln!(b, "record {k}D{i} {{ {k}D{} a; {k}D{} b = {{}}; }}", i - 1, if v % 2 == 0 { i - 1 } else { 0 }); }
            let _ = writeln!(b, "record {k}Z {{ {k}D{d} f = {}{}{}; }}", "{\"a\": ".repeat(d), ["{\"a\": 1}", "{}", "7"][v % 3], "}".repeat(d));
        }
        "default-wide" => { let _ = writeln!(b, "record {k}I {{ int a; string b = \"x\"; }}\nrecord {k}R {{ {} f = {}; }}", if v % 2 == 0 { format!("array<{k}I>") } else { format!("map<{k}I>") }, if v % 2 == 0 { format!("[{}]", vec!["{\"a\": 1}"; n].join(", ")) } else { format!("{{{}}}", (0..n).map(|i| format!("\"k{i}\": {{\"a\": {i}}}")).collect::<Vec<_>>().join(", ")) }); }
        "default-refs" => { let _ = writeln!(b, "enum {k}E {{ A, B }}\nrecord {k}S {{ {k}E a = \"A\"; {k}E? b = null; }}\nrecord {k}R {{"); for i in 0..n { let _ = writeln!(b, "  {} f{i} = {};", if (v + i) % 2 == 0 { format!("{k}E") } else { format!("{k}S") }, if (v + i) % 2 == 0 { "\"B\"" } else { "{}" }); } b.push_str("}\n"); }
        "import-chain" => {
            for i in 0..n { let next = if i + 1 < n { format!("import idl \"{k}c{}.avdl\"; ", i + 1) } else if v % 2 == 0 { format!("import idl \"{k}c0.avdl\"; ") } else { String::new() }; t.files.insert(format!("{k}c{i}.avdl"), format!("protocol {k}P{i} {{ {next}record {k}C{i} {{ int a; }} }}\n")); }
            let _ = writeln!(t.head, "import idl \"{k}c0.avdl\";");
        }
        // two files a layer, each importing both of the next
        "import-diamond" => {
            for i in 0..n { for s in ["a", "b"] { let next = if i + 1 < n { format!("import idl \"{k}d{}a.avdl\"; import idl \"./{k}d{}b.avdl\"; ", i + 1, i + 1) } else { String::new() }; t.files.insert(format!("{k}d{i}{s}.avdl"), format!("protocol {k}P{i}{s} {{ {next}fixed {k}D{i}{s}(1); }}\n")); } }
            let _ = writeln!(t.head, "import idl \"{k}d0a.avdl\"; import idl \"{k}d0b.avdl\";");
        }
        "import-star" => {
            t.idirs = t.idirs.max(n / 4);
            for i in 0..n { let f = format!("{k}s{i}.avdl"); t.files.insert(if v % 2 == 0 { f.clone() } else { format!("/inc{}/{f}", n / 4) }, format!("protocol {k}P{i} {{ record {k}S{i} {{ int a; }} }}\n")); let _ = writeln!(t.head, "import idl \"{f}\";"); }
        }
        "import-json" => {
            let f = format!("{k}j.{}", if v % 2 == 0 { "avsc" } else { "avpr" });
            let ts: Vec<String> = (0..n).map(|i| format!("{{\"type\":\"record\",\"name\":\"{k}J{i}\",\"namespace\":\"j.n\",\"fields\":[{{\"name\":\"a\",\"type\":{{\"type\":\"enum\",\"name\":\"{k}Q{i}\",\"symbols\":[\"A\"]}}}}]}}")).collect();
            t.files.insert(f.clone(), if v % 2 == 0 { format!("[{}]", ts.join(",")) } else { format!("{{\"protocol\":\"J\",\"types\":[{}],\"messages\":{{}}}}", ts.join(",")) });
            let _ = writeln!(t.head, "import {} \"{f}\";", if v % 2 == 0 { "schema" } else { "protocol" });
        }
        "import-json-diamond" => {
            let n = n.min(60);
            let f = format!("{k}d.avpr");
            let mut ts = vec![format!("{{\"type\":\"record\",\"name\":\"{k}L0\",\"fields\":[]}}")];
            for i in 1..=n { let p = format!("\"{k}L{}\"", i - 1); ts.push(format!("{{\"type\":\"record\",\"name\":\"{k}L{i}\",\"fields\":[{{\"name\":\"a\",\"type\":{p}{}}},{{\"name\":\"b\",\"type\":[\"null\",{p}]}}]}}", if v % 2 == 0 { "" } else { ",\"default\":{}" })); }
            t.files.insert(f.clone(), format!("{{\"protocol\":\"J\",\"types\":[{}],\"messages\":{{}}}}", ts.join(",")));
            let _ = writeln!(t.head, "import protocol \"{f}\";");
            let _ = writeln!(b, "record {k}Z {{ {k}L{n} f{}; }}", if v % 3 == 0 { " = {\"a\": {}, \"b\": null}" } else { "" });
        }
        // every type written inside the one before
        "import-json-nested" => {
            let d = n.min(24);
            let f = format!("{k}n.avsc");
            let mut x = ["\"int\"".to_string(), format!("{{\"type\":\"enum\",\"name\":\"{k}E\",\"symbols\":[\"A\"]}}"), format!("\"{k}Gone\""), "17".into()][v / 6 % 4].clone();
            for i in 0..d {
                x = match (v + if v % 2 == 0 { 0 } else { i }) % 6 {
                    0 | 1 => format!("{{\"type\":\"record\",\"name\":\"{k}N{i}\",\"fields\":[{{\"name\":\"a\",\"type\":{x}}}]}}"),
                    2 => format!("{{\"type\":\"array\",\"items\":{x}}}"),
                    3 => format!("{{\"type\":\"map\",\"values\":{x}}}"),
                    4 => format!("{{\"type\":\"array\",\"items\":[\"null\",{x}]}}"),
                    _ => format!("{{\"type\":{{\"type\":\"map\",\"values\":[{x}]}}}}"),
                };
            }
            t.files.insert(f.clone(), format!("{{\"type\":\"record\",\"name\":\"{k}Top\",\"fields\":[{{\"name\":\"a\",\"type\":{x}}}]}}"));
            let _ = writeln!(t.head, "import schema \"{f}\";");
        }
        "comments" => for i in 0..n { let _ = writeln!(b, "{}", [format!("// comment {i}"), format!("/* comment {i} */"), " ".repeat(40), "/* /* // */".to_string()][v % 4]); },
        // one message in many files
        "override" => {
            for i in 0..n { t.files.insert(format!("{k}o{i}.avdl"), format!("protocol {k}P{i} {{ import idl \"{k}o{}.avdl\"; string {k}msg(int a{i}); }}\n", if i + 1 < n { i + 1 } else { 0 })); }
            let _ = writeln!(t.head, "import idl \"{k}o0.avdl\";");
        }
        // many inputs, each on its own
        _ => { t.dir = true; for i in 0..n { t.files.insert(format!("dir{}/{k}i{i}.avdl", if v % 2 == 0 { String::new() } else { "/sub".repeat(i % 12) }), format!("protocol {k}P{i} {{ record {k}N{i} {{ int a; }} }}\n")); } }
    }
}
/// (steps, calls, most bytes in use, bytes written) and the size of the sources
fn measure(w: &Work, n: usize, ex: &mut Exec) -> Result<(Outcome, [u64; 4], usize), No> {
    let t = build(w, n);
    let mut j = Job::new(w.plan.seed);
    let text = format!("@namespace(\"w.n\") protocol P {{\n{}{}}}\n", t.head, t.body);
    let mut files = t.files;
    files.insert("main.avdl".into(), text);
    let size: usize = files.values().map(|s| s.len()).sum();
    for (p, s) in files { j.fs.insert(if p.starts_with('/') { p } else { format!("/w/{p}") }, Node { kind: b'f', mode: 0o644, data: s.into_bytes() }); }
    j.fs.insert("/out".into(), Node { kind: b'd', mode: 0o755, data: vec![] });
    j.fs.insert("/w/dir".into(), Node { kind: b'd', mode: 0o755, data: vec![] });
    for i in 0..=t.idirs { j.fs.entry(format!("/inc{i}")).or_insert(Node { kind: b'd', mode: 0o755, data: vec![] }); }
    crate::spec::add_parents(&mut j.fs);
    j.cwd = "/w".into();
    j.argv = if w.schemata || t.dir { vec!["idl2schemata".into()] } else { vec!["idl".into()] };
    for i in 1..=t.idirs { j.argv.push("--import-dir".into()); j.argv.push(format!("/inc{i}")); }
    j.argv.push(if t.dir { "dir".into() } else { "main.avdl".into() });
    if w.schemata || t.dir { j.argv.push("/out".into()); }
    j.faults = w.plan.faults.clone();
    j.knobs = w.plan.knobs.clone();
    // a diagnostic is written piece by piece, with as much padding as the longest line needs
    j.knobs.insert("step_budget".into(), 200_000 + 10 * (size as i64) * (size as i64));
    let o = ex.cli(&j)?;
    let written = o.stdout.len() + o.stderr.len() + o.fs.iter().filter(|(p, n)| p.starts_with("/out/") && n.kind == b'f').map(|(_, n)| n.data.len()).sum::<usize>();
    let m = [o.edges, o.nops, o.heap_peak, written as u64];
    Ok((o, m, size))
}
pub struct C19;
impl Check for C19 {
    fn id(&self) -> &'static str { "C19" }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { 8_000 } else { 150_000 } }
    fn rule(&self) -> &'static str { "seeded compositions of 1-3 of 35 ways in which sources grow (layers of types or files that mention the ones below twice, cycles, defaults that reach down, nesting, many or long declarations, warnings, errors of every class, imports of every kind, directories), compiled with n and with 4n repetitions; executed steps, system calls and the most memory in use may grow with the square of n, what is written (nested and indented) with its cube, not faster; non-trivial: the growth was measured on a tree at least twice as large" }
    fn required(&self) -> Vec<&'static str> { vec!["compiles", "fails", "diamond", "diamond-default", "default-deep", "import-diamond", "syntax", "undefined", "dir"] }
    fn generate(&self, r: &mut Rng, _ex: &mut Exec, _t: Tier) -> Result<Value, No> {
        let k = *r.pick(&[1, 1, 2, 2, 3]);
        let mut parts: Vec<Part> = (0..k).map(|_| Part { kind: r.pick(&KINDS).to_string(), var: r.below(30) }).collect();
        // directories on their own: every input there would multiply with what it imports
        if parts.iter().any(|p| p.kind == "dir") { parts.retain(|p| p.kind == "dir"); }
        let mut plan = Plan { seed: r.u64(), ..Default::default() };
        if r.chance(1, 4) { plan.knobs.insert("file_chunk".into(), *r.pick(&[64, 500])); plan.knobs.insert("write_chunk".into(), *r.pick(&[1_000, 4_000])); }
        Ok(serde_json::to_value(Work { parts, n: r.range(6, 26), schemata: r.chance(1, 3), plan }).unwrap())
    }
    fn eval(&self, v: &Value, ex: &mut Exec) -> Result<Option<Viol>, No> {
        let w: Work = de(v)?;
        if w.n < 2 || w.n > 200 || w.parts.is_empty() || w.parts.iter().any(|p| !KINDS.contains(&p.kind.as_str())) || w.parts.len() > 1 && w.parts.iter().any(|p| p.kind == "dir") { return Err(No::Invalid("shape".into())); }
        let (a, ma, sa) = measure(&w, w.n, ex)?;
        if let Some(v) = clean_end(&a) { return Ok(viol(&v.class, format!("{} repetitions of {:?}: {}", w.n, w.parts, v.detail))); }
        let (b, mb, sb) = measure(&w, 4 * w.n, ex)?;
        if let Some(v) = clean_end(&b) { return Ok(viol(&v.class, format!("{} repetitions of {:?} ({sb} bytes): {}", 4 * w.n, w.parts, v.detail))); }
        let (_, m0, _) = measure(&Work { parts: vec![], ..w.clone() }, 0, ex)?;
        ex.nontrivial = sb >= 2 * sa;
        ex.st.probe(if b.ok() { "compiles" } else { "fails" });
        for p in &w.parts { ex.st.probe(&p.kind); }
        // a schema nests the types it uses, and nesting is indented: what is written may grow with the cube
        let out = mb[3] / ma[3].max(500);
        for (i, (what, most)) in [("executed steps", 26.max(out * 3 / 2)), ("system calls", 26.max(out * 3 / 2)), ("bytes in use", 40), ("bytes written", 80)].iter().enumerate() {
            let (x, y) = (ma[i].saturating_sub(m0[i]), mb[i].saturating_sub(m0[i]));
            // small amounts say nothing
            let floor = [20_000, 40, 50_000, 500][i];
            if y > most * x.max(floor) { return Ok(viol("growth", format!("{:?}: {} for {} repetitions ({sa} bytes) are {x}, for {} ({sb} bytes) {y}", w.parts, what, w.n, 4 * w.n))); }
        }
        Ok(None)
    }
    fn assumptions(&self) -> Vec<&'static str> { vec!["steps are the edges of the instrumented code of avdl and its dependencies, not of the standard library's own precompiled code", "growth up to the square of the size is accepted: a diagnostic is rendered by searching the source, and every extracted schema repeats the types it uses"] }
    fn one_line(&self, v: &Value) -> String { de::<Work>(v).map(|w| format!("{} x {:?}{}", w.n, w.parts, if w.schemata { " schemata" } else { "" })).unwrap_or_default() }
}
