//! Reference model: what a source tree means, computed from its structured
//! description alone (no parsing, no code shared with the compiler), and the
//! canonical form in which a compiled output is compared with it.
use crate::job::Fs;
use crate::spec::*;
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ paths
/// Follow `path` (absolute) through symlinks; None if it does not exist.
pub fn realpath(fs: &Fs, path: &str) -> Option<String> {
    let mut todo: Vec<String> = path.split('/').rev().filter(|s| !s.is_empty()).map(String::from).collect();
    let mut cur: Vec<String> = vec![];
    let mut links = 0;
    let abs = |c: &[String]| format!("/{}", c.join("/"));
    while let Some(c) = todo.pop() {
        if !cur.is_empty() && fs.get(&abs(&cur)).map(|n| n.kind) != Some(b'd') { return None; }
        match c.as_str() {
            "." => continue,
            ".." => { cur.pop(); continue; }
            _ => {}
        }
        let mut q = cur.clone();
        q.push(c);
        let n = fs.get(&abs(&q))?;
        if n.kind == b'l' {
            links += 1;
            if links > 40 { return None; }
            let t = String::from_utf8_lossy(&n.data).into_owned();
            if t.starts_with('/') { cur.clear(); }
            todo.extend(t.split('/').rev().filter(|s| !s.is_empty()).map(String::from));
        } else {
            cur = q;
        }
    }
    // a trailing slash or dot on a file
    if (path.ends_with('/') || path.ends_with("/.")) && fs.get(&abs(&cur)).is_some_and(|n| n.kind == b'f') { return None; }
    Some(abs(&cur))
}
pub fn exists(fs: &Fs, p: &str) -> bool { realpath(fs, p).is_some() }
/// Import lookup: importing file's directory first, then import directories in order.
pub fn lookup(fs: &Fs, cwd: &str, idirs: &[String], dir: &str, imp: &str) -> Option<String> {
    if let Some(p) = realpath(fs, &join(dir, imp)) { return Some(p); }
    idirs.iter().find_map(|d| realpath(fs, &join(&join(cwd, d), imp)))
}

// ------------------------------------------------------------------ canonical definitions
fn canon_ty(t: &Ty, default_nonnull: bool) -> Value {
    match t {
        Ty::P(p) => json!(p),
        Ty::L(k) => { let (b, l) = logical(k); json!({"logicalType": l, "type": b}) }
        Ty::Dec(p, s) => json!({"logicalType": "decimal", "precision": p, "scale": s, "type": "bytes"}),
        Ty::R(n) => json!({"ref": n}),
        Ty::A(t) => json!({"items": canon_ty(t, false), "type": "array"}),
        Ty::M(t) => json!({"type": "map", "values": canon_ty(t, false)}),
        Ty::U(ts) => Value::Array(ts.iter().map(|t| canon_ty(t, false)).collect()),
        Ty::N(t) => { let v = canon_ty(t, false); if default_nonnull { json!([v, "null"]) } else { json!(["null", v]) } }
        Ty::Ann(p, k, v) => sorted(json!({"type": p, k: v})),
        Ty::AnnA(t, k, v) => sorted(json!({"items": canon_ty(t, false), "type": "array", k: v})),
        Ty::X(t, ps) => sorted(with_props(canon_ty(t, false), ps)),
    }
}
/// object keys in one order, so that comparison and printing ignore it
pub fn sorted(v: Value) -> Value {
    match v {
        Value::Object(o) => {
            let m: BTreeMap<String, Value> = o.into_iter().map(|(k, v)| (k, sorted(v))).collect();
            Value::Object(m.into_iter().collect::<Map<_, _>>())
        }
        Value::Array(a) => Value::Array(a.into_iter().map(sorted).collect()),
        x => x,
    }
}
fn alias_full(a: &str, ns: &Option<String>) -> String {
    if a.contains('.') { a.to_string() } else { full(a, ns) }
}
fn canon_field(f: &Field) -> Value {
    let mut o = Map::new();
    o.insert("name".into(), json!(f.n));
    o.insert("type".into(), canon_ty(&f.t, f.d.as_ref().is_some_and(|d| !d.is_null())));
    if let Some(d) = &f.doc { o.insert("doc".into(), json!(d)); }
    if let Some(d) = &f.d { o.insert("default".into(), d.clone()); }
    if let Some(d) = &f.order && d != "ascending" { o.insert("order".into(), json!(d)); }
    if !f.aliases.is_empty() { o.insert("aliases".into(), json!(f.aliases)); }
    for (k, v) in &f.props { o.insert(k.clone(), v.clone()); }
    sorted(Value::Object(o))
}
pub fn canon_def(t: &Type, file_ns: &Option<String>) -> Value {
    let ns = t.ns_in(file_ns);
    let mut o = Map::new();
    o.insert("fullname".into(), json!(full(&t.name, &ns)));
    if let Some(d) = &t.doc { o.insert("doc".into(), json!(d)); }
    let kind = match &t.def {
        Def::Rec { err, fields } => { o.insert("fields".into(), Value::Array(fields.iter().map(canon_field).collect())); if *err { "error" } else { "record" } }
        Def::Enum { syms, def } => {
            o.insert("symbols".into(), json!(syms));
            if let Some(d) = def { o.insert("default".into(), json!(d)); }
            "enum"
        }
        Def::Fixed { size } => { o.insert("size".into(), json!(size)); "fixed" }
    };
    o.insert("type".into(), json!(kind));
    let mut al: Vec<String> = t.aliases.iter().map(|a| alias_full(a, &ns)).collect();
    al.extend(t.walias.iter().map(|w| alias_full(&format!("{w}-x"), &ns)));
    if !al.is_empty() { o.insert("aliases".into(), json!(al)); }
    for (k, v) in &t.props { o.insert(k.clone(), v.clone()); }
    sorted(Value::Object(o))
}
fn canon_msg(m: &Msg) -> Value {
    let mut o = Map::new();
    if let Some(d) = &m.doc { o.insert("doc".into(), json!(d)); }
    for (k, v) in &m.props { o.insert(k.clone(), v.clone()); }
    o.insert("request".into(), Value::Array(m.params.iter().map(canon_field).collect()));
    o.insert("response".into(), m.ret.as_ref().map(|t| canon_ty(t, false)).unwrap_or(json!("null")));
    if !m.throws.is_empty() { o.insert("errors".into(), Value::Array(m.throws.iter().map(|t| json!({"ref": t})).collect())); }
    if m.oneway { o.insert("one-way".into(), json!(true)); }
    sorted(Value::Object(o))
}
/// references of a canonical value in the order they are written
fn refs(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            if o.len() == 1 && let Some(Value::String(r)) = o.get("ref") { out.push(r.clone()); return; }
            match o.get("type") {
                Some(Value::String(s)) if s == "array" => refs(&o["items"], out),
                Some(Value::String(s)) if s == "map" => refs(&o["values"], out),
                _ => {}
            }
        }
        Value::Array(a) => a.iter().for_each(|x| refs(x, out)),
        _ => {}
    }
}
pub fn def_refs(d: &Value) -> Vec<String> {
    let mut v = vec![];
    for f in d.get("fields").and_then(|f| f.as_array()).into_iter().flatten() { refs(&f["type"], &mut v); }
    v
}

// ------------------------------------------------------------------ meaning of a tree
#[derive(Clone, Debug, Default)]
pub struct Meaning {
    /// full name -> canonical definition, in registration order
    pub types: Vec<(String, Value)>,
    pub messages: BTreeMap<String, Value>,
    /// files in the order they are first taken in (canonical paths), main first
    pub files: Vec<String>,
    /// warning tokens in reporting order
    pub warnings: Vec<String>,
    /// the compile must fail, and why
    pub fail: Option<String>,
    /// warnings already known when it fails
    pub protocol: Option<Value>,
    pub schema: Option<Value>,
    pub bare: bool,
}
struct M<'a> {
    w: &'a World,
    fs: &'a Fs,
    seen: BTreeSet<String>,
    out: Meaning,
    index: BTreeSet<String>,
    spanless: Vec<Value>,
}
impl M<'_> {
    fn add(&mut self, t: &Type, ns: &Option<String>) -> bool {
        let n = t.full_in(ns);
        if !self.index.insert(n.clone()) { return false; }
        self.out.types.push((n, canon_def(t, ns)));
        true
    }
    fn decls(&mut self, decls: &[Decl], ns: &Option<String>, dir: &str) -> Result<(), String> {
        for d in decls {
            match d {
                Decl::T(t) => {
                    if t.name.contains('-') { return Err("bad-name".into()); }
                    if !self.add(t, ns) { return Err(format!("duplicate {}", t.full_in(ns))); }
                    if let Def::Rec { fields, .. } = &t.def && fields.iter().any(|f| f.t == Ty::P("int".into()) && f.d.as_ref().is_some_and(|d| !d.is_number())) { return Err("bad-default".into()); }
                }
                Decl::I(kind, p) => {
                    let Some(c) = lookup(self.fs, &self.w.cwd, &self.w.idirs, dir, p) else { return Err(format!("import not found: {p}")) };
                    if !self.seen.insert(c.clone()) { continue; }
                    let Some(f) = self.w.file(&c) else { return Err(format!("{c} is not a source file")) };
                    if matches!(f.body, Body::Raw(_)) { return Err("raw".into()); }
                    if f.body.kind() != kind { return Err(format!("{c} is not of kind {kind}")); }
                    self.out.files.push(c.clone());
                    match &f.body {
                        Body::Idl { ns, decls, msgs, tail, proto, .. } => {
                            if !tail.is_empty() { return Err("syntax error".into()); }
                            self.out.warnings.extend(f.body.warn_tokens());
                            self.decls(decls, ns, &parent(&c))?;
                            if proto.is_some() { for m in msgs { self.out.messages.insert(m.name.clone(), canon_msg(m)); } }
                        }
                        Body::Avpr { ns, types, msgs, .. } => {
                            let (_, post) = render(&f.body);
                            for n in post { if let Some(t) = types.iter().find(|t| t.full_in(ns) == n) { if t.name.contains('-') { return Err("bad-name".into()); } self.add(t, ns); } }
                            for m in msgs { self.out.messages.insert(m.name.clone(), canon_msg(m)); }
                        }
                        Body::Avsc { types, .. } => {
                            let (_, post) = render(&f.body);
                            for n in post { if let Some(t) = types.iter().find(|t| t.full_in(&None) == n) { if t.name.contains('-') { return Err("bad-name".into()); } self.add(t, &None); } }
                        }
                        Body::Raw(_) => return Err("raw".into()),
                    }
                }
            }
        }
        Ok(())
    }
}
/// Meaning of `path` (absolute) as the main input of `w`.
pub fn meaning(w: &World, fs: &Fs, path: &str) -> Meaning {
    let mut m = M { w, fs, seen: BTreeSet::new(), out: Meaning::default(), index: BTreeSet::new(), spanless: vec![] };
    let c = realpath(fs, path);
    let f = c.as_ref().and_then(|c| w.file(c));
    let Some(f) = f else { m.out.fail = Some("main input missing".into()); return m.out };
    let Body::Idl { proto, ns, doc, props, main, decls, msgs, wtail: _, tail, .. } = &f.body else { m.out.fail = Some("main input is not IDL".into()); return m.out };
    m.out.files.push(c.clone().unwrap());
    m.seen.insert(c.unwrap());
    if !tail.is_empty() { m.out.fail = Some("syntax error".into()); return m.out; }
    m.out.warnings.extend(f.body.warn_tokens());
    let dir = realpath(fs, &parent(path)).unwrap_or_else(|| "/".into());
    if let Err(e) = m.decls(decls, ns, &dir) { m.out.fail = Some(e); return m.out; }
    // own messages win
    if proto.is_some() { for x in msgs { m.out.messages.insert(x.name.clone(), canon_msg(x)); } } else { m.out.messages.clear(); }
    let mut need: Vec<String> = vec![];
    for (_, d) in &m.out.types { need.extend(def_refs(d)); }
    for x in m.out.messages.values() {
        for p in x["request"].as_array().into_iter().flatten() { refs(&p["type"], &mut need); }
        refs(&x["response"], &mut need);
        if let Some(e) = x.get("errors") { refs(e, &mut need); }
    }
    if let Some(t) = main { refs(&canon_ty(t, false), &mut need); }
    if let Some(n) = need.iter().find(|n| !m.index.contains(*n)) { m.out.fail = Some(format!("undefined {n}")); return m.out; }
    match (proto, main) {
        (Some(p), _) => {
            let mut o = Map::new();
            o.insert("protocol".into(), json!(p));
            if let Some(n) = ns { o.insert("namespace".into(), json!(n)); }
            if let Some(d) = doc { o.insert("doc".into(), json!(d)); }
            for (k, v) in props { o.insert(k.clone(), v.clone()); }
            m.out.protocol = Some(sorted(Value::Object(o)));
        }
        (None, Some(t)) => m.out.schema = Some(canon_ty(t, false)),
        (None, None) => m.out.bare = true,
    }
    let _ = &m.spanless;
    m.out
}
impl Meaning {
    fn def(&self, n: &str) -> Option<&Value> { self.types.iter().find(|x| x.0 == n).map(|x| &x.1) }
    /// order in which definitions are first written: each type at its first mention
    pub fn written(&self, roots: &[String]) -> Vec<(String, Value)> {
        let mut out: Vec<(String, Value)> = vec![];
        let mut done = BTreeSet::new();
        let mut stack: Vec<String> = roots.iter().rev().cloned().collect();
        while let Some(n) = stack.pop() {
            if done.contains(&n) { continue; }
            let Some(d) = self.def(&n) else { continue };
            done.insert(n.clone());
            out.push((n, d.clone()));
            stack.extend(def_refs(d).into_iter().rev());
        }
        out
    }
    /// canonical form of the expected output of `idl`
    pub fn canon_idl(&self) -> Option<Canon> {
        if self.fail.is_some() || self.bare { return None; }
        if let Some(p) = &self.protocol {
            let roots: Vec<String> = self.types.iter().map(|t| t.0.clone()).collect();
            return Some(Canon { head: p.clone(), types: self.written(&roots), messages: self.messages.clone(), problems: vec![] });
        }
        let s = self.schema.clone().unwrap();
        let mut r = vec![];
        refs(&s, &mut r);
        Some(Canon { head: s, types: self.written(&r), messages: BTreeMap::new(), problems: vec![] })
    }
    /// canonical form of the artefact of one type
    pub fn canon_avsc(&self, n: &str) -> Canon { Canon { head: json!({"ref": n}), types: self.written(&[n.to_string()]), messages: BTreeMap::new(), problems: vec![] } }
}

// ------------------------------------------------------------------ canonical form of an output
#[derive(Clone, Debug, PartialEq)]
pub struct Canon {
    pub head: Value,
    pub types: Vec<(String, Value)>,
    pub messages: BTreeMap<String, Value>,
    /// undefined or doubly defined names, malformed nodes
    pub problems: Vec<String>,
}
const PRIMS: [&str; 8] = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"];
struct Fl {
    types: Vec<(String, Value)>,
    known: BTreeSet<String>,
    problems: Vec<String>,
}
impl Fl {
    fn name(&mut self, s: &str, ns: &Option<String>) -> Value {
        if PRIMS.contains(&s) { return json!(s); }
        let n = if s.contains('.') { s.to_string() } else { full(s, ns) };
        if !self.known.contains(&n) { self.problems.push(format!("`{n}` is mentioned before or without its definition")); }
        json!({"ref": n})
    }
    fn ty(&mut self, v: &Value, ns: &Option<String>) -> Value {
        match v {
            Value::String(s) => self.name(s, ns),
            Value::Array(a) => Value::Array(a.iter().map(|x| self.ty(x, ns)).collect()),
            Value::Object(o) => {
                let Some(t) = o.get("type").and_then(|t| t.as_str()) else { self.problems.push(format!("schema object without a type: {v}")); return Value::Null };
                match t {
                    "array" | "map" => {
                        let k = if t == "array" { "items" } else { "values" };
                        let mut m = o.clone();
                        let Some(i) = o.get(k) else { self.problems.push(format!("{t} without {k}")); return Value::Null };
                        m.insert(k.into(), self.ty(i, ns));
                        sorted(Value::Object(m))
                    }
                    "record" | "error" | "enum" | "fixed" => self.named(o, ns),
                    p if PRIMS.contains(&p) => if o.len() == 1 { json!(p) } else { sorted(v.clone()) },
                    _ => { self.problems.push(format!("unknown type {t}")); Value::Null }
                }
            }
            _ => { self.problems.push(format!("not a schema: {v}")); Value::Null }
        }
    }
    fn named(&mut self, o: &Map<String, Value>, ctx: &Option<String>) -> Value {
        let nm = o.get("name").and_then(|n| n.as_str()).unwrap_or("");
        if nm.is_empty() { self.problems.push("named type without a name".into()); }
        let (simple, ns) = match nm.rsplit_once('.') {
            Some((a, b)) => (b, Some(a.to_string())),
            None => (nm, match o.get("namespace").and_then(|n| n.as_str()) { Some("") => None, Some(n) => Some(n.to_string()), None => ctx.clone() }),
        };
        let n = full(simple, &ns);
        if !self.known.insert(n.clone()) { self.problems.push(format!("`{n}` is defined twice")); }
        let slot = self.types.len();
        self.types.push((n.clone(), Value::Null));
        let mut m = o.clone();
        m.remove("name");
        m.remove("namespace");
        m.insert("fullname".into(), json!(n));
        if let Some(Value::Array(fs)) = o.get("fields") {
            let v: Vec<Value> = fs.iter().map(|f| self.field(f, &ns)).collect();
            m.insert("fields".into(), Value::Array(v));
        }
        if let Some(Value::Array(al)) = o.get("aliases") {
            m.insert("aliases".into(), Value::Array(al.iter().map(|a| json!(alias_full(a.as_str().unwrap_or(""), &ns))).collect()));
        }
        self.types[slot].1 = sorted(Value::Object(m));
        json!({"ref": n})
    }
    fn field(&mut self, f: &Value, ns: &Option<String>) -> Value {
        let Some(o) = f.as_object() else { self.problems.push(format!("field is not an object: {f}")); return Value::Null };
        let mut m = o.clone();
        let t = o.get("type").map(|t| self.ty(t, ns)).unwrap_or_else(|| { self.problems.push("field without type".into()); Value::Null });
        m.insert("type".into(), t);
        if m.get("order").and_then(|o| o.as_str()) == Some("ascending") { m.remove("order"); }
        sorted(Value::Object(m))
    }
}
pub fn canon_output(v: &Value) -> Canon {
    let mut fl = Fl { types: vec![], known: BTreeSet::new(), problems: vec![] };
    if let Some(o) = v.as_object() && o.contains_key("protocol") {
        let ns = o.get("namespace").and_then(|n| n.as_str()).filter(|n| !n.is_empty()).map(String::from);
        for t in o.get("types").and_then(|t| t.as_array()).into_iter().flatten() { fl.ty(t, &ns); }
        let mut messages = BTreeMap::new();
        for (k, m) in o.get("messages").and_then(|t| t.as_object()).into_iter().flatten() {
            let Some(mo) = m.as_object() else { fl.problems.push(format!("message {k} is not an object")); continue };
            let mut r = mo.clone();
            let req: Vec<Value> = mo.get("request").and_then(|t| t.as_array()).into_iter().flatten().map(|f| fl.field(f, &ns)).collect();
            r.insert("request".into(), Value::Array(req));
            let resp = mo.get("response").map(|t| fl.ty(t, &ns)).unwrap_or(json!("null"));
            r.insert("response".into(), resp);
            if let Some(e) = mo.get("errors").and_then(|e| e.as_array()) {
                let v: Vec<Value> = e.iter().map(|t| fl.ty(t, &ns)).collect();
                r.insert("errors".into(), Value::Array(v));
            }
            messages.insert(k.clone(), sorted(Value::Object(r)));
        }
        let mut head = o.clone();
        head.remove("types");
        head.remove("messages");
        return Canon { head: sorted(Value::Object(head)), types: fl.types, messages, problems: fl.problems };
    }
    let head = fl.ty(v, &None);
    Canon { head, types: fl.types, messages: BTreeMap::new(), problems: fl.problems }
}
/// First difference between what was expected and what came out.
pub fn diff(want: &Canon, got: &Canon) -> Option<(String, String)> {
    if let Some(p) = got.problems.first() { return Some(("malformed".into(), p.clone())); }
    if want.head != got.head { return Some(("head".into(), format!("expected {} got {}", want.head, got.head))); }
    let w: BTreeMap<_, _> = want.types.iter().cloned().collect();
    let g: BTreeMap<_, _> = got.types.iter().cloned().collect();
    for n in w.keys() { if !g.contains_key(n) { return Some(("type-missing".into(), format!("type {n} is missing from the output"))); } }
    for n in g.keys() { if !w.contains_key(n) { return Some(("type-extra".into(), format!("type {n} should not be in the output"))); } }
    for (n, d) in &w { if &g[n] != d { return Some(("type-differs".into(), format!("type {n}: expected {d} got {}", g[n]))); } }
    let (wo, go): (Vec<_>, Vec<_>) = (want.types.iter().map(|t| &t.0).collect(), got.types.iter().map(|t| &t.0).collect());
    if wo != go { return Some(("type-order".into(), format!("expected order {wo:?} got {go:?}"))); }
    for n in want.messages.keys() { if !got.messages.contains_key(n) { return Some(("message-missing".into(), format!("message {n} is missing from the output"))); } }
    for n in got.messages.keys() { if !want.messages.contains_key(n) { return Some(("message-extra".into(), format!("message {n} should not be in the output"))); } }
    for (n, d) in &want.messages { if &got.messages[n] != d { return Some(("message-differs".into(), format!("message {n}: expected {d} got {}", got.messages[n]))); } }
    None
}
