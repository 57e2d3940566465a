//! Structured description of a source tree, and its rendering to text.
//!
//! The same structures feed the renderer (what the compiler is given) and the
//! reference model (what it should make of it).
use crate::job::{Fs, Node};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Ty {
    P(String),
    /// IDL keyword of a logical type
    L(String),
    Dec(u32, u32),
    /// reference by full name
    R(String),
    A(Box<Ty>),
    M(Box<Ty>),
    U(Vec<Ty>),
    /// `T?`
    N(Box<Ty>),
    /// primitive with one custom property
    Ann(String, String, Value),
    /// array with one custom property
    AnnA(Box<Ty>, String, Value),
    /// primitive, logical type, array or map with custom properties
    X(Box<Ty>, Vec<(String, Value)>),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Field {
    pub n: String,
    pub t: Ty,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub d: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub doc: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub order: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub aliases: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub props: Vec<(String, Value)>,
    /// warning tokens: annotations dropped on a union
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub wunion: Vec<String>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Def {
    Rec { err: bool, fields: Vec<Field> },
    Enum { syms: Vec<String>, def: Option<String> },
    Fixed { size: u32 },
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Type {
    pub name: String,
    /// explicit namespace; absent = the file's
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ns: Option<String>,
    pub def: Def,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub doc: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub aliases: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub props: Vec<(String, Value)>,
    /// warning tokens: orphaned doc comments before the closing brace
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub worphan: Vec<String>,
    /// warning tokens: aliases that are not valid names
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub walias: Vec<String>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Msg {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub doc: Option<String>,
    #[serde(default)]
    pub params: Vec<Field>,
    /// absent = void
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ret: Option<Ty>,
    #[serde(default)]
    pub oneway: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub throws: Vec<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub props: Vec<(String, Value)>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Decl {
    T(Type),
    /// kind (idl, protocol, schema) and the path as written
    I(String, String),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Body {
    Idl {
        /// protocol name; absent = schema syntax
        proto: Option<String>,
        ns: Option<String>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        doc: Option<String>,
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        props: Vec<(String, Value)>,
        /// `schema <type>;` in schema syntax
        #[serde(default, skip_serializing_if = "Option::is_none")]
        main: Option<Ty>,
        decls: Vec<Decl>,
        #[serde(default)]
        msgs: Vec<Msg>,
        style: u64,
        /// warning tokens at the end of the file's body
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        wtail: Vec<String>,
        /// literal text inserted at the end of the body (planted syntax error)
        #[serde(default, skip_serializing_if = "String::is_empty")]
        tail: String,
    },
    Avpr { name: String, ns: Option<String>, types: Vec<Type>, msgs: Vec<Msg>, inline: bool, style: u64 },
    /// all types, those reachable from earlier ones are written inline; the rest form the root union
    Avsc { types: Vec<Type>, wrap: u8, style: u64 },
    Raw(String),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct File {
    pub path: String,
    pub body: Body,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug, Default)]
pub struct World {
    pub files: Vec<File>,
    #[serde(default)]
    pub links: Vec<(String, String)>,
    #[serde(default)]
    pub dirs: Vec<String>,
    /// other files that are just there: path, content
    #[serde(default)]
    pub extra: Vec<(String, String)>,
    pub cwd: String,
    /// main input as given on the command line
    pub main: String,
    /// --import-dir values as given
    #[serde(default)]
    pub idirs: Vec<String>,
}

impl Ty {
    /// the names it mentions
    pub fn names(&self, out: &mut Vec<String>) {
        match self {
            Ty::R(n) => out.push(n.clone()),
            Ty::A(t) | Ty::M(t) | Ty::N(t) | Ty::AnnA(t, ..) | Ty::X(t, _) => t.names(out),
            Ty::U(ts) => ts.iter().for_each(|t| t.names(out)),
            Ty::P(_) | Ty::L(_) | Ty::Dec(..) | Ty::Ann(..) => {}
        }
    }
}
pub fn full(name: &str, ns: &Option<String>) -> String {
    match ns {
        Some(n) if !n.is_empty() => format!("{n}.{name}"),
        _ => name.to_string(),
    }
}
impl Type {
    pub fn ns_in(&self, file_ns: &Option<String>) -> Option<String> {
        self.ns.clone().or_else(|| file_ns.clone()).filter(|s| !s.is_empty())
    }
    pub fn full_in(&self, file_ns: &Option<String>) -> String { full(&self.name, &self.ns_in(file_ns)) }
}
impl Body {
    pub fn ns(&self) -> Option<String> {
        match self {
            Body::Idl { ns, .. } | Body::Avpr { ns, .. } => ns.clone(),
            Body::Avsc { .. } | Body::Raw(_) => None,
        }
    }
    pub fn types(&self) -> Vec<&Type> {
        match self {
            Body::Idl { decls, .. } => decls.iter().filter_map(|d| match d { Decl::T(t) => Some(t), _ => None }).collect(),
            Body::Avpr { types, .. } | Body::Avsc { types, .. } => types.iter().collect(),
            Body::Raw(_) => vec![],
        }
    }
    pub fn types_mut(&mut self) -> Vec<&mut Type> {
        match self {
            Body::Idl { decls, .. } => decls.iter_mut().filter_map(|d| match d { Decl::T(t) => Some(t), _ => None }).collect(),
            Body::Avpr { types, .. } | Body::Avsc { types, .. } => types.iter_mut().collect(),
            Body::Raw(_) => vec![],
        }
    }
    pub fn kind(&self) -> &'static str {
        match self { Body::Idl { .. } => "idl", Body::Avpr { .. } => "protocol", Body::Avsc { .. } => "schema", Body::Raw(_) => "raw" }
    }
    /// every warning token planted in this file
    pub fn warn_tokens(&self) -> Vec<String> {
        let mut v = vec![];
        if let Body::Idl { decls, wtail, .. } = self {
            for d in decls {
                if let Decl::T(t) = d {
                    v.extend(t.worphan.iter().cloned());
                    v.extend(t.walias.iter().cloned());
                    if let Def::Rec { fields, .. } = &t.def {
                        for f in fields { v.extend(f.wunion.iter().cloned()); }
                    }
                }
            }
            v.extend(wtail.iter().cloned());
        }
        v
    }
}

// ------------------------------------------------------------------ IDL text
/// words of the language that can be names when escaped
pub const KEYWORDS: [&str; 12] = ["record", "error", "enum", "schema", "protocol", "import", "oneway", "throws", "void", "union", "fixed", "default"];
struct Pr {
    o: String,
    r: Rng,
    style: u64,
}
impl Pr {
    /// whitespace or a comment where the grammar allows one
    fn sp(&mut self) {
        if self.style == 0 { self.o.push(' '); return; }
        match self.r.below(24) {
            0 => self.o.push_str("\n"),
            1 => self.o.push_str("  "),
            2 => self.o.push_str(" /* c */ "),
            3 => self.o.push_str(" // κόσμε\n"),
            4 => self.o.push_str("\t"),
            5 => self.o.push_str("\r\n"),
            _ => self.o.push(' '),
        }
    }
    fn w(&mut self, s: &str) { self.o.push_str(s); }
    fn nl(&mut self, ind: usize) {
        self.o.push('\n');
        for _ in 0..ind { self.o.push_str("  "); }
    }
    fn doc(&mut self, d: &Option<String>, ind: usize) {
        let Some(d) = d else { return };
        if d.contains('\n') {
            let pad = "  ".repeat(ind);
            match if self.style == 0 { 2 } else { self.r.below(3) } {
                0 => self.w(&format!("/**\n{}{pad} */", d.lines().map(|l| if l.is_empty() { "\n".to_string() } else { format!("{pad} * {l}\n") }).collect::<String>())),
                1 => self.w(&format!("/** {} */", d.lines().enumerate().map(|(i, l)| if i == 0 || l.is_empty() { l.to_string() } else { format!("{pad}    {l}") }).collect::<Vec<_>>().join("\n"))),
                _ => self.w(&format!("/** {d} */")),
            }
        } else { self.w(&format!("/** {d} */")); }
        self.nl(ind);
    }
    fn refname(&mut self, fullname: &str, ns: &Option<String>) -> String {
        let (tns, simple) = match fullname.rsplit_once('.') { Some((a, b)) => (Some(a.to_string()), b), None => (None, fullname) };
        if &tns == ns && !(self.style != 0 && tns.is_some() && self.r.chance(1, 6)) { simple.to_string() } else { fullname.to_string() }
    }
    fn ty(&mut self, t: &Ty, ns: &Option<String>) {
        match t {
            Ty::P(p) => self.w(p),
            Ty::L(k) => self.w(k),
            Ty::Dec(p, s) => if *s == 0 && self.r.chance(1, 2) { self.w(&format!("decimal({p})")) } else { self.w(&format!("decimal({p},{s})")) },
            Ty::R(n) => { let s = self.refname(n, ns); self.w(&s) }
            Ty::A(t) => { self.w("array<"); self.ty(t, ns); self.w(">") }
            Ty::M(t) => { self.w("map<"); self.ty(t, ns); self.w(">") }
            Ty::U(ts) => {
                self.w("union {");
                for (i, t) in ts.iter().enumerate() { if i > 0 { self.w(","); } self.sp(); self.ty(t, ns); }
                self.w(" }")
            }
            Ty::N(t) => { self.ty(t, ns); self.w("?") }
            Ty::Ann(p, k, v) => { self.w(&format!("@{k}({v}) {p}")) }
            Ty::AnnA(t, k, v) => { self.w(&format!("@{k}({v}) array<")); self.ty(t, ns); self.w(">") }
            Ty::X(t, ps) => { for (k, v) in ps { self.w(&format!("@{k}({v}) ")); } self.ty(t, ns) }
        }
    }
    fn props(&mut self, ps: &[(String, Value)], ind: usize) {
        for (k, v) in ps {
            self.w(&format!("@{k}({v})"));
            if self.r.chance(1, 2) { self.nl(ind) } else { self.sp() }
        }
    }
    /// a name, which may be escaped
    fn name(&mut self, n: &str) {
        let esc = self.style != 0 && self.r.chance(1, 16) && !n.contains('-') || KEYWORDS.contains(&n);
        if esc { self.w(&format!("`{n}`")) } else { self.w(n) }
    }
    /// a string literal in either kind of quotes
    fn field(&mut self, f: &Field, ns: &Option<String>, end: &str, ind: usize) {
        self.doc(&f.doc, ind);
        for w in &f.wunion { self.w(&format!("@{w}(1) ")); }
        self.ty(&f.t, ns);
        self.sp();
        self.var(f);
        self.w(end);
    }
    /// the fields of a record; neighbours of one type may share a declaration
    fn fields(&mut self, fs: &[Field], ns: &Option<String>, ind: usize) {
        let mut i = 0;
        while i < fs.len() {
            let mut k = i + 1;
            if self.style != 0 && fs[i].wunion.is_empty() {
                while k < fs.len() && fs[k].t == fs[i].t && fs[k].wunion.is_empty() && self.r.chance(2, 3) { k += 1; }
            }
            self.nl(ind);
            if k == i + 1 { self.field(&fs[i], ns, ";", ind); i = k; continue; }
            // the comment of the declaration is for every variable without one of its own
            let common = if fs[i..k].iter().all(|f| f.doc.is_some()) && self.r.chance(1, 2) { fs[i].doc.clone() } else { None };
            self.doc(&common, ind);
            self.ty(&fs[i].t, ns);
            for (n, f) in fs[i..k].iter().enumerate() {
                if n > 0 { self.w(","); }
                self.sp();
                if f.doc.is_some() && f.doc != common { self.doc(&f.doc, ind + 2); }
                self.var(f);
            }
            self.w(";");
            i = k;
        }
    }
    fn var(&mut self, f: &Field) {
        if !f.aliases.is_empty() { self.w(&format!("@aliases({}) ", json!(f.aliases))); }
        if let Some(o) = &f.order { self.w(&format!("@order(\"{o}\") ")); }
        for (k, v) in &f.props { self.w(&format!("@{k}({v}) ")); }
        self.name(&f.n);
        if let Some(d) = &f.d { self.sp(); self.w("="); self.sp(); self.w(&d.to_string()); }
    }
    fn typ(&mut self, t: &Type, file_ns: &Option<String>, ind: usize) {
        self.doc(&t.doc, ind);
        if let Some(n) = &t.ns { self.w(&format!("@namespace(\"{n}\") ")); }
        let mut al = t.aliases.clone();
        for w in &t.walias { al.push(format!("{w}-x")); }
        if !al.is_empty() { self.w(&format!("@aliases({})", json!(al))); self.nl(ind); }
        self.props(&t.props, ind);
        let ns = t.ns_in(file_ns);
        match &t.def {
            Def::Rec { err, fields } => {
                self.w(if *err { "error" } else { "record" });
                self.sp();
                self.name(&t.name);
                self.sp();
                self.w("{");
                self.fields(fields, &ns, ind + 1);
                for w in &t.worphan { self.w(&format!("\n\n\n  /** {w} */\n\n")); }
                self.nl(ind);
                self.w("}");
            }
            Def::Enum { syms, def } => {
                self.w("enum");
                self.sp();
                self.name(&t.name);
                self.sp();
                self.w("{");
                for (i, s) in syms.iter().enumerate() { if i > 0 { self.w(","); } self.sp(); self.w(s); }
                for w in &t.worphan { self.w(&format!("\n\n\n  /** {w} */\n\n\n")); }
                self.w(" }");
                if let Some(d) = def { self.w(&format!(" = {d};")); }
            }
            Def::Fixed { size } => { self.w("fixed "); self.name(&t.name); self.w(&format!("({size});")) }
        }
        // keep diagnostics' context lines apart
        if !t.walias.is_empty() || !t.worphan.is_empty() { self.w("\n\n\n"); }
    }
    fn msg(&mut self, m: &Msg, ns: &Option<String>, ind: usize) {
        self.doc(&m.doc, ind);
        self.props(&m.props, ind);
        match &m.ret { None => self.w("void"), Some(t) => self.ty(t, ns) }
        self.w(" ");
        self.name(&m.name);
        self.w("(");
        for (i, p) in m.params.iter().enumerate() { if i > 0 { self.w(", "); } self.field(p, ns, "", ind + 1); }
        self.w(")");
        if m.oneway { self.w(" oneway"); }
        if !m.throws.is_empty() {
            let v: Vec<String> = m.throws.iter().map(|t| self.refname(t, ns)).collect();
            self.w(&format!(" throws {}", v.join(", ")));
        }
        self.w(";");
    }
}

// ------------------------------------------------------------------ JSON text
pub fn logical(k: &str) -> (&'static str, &'static str) {
    match k {
        "date" => ("int", "date"),
        "time_ms" => ("int", "time-millis"),
        "timestamp_ms" => ("long", "timestamp-millis"),
        "local_timestamp_ms" => ("long", "local-timestamp-millis"),
        _ => ("string", "uuid"),
    }
}
/// the object form of a type, with properties added
pub fn with_props(t: Value, ps: &[(String, Value)]) -> Value {
    let mut o = match t { Value::Object(o) => o, t => { let mut o = Map::new(); o.insert("type".into(), t); o } };
    for (k, v) in ps { o.insert(k.clone(), v.clone()); }
    Value::Object(o)
}
/// JSON of a type in a context namespace; `inl` decides what a first reference becomes.
fn jref(n: &str, ns: &Option<String>) -> Value {
    let (tns, simple) = match n.rsplit_once('.') { Some((a, b)) => (Some(a.to_string()), b), None => (None, n) };
    json!(if &tns == ns { simple } else { n })
}
struct Js<'a> {
    local: BTreeMap<String, &'a Type>,
    done: BTreeSet<String>,
    inline: bool,
    file_ns: Option<String>,
    r: Rng,
    style: u64,
    /// full names in registration order: inner definitions complete before outer ones
    post: Vec<String>,
}
impl<'a> Js<'a> {
    fn ty(&mut self, t: &Ty, ns: &Option<String>, default_nonnull: bool) -> Value {
        match t {
            Ty::P(p) => json!(p),
            Ty::L(k) => { let (b, l) = logical(k); json!({"type": b, "logicalType": l}) }
            Ty::Dec(p, s) => json!({"type": "bytes", "logicalType": "decimal", "precision": p, "scale": s}),
            Ty::R(n) => {
                if self.inline && !self.done.contains(n) && let Some(t) = self.local.get(n).copied() { return self.typ(t, ns); }
                jref(n, ns)
            }
            Ty::A(t) => json!({"type": "array", "items": self.ty(t, ns, false)}),
            Ty::M(t) => json!({"type": "map", "values": self.ty(t, ns, false)}),
            Ty::U(ts) => Value::Array(ts.iter().map(|t| self.ty(t, ns, false)).collect()),
            Ty::N(t) => { let v = self.ty(t, ns, false); if default_nonnull { json!([v, "null"]) } else { json!(["null", v]) } }
            Ty::Ann(p, k, v) => json!({"type": p, k: v}),
            Ty::AnnA(t, k, v) => { let i = self.ty(t, ns, false); json!({"type": "array", "items": i, k: v}) }
            Ty::X(t, ps) => with_props(self.ty(t, ns, false), ps),
        }
    }
    fn field(&mut self, f: &Field, ns: &Option<String>) -> Value {
        let mut o = Map::new();
        o.insert("name".into(), json!(f.n));
        o.insert("type".into(), self.ty(&f.t, ns, f.d.as_ref().is_some_and(|d| !d.is_null())));
        if let Some(d) = &f.doc { o.insert("doc".into(), json!(d)); }
        if let Some(d) = &f.d { o.insert("default".into(), d.clone()); }
        if let Some(d) = &f.order { o.insert("order".into(), json!(d)); }
        if !f.aliases.is_empty() { o.insert("aliases".into(), json!(f.aliases)); }
        for (k, v) in &f.props { o.insert(k.clone(), v.clone()); }
        Value::Object(o)
    }
    fn typ(&mut self, t: &'a Type, ctx: &Option<String>) -> Value {
        let ns = t.ns_in(&self.file_ns);
        let fullname = full(&t.name, &ns);
        self.done.insert(fullname.clone());
        let mut o = Map::new();
        let kind = match &t.def { Def::Rec { err: true, .. } => "error", Def::Rec { .. } => "record", Def::Enum { .. } => "enum", Def::Fixed { .. } => "fixed" };
        o.insert("type".into(), json!(kind));
        if self.style != 0 && ns.is_some() && self.r.chance(1, 5) {
            o.insert("name".into(), json!(fullname));
        } else {
            o.insert("name".into(), json!(t.name));
            if &ns != ctx || (self.style != 0 && self.r.chance(1, 4)) { o.insert("namespace".into(), json!(ns.clone().unwrap_or_default())); }
        }
        if let Some(d) = &t.doc { o.insert("doc".into(), json!(d)); }
        match &t.def {
            Def::Rec { fields, .. } => { let v: Vec<Value> = fields.iter().map(|f| self.field(f, &ns)).collect(); o.insert("fields".into(), json!(v)); }
            Def::Enum { syms, def } => {
                o.insert("symbols".into(), json!(syms));
                if let Some(d) = def { o.insert("default".into(), json!(d)); }
            }
            Def::Fixed { size } => { o.insert("size".into(), json!(size)); }
        }
        if !t.aliases.is_empty() { o.insert("aliases".into(), json!(t.aliases)); }
        for (k, v) in &t.props { o.insert(k.clone(), v.clone()); }
        self.post.push(fullname);
        Value::Object(o)
    }
    fn text(&mut self, v: &Value) -> String {
        match self.style % 3 {
            0 => serde_json::to_string_pretty(v).unwrap(),
            1 => v.to_string(),
            _ => format!("// comment \u{00e9}\n{} /* trailing\n comment */\n", serde_json::to_string_pretty(v).unwrap()),
        }
    }
}

/// Text of a file and, for JSON files, the order in which its named types register.
pub fn render(b: &Body) -> (String, Vec<String>) {
    match b {
        Body::Raw(s) => (s.clone(), vec![]),
        Body::Idl { proto, ns, doc, props, main, decls, msgs, style, wtail, tail } => {
            let mut p = Pr { o: String::new(), r: Rng::new(*style), style: *style };
            let ind = if proto.is_some() { 1 } else { 0 };
            if let Some(name) = proto {
                p.doc(doc, 0);
                if let Some(n) = ns { p.w(&format!("@namespace(\"{n}\")")); p.nl(0); }
                p.props(props, 0);
                p.w(&format!("protocol {name} {{"));
            } else {
                if let Some(n) = ns { p.w(&format!("namespace {n};")); }
                if let Some(t) = main { p.nl(0); p.w("schema "); p.ty(t, ns); p.w(";"); }
            }
            // messages are spread over the body in schema-independent places
            let mut at: Vec<usize> = msgs.iter().map(|_| if *style == 0 { decls.len() } else { p.r.below(decls.len() + 1) }).collect();
            at.sort();
            for i in 0..=decls.len() {
                for (k, m) in msgs.iter().enumerate() { if at[k] == i { p.nl(ind); p.msg(m, ns, ind); } }
                match decls.get(i) {
                    Some(Decl::I(k, path)) => { p.nl(ind); p.w(&format!("import {k} {};", json!(path))) }
                    Some(Decl::T(t)) => { p.nl(ind); p.typ(t, ns, ind) }
                    None => {}
                }
            }
            // an out-of-place comment, or a character the lexer does not know
            for w in wtail { if w.starts_with("WL") { p.w(&format!("\n\n\n# /* {w} */\n\n\n")); } else { p.w(&format!("\n\n\n/** {w} */\n\n\n")); } }
            if !tail.is_empty() { p.w("\n\n\n"); p.w(tail); }
            if proto.is_some() { p.w("\n}"); }
            if style % 4 != 3 { p.w("\n"); }
            (p.o, vec![])
        }
        Body::Avpr { name, ns, types, msgs, inline, style } => {
            let mut j = Js { local: types.iter().map(|t| (t.full_in(ns), t)).collect(), done: BTreeSet::new(), inline: *inline, file_ns: ns.clone(), r: Rng::new(*style), style: *style, post: vec![] };
            // some types are defined where a message mentions them; messages register in name order
            let mut late = vec![];
            let mut msgs: Vec<&Msg> = msgs.iter().collect();
            let defer = *inline && style % 3 == 1;
            if defer {
                msgs.sort_by(|a, b| a.name.cmp(&b.name));
                for m in &msgs {
                    for t in m.params.iter().map(|f| &f.t).chain(&m.ret) { t.names(&mut late); }
                    late.extend(m.throws.iter().cloned());
                }
            }
            let mut tv = vec![];
            for t in types { let n = t.full_in(ns); if !j.done.contains(&n) && !late.contains(&n) { tv.push(j.typ(t, ns)); } }
            let mut mo = Map::new();
            for m in msgs {
                let mut o = Map::new();
                if let Some(d) = &m.doc { o.insert("doc".into(), json!(d)); }
                for (k, v) in &m.props { o.insert(k.clone(), v.clone()); }
                let v: Vec<Value> = m.params.iter().map(|f| j.field(f, ns)).collect();
                o.insert("request".into(), json!(v));
                o.insert("response".into(), m.ret.as_ref().map(|t| j.ty(t, ns, false)).unwrap_or(json!("null")));
                if !m.throws.is_empty() { let v: Vec<Value> = m.throws.iter().map(|t| if defer { j.ty(&Ty::R(t.clone()), ns, false) } else { jref(t, ns) }).collect(); o.insert("errors".into(), json!(v)); }
                if m.oneway { o.insert("one-way".into(), json!(true)); }
                mo.insert(m.name.clone(), Value::Object(o));
            }
            let mut o = Map::new();
            o.insert("protocol".into(), json!(name));
            if let Some(n) = ns { o.insert("namespace".into(), json!(n)); }
            o.insert("types".into(), json!(tv));
            o.insert("messages".into(), Value::Object(mo));
            let t = j.text(&Value::Object(o));
            (t, j.post)
        }
        Body::Avsc { types, wrap, style } => {
            let mut j = Js { local: types.iter().map(|t| (t.full_in(&None), t)).collect(), done: BTreeSet::new(), inline: true, file_ns: None, r: Rng::new(*style), style: *style, post: vec![] };
            let mut tv = vec![];
            for t in types { if !j.done.contains(&t.full_in(&None)) { tv.push(j.typ(t, &None)); } }
            let v = if tv.len() == 1 {
                let v = tv.pop().unwrap();
                match wrap { 1 => json!({"type": "array", "items": v}), 2 => json!({"type": "map", "values": v}), 3 => json!(["null", v]), _ => v }
            } else { Value::Array(tv) };
            let t = j.text(&v);
            (t, j.post)
        }
    }
}

impl World {
    pub fn fs(&self) -> Fs {
        let mut fs = Fs::new();
        fs.insert(self.cwd.clone(), Node { kind: b'd', mode: 0o755, data: vec![] });
        for d in &self.dirs { fs.insert(d.clone(), Node { kind: b'd', mode: 0o755, data: vec![] }); }
        for (p, s) in &self.extra { fs.insert(p.clone(), Node { kind: b'f', mode: 0o644, data: s.clone().into_bytes() }); }
        for f in &self.files { fs.insert(f.path.clone(), Node { kind: b'f', mode: 0o644, data: render(&f.body).0.into_bytes() }); }
        for (p, t) in &self.links { fs.insert(p.clone(), Node { kind: b'l', mode: 0o777, data: t.clone().into_bytes() }); }
        add_parents(&mut fs);
        fs
    }
    pub fn file(&self, path: &str) -> Option<&File> { self.files.iter().find(|f| f.path == path) }
    pub fn main_abs(&self) -> String { join(&self.cwd, &self.main) }
}
pub fn add_parents(fs: &mut Fs) {
    let keys: Vec<String> = fs.keys().cloned().collect();
    for k in keys {
        let mut p = k.as_str();
        while let Some(i) = p.rfind('/') {
            p = &p[..i];
            if p.is_empty() { break; }
            fs.entry(p.to_string()).or_insert(Node { kind: b'd', mode: 0o755, data: vec![] });
        }
    }
}
pub fn join(dir: &str, p: &str) -> String {
    if p.starts_with('/') { p.to_string() } else { format!("{}/{p}", dir.trim_end_matches('/')) }
}
pub fn parent(p: &str) -> String {
    match p.rfind('/') { Some(0) | None => "/".into(), Some(i) => p[..i].to_string() }
}
pub fn base(p: &str) -> &str { p.rsplit('/').next().unwrap_or(p) }
