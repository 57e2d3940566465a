//! Seeded generation of source trees.
use crate::model;
use crate::rng::Rng;
use crate::spec::*;
use serde_json::{Value, json};

#[derive(Clone, Debug)]
pub struct Opts {
    pub files: usize,
    /// percent of imported files that are JSON
    pub json: u32,
    /// percent chance that the tree has duplicate type names
    pub dup: u32,
    pub warn: u32,
    pub links: u32,
    pub decoys: u32,
    pub idirs: u32,
    pub types: usize,
    pub msgs: usize,
    /// percent chance of a main file in schema syntax
    pub schema: u32,
    /// percent chance of a bare declarations file (idl2schemata only)
    pub bare: u32,
    pub cycles: bool,
    pub unicode: bool,
    /// percent chance of types of the null namespace among others
    pub mixed: u32,
    /// percent chance that something in the tree is large or numerous
    pub bulk: u32,
    /// percent chance that types of one simple name are in several namespaces
    pub twins: u32,
}
impl Opts {
    pub fn small() -> Opts { Opts { files: 3, json: 35, dup: 0, warn: 20, links: 10, decoys: 10, idirs: 40, types: 3, msgs: 2, schema: 15, bare: 0, cycles: true, unicode: true, mixed: 12, bulk: 8, twins: 12 } }
    pub fn wide() -> Opts { Opts { files: 7, json: 40, dup: 15, warn: 20, links: 35, decoys: 40, idirs: 60, types: 3, msgs: 3, schema: 10, bare: 0, cycles: true, unicode: true, mixed: 12, bulk: 8, twins: 12 } }
}

const DIRS: [&str; 8] = ["/w", "/w", "/w/sub", "/w/sub/deep", "/w/my dir", "/inc1", "/inc1/pkg", "/inc2"];
const FNAMES: [&str; 12] = ["a", "b", "c", "common", "Common", "types", "shared", "x-y", "Base", "événement", "z.v1", "b.c"];
const NSS: [&str; 6] = ["org.a", "org.a.b", "com.x", "n", "k9.q_r", "org.b"];

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub o: Opts,
    n: usize,
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, o: Opts) -> Gen<'r> { Gen { r, o, n: 0 } }
    fn id(&mut self) -> usize { self.n += 1; self.n }
    fn pct(&mut self, p: u32) -> bool { self.r.chance(p, 100) }
    fn text(&mut self) -> String {
        let i = self.id();
        if self.pct(15) { return format!("doc {i}{}\nsecond line é{i}{}", ["", " first"][self.r.below(2)], ["", "\n\nlast {1: `x`} @a"][self.r.below(2)]); }
        if self.o.unicode && self.pct(25) { format!("doc {i} – naïve Ω 日本 🦀") } else { format!("doc {i}") }
    }
    fn prop_value(&mut self) -> Value {
        let i = self.id();
        match self.r.below(5) { 0 => json!(i), 1 => json!(format!("v{i}")), 2 => json!([i, "a", null]), 3 => json!({"k": i, "b": true, "a": {"z": 1, "y": []}}), _ => json!(i % 2 == 0) }
    }
    fn props(&mut self, max: usize) -> Vec<(String, Value)> {
        let n = if self.pct(65) { 0 } else { self.r.range(1, max) };
        (0..n).map(|_| { let i = self.id(); (format!("p{i}"), self.prop_value()) }).collect()
    }
    fn prim(&mut self) -> String { self.r.pick(&["int", "long", "string", "boolean", "double", "float", "bytes"]).to_string() }
    fn leaf(&mut self, refs: &[String]) -> Ty {
        if !refs.is_empty() && self.pct(55) { return Ty::R(self.r.pick(refs).clone()); }
        match self.r.below(8) {
            0 => Ty::L(self.r.pick(&["date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid"]).to_string()),
            1 => { let p = self.r.range(1, 20) as u32; Ty::Dec(p, self.r.below(p as usize + 1) as u32) }
            2 if self.pct(40) => self.annotated(),
            _ => Ty::P(self.prim()),
        }
    }
    /// a type with properties, among them logical types that fit it and ones that do not
    fn annotated(&mut self) -> Ty {
        let p = self.prim();
        let l = |s: &str| ("logicalType".to_string(), json!(s));
        let n = |k: &str, v: usize| (k.to_string(), json!(v));
        let mut ps = match self.r.below(8) {
            0 => vec![l("date")],
            1 => vec![l("timestamp-micros")],
            2 => vec![l("uuid")],
            3 => { let q = self.r.range(1, 30); vec![l("decimal"), n("precision", q), n("scale", self.r.below(q + 1))] }
            4 => vec![l("decimal")],
            5 => vec![l("no-such-type"), n("precision", 3)],
            6 => vec![("precision".to_string(), json!(9)), ("scale".to_string(), json!(1))],
            _ => vec![],
        };
        ps.extend(self.props(2));
        let t = match self.r.below(4) { 0 if ps.iter().all(|p| p.0 != "logicalType" && p.0 != "precision") => match self.r.below(3) { 0 => Ty::L("date".into()), 1 => Ty::Dec(5, 2), _ => Ty::M(Box::new(Ty::P(p))) }, 1 => Ty::P(self.r.pick(&["int", "long", "bytes", "string"]).to_string()), _ => Ty::P(p) };
        if ps.is_empty() { t } else { Ty::X(Box::new(t), ps) }
    }
    pub fn ty(&mut self, refs: &[String], depth: usize) -> Ty {
        match if depth == 0 { 0 } else { self.r.below(10) } {
            6 => Ty::A(Box::new(self.ty(refs, depth - 1))),
            7 => Ty::M(Box::new(self.ty(refs, depth - 1))),
            8 => {
                let mut v = vec![Ty::P("null".into())];
                if self.pct(60) { v.push(Ty::P("string".into())); }
                if !refs.is_empty() { v.push(Ty::R(self.r.pick(refs).clone())); } else { v.push(Ty::P("int".into())); }
                if self.pct(30) { v.push(Ty::A(Box::new(self.leaf(refs)))); }
                if self.pct(40) { self.r.shuffle(&mut v); }
                Ty::U(v)
            }
            9 => {
                let l = self.leaf(refs);
                match l { Ty::P(_) | Ty::R(_) | Ty::L(_) => Ty::N(Box::new(l)), x => x }
            }
            _ => self.leaf(refs),
        }
    }
    fn default_for(&mut self, t: &Ty) -> Option<Value> {
        let i = self.id();
        match t {
            Ty::P(p) => Some(match p.as_str() { "int" => match self.r.below(4) { 0 => json!(-(i as i64)), 1 => json!(i32::MIN), _ => json!(i) }, "long" => match self.r.below(4) { 0 => json!(i64::MAX), 1 => json!(i64::MIN + 1), _ => json!(i) }, "string" => json!(format!("s{i} é\"\\")), "boolean" => json!(true), "double" | "float" => match self.r.below(4) { 0 => json!(-1.5e-7), 1 => json!(i), 2 => json!(12e20), _ => json!(i as f64 + 0.5) }, "bytes" => json!("\u{ff}"), _ => return None }),
            Ty::A(_) | Ty::AnnA(..) => Some(json!([])),
            Ty::M(_) => Some(json!({})),
            Ty::N(t) => match &**t { Ty::P(p) if self.pct(50) => self.default_for(&Ty::P(p.clone())), _ => Some(Value::Null) },
            Ty::U(ts) => match ts.first() { Some(Ty::P(p)) if p == "null" => Some(Value::Null), Some(Ty::P(p)) => self.default_for(&Ty::P(p.clone())), _ => None },
            _ => None,
        }
    }
    pub fn field(&mut self, refs: &[String], name: String, param: bool, in_json: bool) -> Field {
        let mut t = self.ty(refs, 2);
        if self.pct(8) {
            let i = self.id();
            t = match t { Ty::P(p) => Ty::Ann(p, format!("t{i}"), json!(i)), Ty::A(x) => Ty::AnnA(x, format!("t{i}"), json!(format!("c{i}"))), x => x };
        }
        let d = if self.pct(35) { self.default_for(&t) } else { None };
        let doc = if self.pct(20) { Some(self.text()) } else { None };
        let order = if !param && self.pct(12) { Some(self.r.pick(&["ascending", "descending", "ignore"]).to_string()) } else { None };
        let aliases = if !param && self.pct(10) { let i = self.id(); vec![format!("fa{i}")] } else { vec![] };
        let props = if self.pct(10) { self.props(2) } else { vec![] };
        let w = self.o.warn;
        let wunion = if !param && !in_json && matches!(t, Ty::U(_)) && self.pct(w / 2) { let i = self.id(); vec![format!("WU{i}X")] } else { vec![] };
        Field { n: name, t, d, doc, order, aliases, props, wunion }
    }
    fn typ(&mut self, name: &str, ns: Option<String>, file_ns: &Option<String>, refs: &[String], errs: bool, in_json: bool) -> Type {
        let _ = file_ns;
        let mut fixed_logical = false;
        let def = match self.r.below(10) {
            0 | 1 => {
                let n = self.r.range(1, 4);
                let syms: Vec<String> = (0..n).map(|i| format!("S{i}_{name}")).collect();
                let def = if self.pct(30) { Some(syms[self.r.below(n)].clone()) } else { None };
                Def::Enum { syms, def }
            }
            2 => { if self.pct(15) { fixed_logical = true; } Def::Fixed { size: if fixed_logical { 12 } else { self.r.range(1, 64) as u32 } } }
            _ => {
                let n = self.r.range(0, 4);
                let kw = self.r.below(KEYWORDS.len());
                let mut fields: Vec<Field> = (0..n).map(|i| self.field(refs, format!("f{i}"), false, in_json)).collect();
                // neighbours of one type, and names that are words of the language
                for i in 1..fields.len() { if fields[i].d.is_none() && fields[i].wunion.is_empty() && self.pct(20) { fields[i].t = fields[i - 1].t.clone(); if self.pct(50) { fields[i].d = fields[i - 1].d.clone(); } } }
                if let Some(f) = fields.last_mut() && self.r.chance(1, 12) { f.n = KEYWORDS[kw].to_string(); }
                Def::Rec { err: errs, fields }
            }
        };
        let def = if errs && !matches!(def, Def::Rec { .. }) { Def::Rec { err: true, fields: vec![self.field(refs, "m".into(), false, in_json)] } } else { def };
        let doc = if self.pct(30) { Some(self.text()) } else { None };
        let aliases = if self.pct(15) { let i = self.id(); if self.pct(50) { vec![format!("Al{i}")] } else { vec![format!("Al{i}"), format!("old.ns.Al{i}")] } } else { vec![] };
        let mut props = if self.pct(25) { self.props(3) } else { vec![] };
        if fixed_logical && matches!(def, Def::Fixed { .. }) { props.insert(0, ("logicalType".into(), json!(self.r.pick(&["duration", "decimal", "uuid"])))); if self.pct(50) { props.push(("precision".into(), json!(self.r.range(1, 60)))); } }
        let w = self.o.warn;
        let (mut worphan, mut walias) = (vec![], vec![]);
        if !in_json {
            if matches!(def, Def::Rec { .. }) && self.pct(w) { let i = self.id(); worphan.push(format!("WO{i}X")); }
            if self.pct(w / 2) { let i = self.id(); walias.push(format!("WA{i}X")); }
        }
        Type { name: name.to_string(), ns, def, doc, aliases, props, worphan, walias }
    }
    pub fn msgs(&mut self, n: usize, refs: &[String], errs: &[String], in_json: bool) -> Vec<Msg> {
        let mut out: Vec<Msg> = vec![];
        for _ in 0..n {
            // few names, so that messages of different files collide
            let name = format!("m{}", self.r.below(5));
            if out.iter().any(|m| m.name == name) { continue; }
            let np = self.r.below(3);
            let params = (0..np).map(|i| self.field(refs, format!("p{i}"), true, in_json)).collect();
            let doc = Some(self.text());
            let kind = self.r.below(4);
            let ret = match kind { 0 | 1 => None, _ => Some(match self.ty(refs, 2) { Ty::Ann(p, ..) => Ty::P(p), Ty::X(..) => Ty::P("bytes".into()), t => t }) };
            let oneway = kind == 0;
            let throws = if !oneway && !errs.is_empty() && self.pct(30) { vec![self.r.pick(errs).clone()] } else { vec![] };
            let props = if ret.is_none() && self.pct(20) { self.props(2) } else { vec![] };
            out.push(Msg { name, doc, params, ret, oneway, throws, props });
        }
        out
    }

    /// A consistent source tree: it compiles, unless duplicates were asked for.
    pub fn world(&mut self) -> World {
        let o = self.o.clone();
        let bulk = if self.pct(o.bulk) { 1 + self.r.below(9) } else { 0 };
        let nfiles = if bulk == 9 { self.r.range(12, 40) } else { self.r.range(1, o.files.max(1)) };
        let nullns = self.pct(12);
        // some files or types without a namespace among others with one
        let mixed = !nullns && self.pct(o.mixed);
        let mut w = World { cwd: "/w".into(), ..Default::default() };
        // ---- files: path, kind, namespace
        struct P { path: String, kind: u8, ns: Option<String>, proto: bool, main: Option<()> }
        let mut ps: Vec<P> = vec![];
        let maindir = if self.pct(70) { "/w".to_string() } else { self.r.pick(&["/w/src", "/w/sub", "/proj"]).to_string() };
        ps.push(P { path: format!("{maindir}/main.avdl"), kind: 0, ns: None, proto: true, main: None });
        let schema_main = self.pct(o.schema);
        let bare_main = !schema_main && self.pct(o.bare);
        if schema_main { ps[0].proto = false; ps[0].main = Some(()); }
        if bare_main { ps[0].proto = false; }
        while ps.len() < nfiles {
            let d = self.r.pick(&DIRS).to_string();
            let kind = if self.pct(o.json) { 1 + self.r.below(2) as u8 } else { 0 };
            let ext = ["avdl", "avpr", "avsc"][kind as usize];
            let mut p = format!("{d}/{}.{ext}", self.r.pick(&FNAMES));
            if ps.iter().any(|q| q.path == p) { let i = self.id(); p = format!("{d}/u{i}.{ext}"); }
            let proto = kind != 0 || !self.pct(20);
            ps.push(P { path: p, kind, ns: None, proto, main: None });
        }
        for p in ps.iter_mut() {
            p.ns = if nullns || p.kind == 2 || mixed && self.pct(35) { None } else { Some(self.r.pick(&NSS).to_string()) };
        }
        // ---- type names first, so that files can refer to each other
        let mut names: Vec<Vec<(String, Option<String>, bool)>> = vec![];
        for p in &ps {
            let lo = if p.kind == 2 { 1 } else { 0 };
            let n = self.r.range(lo, o.types.max(lo));
            let mut v = vec![];
            for _ in 0..n {
                let i = self.id();
                let ns = if nullns { None } else if mixed && self.pct(20) { if p.kind == 2 { None } else { Some(String::new()) } } else if p.kind == 2 || self.pct(15) { Some(self.r.pick(&NSS).to_string()) } else { None };
                v.push((format!("{}{i}", self.r.pick(&["T", "Rec", "Ty_", "É"]).replace('É', if o.unicode { "É" } else { "E" })), ns, self.r.chance(1, 8)));
            }
            names.push(v);
        }
        // one simple name in several namespaces
        if !nullns && self.pct(o.twins) {
            let eff = |ps: &[P], k: usize, ns: &Option<String>| ns.clone().or_else(|| ps[k].ns.clone()).unwrap_or_default();
            let at: Vec<(usize, usize)> = names.iter().enumerate().flat_map(|(k, v)| (0..v.len()).map(move |i| (k, i))).collect();
            for &(k, i) in at.iter().skip(1) {
                if !self.pct(40) { continue; }
                let &(k0, i0) = self.r.pick(&at);
                let nm = names[k0][i0].0.clone();
                let mut ns = names[k][i].1.clone();
                if self.pct(60) { ns = Some(self.r.pick(&NSS).to_string()); } else if self.pct(40) { ns = if ps[k].kind == 2 { None } else { Some(String::new()) }; }
                let e = eff(&ps, k, &ns);
                if at.iter().any(|&(a, b)| names[a][b].0 == nm && eff(&ps, a, &names[a][b].1) == e) { continue; }
                names[k][i] = (nm, ns, names[k][i].2);
            }
        }
        // ---- import edges: a spanning tree over IDL files, then extras
        let idl: Vec<usize> = (0..ps.len()).filter(|&i| ps[i].kind == 0).collect();
        let mut edges: Vec<(usize, usize)> = vec![];
        for i in 1..ps.len() {
            let c: Vec<usize> = idl.iter().copied().filter(|&j| j < i).collect();
            edges.push((*self.r.pick(&c), i));
        }
        if ps.len() > 1 {
            for _ in 0..self.r.below(ps.len() + 1) {
                let a = *self.r.pick(&idl);
                let b = self.r.below(ps.len());
                if o.cycles || b > a { edges.push((a, b)); }
            }
        }
        self.r.shuffle(&mut edges);
        // closure of each file
        let n = ps.len();
        let mut clo = vec![vec![false; n]; n];
        for (i, row) in clo.iter_mut().enumerate() { row[i] = true; }
        for _ in 0..n { for &(a, b) in &edges { for k in 0..n { if clo[b][k] { clo[a][k] = true; } } } }
        let fulls = |i: usize| -> Vec<(String, bool)> { names[i].iter().map(|(nm, ns, e)| (full(nm, &ns.clone().or_else(|| ps[i].ns.clone())), *e)).collect() };
        // ---- bodies
        for i in 0..n {
            let mut refs: Vec<String> = vec![];
            let mut errs: Vec<String> = vec![];
            let up = self.pct(15);
            for k in 0..n { if clo[i][k] || up { for (f, e) in fulls(k) { refs.push(f.clone()); if e { errs.push(f); } } } }
            let in_json = ps[i].kind != 0;
            let ns = ps[i].ns.clone();
            let mut types = vec![];
            // a type of the null namespace cannot be named within another one
            let dotted: Vec<String> = refs.iter().filter(|r| nullns || r.contains('.')).cloned().collect();
            let errs: Vec<String> = errs.into_iter().filter(|r| nullns || r.contains('.')).collect();
            for (nm, tns, e) in names[i].clone() { let own = tns.clone().or_else(|| ns.clone()).is_some_and(|n| !n.is_empty()); types.push(self.typ(&nm, tns, &ns, if own { &dotted } else { &refs }, e, in_json)); }
            let refs = dotted;
            let style = if self.pct(30) { 0 } else { self.r.u64() % 1_000_000 };
            let nm = self.r.below(o.msgs + 1);
            let body = match ps[i].kind {
                1 => Body::Avpr { name: format!("J{i}"), ns: ns.clone(), types, msgs: self.msgs(nm, &refs, &errs, true), inline: self.pct(50), style },
                2 => Body::Avsc { types, wrap: self.r.below(6) as u8, style },
                _ => {
                    let decls = types.into_iter().map(Decl::T).collect();
                    let proto = ps[i].proto;
                    let main = ps[i].main.map(|_| match self.ty(&refs, 2) { Ty::Ann(p, ..) => Ty::P(p), Ty::X(..) => Ty::P("bytes".into()), t => t });
                    let i2 = self.id();
                    Body::Idl {
                        proto: if proto { Some(format!("Proto{i2}")) } else { None },
                        ns,
                        doc: if proto && self.pct(40) { Some(self.text()) } else { None },
                        props: if proto { self.props(3) } else { vec![] },
                        main,
                        decls,
                        msgs: if proto { self.msgs(nm, &refs, &errs, false) } else { vec![] },
                        style,
                        wtail: if self.pct(o.warn) { let k = self.id(); vec![format!("{}{k}X", self.r.pick(&["WT", "WT", "WL"]))] } else { vec![] },
                        tail: String::new(),
                    }
                }
            };
            w.files.push(File { path: ps[i].path.clone(), body });
        }
        if bulk > 0 { self.bulk(&mut w, bulk); }
        self.ref_defaults(&mut w);
        // ---- import directories and links
        if self.pct(o.idirs) {
            let mut c: Vec<&str> = vec!["/inc1", "/inc2", "../inc1", "sub", "/w/sub/deep", "/nonexistent", "./my dir/"];
            self.r.shuffle(&mut c);
            let k = *self.r.pick(&[1, 1, 2, 2, 3, 3, 4, 7]);
            w.idirs = c[..k].iter().map(|s| s.to_string()).collect();
        }
        if self.pct(o.links) {
            let i = self.r.below(n);
            let t = ps[i].path.clone();
            let d = self.r.pick(&DIRS).to_string();
            let ext = t.rsplit('.').next().unwrap().to_string();
            let k = self.id();
            let target = if self.pct(50) { t.clone() } else { relpath(&d, &t) };
            w.links.push((format!("{d}/ln{k}.{ext}"), target));
            if self.pct(50) { w.links.push(("/w/lndir".into(), self.r.pick(&["/inc1", "sub", "../inc2", "."]).to_string())); }
            // directories named by links must exist
            for d in ["/inc1", "/inc2", "/w/sub"] { w.dirs.push(d.into()); }
        }
        w.main = if self.pct(60) && maindir == "/w" { "main.avdl".into() } else if self.pct(50) { format!("{maindir}/main.avdl") } else { relpath("/w", &format!("{maindir}/main.avdl")) };
        // ---- decoys: same file names elsewhere, with contents that would show
        if self.pct(o.decoys) {
            for _ in 0..self.r.range(1, 3) {
                let i = self.r.below(n);
                let d = if !w.idirs.is_empty() && self.pct(50) { crate::case::norm(&join(&w.cwd, &w.idirs[self.r.below(w.idirs.len())].clone())) } else { self.r.pick(&DIRS).to_string() };
                let p = format!("{d}/{}", base(&ps[i].path));
                if w.files.iter().any(|f| f.path == p) { continue; }
                let k = self.id();
                let t = Type { name: format!("Decoy{k}"), ns: if nullns { None } else { Some("decoy".into()) }, def: Def::Fixed { size: 9 }, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] };
                let body = match ps[i].kind {
                    1 => Body::Avpr { name: format!("D{k}"), ns: None, types: vec![t], msgs: vec![], inline: false, style: 0 },
                    2 => Body::Avsc { types: vec![t], wrap: 0, style: 0 },
                    _ => Body::Idl { proto: Some(format!("D{k}")), ns: None, doc: None, props: vec![], main: None, decls: vec![Decl::T(t)], msgs: vec![], style: 0, wtail: vec![], tail: String::new() },
                };
                // or one that would do just as well but for one more type
                let more = match &body { Body::Idl { decls, .. } => match &decls[0] { Decl::T(t) => t.clone(), _ => unreachable!() }, Body::Avpr { types, .. } | Body::Avsc { types, .. } => types[0].clone(), _ => unreachable!() };
                let mut twin = w.files[i].body.clone();
                let body = if i > 0 && self.pct(50) {
                    match &mut twin { Body::Idl { decls, .. } => decls.push(Decl::T(more)), Body::Avpr { types, .. } | Body::Avsc { types, .. } => types.push(more), _ => {} }
                    twin
                } else { body };
                w.files.push(File { path: p, body });
            }
        }
        // ---- spell the imports
        let fs = w.fs();
        let mut ins: Vec<(usize, String, String)> = vec![];
        for &(a, b) in &edges {
            let kind = ["idl", "protocol", "schema"][ps[b].kind as usize];
            let dir = parent(&ps[a].path);
            let spell = self.spell(&w, &fs, &dir, &ps[b].path);
            ins.push((a, kind.to_string(), spell));
        }
        for (a, kind, spell) in ins {
            let at_top = self.pct(60);
            if let Body::Idl { decls, .. } = &mut w.files[a].body {
                let nimp = decls.iter().take_while(|d| matches!(d, Decl::I(..))).count();
                let pos = if at_top { self.r.below(nimp + 1) } else { self.r.below(decls.len() + 1) };
                decls.insert(pos, Decl::I(kind, spell));
            }
        }
        // ---- duplicate names
        if self.pct(o.dup) && n > 1 {
            let (i, k) = (self.r.below(n), self.r.below(n));
            let src: Vec<(String, Option<String>)> = names[k].iter().map(|(nm, ns, _)| (nm.clone(), ns.clone().or_else(|| ps[k].ns.clone()))).collect();
            if !src.is_empty() && i != k {
                let (nm, mut ns) = self.r.pick(&src).clone();
                if ns.is_none() && ps[i].ns.is_some() { ns = Some(String::new()); }
                let kk = self.id();
                let t = Type { name: nm, ns, def: Def::Rec { err: false, fields: vec![Field { n: format!("dup{kk}"), t: Ty::P("int".into()), d: None, doc: None, order: None, aliases: vec![], props: vec![], wunion: vec![] }] }, doc: Some(format!("dup {kk}")), aliases: vec![], props: vec![], worphan: vec![], walias: vec![] };
                if let Some(b) = w.files.get_mut(i).map(|f| &mut f.body) {
                    match b {
                        Body::Idl { decls, .. } => decls.push(Decl::T(t)),
                        Body::Avpr { types, .. } => types.insert(0, t),
                        Body::Avsc { types, .. } => { types.insert(0, t); }
                        _ => {}
                    }
                }
            }
        }
        // a default that fits one definition of its type need not fit the other
        for (i, t, f) in crate::common::misfits(&w) {
            for x in w.files[i].body.types_mut().into_iter().filter(|x| x.name == t) {
                if let Def::Rec { fields, .. } = &mut x.def { for y in fields.iter_mut().filter(|y| y.n == f) { y.d = None; } }
            }
        }
        w
    }
    /// Long text, in lines, most often of a length near that of a usual buffer.
    fn long_text(&mut self) -> String {
        let near = *self.r.pick(&[1024, 4096, 4096, 8192, 8192, 8192, 16384, 32768, 65536]);
        let want = match self.r.below(4) { 0 => self.r.range(600, 12_000), 1 => near + self.r.below(40), _ => near - self.r.below(700).min(near / 2) };
        let i = self.id();
        let width = *self.r.pick(&[40, 79, 300, 5000, 100_000]);
        let mut s = format!("long {i}");
        let mut line = s.len();
        while s.len() < want {
            let w = match self.r.below(if self.o.unicode { 9 } else { 5 }) { 0 => "lorem", 1 => "ipsum,", 2 => "a", 3 => "dolor sit", 4 => "\"x\" \\ y", 5 => "é", 6 => "日本語", 7 => "🦀", _ => "naïve–Ω" };
            if line > width { s.push('\n'); line = 0; s.push_str("w "); } else { s.push(' '); }
            s.push_str(w);
            line += w.len() + 1;
        }
        s
    }
    /// Make something in the tree large or numerous.
    fn bulk(&mut self, w: &mut World, kind: usize) {
        let at = if self.pct(50) { 0 } else { self.r.below(w.files.len()) };
        let names: Vec<String> = (0..self.r.range(20, 120)).map(|_| format!("Bk{}", self.id())).collect();
        let plain = |n: &str, def: Def| Type { name: n.into(), ns: None, def, doc: None, aliases: vec![], props: vec![], worphan: vec![], walias: vec![] };
        let field = |n: String, t: &str| Field { n, t: Ty::P(t.into()), d: None, doc: None, order: None, aliases: vec![], props: vec![], wunion: vec![] };
        let in_json = !matches!(w.files[at].body, Body::Idl { .. });
        let mut new: Vec<Type> = vec![];
        match kind {
            // one long piece of text
            1..=3 => {
                let text = self.long_text();
                match self.r.below(3) {
                    0 if let Body::Idl { proto: Some(_), doc, .. } = &mut w.files[at].body => *doc = Some(text),
                    1 => { let mut f = field("big".into(), "string"); f.d = Some(json!(text.replace('\n', " "))); new.push(plain(&names[0], Def::Rec { err: false, fields: vec![f] })); }
                    _ => { let mut t = plain(&names[0], Def::Fixed { size: 7 }); t.doc = Some(text); new.push(t); }
                }
            }
            // many types, some with warnings
            4 | 5 => {
                let warn = !in_json && self.pct(self.o.warn);
                for n in &names {
                    let mut t = match self.r.below(3) {
                        0 => plain(n, Def::Enum { syms: vec![format!("S_{n}")], def: None }),
                        1 => plain(n, Def::Fixed { size: self.r.range(1, 64) as u32 }),
                        _ => plain(n, Def::Rec { err: false, fields: vec![field("v".into(), "long")] }),
                    };
                    if warn && matches!(t.def, Def::Rec { .. }) { let i = self.id(); t.worphan.push(format!("WO{i}X")); }
                    new.push(t);
                }
            }
            6 => new.push(plain(&names[0], Def::Enum { syms: names.iter().map(|n| format!("S_{n}")).collect(), def: None })),
            7 => new.push(plain(&names[0], Def::Rec { err: false, fields: names.iter().map(|n| field(n.to_lowercase(), "int")).collect() })),
            8 => if let Body::Idl { proto: Some(_), msgs, .. } | Body::Avpr { msgs, .. } = &mut w.files[at].body {
                for n in &names { msgs.push(Msg { name: format!("b{n}"), doc: None, params: vec![field("p".into(), "int")], ret: Some(Ty::P("string".into())), oneway: false, throws: vec![], props: vec![] }); }
            },
            _ => {}
        }
        for t in new {
            match &mut w.files[at].body {
                Body::Idl { decls, .. } => decls.push(Decl::T(t)),
                Body::Avpr { types, .. } | Body::Avsc { types, .. } => types.push(t),
                _ => {}
            }
        }
    }
    /// Defaults for fields that refer to named types.
    fn ref_defaults(&mut self, w: &mut World) {
        let all: std::collections::BTreeMap<String, Def> = w.files.iter().flat_map(|f| f.body.types().into_iter().map(|t| (t.full_in(&f.body.ns()), t.def.clone()))).collect();
        for f in &mut w.files {
            for t in f.body.types_mut() {
                if let Def::Rec { fields, .. } = &mut t.def {
                    for f in fields { if f.d.is_none() && matches!(f.t, Ty::R(_)) && self.pct(30) { f.d = self.ref_default(&f.t, &all, 3); } }
                }
            }
        }
    }
    fn ref_default(&mut self, t: &Ty, all: &std::collections::BTreeMap<String, Def>, depth: usize) -> Option<Value> {
        let Ty::R(n) = t else { return self.default_for(t) };
        if depth == 0 { return None; }
        match all.get(n)? {
            Def::Enum { syms, .. } => Some(json!(self.r.pick(syms))),
            Def::Fixed { size } => Some(json!((0..*size).map(|_| *self.r.pick(&['a', '\u{0}', 'é', '\u{ff}', '0', '"', '\\'])).collect::<String>())),
            Def::Rec { fields, .. } => {
                let mut o = serde_json::Map::new();
                for f in fields {
                    let v = match &f.d { Some(d) => d.clone(), None => match &f.t { Ty::N(_) => Value::Null, t => self.ref_default(t, all, depth - 1)? } };
                    o.insert(f.n.clone(), v);
                }
                Some(Value::Object(o))
            }
        }
    }
    /// A way to write an import of `target` from `dir` that resolves to it.
    pub fn spell(&mut self, w: &World, fs: &crate::job::Fs, dir: &str, target: &str) -> String {
        for _ in 0..8 {
            let s = match self.r.below(7) {
                0 => target.to_string(),
                1 => format!("./{}", relpath(dir, target)),
                2 => { let r = relpath(dir, target); format!("{}/../{r}", base(dir)).replacen(&format!("{}/../", base(dir)), &format!("../{}/", base(dir)), 1) }
                3 | 4 if !w.idirs.is_empty() => {
                    let d = self.r.pick(&w.idirs).clone();
                    match model::realpath(fs, &join(&w.cwd, &d)) { Some(d) => relpath(&d, target), None => continue }
                }
                5 if !w.links.is_empty() => { let l = self.r.pick(&w.links).0.clone(); if self.r.chance(1, 2) { relpath(dir, &l) } else { l } }
                _ => relpath(dir, target),
            };
            if model::lookup(fs, &w.cwd, &w.idirs, dir, &s).as_deref() == Some(target) { return s; }
        }
        relpath(dir, target)
    }
}
pub fn relpath(dir: &str, target: &str) -> String {
    let d: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
    let t: Vec<&str> = target.split('/').filter(|s| !s.is_empty()).collect();
    let k = d.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut v: Vec<&str> = vec![".."; d.len() - k];
    v.extend(&t[k..]);
    v.join("/")
}
