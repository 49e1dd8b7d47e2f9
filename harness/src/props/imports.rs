//! C06 to C13: what a file declares, and what its names mean.
//!
//! Files are rendered with random sets of imports, some used and some only
//! registered. Each written name is found through markers around it, and the
//! header is parsed into the declarations it makes. Both are compared with what
//! the imports ask for.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

use genco::lang::{c, csharp, dart, go, java, js, nix, python, rust, swift};
use genco::tokens::Item;
use genco::Tokens;

use crate::decode::{self, Dialect, P};
use crate::langs::*;
use crate::model::{MFmt, Unit};
use crate::rng::Rng;
use crate::run::{Ctx, Verdict};

type R<T> = Result<T, String>;

pub struct Scene<U> {
    pub cfg: Cfg,
    pub uses: Vec<U>,
    /// What was written for each use, and nothing for registered ones.
    pub written: Vec<Option<String>>,
    pub header: String,
    pub body: String,
}

pub trait Declares: TestLang
where
    Self::Config: Default,
{
    /// The local name which is bound, and what to. Two imports which bind one
    /// name to different things can't be in the same file.
    fn binds(_u: &Self::Use, _cfg: &Cfg) -> Option<(String, String)> {
        None
    }

    fn check(s: &Scene<Self::Use>, ctx: &mut Ctx) -> Verdict;
}

pub fn expect_eq<T: PartialEq + Debug>(what: &str, expected: T, actual: T) -> Verdict {
    if expected != actual {
        return Err(format!("{what}:\n  expected {expected:?}\n  actual   {actual:?}"));
    }
    Ok(())
}

/// Collect declarations, none of which may be there twice.
struct Decls<T>(BTreeSet<T>);

impl<T: Ord + Debug + Clone> Decls<T> {
    fn new() -> Self {
        Decls(BTreeSet::new())
    }

    fn add(&mut self, t: T) -> Verdict {
        if !self.0.insert(t.clone()) {
            return Err(format!("declared twice: {t:?}"));
        }
        Ok(())
    }

    fn same(&self, expected: &BTreeSet<T>) -> Verdict {
        let missing = expected.difference(&self.0).collect::<Vec<_>>();
        let extra = self.0.difference(expected).collect::<Vec<_>>();
        if !missing.is_empty() || !extra.is_empty() {
            return Err(format!("declarations: missing {missing:?}, not called for {extra:?}"));
        }
        Ok(())
    }
}

/// Imports which may be put into one file.
pub fn gen_uses<L: Declares>(r: &mut Rng, cfg: &Cfg) -> Vec<L::Use>
where
    L::Config: Default,
{
    let many = r.one_in(1500);
    let wide = if many { r.bool() } else { r.one_in(40) };
    let n = match r.below(8) {
        _ if many => *r.pick(&[99, 101, 127, 129, 200, 255, 257, 300, 400]),
        _ if wide => 20 + r.below(60),
        0 => 0,
        1 => 1,
        2 => 2,
        3..=6 => 3 + r.below(6),
        _ => 8 + r.below(12),
    };
    crate::gen::set_wide(wide.then(|| r.u64()));
    crate::gen::set_many(many);
    let mut bound = BTreeMap::new();
    let mut uses: Vec<L::Use> = Vec::new();
    for _ in 0..n {
        let u = if !uses.is_empty() && r.one_in(5) { r.pick(&uses).clone() } else { L::gen(r, cfg) };
        if let Some((name, to)) = L::binds(&u, cfg) {
            if bound.entry(name).or_insert_with(|| to.clone()) != &to {
                continue;
            }
        }
        uses.push(u);
    }
    crate::gen::set_wide(None);
    crate::gen::set_many(false);
    uses
}

pub fn open_mark(k: usize) -> String {
    format!("@{k}[")
}

pub fn scene<L: Declares>(ctx: &mut Ctx) -> R<Scene<L::Use>>
where
    L::Config: Default,
{
    let r = &mut ctx.rng;
    let cfg = L::cfg(r);
    let uses = gen_uses::<L>(r, &cfg);
    let salt = r.u64();

    let mut parts = Vec::new();
    let mut start: Tokens<L> = Tokens::new();
    start.append("BODY");
    parts.push(start);
    let mut used = Vec::new();

    for (k, u) in uses.iter().enumerate() {
        let reg = r.one_in(4);
        used.push(!reg);
        let mut t = Tokens::new();
        match r.below(4) {
            0 => t.space(),
            1 => t.push(),
            2 => t.line(),
            _ => {}
        }
        let indent = r.one_in(4);
        if indent {
            t.indent();
        }
        // Note: equal imports are stored differently.
        let salt = salt.wrapping_add(k as u64 * 977);
        if reg {
            L::put(u, &mut t, true, salt);
        } else {
            t.append(open_mark(k));
            // In an interpolated string, the name is an expression like any other.
            let eval = matches!(L::DIALECT, Dialect::Js | Dialect::Dart) && r.one_in(6);
            if eval {
                t.extend([Item::OpenQuote(true), Item::OpenEval]);
            }
            L::put(u, &mut t, false, salt);
            if eval {
                t.extend([Item::CloseEval, Item::CloseQuote]);
            }
            t.append("]");
        }
        if indent {
            t.unindent();
        }
        parts.push(t);
        // Registrations may also come ahead of anything else.
        if reg && r.one_in(3) {
            let t = parts.pop().unwrap();
            let only = t.iter().filter(|i| matches!(i, Item::Register(..))).cloned().collect();
            parts.insert(0, only);
        }
    }
    let t = assemble(r, parts);
    let text = render_file(&t, &cfg)?;

    let at = text.find("BODY").ok_or("the body is gone")?;
    let (header, body) = text.split_at(at);
    let mut written = Vec::new();
    let mut n = 0;
    for (k, used) in used.iter().enumerate() {
        if !used {
            written.push(None);
            continue;
        }
        n += 1;
        let m = open_mark(k);
        let i = body.find(&m).ok_or(format!("{m} is gone"))? + m.len();
        let j = body[i..].find(']').ok_or(format!("no end of {m}"))?;
        let mut w = body[i..i + j].to_string();
        if let Some(d) = [Dialect::Js, Dialect::Dart].into_iter().find(|d| *d == L::DIALECT) {
            if w.starts_with(['`', '"']) {
                ctx.saw("names inside of interpolated strings");
                let p = decode::interpolated(d, &mut P::new(&w)).map_err(|e| format!("{w}: {e}"))?;
                match &p[..] {
                    [decode::Part::Text(a), decode::Part::Expr(e), decode::Part::Text(b)] if a.is_empty() && b.is_empty() => {
                        w = e.clone();
                    }
                    _ => return Err(format!("an evaluated name is written as {w}")),
                }
            }
        }
        written.push(Some(w));
    }
    if uses.len() > 60 {
        ctx.saw("large sets of imports");
    }
    ctx.saw_n("uses written", n);
    ctx.saw_n("registrations", uses.len() as u64 - n);
    Ok(Scene { cfg, uses, written, header: header.to_string(), body: body.to_string() })
}

fn run<L: Declares>(ctx: &mut Ctx) -> Verdict
where
    L::Config: Default,
{
    let s = scene::<L>(ctx)?;
    let distinct = s.uses.iter().enumerate().filter(|(i, u)| !s.uses[..*i].contains(u)).count();
    let v = L::check(&s, ctx);
    ctx.evaluated(&format!("{}{}", s.header, s.body), distinct >= 2);
    v.map_err(|e| format!("{e}\n{:?}\nimports: {:?}\n---\n{}{}", s.cfg, s.uses, s.header, s.body))
}

fn written<U>(s: &Scene<U>, name: impl Fn(&U) -> String) -> Verdict {
    for (u, w) in s.uses.iter().zip(&s.written) {
        if let Some(w) = w {
            let e = name(u);
            if *w != e {
                return Err(format!("a name is written as {w:?}, expected {e:?}"));
            }
        }
    }
    Ok(())
}

fn last<'a>(path: &'a str, sep: &str) -> &'a str {
    path.rsplit(sep).next().unwrap()
}

// -- Rust

fn rust_form(u: &RustUse, cfg: &Cfg) -> RustForm {
    match u.form {
        RustForm::Default if cfg.qualified => RustForm::Qualified,
        RustForm::Default => RustForm::Direct,
        f => f,
    }
}

/// An identifier, which may be a raw one.
fn rust_ident(p: &mut P) -> R<String> {
    match p.eat("r#") {
        true => Ok(format!("r#{}", p.ident()?)),
        false => p.ident(),
    }
}

fn rust_path(p: &mut P) -> R<Vec<String>> {
    let mut v = vec![rust_ident(p)?];
    while p.eat("::") {
        if p.peek() == Some('{') {
            break;
        }
        v.push(rust_ident(p)?);
    }
    Ok(v)
}

fn rust_as(p: &mut P) -> R<Option<String>> {
    p.sp();
    if p.eat("as ") {
        p.sp();
        return Ok(Some(rust_ident(p)?));
    }
    Ok(None)
}

/// The declarations of `use` items: what, and under which name.
fn rust_decls(header: &str) -> R<Decls<(String, String)>> {
    let mut d = Decls::new();
    let mut p = P::new(header);
    p.ws();
    while !p.end() {
        p.expect("use ")?;
        p.sp();
        let path = rust_path(&mut p)?;
        if p.eat("{") {
            loop {
                p.ws();
                if p.eat("}") {
                    break;
                }
                let sub = rust_path(&mut p)?;
                let mut full = path.clone();
                if sub != ["self"] {
                    full.extend(sub);
                }
                let name = rust_as(&mut p)?.unwrap_or_else(|| full.last().unwrap().clone());
                d.add((full.join("::"), name))?;
                p.ws();
                if !p.eat(",") {
                    p.ws();
                    p.expect("}")?;
                    break;
                }
            }
        } else {
            if path.len() == 1 && rust_as(&mut P::new(&p.rest()))?.is_none() {
                return Err(format!("`use {}` binds nothing new", path[0]));
            }
            let name = rust_as(&mut p)?.unwrap_or_else(|| path.last().unwrap().clone());
            d.add((path.join("::"), name))?;
        }
        p.sp();
        p.expect(";")?;
        p.ws();
    }
    Ok(d)
}

impl Declares for rust::Rust {
    fn binds(u: &RustUse, cfg: &Cfg) -> Option<(String, String)> {
        if let Some(a) = &u.module_alias {
            return Some((a.clone(), format!("module {}", u.module)));
        }
        Some(match rust_form(u, cfg) {
            RustForm::Qualified => (last(&u.module, "::").into(), format!("module {}", u.module)),
            _ => (u.alias.clone().unwrap_or_else(|| u.name.clone()), format!("{}::{}", u.module, u.name)),
        })
    }

    fn check(s: &Scene<RustUse>, ctx: &mut Ctx) -> Verdict {
        let d = rust_decls(&s.header)?;
        let mut e = BTreeSet::new();
        for u in &s.uses {
            if let Some(a) = &u.module_alias {
                e.insert((u.module.clone(), a.clone()));
                ctx.saw("module aliased");
                continue;
            }
            match rust_form(u, &s.cfg) {
                RustForm::Qualified => {
                    ctx.saw("qualified");
                    if u.module.contains("::") {
                        e.insert((u.module.clone(), last(&u.module, "::").into()));
                    } else {
                        ctx.saw("qualified, single segment");
                    }
                }
                _ => {
                    ctx.saw(if u.alias.is_some() { "direct with an alias" } else { "direct" });
                    e.insert((format!("{}::{}", u.module, u.name), u.alias.clone().unwrap_or_else(|| u.name.clone())));
                }
            }
        }
        d.same(&e)?;
        if s.header.contains('{') {
            ctx.saw("grouped declarations");
        }
        written(s, |u| match (&u.module_alias, rust_form(u, &s.cfg)) {
            (Some(a), _) => format!("{a}::{}", u.name),
            (_, RustForm::Qualified) => format!("{}::{}", last(&u.module, "::"), u.name),
            _ => u.alias.clone().unwrap_or_else(|| u.name.clone()),
        })
    }
}

// -- JavaScript

/// The path of a module as seen from another one.
fn js_module(u: &JsUse, cfg: &Cfg) -> String {
    match (&cfg.module_path, u.path) {
        (Some(from), true) => {
            let f = from.split('/').collect::<Vec<_>>();
            let t = u.module.split('/').collect::<Vec<_>>();
            let n = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
            let mut v = vec![".."; f.len() - n];
            v.extend(&t[n..]);
            v.join("/")
        }
        _ => u.module.clone(),
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct JsDecl {
    local: String,
    export: String,
    module: String,
}

fn js_decls(header: &str) -> R<Decls<JsDecl>> {
    let mut d = Decls::new();
    let mut p = P::new(header);
    p.ws();
    while !p.end() {
        p.expect("import ")?;
        p.sp();
        let mut found: Vec<(String, String)> = Vec::new();
        let mut more = true;
        if !matches!(p.peek(), Some('{' | '*')) {
            found.push((p.ident_with("$")?, "default".into()));
            p.sp();
            more = p.eat(",");
            p.sp();
        }
        if more {
            if p.eat("*") {
                p.sp();
                p.expect("as ")?;
                p.sp();
                found.push((p.ident_with("$")?, "*".into()));
            } else {
                p.expect("{")?;
                loop {
                    p.ws();
                    if p.eat("}") {
                        break;
                    }
                    let n = p.ident_with("$")?;
                    p.sp();
                    let l = if p.eat("as ") {
                        p.sp();
                        p.ident_with("$")?
                    } else {
                        n.clone()
                    };
                    found.push((l, n));
                    p.ws();
                    if !p.eat(",") {
                        p.expect("}")?;
                        break;
                    }
                }
            }
        }
        p.sp();
        p.expect("from ")?;
        p.sp();
        let module = decode::string(Dialect::Js, &mut p)?;
        p.sp();
        p.expect(";")?;
        p.ws();
        for (local, export) in found {
            d.add(JsDecl { local, export, module: module.clone() })?;
        }
    }
    // Note: locals are bound once.
    let locals = d.0.iter().map(|d| &d.local).collect::<BTreeSet<_>>();
    if locals.len() != d.0.len() {
        return Err("a name is bound twice".into());
    }
    Ok(d)
}

fn js_decl(u: &JsUse, cfg: &Cfg) -> JsDecl {
    let module = js_module(u, cfg);
    match &u.kind {
        JsKind::Named(a) => JsDecl { local: a.clone().unwrap_or_else(|| u.name.clone()), export: u.name.clone(), module },
        JsKind::Default => JsDecl { local: u.name.clone(), export: "default".into(), module },
        JsKind::Wildcard => JsDecl { local: u.name.clone(), export: "*".into(), module },
    }
}

impl Declares for js::JavaScript {
    fn binds(u: &JsUse, cfg: &Cfg) -> Option<(String, String)> {
        let d = js_decl(u, cfg);
        Some((d.local, format!("{} {} {}", d.export, u.path, d.module)))
    }

    fn check(s: &Scene<JsUse>, ctx: &mut Ctx) -> Verdict {
        let d = js_decls(&s.header)?;
        let e = s.uses.iter().map(|u| js_decl(u, &s.cfg)).collect::<BTreeSet<_>>();
        for u in &s.uses {
            ctx.saw(match u.kind {
                JsKind::Named(None) => "named",
                JsKind::Named(_) => "named with an alias",
                JsKind::Default => "default",
                JsKind::Wildcard => "wildcard",
            });
            if u.path && s.cfg.module_path.is_some() {
                ctx.saw("relative paths");
            }
        }
        d.same(&e)?;
        written(s, |u| js_decl(u, &s.cfg).local)
    }
}

// -- Python

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
enum PyDecl {
    Module(String, Option<String>),
    From(String, String, Option<String>),
}

fn py_dotted(p: &mut P) -> R<String> {
    let mut s = p.ident()?;
    while p.eat(".") {
        s.push('.');
        s.push_str(&p.ident()?);
    }
    Ok(s)
}

fn py_as(p: &mut P) -> R<Option<String>> {
    p.sp();
    if p.eat("as ") {
        p.sp();
        let v = p.ident()?;
        p.sp();
        return Ok(Some(v));
    }
    Ok(None)
}

fn py_decls(header: &str) -> R<Decls<PyDecl>> {
    let mut d = Decls::new();
    for line in header.lines() {
        if line.is_empty() {
            continue;
        }
        let mut p = P::new(line);
        if p.eat("from ") {
            p.sp();
            let m = py_dotted(&mut p)?;
            p.expect(" ")?;
            p.sp();
            p.expect("import ")?;
            loop {
                p.sp();
                let n = p.ident()?;
                let a = py_as(&mut p)?;
                d.add(PyDecl::From(m.clone(), n, a))?;
                if !p.eat(",") {
                    break;
                }
            }
        } else {
            p.expect("import ")?;
            loop {
                p.sp();
                let n = py_dotted(&mut p)?;
                let a = py_as(&mut p)?;
                d.add(PyDecl::Module(n, a))?;
                if !p.eat(",") {
                    break;
                }
            }
        }
        if !p.end() {
            return Err(format!("{:?} follows an import", p.rest()));
        }
    }
    Ok(d)
}

fn py_decl(u: &PyUse) -> PyDecl {
    match &u.name {
        None => PyDecl::Module(u.module.clone(), u.alias.clone()),
        Some(_) if u.qualified => PyDecl::Module(u.module.clone(), u.module_alias.clone()),
        Some(n) => PyDecl::From(u.module.clone(), n.clone(), u.alias.clone()),
    }
}

impl Declares for python::Python {
    fn binds(u: &PyUse, _: &Cfg) -> Option<(String, String)> {
        let d = py_decl(u);
        Some(match &d {
            PyDecl::Module(m, None) => {
                let root = m.split('.').next().unwrap().to_string();
                (root.clone(), format!("root {root}"))
            }
            PyDecl::Module(m, Some(a)) => (a.clone(), format!("module {m}")),
            PyDecl::From(m, n, a) => (a.as_ref().unwrap_or(n).clone(), format!("{m}:{n}")),
        })
    }

    fn check(s: &Scene<PyUse>, ctx: &mut Ctx) -> Verdict {
        let d = py_decls(&s.header)?;
        for u in &s.uses {
            ctx.saw(match py_decl(u) {
                PyDecl::Module(_, None) => "modules",
                PyDecl::Module(_, Some(_)) => "modules with an alias",
                PyDecl::From(_, _, None) => "names",
                PyDecl::From(_, _, Some(_)) => "names with an alias",
            });
        }
        d.same(&s.uses.iter().map(py_decl).collect())?;
        written(s, |u| match py_decl(u) {
            PyDecl::Module(m, a) => {
                let m = a.unwrap_or(m);
                match &u.name {
                    Some(n) => format!("{m}.{n}"),
                    None => m,
                }
            }
            PyDecl::From(_, n, a) => a.unwrap_or(n),
        })
    }
}

// -- Java

fn dotted(line: &str) -> R<&str> {
    let ok = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '_');
    if line.split('.').all(ok) {
        Ok(line)
    } else {
        Err(format!("{line:?} is not a name"))
    }
}

fn split_class(s: &str) -> (Option<&str>, &str) {
    match s.rsplit_once('.') {
        Some((p, n)) => (Some(p), n),
        None => (None, s),
    }
}

impl Declares for java::Java {
    fn check(s: &Scene<ClassUse>, ctx: &mut Ctx) -> Verdict {
        let mut package = None;
        let mut imports = BTreeMap::<&str, &str>::new();
        for line in s.header.lines().filter(|l| !l.is_empty()) {
            if let Some(p) = line.strip_prefix("package ").and_then(|l| l.strip_suffix(';')) {
                if package.is_some() || !imports.is_empty() {
                    return Err("the package isn't declared first".into());
                }
                package = Some(dotted(p)?);
            } else if let Some(i) = line.strip_prefix("import ").and_then(|l| l.strip_suffix(';')) {
                let (Some(p), n) = split_class(dotted(i)?) else { return Err(format!("{line:?} names no class")) };
                if imports.insert(n, p).is_some() {
                    return Err(format!("{n} is imported twice"));
                }
                if !s.uses.iter().any(|u| u.package == p && u.name == n) {
                    return Err(format!("{line:?} isn't called for"));
                }
                if p == "java.lang" || Some(p) == s.cfg.package.as_deref() {
                    return Err(format!("{line:?} is in scope already"));
                }
            } else {
                return Err(format!("unexpected line {line:?}"));
            }
        }
        expect_eq("package", s.cfg.package.as_deref(), package)?;
        let known = |p: &str, n: &str| s.uses.iter().any(|u| u.package == p && u.name == n);
        // What a simple name stands for.
        let resolve = |n: &str| -> Option<&str> {
            if let Some(p) = imports.get(n) {
                return Some(*p);
            }
            for scope in package.into_iter().chain(["java.lang"]) {
                if known(scope, n) {
                    return Some(scope);
                }
            }
            None
        };
        for (u, w) in s.uses.iter().zip(&s.written) {
            let Some(w) = w else { continue };
            match split_class(w) {
                (None, n) => {
                    ctx.saw("simple names");
                    let to = resolve(n);
                    if n != u.name || to != Some(&*u.package) {
                        return Err(format!("{w:?} denotes {to:?}, not {}.{}", u.package, u.name));
                    }
                }
                (Some(p), n) => {
                    ctx.saw("qualified names");
                    if n != u.name || p != u.package {
                        return Err(format!("{w:?} is not {}.{}", u.package, u.name));
                    }
                    match resolve(n) {
                        Some(to) if to != u.package => {}
                        to => return Err(format!("{w:?} is qualified, while {n} denotes {to:?}")),
                    }
                }
            }
        }
        // An import which is only registered is declared too, unless something
        // else has its name.
        for u in &s.uses {
            if resolve(&u.name).is_none() {
                return Err(format!("{}.{} is not declared", u.package, u.name));
            }
        }
        Ok(())
    }
}

// -- C#

impl Declares for csharp::Csharp {
    fn check(s: &Scene<ClassUse>, ctx: &mut Ctx) -> Verdict {
        let mut usings = Decls::new();
        let mut namespace = None;
        for line in s.header.lines().filter(|l| !l.trim().is_empty()) {
            if let Some(n) = line.strip_prefix("using ").and_then(|l| l.strip_suffix(';')) {
                if namespace.is_some() {
                    return Err("a using directive follows the namespace".into());
                }
                dotted(n)?;
                usings.add(n)?;
                if !s.uses.iter().any(|u| u.package == n) {
                    return Err(format!("{line:?} isn't called for"));
                }
                if Some(n) == s.cfg.package.as_deref() {
                    return Err(format!("{line:?} is the namespace of the file"));
                }
            } else if let Some(n) = line.strip_prefix("namespace ").and_then(|l| l.strip_suffix(" {")) {
                if namespace.replace(dotted(n)?).is_some() {
                    return Err("two namespaces".into());
                }
            } else {
                return Err(format!("unexpected line {line:?}"));
            }
        }
        expect_eq("namespace", s.cfg.package.as_deref(), namespace)?;
        if namespace.is_some() && !s.body.trim_end().ends_with("\n}") {
            return Err("the namespace isn't closed".into());
        }
        let known = |p: &str, n: &str| s.uses.iter().any(|u| u.package == p && u.name == n);
        // What a simple name may stand for.
        let resolve = |n: &str| -> Vec<&str> {
            let mut scope = namespace;
            while let Some(at) = scope {
                if known(at, n) {
                    return vec![at];
                }
                scope = at.rsplit_once('.').map(|(p, _)| p);
            }
            usings.0.iter().copied().filter(|p| known(p, n)).collect()
        };
        for (u, w) in s.uses.iter().zip(&s.written) {
            let Some(w) = w else { continue };
            match split_class(w) {
                (None, n) => {
                    ctx.saw("simple names");
                    if u.qualified {
                        return Err(format!("{w:?} was to be qualified"));
                    }
                    let to = resolve(n);
                    if n != u.name || to != [&*u.package] {
                        return Err(format!("{w:?} denotes {to:?}, not {}.{}", u.package, u.name));
                    }
                }
                (Some(p), n) => {
                    ctx.saw(if u.qualified { "names asked to be qualified" } else { "qualified names" });
                    if n != u.name || p != u.package {
                        return Err(format!("{w:?} is not {}.{}", u.package, u.name));
                    }
                    let own = namespace == Some(&*u.package);
                    let alone = s.uses.iter().all(|o| o.name != n || o.package == u.package);
                    if !u.qualified && (own || alone) {
                        return Err(format!("{w:?} is qualified for no reason"));
                    }
                }
            }
        }
        Ok(())
    }
}

// -- C

impl Declares for c::C {
    fn check(s: &Scene<CUse>, _: &mut Ctx) -> Verdict {
        let mut d = Decls::new();
        for line in s.header.split('\n').filter(|l| !l.is_empty()) {
            let f = line.strip_prefix("#include ").ok_or(format!("unexpected line {line:?}"))?;
            if let Some(h) = f.strip_prefix('<').and_then(|f| f.strip_suffix('>')) {
                d.add((h.to_string(), true))?;
            } else if let Some(h) = f.strip_prefix('"').and_then(|f| f.strip_suffix('"')) {
                d.add((h.to_string(), false))?;
            } else {
                return Err(format!("unexpected line {line:?}"));
            }
        }
        d.same(&s.uses.iter().map(|u| (u.path.clone(), u.system)).collect())?;
        written(s, |u| u.name.clone())
    }
}

// -- Go

impl Declares for go::Go {
    fn binds(u: &PathUse, _: &Cfg) -> Option<(String, String)> {
        Some((last(&u.path, "/").into(), u.path.clone()))
    }

    fn check(s: &Scene<PathUse>, _: &mut Ctx) -> Verdict {
        let mut d = Decls::new();
        let mut package = None;
        for (i, line) in s.header.split('\n').filter(|l| !l.is_empty()).enumerate() {
            if let Some(n) = line.strip_prefix("package ") {
                if i > 0 {
                    return Err("the package isn't declared first".into());
                }
                package = Some(dotted(n)?.to_string());
                continue;
            }
            let i = line.strip_prefix("import ").ok_or(format!("unexpected line {line:?}"))?;
            d.add(decode::whole(Dialect::Go, i)?)?;
        }
        expect_eq("package", s.cfg.package.clone(), package)?;
        d.same(&s.uses.iter().map(|u| u.path.clone()).collect())?;
        written(s, |u| format!("{}.{}", last(&u.path, "/"), u.name))
    }
}

// -- Dart

impl Declares for dart::Dart {
    fn check(s: &Scene<PathUse>, ctx: &mut Ctx) -> Verdict {
        let mut d = Decls::new();
        for line in s.header.split('\n').filter(|l| !l.is_empty()) {
            let mut p = P::new(line);
            p.expect("import ")?;
            let lib = decode::string(Dialect::Dart, &mut p)?;
            let mut alias = None;
            if p.eat(" as ") {
                alias = Some(p.ident()?);
            }
            p.expect(";")?;
            if !p.end() {
                return Err(format!("unexpected line {line:?}"));
            }
            d.add((lib, alias))?;
        }
        let mut e = BTreeSet::new();
        let core = "dart:core";
        let prefixed = s.uses.iter().any(|u| u.path == core && u.alias.is_some());
        for u in &s.uses {
            if u.path != core || u.alias.is_some() {
                e.insert((u.path.clone(), u.alias.clone()));
            } else {
                ctx.saw("dart:core without a prefix");
            }
        }
        if prefixed {
            ctx.saw("dart:core with a prefix");
            e.insert((core.to_string(), None));
        }
        d.same(&e)?;
        written(s, |u| match &u.alias {
            Some(a) => format!("{a}.{}", u.name),
            None => u.name.clone(),
        })
    }
}

// -- Swift

impl Declares for swift::Swift {
    fn check(s: &Scene<PathUse>, _: &mut Ctx) -> Verdict {
        let mut d = Decls::new();
        for line in s.header.split('\n').filter(|l| !l.is_empty()) {
            let m = line.strip_prefix("import ").ok_or(format!("unexpected line {line:?}"))?;
            d.add(dotted(m)?.to_string())?;
        }
        d.same(&s.uses.iter().map(|u| u.path.clone()).collect())?;
        written(s, |u| u.name.clone())
    }
}

// -- Nix

fn nix_all<'a>(u: &'a NixUse, out: &mut Vec<&'a NixUse>) {
    out.push(u);
    if let NixUse::Variable(_, v) = u {
        for x in v {
            if let NixVal::Use(u) | NixVal::Reg(u) = x {
                nix_all(u, out);
            }
        }
    }
}

fn nix_name(u: &NixUse) -> &str {
    match u {
        NixUse::Argument(n) | NixUse::Inherit(_, n) | NixUse::With(_, n) | NixUse::Variable(n, _) => n,
    }
}

/// A binding as it's expected to be laid out.
fn nix_binding(name: &str, v: &[NixVal]) -> String {
    let mut f = MFmt::new(Unit::Space(4), "\n");
    f.ind(1);
    f.text(name);
    f.space();
    f.text("=");
    f.space();
    for x in v {
        match x {
            NixVal::Word(w) => {
                f.text(w);
                f.space();
            }
            NixVal::Use(u) => {
                f.text(nix_name(u));
                f.space();
            }
            NixVal::Reg(_) => {}
            NixVal::Break => f.push(),
            NixVal::In => f.ind(1),
            NixVal::Out => f.ind(-1),
        }
    }
    f.text(";");
    f.out.push('\n');
    f.out
}

impl Declares for nix::Nix {
    fn check(s: &Scene<NixUse>, ctx: &mut Ctx) -> Verdict {
        let mut all = Vec::new();
        for u in &s.uses {
            nix_all(u, &mut all);
        }
        ctx.saw_n("nested imports", (all.len() - s.uses.len()) as u64);
        let mut arguments = BTreeSet::new();
        let mut withs = BTreeSet::new();
        let mut inherits = BTreeSet::new();
        let mut bindings = BTreeSet::new();
        for u in &all {
            match u {
                NixUse::Argument(a) => {
                    arguments.insert(a.as_str());
                }
                NixUse::Inherit(p, n) => {
                    arguments.insert(p.split('.').next().unwrap());
                    inherits.insert((p.as_str(), n.as_str()));
                }
                NixUse::With(p, _) => {
                    arguments.insert(p.split('.').next().unwrap());
                    withs.insert(p.as_str());
                }
                NixUse::Variable(n, v) => {
                    bindings.insert(nix_binding(n, v));
                }
            }
        }

        let mut rest = s.header.as_str();
        if !s.cfg.scoped {
            let (set, tail) = rest.strip_prefix("{\n").and_then(|r| r.split_once("}:\n")).ok_or("no argument set")?;
            rest = tail;
            let mut lines = set.lines().map(str::trim).collect::<Vec<_>>();
            if lines.pop() != Some("...") {
                return Err("the argument set isn't open".into());
            }
            let mut d = Decls::new();
            for l in lines {
                d.add(l.strip_suffix(',').ok_or(format!("unexpected argument {l:?}"))?)?;
            }
            d.same(&arguments)?;
        }
        rest = rest.trim_start_matches('\n');
        let mut d = Decls::new();
        while let Some((w, tail)) = rest.strip_prefix("with ").and_then(|r| r.split_once(";\n")) {
            d.add(w)?;
            rest = tail.trim_start_matches('\n');
        }
        d.same(&withs)?;
        let mut d = Decls::new();
        let mut found = Decls::new();
        if let Some(tail) = rest.strip_prefix("let\n") {
            rest = tail;
            loop {
                if let Some(tail) = rest.strip_prefix("in\n") {
                    rest = tail;
                    break;
                }
                if let Some((i, tail)) = rest.strip_prefix("    inherit ").and_then(|r| r.split_once(";\n")) {
                    let (p, n) = i.strip_prefix('(').and_then(|i| i.split_once(") ")).ok_or(format!("unexpected {i:?}"))?;
                    d.add((p, n))?;
                    rest = tail;
                    continue;
                }
                let b = bindings.iter().find(|b| rest.starts_with(&***b));
                let b = b.ok_or(format!("unexpected binding at {:?}", rest.chars().take(60).collect::<String>()))?;
                found.add(b.clone())?;
                rest = &rest[b.len()..];
            }
            if d.0.is_empty() && found.0.is_empty() {
                return Err("an empty let".into());
            }
            ctx.saw("let blocks");
        }
        d.same(&inherits)?;
        found.same(&bindings)?;
        if !rest.trim().is_empty() {
            return Err(format!("unexpected {rest:?}"));
        }
        written(s, |u| nix_name(u).to_string())
    }
}

pub fn c06(ctx: &mut Ctx) -> Verdict {
    run::<rust::Rust>(ctx)
}

pub fn c07(ctx: &mut Ctx) -> Verdict {
    run::<js::JavaScript>(ctx)
}

pub fn c08(ctx: &mut Ctx) -> Verdict {
    run::<python::Python>(ctx)
}

pub fn c09(ctx: &mut Ctx) -> Verdict {
    run::<java::Java>(ctx)
}

pub fn c10(ctx: &mut Ctx) -> Verdict {
    run::<csharp::Csharp>(ctx)
}

pub fn c11(ctx: &mut Ctx) -> Verdict {
    if ctx.index % 2 == 0 {
        run::<c::C>(ctx)
    } else {
        run::<go::Go>(ctx)
    }
}

pub fn c12(ctx: &mut Ctx) -> Verdict {
    if ctx.index % 2 == 0 {
        run::<dart::Dart>(ctx)
    } else {
        run::<swift::Swift>(ctx)
    }
}

pub fn c13(ctx: &mut Ctx) -> Verdict {
    run::<nix::Nix>(ctx)
}
