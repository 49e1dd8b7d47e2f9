//! One interface over the languages: imports, configurations, files.

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;

use genco::fmt::{self, FmtWriter};
use genco::lang::{c, csharp, dart, go, java, js, nix, python, rust, swift, Lang};
use genco::tokens::{Item, ItemStr};
use genco::Tokens;

use crate::decode::Dialect;
use crate::gen::{alias, apart, ident, ident_or, place, related, stretch};
use crate::model::Bounded;
use crate::rng::{hash_bytes, mix, Rng};

/// Configuration of any of the languages.
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Cfg {
    /// Package or namespace.
    pub package: Option<String>,
    /// Default to qualified imports.
    pub qualified: bool,
    pub module_path: Option<String>,
    pub scoped: bool,
}

thread_local! {
    static INTERNED: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new());
}

pub fn intern(s: &str) -> &'static str {
    INTERNED.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(s) = m.get(s) {
            return *s;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        m.insert(s.to_string(), l);
        l
    })
}

/// The same text in one of several kinds of storage.
pub fn store(s: &str, salt: u64) -> ItemStr {
    match mix(salt ^ hash_bytes(s.as_bytes())) % 8 {
        0 | 1 | 2 if s.len() < 40 => ItemStr::Static(intern(s)),
        3 => ItemStr::from(s.to_string()),
        4 => ItemStr::from(std::borrow::Cow::Borrowed(s)),
        5 => ItemStr::from(std::rc::Rc::new(s.to_string())),
        6 => ItemStr::from(&s.to_string()),
        _ => ItemStr::from(s),
    }
}

/// A path of segments, many of which look like the beginning or the end of
/// others.
fn path(r: &mut Rng, segments: &[&str], sep: &str, max: usize) -> String {
    let n = 1 + r.below(max);
    (0..n).map(|_| r.pick(segments).to_string()).collect::<Vec<_>>().join(sep)
}

pub trait TestLang: Lang + 'static
where
    Self::Config: Default,
{
    const DIALECT: Dialect;

    /// An import.
    type Use: Clone + Debug + PartialEq;

    fn gen(r: &mut Rng, cfg: &Cfg) -> Self::Use;

    /// Use or register the import. `salt` picks how its strings are stored.
    fn put(u: &Self::Use, t: &mut Tokens<Self>, register: bool, salt: u64);

    fn cfg(_r: &mut Rng) -> Cfg {
        Cfg::default()
    }

    fn config(_c: &Cfg) -> Self::Config {
        Default::default()
    }
}

macro_rules! put {
    ($t:expr, $register:expr, $salt:expr, $i:expr) => {{
        let i = $i;
        match ($register, ($salt >> 7) & 3) {
            (true, 0) => $t.register(&i),
            (true, 1) => $t.append(genco::tokens::register(i)),
            (true, _) => $t.register(i),
            (false, 0) => $t.append(&i),
            (false, 1) => $t.append(Some(i)),
            (false, _) => $t.append(i),
        }
    }};
}

fn last(module: &str) -> &str {
    module.rsplit("::").next().unwrap()
}

// -- Rust

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum RustForm {
    Default,
    Direct,
    Qualified,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct RustUse {
    pub module: String,
    pub name: String,
    pub alias: Option<String>,
    pub module_alias: Option<String>,
    pub form: RustForm,
    /// The calls made to get there.
    pub calls: Vec<u8>,
}

impl TestLang for rust::Rust {
    const DIALECT: Dialect = Dialect::Rust;
    type Use = RustUse;

    fn gen(r: &mut Rng, _: &Cfg) -> RustUse {
        const M: &[&str] = &[
            "std::fmt", "std", "std::collections", "crate", "crate::a", "a::b::c", "a::b", "a", "super::x", "std::fmt::rt", "self::b", "core", "core::fmt", "alloc", "std::prelude::v1", "proc_macro",
        ];
        const S: &[&str] = &["a", "ab", "b", "std", "stdx", "fmt", "fm", "a_b", "r#mod", "r#a"];
        let p = &mut place(r);
        let module = if p.one_in(3) { path(p, S, "::", 3) } else { p.pick(M).to_string() };
        let module = stretch(p, module, "::");
        let mut u = RustUse {
            name: related(r, 12, &module).unwrap_or_else(|| ident_or(r, 8, &["r#type", "r#fn", "r", "r#a", "type_"])),
            module,
            alias: None,
            module_alias: None,
            form: RustForm::Default,
            calls: Vec::new(),
        };
        for _ in 0..r.below(4) {
            match r.below(4) {
                0 => {
                    u.calls.push(0);
                    // Aliasing a name asks for it to be imported directly.
                    u.alias = Some(if r.one_in(8) { u.name.clone() } else { related(r, 8, &u.module).unwrap_or_else(|| alias(r, "A")) });
                    u.form = RustForm::Direct;
                }
                1 => {
                    u.calls.push(1);
                    u.form = RustForm::Direct;
                }
                2 => {
                    u.calls.push(2);
                    u.form = RustForm::Qualified;
                }
                _ => {
                    u.calls.push(3);
                    u.module_alias = Some(match r.below(8) {
                        0 => last(&u.module).to_string(),
                        1 => u.name.clone(),
                        _ => related(r, 8, &u.module).unwrap_or_else(|| alias(r, "m")),
                    });
                    // Note: once a module has an alias it's kept as it is.
                    for _ in 0..r.below(4) {
                        u.calls.push(r.below(4) as u8);
                    }
                    break;
                }
            }
        }
        // Note: paths like this have no module that could be imported by itself.
        if matches!(&*u.module, "crate") && (u.module_alias.is_some() || u.form == RustForm::Qualified) {
            u.module = "crate::q".into();
        }
        // Note: a module that's in scope under its own name isn't declared, so
        // an alias which is that name says nothing.
        if u.module_alias.as_ref() == Some(&u.module) {
            u.module = format!("crate::{}", u.module);
        }
        u
    }

    fn put(u: &RustUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        let mut i = rust::import(store(&u.module, salt), store(&u.name, salt + 1));
        // Note: an alias which is set more than once is the last one, and has no
        // part in a module which is aliased.
        let aliased = u.calls.iter().position(|c| *c == 3);
        let last = u.calls.iter().take(aliased.unwrap_or(usize::MAX)).rposition(|c| *c == 0);
        for (k, c) in u.calls.iter().enumerate() {
            i = match c {
                0 if Some(k) == last => i.with_alias(store(u.alias.as_ref().unwrap(), salt + 2)),
                0 => i.with_alias("Other"),
                1 => i.direct(),
                2 => i.qualified(),
                _ if aliased != Some(k) => i.with_module_alias("other"),
                _ => i.with_module_alias(store(u.module_alias.as_ref().unwrap(), salt + 3)),
            };
        }
        put!(t, register, salt, i)
    }

    fn cfg(r: &mut Rng) -> Cfg {
        Cfg { qualified: r.bool(), ..Cfg::default() }
    }

    fn config(c: &Cfg) -> rust::Config {
        let d = rust::Config::default();
        if c.qualified {
            d.with_default_import(rust::ImportMode::Qualified)
        } else if c.package.is_some() {
            d.with_default_import(rust::ImportMode::Direct)
        } else {
            d
        }
    }
}

// -- JavaScript

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum JsKind {
    Named(Option<String>),
    Default,
    Wildcard,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct JsUse {
    pub module: String,
    pub path: bool,
    pub name: String,
    pub kind: JsKind,
    pub calls: Vec<u8>,
}

impl TestLang for js::JavaScript {
    const DIALECT: Dialect = Dialect::Js;
    type Use = JsUse;

    fn gen(r: &mut Rng, cfg: &Cfg) -> JsUse {
        const G: &[&str] = &["react", "collections", "@scope/pkg", "./local.js", "a\"b", "node:fs", "π\\n", "${x}", "`", "😊", "foo/../x", "reac", "react/", "React", "./local"];
        const D: &[&str] = &["foo", "bar", "a", "b", "dé", "q\"", "x y", "$", "c`", "fo", "foobar", "ba"];
        let q = &mut place(r);
        let path = q.one_in(3);
        let module = if path {
            loop {
                let n = match q.below(4) {
                    3 if q.one_in(40) => 3 + q.below(40),
                    n => n,
                };
                let mut p = (0..n).map(|_| q.pick(D).to_string()).collect::<Vec<_>>();
                match apart(q) {
                    Some(n) => p.push(format!("m{n}.js")),
                    None => p.push(format!("{}.js", q.pick(D))),
                }
                let p = p.join("/");
                // A module does not import itself.
                if cfg.module_path.as_deref() != Some(&*p) {
                    break p;
                }
            }
        } else {
            let module = q.pick(G).to_string();
            stretch(q, module, "/")
        };
        let name = related(r, 12, &module).unwrap_or_else(|| ident_or(r, 8, &["$", "$a", "a$", "$$", "_$1"]));
        let mut u = JsUse { module, path, name, kind: JsKind::Named(None), calls: Vec::new() };
        for _ in 0..r.below(3) {
            let c = r.below(3) as u8;
            u.calls.push(c);
            u.kind = match c {
                0 if r.one_in(8) => JsKind::Named(Some(u.name.clone())),
                0 => JsKind::Named(Some(related(r, 8, &u.module).unwrap_or_else(|| alias(r, "A")))),
                1 => JsKind::Default,
                _ => JsKind::Wildcard,
            };
        }
        u
    }

    fn put(u: &JsUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        let m = if u.path {
            js::Module::Path(u.module.as_str().into())
        } else {
            match salt & 3 {
                0 => js::Module::Global(store(&u.module, salt)),
                1 => u.module.as_str().into(),
                2 => u.module.clone().into(),
                _ => store(&u.module, salt).into(),
            }
        };
        let mut i = js::import(m, store(&u.name, salt + 1));
        for (k, c) in u.calls.iter().enumerate() {
            i = match c {
                0 => match &u.kind {
                    JsKind::Named(Some(a)) if k + 1 == u.calls.len() => i.with_alias(store(a, salt + 2)),
                    _ => i.with_alias("other"),
                },
                1 => i.into_default(),
                _ => i.into_wildcard(),
            };
        }
        put!(t, register, salt, i)
    }

    fn cfg(r: &mut Rng) -> Cfg {
        const P: &[&str] = &["foo/baz.js", "main.js", "a/b/c.js", "foo/bar/x.js", "dé/q\"/m.js", "a/b.js", "fo/b.js", "foobar/a.js", "a/a/a.js"];
        const D: &[&str] = &["foo", "bar", "a", "b"];
        let long = |r: &mut Rng| {
            let n = 3 + r.below(40);
            let dirs = (0..n).map(|_| format!("{}/", r.pick(D))).collect::<String>();
            format!("{dirs}main.js")
        };
        let module_path = match r.below(100) {
            0 => Some(long(r)),
            1..=49 => Some(r.pick(P).to_string()),
            _ => None,
        };
        Cfg { module_path, ..Cfg::default() }
    }

    fn config(c: &Cfg) -> js::Config {
        match &c.module_path {
            Some(p) => js::Config::default().with_module_path(p.as_str()),
            None => js::Config::default(),
        }
    }
}

// -- Python

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct PyUse {
    pub module: String,
    /// None to import the module.
    pub name: Option<String>,
    pub alias: Option<String>,
    pub qualified: bool,
    pub module_alias: Option<String>,
    pub calls: Vec<u8>,
}

impl TestLang for python::Python {
    const DIALECT: Dialect = Dialect::Python;
    type Use = PyUse;

    fn gen(r: &mut Rng, _: &Cfg) -> PyUse {
        const M: &[&str] = &["collections", "os", "os.path", "a.b.c", "a", "a.b", "re", "_x", "builtins", "__main__", "sys", "typing", "types"];
        const S: &[&str] = &["a", "ab", "os", "osx", "path", "pat", "a_b"];
        let p = &mut place(r);
        let mut u = PyUse {
            module: {
                let module = if p.one_in(3) { path(p, S, ".", 3) } else { p.pick(M).to_string() };
                stretch(p, module, ".")
            },
            name: None,
            alias: None,
            qualified: false,
            module_alias: None,
            calls: Vec::new(),
        };
        if r.one_in(4) {
            if r.bool() {
                u.calls.push(0);
                u.alias = Some(related(r, 6, &u.module).unwrap_or_else(|| alias(r, "m")));
            }
            return u;
        }
        u.name = Some(related(r, 12, &u.module).unwrap_or_else(|| ident(r, 8)));
        for _ in 0..r.below(4) {
            let c = r.below(3) as u8;
            u.calls.push(c);
            match c {
                0 => {
                    u.alias = Some(if r.one_in(8) { u.name.clone().unwrap() } else { related(r, 8, &u.module).unwrap_or_else(|| alias(r, "n")) });
                    u.qualified = false;
                    u.module_alias = None;
                }
                1 => u.qualified = true,
                _ => {
                    u.qualified = true;
                    u.module_alias = Some(match r.below(10) {
                        0 => u.name.clone().unwrap(),
                        _ => related(r, 6, &u.module).unwrap_or_else(|| alias(r, "m")),
                    });
                }
            }
        }
        u
    }

    fn put(u: &PyUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        let Some(name) = &u.name else {
            let mut i = python::import_module(store(&u.module, salt));
            if let Some(a) = &u.alias {
                if salt & 8 == 0 {
                    i = i.with_alias("other");
                }
                i = i.with_alias(store(a, salt + 1));
            }
            return put!(t, register, salt, i);
        };
        let mut i = python::import(store(&u.module, salt), store(name, salt + 1));
        let last0 = u.calls.iter().rposition(|c| *c == 0);
        let last2 = u.calls.iter().rposition(|c| *c == 2);
        for (k, c) in u.calls.iter().enumerate() {
            i = match c {
                0 if Some(k) == last0 => i.with_alias(store(u.alias.as_ref().unwrap(), salt + 2)),
                0 => i.with_alias("other"),
                1 => i.qualified(),
                _ => match &u.module_alias {
                    Some(a) if Some(k) == last2 => i.with_module_alias(store(a, salt + 3)),
                    _ => i.with_module_alias("mother"),
                },
            };
        }
        put!(t, register, salt, i)
    }
}

// -- Java and C#

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ClassUse {
    pub package: String,
    pub name: String,
    /// C# only.
    pub qualified: bool,
}

const JAVA_P: &[&str] = &["java.lang", "java.util", "a", "a.b", "a.b.c", "org.x", "java.lang.reflect", "java.language", "java", "lang", "java.la", "ab", "a.bc", "kotlin", "javax.lang", "java.base"];
const CLASSES: &[&str] = &["Foo", "Bar", "List", "String", "X1", "Object", "Fo", "FooBar", "FOO", "LIST", "Integer", "Override", "System", "Record", "Task"];

fn package(r: &mut Rng, of: &[&str]) -> String {
    let p = r.pick(of).to_string();
    stretch(r, p, ".")
}

fn class(r: &mut Rng) -> String {
    if r.bool() {
        // Note: a class is not lowercase.
        let n = ident(r, 20);
        if n.starts_with(|c: char| c.is_ascii_uppercase()) {
            return n;
        }
    }
    r.pick(CLASSES).to_string()
}

impl TestLang for java::Java {
    const DIALECT: Dialect = Dialect::Java;
    type Use = ClassUse;

    fn gen(r: &mut Rng, _: &Cfg) -> ClassUse {
        ClassUse { package: package(&mut place(r), JAVA_P), name: class(r), qualified: false }
    }

    fn put(u: &ClassUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        let i = java::import(store(&u.package, salt), store(&u.name, salt + 1));
        put!(t, register, salt, i)
    }

    fn cfg(r: &mut Rng) -> Cfg {
        Cfg { package: (!r.one_in(3)).then(|| package(r, JAVA_P)), ..Cfg::default() }
    }

    fn config(c: &Cfg) -> java::Config {
        match &c.package {
            Some(p) => java::Config::default().with_package(p.as_str()),
            None => java::Config::default(),
        }
    }
}

// Note: no first segment is also a later one, since partially qualified names
// would refer to the namespaces within.
const NAMESPACES: &[&str] = &[
    "System", "System.Collections", "System.Collections.Generic", "App", "App.Core", "App.Core.Util", "Lib", "Lib.Net", "Other",
    "Application", "Sys", "SystemX", "App.Co", "App.CoreUtil", "Li", "System.Linq", "System.IO", "Microsoft",
];

impl TestLang for csharp::Csharp {
    const DIALECT: Dialect = Dialect::Csharp;
    type Use = ClassUse;

    fn gen(r: &mut Rng, _: &Cfg) -> ClassUse {
        ClassUse { package: package(&mut place(r), NAMESPACES), name: class(r), qualified: r.one_in(4) }
    }

    fn put(u: &ClassUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        let mut i = csharp::import(store(&u.package, salt), store(&u.name, salt + 1));
        if u.qualified {
            i = i.qualified();
        }
        put!(t, register, salt, i)
    }

    fn cfg(r: &mut Rng) -> Cfg {
        Cfg { package: (!r.one_in(3)).then(|| package(r, NAMESPACES)), ..Cfg::default() }
    }

    fn config(c: &Cfg) -> csharp::Config {
        match &c.package {
            Some(p) => csharp::Config::default().with_namespace(p.as_str()),
            None => csharp::Config::default(),
        }
    }
}

// -- C and Go

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct CUse {
    pub path: String,
    pub system: bool,
    pub name: String,
}

impl TestLang for c::C {
    const DIALECT: Dialect = Dialect::C;
    type Use = CUse;

    fn gen(r: &mut Rng, _: &Cfg) -> CUse {
        const H: &[&str] = &["stdio.h", "foo/bar.h", "sys/types.h", "π.h", "dir\\file.h", "a b.h", "x'y.h", "$1.h", "😊", "tab\t.h", "a.h", "a", "stdio", "foo/barn.h", "oo/bar.h", "stddef.h", "stdint.h", "vector", "../x.h", "./a.h"];
        let mut path = r.pick(H).to_string();
        if let Some(n) = apart(r) {
            path = format!("d{n}/{path}");
        }
        path = stretch(r, path, "/");
        CUse { name: related(r, 12, &path).unwrap_or_else(|| ident(r, 8)), path, system: r.bool() }
    }

    fn put(u: &CUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        let i = if u.system {
            c::include_system(store(&u.path, salt), store(&u.name, salt + 1))
        } else {
            c::include(store(&u.path, salt), store(&u.name, salt + 1))
        };
        put!(t, register, salt, i)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct PathUse {
    pub path: String,
    pub name: String,
    /// Dart only.
    pub alias: Option<String>,
}

impl TestLang for go::Go {
    const DIALECT: Dialect = Dialect::Go;
    type Use = PathUse;

    fn gen(r: &mut Rng, _: &Cfg) -> PathUse {
        const M: &[&str] = &[
            "fmt", "foo/bar", "a/b/c", "a/b", "b", "example.com/x/y", "dé/π", "q\"uote", "x/back\\slash", "net/http", "gopkg.in/y.v2",
            "foo/barn", "fm", "fmts", "oo/ba", "a/b/cd", "net/htt", "unsafe", "C", "builtin", "main", "foo", "./x", "../x", "vendor/x",
            "example.com/x/y/v2", "v2", "x/v3", "example.com/go-y", "gopkg.in/y.v3", "a/internal", "a/b_test", "example.com/y.go", "golang.org/x/exp/maps", "maps",
        ];
        let path = r.pick(M).to_string();
        let path = stretch(r, path, "/");
        PathUse { name: related(r, 12, &path).unwrap_or_else(|| ident(r, 8)), path, alias: None }
    }

    fn put(u: &PathUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        let i = go::import(store(&u.path, salt), store(&u.name, salt + 1));
        put!(t, register, salt, i)
    }

    fn cfg(r: &mut Rng) -> Cfg {
        Cfg { package: r.bool().then(|| r.pick(&["main", "foo", "x_test"]).to_string()), ..Cfg::default() }
    }

    fn config(c: &Cfg) -> go::Config {
        match &c.package {
            Some(p) => go::Config::default().with_package(p.as_str()),
            None => go::Config::default(),
        }
    }
}

// -- Dart and Swift

impl TestLang for dart::Dart {
    const DIALECT: Dialect = Dialect::Dart;
    type Use = PathUse;

    fn gen(r: &mut Rng, _: &Cfg) -> PathUse {
        const M: &[&str] = &[
            "dart:core", "dart:math", "package:http/http.dart", "../http.dart", "$x.dart", "a\"b.dart", "π.dart", "back\\slash.dart",
            "dart:core2", "dart:cor", "dart:", "core", "package:http/http.dar", "http.dart", "dart:core/x", "Dart:core", "dart:async", "dart:html", "package:flutter/material.dart",
        ];
        let mut path = r.pick(M).to_string();
        if path != "dart:core" {
            path = stretch(r, path, "/");
        }
        let alias = r.one_in(3).then(|| related(r, 6, &path).unwrap_or_else(|| alias(r, "p")));
        PathUse { name: related(r, 12, &path).unwrap_or_else(|| ident(r, 8)), path, alias }
    }

    fn put(u: &PathUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        let mut i = dart::import(store(&u.path, salt), store(&u.name, salt + 1));
        if let Some(a) = &u.alias {
            i = i.with_alias(store(a, salt + 2));
        }
        put!(t, register, salt, i)
    }
}

impl TestLang for swift::Swift {
    const DIALECT: Dialect = Dialect::Swift;
    type Use = PathUse;

    fn gen(r: &mut Rng, _: &Cfg) -> PathUse {
        const M: &[&str] = &["UIKit", "Foundation", "Foo", "Foo.Bar", "_M", "A", "B", "UI", "Foundatio", "Fo", "Foo.Ba", "FooBar", "Bar", "Swift", "SwiftUI", "Darwin", "Builtin", "XCTest"];
        let path = r.pick(M).to_string();
        let path = stretch(r, path, ".");
        PathUse { name: related(r, 12, &path).unwrap_or_else(|| ident(r, 8)), path, alias: None }
    }

    fn put(u: &PathUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        let i = swift::import(store(&u.path, salt), store(&u.name, salt + 1));
        put!(t, register, salt, i)
    }
}

// -- Nix

#[derive(Debug, Clone, PartialEq)]
pub enum NixUse {
    Argument(String),
    Inherit(String, String),
    With(String, String),
    /// The value is some words and further uses.
    Variable(String, Vec<NixVal>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum NixVal {
    Word(String),
    Use(NixUse),
    /// Registered only.
    Reg(NixUse),
    Break,
    In,
    Out,
}

fn nix_gen(r: &mut Rng, depth: usize) -> NixUse {
    const A: &[&str] = &["cell", "inputs", "pkgs", "lib", "self", "input", "library", "builtins", "config", "nixpkgs"];
    const P: &[&str] = &["inputs", "inputs.nixpkgs", "inputs.nixpkgs.lib", "cell.a", "self", "lib.x.y", "library.x", "li.b", "inputs.lib", "pkgs", "lib", "lib.x", "builtins", "builtins.x", "config", "nixpkgs.lib", "inputs.nixpkgs.li"];
    match r.below(if depth > 0 { 6 } else { 3 }) {
        0 => NixUse::Argument(match apart(r) {
            Some(n) => format!("arg{n}"),
            None => r.pick(A).to_string(),
        }),
        // Note: one name is inherited from one place.
        1 => {
            // An argument may have the same name.
            let k = r.below(P.len());
            let name = if r.one_in(4) && k < A.len() { A[k].to_string() } else { format!("{}{k}", ident(r, 6)) };
            let from = stretch(r, P[k].to_string(), ".");
            let name = match &from[P[k].len()..] {
                "" => name,
                more => format!("{name}_{:x}", hash_bytes(more.as_bytes())),
            };
            NixUse::Inherit(from, name)
        }
        2 => {
            let p = r.pick(P).to_string();
            // Note: names may look like what they're from.
            let n = match r.below(4) {
                0 => r.pick(A).to_string(),
                1 => p.rsplit('.').next().unwrap().to_string(),
                2 => p.split('.').next().unwrap().to_string(),
                _ => ident(r, 6),
            };
            NixUse::With(stretch(r, p, "."), n)
        }
        _ => {
            let mut v = vec![NixVal::Word("v".into())];
            let mut level = 0;
            for _ in 0..r.below(5) {
                match r.below(6) {
                    0 => v.push(NixVal::Word(crate::gen::word(r))),
                    1 => v.push(NixVal::Break),
                    2 if level == 0 => {
                        level += 1;
                        v.extend([NixVal::Word("{".into()), NixVal::In]);
                    }
                    2 => {
                        level -= 1;
                        v.extend([NixVal::Word("k".into()), NixVal::Out, NixVal::Word("}".into())]);
                    }
                    3 => v.push(NixVal::Reg(nix_gen(r, depth - 1))),
                    _ => v.push(NixVal::Use(nix_gen(r, depth - 1))),
                }
            }
            if level == 1 {
                v.push(NixVal::Word("k".into()));
                v.push(NixVal::Out);
            }
            v.push(NixVal::Word("w".into()));
            // Note: one variable has one value.
            let h = hash_bytes(format!("{v:?}").as_bytes());
            NixUse::Variable(format!("var{:x}", h & 0xffff_ffff), v)
        }
    }
}

fn nix_import(u: &NixUse, salt: u64) -> nix::Import {
    match u {
        NixUse::Argument(a) => nix::argument(store(a, salt)),
        NixUse::Inherit(p, n) => nix::inherit(store(p, salt), store(n, salt + 1)),
        NixUse::With(p, n) => nix::with(store(p, salt), store(n, salt + 1)),
        NixUse::Variable(n, v) => {
            let mut t = nix::Tokens::new();
            nix_value(v, &mut t, salt);
            nix::variable(store(n, salt), t)
        }
    }
}

pub fn nix_value(v: &[NixVal], t: &mut nix::Tokens, salt: u64) {
    for x in v {
        match x {
            NixVal::Word(w) => {
                t.append(w);
                t.space();
            }
            NixVal::Use(u) => {
                t.append(nix_import(u, salt));
                t.space();
            }
            NixVal::Reg(u) => t.register(nix_import(u, salt)),
            NixVal::Break => t.push(),
            NixVal::In => t.indent(),
            NixVal::Out => t.unindent(),
        }
    }
}

impl TestLang for nix::Nix {
    const DIALECT: Dialect = Dialect::Nix;
    type Use = NixUse;

    fn gen(r: &mut Rng, _: &Cfg) -> NixUse {
        if r.one_in(500) {
            // Variables within variables.
            let mut u = nix_gen(r, 1);
            for k in 0..*r.pick(&[5, 8, 9, 16, 17, 33]) {
                let v = vec![NixVal::Word(format!("v{k}")), if r.one_in(3) { NixVal::Reg(u) } else { NixVal::Use(u) }];
                let h = hash_bytes(format!("{v:?}").as_bytes());
                u = NixUse::Variable(format!("var{:x}", h & 0xffff_ffff), v);
            }
            return u;
        }
        nix_gen(r, 3)
    }

    fn put(u: &NixUse, t: &mut Tokens<Self>, register: bool, salt: u64) {
        // Note: the enumeration is put into a stream like the others.
        let i = nix_import(u, salt);
        put!(t, register, salt, i)
    }

    fn cfg(r: &mut Rng) -> Cfg {
        Cfg { scoped: r.one_in(3), ..Cfg::default() }
    }

    fn config(c: &Cfg) -> nix::Config {
        nix::Config::default().with_scoped(c.scoped)
    }
}

// -- Files

/// Render a file with the given layout.
pub fn render<L: TestLang>(t: &Tokens<L>, cfg: &Cfg, f: &fmt::Config) -> Result<String, String>
where
    L::Config: Default,
{
    let mut w = FmtWriter::new(Bounded(String::new(), 4 << 20));
    let c = L::config(cfg);
    t.format_file(&mut w.as_formatter(f), &c).map_err(|_| "format_file fails".to_string())?;
    Ok(w.into_inner().0)
}

pub fn render_file<L: TestLang>(t: &Tokens<L>, cfg: &Cfg) -> Result<String, String>
where
    L::Config: Default,
{
    render(t, cfg, &fmt::Config::from_lang::<L>())
}

/// Put streams together in a random way, keeping the order of what's in them.
pub fn assemble<L: TestLang>(r: &mut Rng, parts: Vec<Tokens<L>>) -> Tokens<L>
where
    L::Config: Default,
{
    fn join<L: Lang>(r: &mut Rng, a: &mut Tokens<L>, b: Tokens<L>) {
        match r.below(6) {
            0 => a.append(b),
            1 => a.append(&b),
            2 => a.extend(b),
            3 => a.append(Some(b)),
            4 => a.extend(b.iter().cloned().collect::<Vec<Item<L>>>()),
            _ => a.append(vec![b.clone()]),
        }
    }
    let mut stack: Vec<Tokens<L>> = vec![Tokens::new()];
    for p in parts {
        match r.below(5) {
            0 => stack.push(p),
            1 if stack.len() > 1 => {
                let top = stack.pop().unwrap();
                let a = stack.last_mut().unwrap();
                join(r, a, top);
                join(r, a, p);
            }
            _ => join(r, stack.last_mut().unwrap(), p),
        }
    }
    while stack.len() > 1 {
        let top = stack.pop().unwrap();
        join(r, stack.last_mut().unwrap(), top);
    }
    let t = stack.pop().unwrap();
    match r.below(3) {
        0 => t.iter().collect(),
        1 => t.clone(),
        _ => t,
    }
}
