//! C14, C15 and C16: strings, interpolated strings and nested quotes.

use std::borrow::Cow;
use std::rc::Rc;

use genco::fmt::{self, FmtWriter, VecWriter};
use genco::lang::{c, csharp, dart, go, java, js, nix, python, rust, swift};
use genco::tokens::{display, quoted, Item, ItemStr};
use genco::Tokens;

use crate::decode::{self, interpolated, java_unescape, string, whole, Dialect, P};
use crate::gen::{hostile_char, hostile_string};
use crate::langs::*;
use crate::model::{config, Bounded, Unit};
use crate::rng::Rng;
use crate::run::{Ctx, Verdict};

/// A part of a quote.
#[derive(Debug, Clone)]
pub enum Part {
    Text(String),
    Nested(Vec<Part>),
    Eval(Expr),
}

#[derive(Debug, Clone)]
pub enum Expr {
    Atom(usize),
    /// A quote, which is interpolated if it has evaluations.
    Quote(Vec<Part>),
    Concat(Vec<Expr>),
    Paren(Box<Expr>),
}

/// Expressions, and what they evaluate to.
pub const ATOMS: &[(&str, &str)] = &[
    ("a", "‹a›"),
    ("b1", "‹b1›"),
    ("_x", "‹_x›"),
    ("x.y", "‹x.y›"),
    ("f(a)", "‹f(‹a›)›"),
    ("w[0]", "‹w[0]›"),
    ("1", "1"),
    ("true", "true"),
    ("null", "null"),
    ("$v", "‹$v›"),
    ("this1", "‹this1›"),
    ("{k: a}.k", "‹a›"),
    ("(a)", "‹a›"),
    ("V", "‹V›"),
    ("m[\"k\"]", "‹m.k›"),
    ("m[\"\\\\\"]", "‹m.\\›"),
    ("m[\"}\"]", "‹m.}›"),
];

fn text(r: &mut Rng, d: Dialect) -> String {
    let s = match r.below(8) {
        0 => " ".to_string(),
        1 => crate::gen::word(r),
        2 => (*r.pick(&["$", "{", "}", "${", "\\", "`", "\"", "0", "a", "$a", "_", "\\\"", "${a}", " a ", "  ", "{}"])).to_string(),
        _ => hostile_string(r, 4),
    };
    // Note: nothing denotes NUL in Nix.
    if d == Dialect::Nix {
        s.replace('\0', "")
    } else {
        s
    }
}

fn has_eval(parts: &[Part]) -> bool {
    parts.iter().any(|p| matches!(p, Part::Eval(_)))
}

fn parts(r: &mut Rng, d: Dialect, depth: usize, eval: bool) -> Vec<Part> {
    let n = *r.pick(&[0, 1, 1, 2, 3, 4, 5]);
    (0..n)
        .map(|_| match r.below(8) {
            0 | 1 if depth > 0 => Part::Nested(parts(r, d, depth - 1, false)),
            2..=4 if eval => Part::Eval(expr(r, d, depth.saturating_sub(1))),
            _ => Part::Text(text(r, d)),
        })
        .collect()
}

fn expr(r: &mut Rng, d: Dialect, depth: usize) -> Expr {
    match r.below(8) {
        0 | 1 if depth > 0 => Expr::Quote(parts(r, d, depth - 1, true)),
        2 if depth > 0 => Expr::Quote(parts(r, d, depth - 1, false)),
        3 if depth > 0 => {
            let n = 1 + r.below(3);
            Expr::Concat((0..n).map(|_| expr(r, d, depth - 1)).collect())
        }
        4 if depth > 0 => Expr::Paren(Box::new(expr(r, d, depth - 1))),
        _ => Expr::Atom(r.below(ATOMS.len())),
    }
}

/// A long chain of quotes and evaluations, each in the one before it.
fn chain(r: &mut Rng, d: Dialect, eval: bool) -> Vec<Part> {
    let n = if eval { *r.pick(&[8, 17, 33, 65, 130, 260]) } else { 6 + r.below(6) };
    let short = |r: &mut Rng| text(r, d).chars().take(20).collect::<String>();
    let mut q = vec![Part::Text(short(r))];
    for i in 0..n {
        let inner = std::mem::take(&mut q);
        q.push(match (eval, r.below(8)) {
            // Note: what's nested has no evaluations.
            (false, _) => Part::Nested(inner),
            (true, 0) => Part::Eval(Expr::Paren(Box::new(Expr::Quote(inner)))),
            (true, 1) => Part::Eval(Expr::Concat(vec![Expr::Atom(r.below(ATOMS.len())), Expr::Quote(inner)])),
            (true, _) => Part::Eval(Expr::Quote(inner)),
        });
        if i < 5 || r.one_in(4) {
            q.insert(r.below(2), Part::Text(if eval { short(r) } else { crate::gen::word(r) }));
        }
        if eval && r.one_in(8) {
            q.push(Part::Eval(Expr::Atom(r.below(ATOMS.len()))));
        }
    }
    q
}

/// Items which have no effect on a quote.
fn noise<L: TestLang>(r: &mut Rng, t: &mut Tokens<L>)
where
    L::Config: Default,
{
    match r.below(12) {
        0 => {
            let u = L::gen(r, &Cfg::default());
            L::put(&u, t, true, r.u64());
        }
        1 => t.append(""),
        2 => t.append(ItemStr::Static("")),
        _ => {}
    }
}

/// Put text into a stream as any number of items.
fn put_text<L: TestLang>(r: &mut Rng, t: &mut Tokens<L>, s: &str)
where
    L::Config: Default,
{
    let one = |r: &mut Rng, t: &mut Tokens<L>, s: &str| {
        noise(r, t);
        match r.below(6) {
            0 => t.append(s),
            1 => t.append(s.to_string()),
            2 => t.append(store(s, r.u64())),
            3 => t.append(display(s)),
            4 => t.extend([Item::Literal(store(s, r.u64()))]),
            _ => t.append(Some(s)),
        }
    };
    match r.below(4) {
        0 => {
            // Every character on its own.
            for c in s.chars() {
                if c == ' ' && t.iter().last() != Some(&Item::Space) && r.bool() {
                    t.space();
                } else {
                    one(r, t, c.encode_utf8(&mut [0; 4]));
                }
            }
        }
        1 => {
            let mut rest = s;
            while !rest.is_empty() {
                let mut n = 1 + r.below(rest.len());
                while !rest.is_char_boundary(n) {
                    n += 1;
                }
                one(r, t, &rest[..n]);
                rest = &rest[n..];
            }
        }
        _ => one(r, t, s),
    }
}

fn put_parts<L: TestLang>(r: &mut Rng, t: &mut Tokens<L>, parts: &[Part])
where
    L::Config: Default,
{
    for p in parts {
        noise(r, t);
        match p {
            Part::Text(s) => put_text(r, t, s),
            // Note: the other forms of quoting end up as the same items.
            Part::Nested(q) => match (&q[..], r.below(3)) {
                ([Part::Text(s)], 0) => t.append(quoted(s.as_str())),
                (q, 1) => {
                    let mut inner = Tokens::new();
                    put_parts(r, &mut inner, q);
                    t.append(quoted(inner));
                }
                (q, _) => {
                    t.extend([Item::OpenQuote(false)]);
                    put_parts(r, t, q);
                    t.extend([Item::CloseQuote]);
                }
            },
            Part::Eval(e) => {
                t.extend([Item::OpenEval]);
                put_expr(r, t, e);
                t.extend([Item::CloseEval]);
            }
        }
    }
    noise(r, t);
}

fn put_expr<L: TestLang>(r: &mut Rng, t: &mut Tokens<L>, e: &Expr)
where
    L::Config: Default,
{
    match e {
        Expr::Atom(n) => {
            let s = ATOMS[*n].0;
            match r.below(4) {
                0 => put_text(r, t, s),
                1 => t.append(ItemStr::Static(s)),
                2 => {
                    noise(r, t);
                    t.append(s);
                    noise(r, t);
                }
                _ => t.append(s),
            }
        }
        Expr::Quote(q) => {
            t.extend([Item::OpenQuote(has_eval(q))]);
            put_parts(r, t, q);
            t.extend([Item::CloseQuote]);
        }
        Expr::Concat(v) => {
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    t.space();
                    t.append("+");
                    t.space();
                }
                put_expr(r, t, e);
            }
        }
        Expr::Paren(e) => {
            t.append("(");
            put_expr(r, t, e);
            t.append(")");
        }
    }
}

/// Render without any line breaks.
fn render_inline<L: TestLang>(t: &Tokens<L>) -> Result<String, String>
where
    L::Config: Default,
{
    let mut w = FmtWriter::new(Bounded(String::new(), 16 << 20));
    let f = fmt::Config::from_lang::<L>();
    t.format(&mut w.as_formatter(&f), &L::Config::default(), &Default::default())
        .map_err(|_| format!("a well nested stream fails to format: {t:?}"))?;
    Ok(w.into_inner().0)
}

/// The length of the literal at the start of the text.
fn extent(s: &str) -> Result<usize, String> {
    let mut it = s.char_indices();
    match it.next() {
        Some((_, '"')) => {}
        _ => return Err(format!("no literal at {s:?}")),
    }
    while let Some((i, c)) = it.next() {
        match c {
            '\\' => {
                it.next();
            }
            '"' => return Ok(i + 1),
            _ => {}
        }
    }
    Err(format!("an unterminated literal at {s:?}"))
}

/// Is the text what the parts of a quote without evaluations denote?
fn match_text<'a>(d: Dialect, text: &'a str, parts: &[Part], depth: &mut usize) -> Result<&'a str, String> {
    let mut rest = text;
    for p in parts {
        rest = match p {
            Part::Text(s) => rest.strip_prefix(s.as_str()).ok_or_else(|| format!("expected {s:?} at {rest:?}"))?,
            Part::Nested(q) => {
                let n = extent(rest)?;
                let v = whole(d, &rest[..n]).map_err(|e| format!("nested literal {}: {e}", &rest[..n]))?;
                let mut inner = 1;
                let left = match_text(d, &v, q, &mut inner)?;
                if !left.is_empty() {
                    return Err(format!("{left:?} is left of {v:?}"));
                }
                *depth = (*depth).max(inner + 1);
                &rest[n..]
            }
            Part::Eval(_) => unreachable!(),
        };
    }
    Ok(rest)
}

fn match_quote(d: Dialect, p: &mut P, parts: &[Part], depth: &mut usize) -> Verdict {
    if !has_eval(parts) {
        let v = string(d, p)?;
        let rest = match_text(d, &v, parts, depth)?;
        if !rest.is_empty() {
            return Err(format!("{rest:?} is left of {v:?}"));
        }
        return Ok(());
    }
    let got = interpolated(d, p)?;
    let groups = parts.split(|p| matches!(p, Part::Eval(_))).collect::<Vec<_>>();
    let evals = parts.iter().filter_map(|p| match p {
        Part::Eval(e) => Some(e),
        _ => None,
    });
    let evals = evals.collect::<Vec<_>>();
    // Note: text and expressions alternate.
    if got.len() != groups.len() + evals.len() {
        return Err(format!("expected {} expressions, found {got:?}", evals.len()));
    }
    for (i, g) in got.iter().enumerate() {
        match g {
            decode::Part::Text(v) => {
                let rest = match_text(d, v, groups[i / 2], depth)?;
                if !rest.is_empty() {
                    return Err(format!("{rest:?} is left of {v:?}"));
                }
            }
            decode::Part::Expr(e) => {
                let mut p = P::new(e);
                p.sp();
                let mut inner = 0;
                match_expr(d, &mut p, evals[i / 2], &mut inner)?;
                p.sp();
                if !p.end() {
                    return Err(format!("{:?} is left of the expression {e:?}", p.rest()));
                }
                *depth = (*depth).max(inner + 1);
            }
        }
    }
    Ok(())
}

fn match_expr(d: Dialect, p: &mut P, e: &Expr, depth: &mut usize) -> Verdict {
    match e {
        Expr::Atom(n) => p.expect(ATOMS[*n].0),
        Expr::Quote(q) => match_quote(d, p, q, depth),
        Expr::Concat(v) => {
            for (i, e) in v.iter().enumerate() {
                if i > 0 {
                    p.expect(" + ")?;
                }
                match_expr(d, p, e, depth)?;
            }
            Ok(())
        }
        Expr::Paren(e) => {
            p.expect("(")?;
            match_expr(d, p, e, depth)?;
            p.expect(")")
        }
    }
}

/// What an expression evaluates to.
pub fn value_of(e: &Expr) -> String {
    match e {
        Expr::Atom(n) => ATOMS[*n].1.to_string(),
        Expr::Quote(q) => value_of_parts(q),
        Expr::Concat(v) => v.iter().map(value_of).collect(),
        Expr::Paren(e) => value_of(e),
    }
}

fn value_of_parts(q: &[Part]) -> String {
    q.iter()
        .map(|p| match p {
            Part::Text(s) => s.clone(),
            Part::Eval(e) => value_of(e),
            // Note: expressions with nested quotes are not evaluated.
            Part::Nested(_) => unreachable!(),
        })
        .collect()
}

fn source(d: Dialect, s: &str) -> Result<P, String> {
    Ok(match d {
        Dialect::Java => P::new(&String::from_utf16(&java_unescape(s)?).map_err(|_| "unpaired surrogate")?),
        _ => P::new(s),
    })
}

fn one_line(s: &str) -> Verdict {
    match s.find(['\n', '\r']) {
        Some(_) => Err(format!("more than one line: {s:?}")),
        None => Ok(()),
    }
}

// -- C14

const AROUND: &[&str] = &["", "(", ")", "[", "]", ",", ";", "=", "x", "1", "+", "{", "}", "f(", "?", ":"];

/// Append the string as one quoted string.
fn put_quoted<L: TestLang>(r: &mut Rng, t: &mut Tokens<L>, s: &str) -> &'static str
where
    L::Config: Default,
{
    match r.below(16) {
        0 => t.append(quoted(s)),
        1 => t.append(quoted(s.to_string())),
        2 => t.append(quoted(&s.to_string())),
        3 => t.append(quoted(Rc::new(s.to_string()))),
        4 => t.append(quoted(&Rc::new(s.to_string()))),
        5 => t.append(quoted(Cow::Borrowed(s))),
        6 => t.append(quoted(Cow::<str>::Owned(s.to_string()))),
        7 => t.append(quoted(store(s, r.u64()))),
        8 => t.append(quoted(display(s))),
        9 => t.append(quoted(format_args!("{s}"))),
        10 => t.append(quoted(s.chars().map(|c| c.to_string()).collect::<Vec<_>>())),
        11 => t.append(quoted(Some(s))),
        12 => {
            let mut inner = Tokens::new();
            put_text(r, &mut inner, s);
            t.append(quoted(inner));
            return "pieces quoted";
        }
        _ => {
            t.extend([Item::OpenQuote(false)]);
            put_text(r, t, s);
            t.extend([Item::CloseQuote]);
            return "pieces";
        }
    }
    "whole"
}

/// A string as it's used to try out the quoting of a language.
pub fn subject(r: &mut Rng, d: Dialect) -> String {
    let mut s = match r.below(10) {
        0 => hostile_char(r).to_string(),
        // Two characters, to see each followed by anything.
        1 | 2 => {
            let a = hostile_char(r);
            format!("{a}{}", hostile_string(r, 1))
        }
        3 => hostile_string(r, 40),
        _ => hostile_string(r, 6),
    };
    if d == Dialect::Nix {
        s = s.replace('\0', "");
    }
    s
}

fn quoting<L: TestLang>(ctx: &mut Ctx) -> Verdict
where
    L::Config: Default,
{
    let d = L::DIALECT;
    let r = &mut ctx.rng;
    let mut t = Tokens::<L>::new();
    let mut expected = Vec::new();
    let n = 1 + r.size(3);
    let sep = |r: &mut Rng, t: &mut Tokens<L>| -> String {
        let mut s = r.pick(AROUND).to_string();
        t.append(s.as_str());
        if r.one_in(4) {
            t.space();
            s.push(' ');
        }
        s
    };
    let first = sep(r, &mut t);
    let mut how = "";
    for _ in 0..n {
        let s = subject(r, d);
        how = put_quoted(r, &mut t, &s);
        let after = sep(r, &mut t);
        expected.push((s, after));
    }
    t.append(";");
    let got = render_inline(&t)?;
    let check = || {
        one_line(&got)?;
        let mut p = source(d, &got)?;
        p.expect(&first)?;
        for (s, after) in &expected {
            let v = string(d, &mut p)?;
            if v != *s {
                return Err(format!("it reads as {v:?}"));
            }
            p.expect(after)?;
        }
        p.expect(";")?;
        if !p.end() {
            return Err(format!("{:?} is left", p.rest()));
        }
        Ok(())
    };
    check().map_err(|e| format!("{d:?}: quoting {expected:?} gives\n{got}\n{e}"))?;
    // The literals don't depend on how the strings are put together.
    let mut whole_one = Tokens::<L>::new();
    whole_one.append(quoted(expected[0].0.as_str()));
    let one = render_inline(&whole_one)?;
    let v = whole(d, &one).map_err(|e| format!("{d:?}: {one}: {e}"))?;
    if v != expected[0].0 {
        return Err(format!("{d:?}: {one} reads as {v:?}, not as {:?}", expected[0].0));
    }
    ctx.saw(&format!("{d:?} {how}"));
    ctx.saw_n("strings read back", n as u64 + 1);
    ctx.evaluated(&format!("{d:?} {got}"), expected.iter().any(|e| !e.0.is_empty()));
    Ok(())
}

/// Strings inside of import declarations.
fn declared(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.rng;
    let alias = r.bool();
    let (d, path) = match r.below(3) {
        0 => (Dialect::Go, subject(r, Dialect::Go)),
        1 => (Dialect::Dart, subject(r, Dialect::Dart)),
        _ => (Dialect::Js, subject(r, Dialect::Js)),
    };
    let file = |e: fmt::Result<String>| e.map_err(|_| format!("{d:?}: a file importing {path:?} fails to format"));
    let (head, tail, got) = match d {
        Dialect::Go => {
            let mut t = go::Tokens::new();
            t.register(go::import(path.as_str(), "Foo"));
            ("import ", "\n", file(t.to_file_string())?)
        }
        Dialect::Dart if path == "dart:core" => return Ok(()),
        Dialect::Dart => {
            let mut t = dart::Tokens::new();
            let i = dart::import(path.as_str(), "Foo");
            if alias {
                t.register(i.with_alias("p"));
                ("import ", " as p;\n", file(t.to_file_string())?)
            } else {
                t.register(i);
                ("import ", ";\n", file(t.to_file_string())?)
            }
        }
        _ => {
            let mut t = js::Tokens::new();
            t.register(js::import(path.as_str(), "Foo"));
            ("import {Foo} from ", ";\n", file(t.to_file_string())?)
        }
    };
    let check = || {
        let mut p = source(d, &got)?;
        p.expect(head)?;
        let v = string(d, &mut p)?;
        if v != path {
            return Err(format!("it reads as {v:?}"));
        }
        p.expect(tail)
    };
    check().map_err(|e| format!("{d:?}: importing {path:?} gives\n{got}\n{e}"))?;
    ctx.saw(&format!("{d:?} imports"));
    ctx.evaluated(&format!("{d:?} {got}"), !path.is_empty());
    Ok(())
}

pub fn c14(ctx: &mut Ctx) -> Verdict {
    match ctx.index % 11 {
        0 => quoting::<rust::Rust>(ctx),
        1 => quoting::<js::JavaScript>(ctx),
        2 => quoting::<python::Python>(ctx),
        3 => quoting::<java::Java>(ctx),
        4 => quoting::<csharp::Csharp>(ctx),
        5 => quoting::<c::C>(ctx),
        6 => quoting::<go::Go>(ctx),
        7 => quoting::<dart::Dart>(ctx),
        8 => quoting::<swift::Swift>(ctx),
        9 => quoting::<nix::Nix>(ctx),
        _ => declared(ctx),
    }
}

// -- C15

fn interpolation<L: TestLang>(ctx: &mut Ctx) -> Verdict
where
    L::Config: Default,
{
    let d = L::DIALECT;
    let r = &mut ctx.rng;
    let depth = r.below(4);
    let mut q = if r.one_in(2000) { chain(r, d, true) } else { parts(r, d, depth, true) };
    if !has_eval(&q) && !r.one_in(8) {
        q.push(Part::Eval(expr(r, d, depth)));
        if r.bool() {
            q.push(Part::Text(text(r, d)));
        }
    }
    let e = Expr::Concat(vec![Expr::Atom(0), Expr::Quote(q)]);
    let mut t = Tokens::<L>::new();
    put_expr(r, &mut t, &e);
    t.append(";");
    let got = render_inline(&t)?;
    let mut nesting = 0;
    let mut check = || {
        one_line(&got)?;
        let mut p = P::new(&got);
        match_expr(d, &mut p, &e, &mut nesting)?;
        p.expect(";")?;
        if !p.end() {
            return Err(format!("{:?} is left", p.rest()));
        }
        Ok(())
    };
    check().map_err(|m| format!("{d:?}: {e:?} renders as\n{got}\n{m}"))?;
    ctx.saw(&format!("{d:?} nested {nesting} deep"));
    ctx.saw_n("evaluations", t.iter().filter(|i| matches!(i, Item::OpenEval)).count() as u64);
    ctx.evaluated(&format!("{d:?} {got}"), t.iter().any(|i| matches!(i, Item::OpenEval)));
    Ok(())
}

pub fn c15(ctx: &mut Ctx) -> Verdict {
    if ctx.index % 2 == 0 {
        interpolation::<js::JavaScript>(ctx)
    } else {
        interpolation::<dart::Dart>(ctx)
    }
}

// -- C16

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Shape {
    Legal,
    Illegal,
    /// Nothing is claimed.
    Open,
}

/// The rules by which quotes and evaluations are nested.
fn shape<L: TestLang>(t: &Tokens<L>) -> Shape
where
    L::Config: Default,
{
    #[derive(Clone, Copy, PartialEq)]
    enum Place {
        Code,
        Eval,
        Quote(bool),
        Nested,
    }
    let mut stack = vec![Place::Code];
    let mut open = false;
    for i in t.iter() {
        let top = *stack.last().unwrap();
        match (i, top) {
            (Item::OpenQuote(e), Place::Code | Place::Eval) => stack.push(Place::Quote(*e)),
            (Item::OpenQuote(false), _) => stack.push(Place::Nested),
            (Item::CloseQuote, Place::Quote(_) | Place::Nested) => {
                stack.pop();
            }
            (Item::OpenEval, Place::Quote(e)) => {
                // An evaluation in a quote which is said to have none.
                open |= !e;
                stack.push(Place::Eval);
            }
            (Item::CloseEval, Place::Eval) => {
                stack.pop();
            }
            (Item::OpenQuote(_) | Item::CloseQuote | Item::OpenEval | Item::CloseEval, _) => return Shape::Illegal,
            _ => {}
        }
    }
    match () {
        _ if open || stack.len() > 1 => Shape::Open,
        _ => Shape::Legal,
    }
}

/// Put one item of a small alphabet into a stream.
fn letter<L: TestLang>(r: &mut Rng, t: &mut Tokens<L>, n: usize)
where
    L::Config: Default,
{
    match n {
        0 => t.extend([Item::OpenQuote(true)]),
        1 => t.extend([Item::OpenQuote(false)]),
        2 => t.extend([Item::CloseQuote]),
        3 => t.extend([Item::OpenEval]),
        4 => t.extend([Item::CloseEval]),
        5 => t.append("w"),
        6 => t.append("\"\\$"),
        7 => t.space(),
        8 => t.push(),
        9 => t.line(),
        10 => t.indent(),
        11 => t.unindent(),
        12 => noise(r, t),
        _ => {
            let u = L::gen(r, &Cfg::default());
            L::put(&u, t, r.bool(), r.u64());
        }
    }
}

/// Any sequence at all formats, or is rejected by every entry point.
fn sequence<L: TestLang>(ctx: &mut Ctx, letters: &[usize]) -> Verdict
where
    L::Config: Default,
{
    let mut t = Tokens::<L>::new();
    for l in letters {
        letter(&mut ctx.rng, &mut t, *l);
    }
    let shape = shape(&t);
    let f = fmt::Config::from_lang::<L>();
    let c = L::Config::default();
    let mut w = FmtWriter::new(Bounded(String::new(), 16 << 20));
    let a = t.format(&mut w.as_formatter(&f), &c, &Default::default()).is_ok();
    let mut w = FmtWriter::new(Bounded(String::new(), 16 << 20));
    let b = t.format_file(&mut w.as_formatter(&f), &c).is_ok();
    let mut w = VecWriter::new();
    let v = t.format(&mut w.as_formatter(&f), &c, &Default::default()).is_ok();
    let expected = match shape {
        Shape::Legal => true,
        Shape::Illegal => false,
        Shape::Open => a,
    };
    ctx.saw(&format!("{shape:?} sequences"));
    if (a, b, v) != (expected, expected, expected) {
        return Err(format!("a {shape:?} stream: format {a}, format_file {b}, vector {v}: {t:?}"));
    }
    ctx.evaluated(&format!("{:?} {t:?}", L::DIALECT), shape == Shape::Illegal || letters.len() > 3);
    Ok(())
}

/// A quote with layout in it, in quotes.
fn layout<L: TestLang>(ctx: &mut Ctx) -> Verdict
where
    L::Config: Default,
{
    let d = L::DIALECT;
    let r = &mut ctx.rng.clone();
    let unit = *r.pick(&[Unit::Tab, Unit::Space(0), Unit::Space(1), Unit::Space(2), Unit::Space(4), Unit::Space(7), Unit::Space(101)]);
    let newline = *r.pick(&["\n", "\n", "\r\n", "\r", "<nl>"]);
    let f = config::<L>(unit, newline);
    let render = |t: &Tokens<L>| -> Result<String, String> {
        let mut w = FmtWriter::new(Bounded(String::new(), 16 << 20));
        t.format(&mut w.as_formatter(&f), &L::Config::default(), &Default::default())
            .map_err(|_| format!("a well nested stream fails to format: {t:?}"))?;
        Ok(w.into_inner().0)
    };

    // Note: how characters other than these are escaped depends on the nesting.
    let ascii = |r: &mut Rng| {
        let mut s = subject(r, d);
        s.retain(|c| c.is_ascii() && !c.is_control());
        s
    };

    let mut inner = Tokens::<L>::new();
    inner.extend([Item::OpenQuote(false)]);
    for _ in 0..1 + r.size(8) {
        match r.below(9) {
            0 => inner.space(),
            1 => inner.push(),
            2 => inner.line(),
            3 => inner.indent(),
            4 => inner.unindent(),
            5 => inner.append(Item::Indentation(r.below(30) as i16)),
            _ => {
                let s = ascii(r);
                inner.append(s.as_str());
            }
        }
    }
    inner.extend([Item::CloseQuote]);

    let around = |r: &mut Rng| if r.bool() { String::new() } else { ascii(r) };
    for depth in 1..=1 + r.below(2) {
        let literal = render(&inner)?;
        let (before, after) = (around(r), around(r));
        let mut outer = Tokens::<L>::new();
        outer.extend([Item::OpenQuote(false)]);
        outer.append(before.as_str());
        outer.append(if r.bool() { inner.clone() } else { inner.iter().collect() });
        outer.append(after.as_str());
        outer.extend([Item::CloseQuote]);
        let expected = format!("{before}{literal}{after}");

        let mut t = Tokens::<L>::new();
        for _ in 0..r.below(3) {
            t.indent();
        }
        t.append("x = ");
        t.append(&outer);
        t.append(";");
        let got = render(&t)?;
        let check = || {
            let got = got.trim_start_matches([' ', '\t']);
            one_line(got)?;
            let mut p = source(d, got)?;
            p.expect("x = ")?;
            let v = string(d, &mut p)?;
            if v != expected {
                return Err(format!("it reads as {v:?}, not as {expected:?}"));
            }
            p.expect(";")?;
            if !p.end() {
                return Err(format!("{:?} is left", p.rest()));
            }
            Ok(())
        };
        check().map_err(|m| format!("{d:?}, {unit:?}, newline {newline:?}: {t:?} renders as\n{got}\n{m}"))?;
        ctx.saw(&format!("quotes with layout in {depth} others"));
        ctx.evaluated(&format!("{d:?} {got}"), literal.contains(newline));
        inner = outer;
    }
    Ok(())
}

fn denotation<L: TestLang>(ctx: &mut Ctx) -> Verdict
where
    L::Config: Default,
{
    if ctx.rng.one_in(4) {
        return layout::<L>(ctx);
    }
    let d = L::DIALECT;
    let eval = matches!(d, Dialect::Js | Dialect::Dart);
    let r = &mut ctx.rng;
    let depth = 1 + r.below(5);
    let q = match r.below(2000) {
        0 => chain(r, d, eval),
        1 => chain(r, d, false),
        _ => parts(r, d, depth, eval),
    };
    let e = Expr::Concat(vec![Expr::Atom(0), Expr::Quote(q)]);
    let mut t = Tokens::<L>::new();
    put_expr(r, &mut t, &e);
    t.append(";");
    let got = render_inline(&t)?;
    let mut nesting = 0;
    let mut check = || {
        one_line(&got)?;
        let mut p = source(d, &got)?;
        match_expr(d, &mut p, &e, &mut nesting)?;
        p.expect(";")?;
        if !p.end() {
            return Err(format!("{:?} is left", p.rest()));
        }
        Ok(())
    };
    check().map_err(|m| format!("{d:?}: {e:?} renders as\n{got}\n{m}"))?;
    ctx.saw(&format!("nested {nesting} deep"));
    ctx.evaluated(&format!("{d:?} {got}"), nesting > 1);
    Ok(())
}

/// All sequences of up to six quote items and texts are tried: 6^0 + .. + 6^6.
const ALL: u64 = 55_987;

pub fn c16(ctx: &mut Ctx) -> Verdict {
    let mut letters = Vec::new();
    if ctx.index < ALL {
        let mut n = ctx.index;
        while n > 0 {
            n -= 1;
            letters.push((n % 6) as usize);
            n /= 6;
        }
    } else {
        if ctx.index % 2 == 0 {
            return match (ctx.index / 2) % 10 {
                0 => denotation::<rust::Rust>(ctx),
                1 => denotation::<js::JavaScript>(ctx),
                2 => denotation::<python::Python>(ctx),
                3 => denotation::<java::Java>(ctx),
                4 => denotation::<csharp::Csharp>(ctx),
                5 => denotation::<c::C>(ctx),
                6 => denotation::<go::Go>(ctx),
                7 => denotation::<dart::Dart>(ctx),
                8 => denotation::<swift::Swift>(ctx),
                _ => denotation::<nix::Nix>(ctx),
            };
        }
        // Mostly the right item, so that sequences get to be long.
        let r = &mut ctx.rng;
        let mut open: Vec<usize> = Vec::new();
        let wrongs = *r.pick(&[12, 12, 100, 1000]);
        let long = r.one_in(400);
        for _ in 0..if long { 500 } else { r.size(24) } {
            let wrong = r.one_in(wrongs);
            letters.push(match (open.last(), r.below(7)) {
                _ if wrong => r.below(14),
                (None | Some(3), 0..=2) => {
                    let q = r.below(2);
                    open.push(q);
                    q
                }
                (Some(0), 0 | 1) => {
                    open.push(3);
                    3
                }
                // Note: every one doubles what has to be escaped.
                (Some(0..=2), 2) if open.iter().filter(|q| **q == 2).count() < 8 => {
                    open.push(2);
                    1
                }
                (Some(0), 3) if long => {
                    open.push(3);
                    3
                }
                (Some(0..=2), 3 | 4) => {
                    open.pop();
                    2
                }
                (Some(3), 3 | 4) => {
                    open.pop();
                    4
                }
                _ => 5 + r.below(9),
            });
        }
        while let Some(q) = open.pop() {
            if !r.one_in(20) {
                letters.push(if q == 3 { 4 } else { 2 });
            }
        }
    }
    match ctx.index % 11 {
        0 => sequence::<rust::Rust>(ctx, &letters),
        1 => sequence::<js::JavaScript>(ctx, &letters),
        2 => sequence::<python::Python>(ctx, &letters),
        3 => sequence::<java::Java>(ctx, &letters),
        4 => sequence::<csharp::Csharp>(ctx, &letters),
        5 => sequence::<c::C>(ctx, &letters),
        6 => sequence::<go::Go>(ctx, &letters),
        7 => sequence::<dart::Dart>(ctx, &letters),
        8 => sequence::<swift::Swift>(ctx, &letters),
        _ => sequence::<nix::Nix>(ctx, &letters),
    }
}

// -- Strings for the real languages

/// A string and its literal.
pub fn sample_literal(r: &mut Rng, d: Dialect) -> Result<(String, String), String> {
    fn one<L: TestLang>(r: &mut Rng) -> Result<(String, String), String>
    where
        L::Config: Default,
    {
        let s = subject(r, L::DIALECT);
        let mut t = Tokens::<L>::new();
        put_quoted(r, &mut t, &s);
        Ok((s, render_inline(&t)?))
    }
    match d {
        Dialect::Rust => one::<rust::Rust>(r),
        Dialect::Js => one::<js::JavaScript>(r),
        Dialect::Python => one::<python::Python>(r),
        Dialect::Java => one::<java::Java>(r),
        Dialect::Csharp => one::<csharp::Csharp>(r),
        Dialect::C => one::<c::C>(r),
        Dialect::Go => one::<go::Go>(r),
        Dialect::Dart => one::<dart::Dart>(r),
        Dialect::Swift => one::<swift::Swift>(r),
        Dialect::Nix => one::<nix::Nix>(r),
    }
}

/// A JavaScript expression, and what it evaluates to.
pub fn sample_expr(r: &mut Rng) -> Result<(String, String), String> {
    fn flat(e: &Expr) -> bool {
        match e {
            Expr::Atom(_) => true,
            Expr::Quote(q) => q.iter().all(|p| match p {
                Part::Text(_) => true,
                Part::Nested(_) => false,
                Part::Eval(e) => flat(e),
            }),
            // Note: numbers are added, unless they follow text.
            Expr::Concat(v) => v.iter().all(flat) && (v.len() == 1 || is_text(&v[0])),
            Expr::Paren(e) => flat(e),
        }
    }
    fn is_text(e: &Expr) -> bool {
        match e {
            Expr::Atom(n) => !matches!(ATOMS[*n].0, "1" | "true" | "null"),
            Expr::Quote(_) => true,
            Expr::Concat(v) => is_text(&v[0]),
            Expr::Paren(e) => is_text(e),
        }
    }
    loop {
        let depth = r.below(4);
        let q = parts(r, Dialect::Js, depth, true);
        let e = Expr::Concat(vec![Expr::Atom(0), Expr::Quote(q)]);
        if !flat(&e) {
            continue;
        }
        let mut t = js::Tokens::new();
        put_expr(r, &mut t, &e);
        return Ok((value_of(&e), render_inline(&t)?));
    }
}
