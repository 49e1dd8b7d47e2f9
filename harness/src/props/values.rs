//! C21, C23 and C24: values, comments and strings.

use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::fmt::{self as sfmt, Debug};
use std::rc::Rc;

use genco::fmt::FmtWriter;
use genco::lang::{c, csharp, dart, go, java, js, nix, python, rust, swift, Lang};
use genco::tokens::{self, display, from_fn, quoted, register, static_literal, FormatInto, Item, ItemStr};
use genco::Tokens;

use super::imports::{gen_uses, Declares};
use super::tokens::{hash, hinted};
use crate::gen::{hostile_char, hostile_string, token_text};
use crate::langs::*;
use crate::model::*;
use crate::rng::Rng;
use crate::run::{Ctx, Verdict};

/// A value whose Display is made of several writes.
#[derive(Clone)]
struct Pieces(Vec<String>);

impl sfmt::Display for Pieces {
    fn fmt(&self, f: &mut sfmt::Formatter<'_>) -> sfmt::Result {
        // It's another text if it's not displayed as `{}` and `to_string()` do.
        let flags = f.alternate() || f.sign_plus() || f.sign_minus() || f.sign_aware_zero_pad();
        if flags || f.width().is_some() || f.precision().is_some() || f.fill() != ' ' || f.align().is_some() {
            f.write_str("displayed in another way")?;
        }
        for (i, p) in self.0.iter().enumerate() {
            if i % 2 == 0 {
                f.write_str(p)?;
            } else {
                write!(f, "{p}")?;
            }
        }
        Ok(())
    }
}

fn string(r: &mut Rng) -> String {
    match r.below(4) {
        0 if r.one_in(500) => {
            let n = *r.pick(&[100, 255, 256, 1000, 4096, 70_000]);
            let s = hostile_string(r, 6);
            s.chars().cycle().take(if s.is_empty() { 0 } else { n }).collect()
        }
        0 => String::new(),
        1 => token_text(r),
        _ => hostile_string(r, 6),
    }
}

fn strings(r: &mut Rng) -> Vec<String> {
    let n = match r.below(1000) {
        0 => *r.pick(&[64, 255, 256, 257, 1000]),
        _ => *r.pick(&[0, 1, 2, 3, 7]),
    };
    (0..n).map(|_| string(r)).collect()
}

macro_rules! ints {
    ($r:expr, $t:expr, $text:expr, $log:expr; $($i:literal => $ty:ident),*) => {
        match $r.below(12) {
            $($i => {
                let v: $ty = match $r.below(5) {
                    0 => $ty::MIN,
                    1 => $ty::MAX,
                    2 => 0,
                    3 => ($r.u64() % 300) as $ty,
                    _ => $ty::from_le_bytes({
                        let mut b = [0; std::mem::size_of::<$ty>()];
                        for x in &mut b {
                            *x = $r.u64() as u8;
                        }
                        b
                    }),
                };
                $log.push_str(stringify!($ty));
                if $r.one_in(4) {
                    $text(&[v, 0, v].iter().map(|v| format!("{v}")).collect::<String>());
                    $t.append(vec![v, 0, v]);
                } else {
                    $text(&format!("{v}"));
                    $t.append(v);
                }
            })*
            _ => unreachable!(),
        }
    };
}

/// Append one value through one conversion, and say what it should write.
///
/// Note: whether empty text separates two spaces is not specified, so that all
/// whitespace is put between bars.
fn value(r: &mut Rng, t: &mut Tokens<Tl>, m: &mut MTokens, log: &mut String, depth: usize) {
    let s = string(r);
    let v = strings(r);
    let all = v.concat();
    let text = |m: &mut MTokens, s: &str| m.item(&MI::Lit(s.to_string()));
    log.push(' ');
    match r.below(40) {
        0 => {
            log.push_str("&str");
            t.append(s.as_str());
            text(m, &s);
        }
        1 => {
            log.push_str("&String");
            t.append(&s);
            text(m, &s);
        }
        2 => {
            log.push_str("String");
            text(m, &s);
            t.append(s);
        }
        3 => {
            log.push_str("Rc<String>");
            t.append(Rc::new(s.clone()));
            text(m, &s);
        }
        4 => {
            log.push_str("&Rc<String>");
            let rc = Rc::new(s.clone());
            t.append(&rc);
            text(m, &rc);
        }
        5 => {
            log.push_str("Cow::Borrowed");
            t.append(Cow::Borrowed(s.as_str()));
            text(m, &s);
        }
        6 => {
            log.push_str("Cow::Owned");
            t.append(Cow::<str>::Owned(s.clone()));
            text(m, &s);
        }
        7 => {
            log.push_str("&Cow::Borrowed");
            t.append(&Cow::Borrowed(s.as_str()));
            text(m, &s);
        }
        8 => {
            log.push_str("&Cow::Owned");
            t.append(&Cow::<str>::Owned(s.clone()));
            text(m, &s);
        }
        9 => {
            log.push_str("ItemStr");
            t.append(store(&s, r.u64()));
            text(m, &s);
        }
        10 => {
            log.push_str("&ItemStr");
            t.append(&store(&s, r.u64()));
            text(m, &s);
        }
        11 => {
            log.push_str("ItemStr::Static");
            let s: &'static str = *r.pick(&["", "static", "é\"", " two words "]);
            t.append(ItemStr::Static(s));
            text(m, s);
        }
        12 => {
            log.push_str("static_literal");
            let s: &'static str = *r.pick(&["", "static", "é\"", " two words "]);
            let l = static_literal(s);
            t.append(l);
            text(m, s);
        }
        13 => {
            log.push_str("ItemStr::from(Box<str>)");
            t.append(ItemStr::from(s.clone().into_boxed_str()));
            text(m, &s);
        }
        14 => {
            log.push_str("format_args");
            let n = r.u64() as i64 >> (r.below(60));
            t.append(format_args!("{s}/{n:>5}/{:?}", v));
            text(m, &format!("{s}/{n:>5}/{:?}", v));
        }
        15 => {
            log.push_str("format_args plain");
            t.append(format_args!("plain"));
            text(m, "plain");
        }
        16 => {
            log.push_str("display(pieces)");
            let p = Pieces(v.clone());
            if r.bool() {
                t.append(display(&p));
            } else {
                t.append(display(p));
            }
            text(m, &all);
        }
        17 => {
            log.push_str("display(f64)");
            let f = f64::from_bits(r.u64());
            t.append(display(f));
            text(m, &f.to_string());
        }
        18 => {
            log.push_str("display(char)");
            let c = hostile_char(r);
            t.append(display(c));
            text(m, &c.to_string());
        }
        19 => {
            log.push_str("display(..)");
            let b = r.bool();
            t.append(display(b));
            text(m, &b.to_string());
        }
        20 => {
            log.push_str("Option<String>");
            if r.bool() {
                t.append(Some(s.clone()));
                text(m, &s);
            } else {
                t.append(None::<String>);
            }
        }
        21 => {
            log.push_str("Option<Option<&str>>");
            match r.below(3) {
                0 => t.append(None::<Option<&str>>),
                1 => t.append(Some(None::<&str>)),
                _ => {
                    t.append(Some(Some(s.as_str())));
                    text(m, &s);
                }
            }
        }
        22 => {
            log.push_str("Vec<String>");
            t.append(v);
            text(m, &all);
        }
        23 => {
            log.push_str("&Vec<String>");
            t.append(&v);
            text(m, &all);
        }
        24 => {
            log.push_str("&[String]");
            t.append(&v[..]);
            text(m, &all);
        }
        25 => {
            log.push_str("Cow<[String]>");
            if r.bool() {
                t.append(Cow::Borrowed(&v[..]));
            } else {
                t.append(Cow::<[String]>::Owned(v));
            }
            text(m, &all);
        }
        26 => {
            log.push_str("&Cow<[String]>");
            if r.bool() {
                t.append(&Cow::Borrowed(&v[..]));
            } else {
                t.append(&Cow::<[String]>::Owned(v));
            }
            text(m, &all);
        }
        27 => {
            log.push_str("Vec<Vec<Option<u16>>>");
            let n = r.size(4);
            let v = (0..n)
                .map(|_| {
                    let n = r.size(4);
                    (0..n).map(|_| r.bool().then(|| r.u64() as u16)).collect::<Vec<_>>()
                })
                .collect::<Vec<_>>();
            let e = v.iter().flatten().flatten().map(u16::to_string).collect::<String>();
            if r.bool() {
                t.append(&v);
            } else {
                t.append(v);
            }
            text(m, &e);
        }
        28 => {
            log.push_str("&[Rc<String>]");
            let rcs = v.iter().cloned().map(Rc::new).collect::<Vec<_>>();
            t.append(&rcs[..]);
            text(m, &all);
        }
        29 => {
            log.push_str("from_fn[");
            let mut mm = m.clone();
            let mut calls = 0;
            let f = |t: &mut Tokens<Tl>| {
                calls += 1;
                if depth > 0 {
                    value(r, t, &mut mm, log, depth - 1);
                    let bar = MI::Lit("|".into());
                    for i in [&bar, &MI::Space, &bar] {
                        t.append(model_to_real(i, 7));
                        mm.item(i);
                    }
                    value(r, t, &mut mm, log, depth - 1);
                } else {
                    t.append("fn");
                    mm.item(&MI::Lit("fn".into()));
                }
            };
            t.append(from_fn(f));
            assert!(calls == 1, "genco: from_fn ran {calls} times");
            *m = mm;
            log.push(']');
        }
        30 | 31 if depth > 0 => {
            log.push_str("Tokens[");
            let mut inner = Tokens::new();
            let mut im = MTokens::default();
            for _ in 0..r.below(4) {
                let bar = MI::Lit("|".into());
                inner.append(model_to_real(&bar, 7));
                im.item(&bar);
                value(r, &mut inner, &mut im, log, depth - 1);
                inner.append(model_to_real(&bar, 7));
                im.item(&bar);
                match r.below(5) {
                    0 => {
                        inner.space();
                        im.space();
                    }
                    1 => {
                        inner.push();
                        im.push();
                    }
                    2 => {
                        inner.line();
                        im.line();
                    }
                    _ => {}
                }
            }
            match r.below(4) {
                0 => t.append(inner),
                1 => t.append(&inner),
                2 => t.append(vec![inner]),
                _ => t.append(Some(&inner)),
            }
            m.extend(&im);
            log.push(']');
        }
        32 => {
            log.push_str("Item");
            let i = match r.below(5) {
                0 => MI::Space,
                1 => MI::Push,
                2 => MI::Line,
                3 => MI::Ind(r.range(-2, 3) as i32),
                _ => MI::Lit(s),
            };
            let bar = MI::Lit("|".into());
            for i in [&bar, &i, &bar] {
                t.append(model_to_real(i, 7));
                m.item(i);
            }
        }
        33 => {
            log.push_str("quoted");
            m.item(&MI::OpenQuote(false));
            let w = "quoted".to_string();
            match r.below(4) {
                0 => t.append(quoted(w.as_str())),
                1 => t.append(quoted(&w)),
                2 => t.append(quoted(vec!["quo", "ted"])),
                _ => t.append(quoted(display("quoted"))),
            }
            m.item(&MI::Lit(w));
            m.item(&MI::CloseQuote);
        }
        34 => {
            log.push_str("language item");
            let mark = Mark { id: 1, mode: r.below(4) as u8, text: format!("⟦{}⟧", r.below(9)) };
            match r.below(4) {
                0 => t.append(mark.clone()),
                1 => t.append(&mark),
                2 => t.append(Some(mark.clone())),
                _ => t.append(vec![mark.clone()]),
            }
            m.item(&MI::Lang(mark.into()));
        }
        35 => {
            log.push_str("register");
            let mark = Mark { id: 1, mode: 0, text: "never".into() };
            t.append(register(mark));
        }
        36 => {
            log.push_str("Vec<Cow<str>>");
            let v = v.iter().enumerate().map(|(i, s)| if i % 2 == 0 { Cow::Borrowed(&**s) } else { Cow::Owned(s.clone()) });
            let v = v.collect::<Vec<Cow<str>>>();
            t.append(&v);
            text(m, &all);
        }
        37 => {
            log.push_str("extend");
            let items = v.iter().map(|s| Item::Literal(s.into())).collect();
            t.extend(hinted(r, items));
            text(m, &all);
        }
        _ => {
            let mut write = |s: &str| text(m, s);
            ints!(r, t, write, log;
                0 => u8, 1 => u16, 2 => u32, 3 => u64, 4 => u128, 5 => usize,
                6 => i8, 7 => i16, 8 => i32, 9 => i64, 10 => i128, 11 => isize);
        }
    }
}

/// Empty text and registrations are no part of the model.
fn silent(i: &Item<Tl>) -> bool {
    matches!(i, Item::Literal(l) if l.is_empty()) || format!("{i:?}").starts_with("Register")
}

fn seen(i: &MI) -> bool {
    !matches!(i, MI::Lit(s) if s.is_empty())
}

fn render_tl(t: &Tokens<Tl>) -> Result<String, String> {
    let f = config::<Tl>(Unit::Space(4), "\n");
    let mut w = FmtWriter::new(Bounded(String::new(), 4 << 20));
    t.format(&mut w.as_formatter(&f), &(), &()).map_err(|_| "formatting fails".to_string())?;
    Ok(w.into_inner().0)
}

pub fn c21(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.rng;
    let mut t = Tokens::<Tl>::new();
    let mut m = MTokens::default();
    let mut log = String::new();
    for _ in 0..r.size(4) {
        match r.below(5) {
            0 => {
                t.space();
                m.space();
            }
            1 => {
                t.push();
                m.push();
            }
            2 => {
                t.line();
                m.line();
            }
            _ => {
                t.append("before");
                m.item(&MI::Lit("before".into()));
            }
        }
    }
    let n = 1 + r.size(4);
    for _ in 0..n {
        let before = t.clone();
        let mm = m.clone();
        let mut one = String::new();
        value(&mut ctx.rng, &mut t, &mut m, &mut one, 2);
        // What was there is still there, up to whitespace which the model merges.
        let kept = mm.0.iter().zip(&m.0).take_while(|(a, b)| a == b).filter(|(a, _)| seen(a)).count();
        let texts = |t: &Tokens<Tl>| t.iter().filter(|i| !silent(i)).take(kept).cloned().collect::<Vec<_>>();
        if texts(&t).len() != kept || texts(&t) != texts(&before) {
            return Err(format!("existing items are altered by{one}: {before:?} to {t:?}"));
        }
        ctx.saw(one.split(['[', ' ']).nth(1).unwrap_or("?"));
        log.push_str(&one);
    }
    t.append("after");
    m.item(&MI::Lit("after".into()));
    let got = render_tl(&t)?;
    let mut f = MFmt::new(Unit::Space(4), "\n");
    f.items(&m.0);
    ctx.evaluated(&format!("{log} => {got}"), f.out.len() > 5);
    if got != f.out {
        return Err(format!("values{log}:\n  expected {:?}\n  actual   {got:?}", f.out));
    }
    Ok(())
}

// -- C23

fn comment_line(r: &mut Rng) -> String {
    let s = match r.below(5) {
        0 => String::new(),
        1 => format!("  {}", token_text(r)),
        _ => hostile_string(r, 5),
    };
    let s = s.replace(['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}'], "").replace("*/", "").replace("*/", "");
    s.trim_end().to_string()
}

/// Give the lines to a helper as one of many kinds of sequences.
fn with_lines<L: Lang, C1, C2, C3, C4, C5, C6>(
    r: &mut Rng,
    t: &mut Tokens<L>,
    lines: &[String],
    f: (impl Fn(Vec<String>) -> C1, impl Fn(Vec<&'static str>) -> C2, impl Fn(Vec<ItemStr>) -> C3),
    g: (impl Fn(Option<String>) -> C4, impl Fn(Box<dyn Iterator<Item = String>>) -> C5, impl Fn(BTreeSet<String>) -> C6),
) where
    C1: FormatInto<L>,
    C2: FormatInto<L>,
    C3: FormatInto<L>,
    C4: FormatInto<L>,
    C5: FormatInto<L>,
    C6: FormatInto<L>,
{
    let salt = r.u64();
    let sorted = lines.windows(2).all(|w| w[0] < w[1]);
    match r.below(7) {
        0 => t.append(f.1(lines.iter().map(|l| intern(l)).collect())),
        1 => t.append(f.2(lines.iter().map(|l| store(l, salt)).collect())),
        2 if lines.len() < 2 => t.append(g.0(lines.first().cloned())),
        3 => t.append(g.1(Box::new(hinted(r, lines.to_vec())))),
        4 => t.append(g.1(Box::new(lines.to_vec().into_iter().filter(|_| true)))),
        5 if sorted => t.append(g.2(lines.iter().cloned().collect())),
        _ => t.append(f.0(lines.to_vec())),
    }
}

fn comments<L: Lang>(
    ctx: &mut Ctx,
    kind: &str,
    add: impl Fn(&mut Rng, &mut Tokens<L>, &[String]),
) -> Verdict
where
    L::Config: Default,
{
    let r = &mut ctx.rng;
    let (unit, newline) = if r.bool() { (Unit::Space(4), "\n") } else { super::files::layout(r) };
    let mut t = Tokens::<L>::new();
    let mut m = MTokens::default();
    let mut level = 0;
    if r.one_in(500) {
        // Far in.
        level = *r.pick(&[8, 12, 16, 20, 32, 40, 64]);
        for _ in 0..level {
            t.indent();
            m.ind(1);
        }
    }
    // Note: opposite changes of indentation undo each other, along with the
    // line break in between, so they are kept apart.
    let mut last = 0;
    let mut seen = 0;
    for _ in 0..1 + r.size(8) {
        match r.below(8) {
            0 => {
                t.space();
                m.space();
            }
            1 => {
                t.push();
                m.push();
            }
            2 => {
                t.line();
                m.line();
            }
            3 if last >= 0 => {
                t.indent();
                m.ind(1);
                last = 1;
                level += 1;
            }
            4 if level > 0 && last <= 0 => {
                t.unindent();
                m.ind(-1);
                last = -1;
                level -= 1;
            }
            3..=5 => {
                t.append("code");
                last = 0;
                m.item(&MI::Lit("code".into()));
            }
            _ => {
                let n = match *r.pick(&[0, 1, 2, 3, 6]) {
                    6 if r.one_in(2000) => *r.pick(&[63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 500, 1000, 1025]),
                    n => n,
                };
                let lines = (0..n).map(|_| comment_line(r)).collect::<Vec<_>>();
                let inner = r.one_in(3);
                if inner {
                    let mut tt = Tokens::<L>::new();
                    add(r, &mut tt, &lines);
                    t.append(tt);
                } else {
                    add(r, &mut t, &lines);
                }
                if n > 0 {
                    last = 0;
                    let lit = |m: &mut MTokens, s: &str| m.item(&MI::Lit(s.into()));
                    m.push();
                    if kind == "/**" {
                        lit(&mut m, "/**");
                    }
                    for (i, l) in lines.iter().enumerate() {
                        if kind == "/**" {
                            m.push();
                            m.space();
                            lit(&mut m, "*");
                        } else {
                            if i > 0 {
                                m.push();
                            }
                            lit(&mut m, kind);
                        }
                        m.space();
                        if !l.is_empty() {
                            lit(&mut m, l);
                        }
                    }
                    if kind == "/**" {
                        m.push();
                        m.space();
                        lit(&mut m, "*/");
                    }
                    // Whatever comes next is on a line of its own.
                    if r.bool() {
                        t.push();
                        m.push();
                    } else {
                        t.line();
                        m.line();
                    }
                    seen += n as u64;
                }
            }
        }
    }
    t.append("end");
    m.item(&MI::Lit("end".into()));
    let f = config::<L>(unit, newline);
    let mut w = FmtWriter::new(Bounded(String::new(), 4 << 20));
    t.format(&mut w.as_formatter(&f), &L::Config::default(), &Default::default())
        .map_err(|_| "formatting fails".to_string())?;
    let got = w.into_inner().0;
    let mut f = MFmt::new(unit, newline);
    f.items(&m.0);
    ctx.saw_n("comment lines", seen);
    ctx.evaluated(&got, seen >= 2);
    if got != f.out {
        return Err(format!("comments with {kind}:\n--- expected\n{}\n--- actual\n{got}\n--- {t:?}", f.out));
    }
    Ok(())
}

macro_rules! comment {
    ($f:path) => {
        |r, t, l| with_lines(r, t, l, (|l| $f(l), |l| $f(l), |l| $f(l)), (|l| $f(l), |l| $f(l), |l| $f(l)))
    };
}

pub fn c23(ctx: &mut Ctx) -> Verdict {
    match ctx.index % 4 {
        0 => comments::<java::Java>(ctx, "/**", comment!(java::block_comment)),
        1 => comments::<csharp::Csharp>(ctx, "//", comment!(csharp::comment)),
        2 => comments::<csharp::Csharp>(ctx, "///", comment!(csharp::block_comment)),
        _ => comments::<dart::Dart>(ctx, "///", comment!(dart::doc_comment)),
    }
}

// -- C24

fn forms(s: &str) -> Vec<(&'static str, ItemStr)> {
    let own = s.to_string();
    let cow = Cow::Borrowed(s);
    let cow_own: Cow<str> = Cow::Owned(own.clone());
    vec![
        ("static", ItemStr::Static(intern(s))),
        ("Box variant", ItemStr::Box(s.into())),
        ("Box<str>", ItemStr::from(own.clone().into_boxed_str())),
        ("&str", ItemStr::from(s)),
        ("&&str", ItemStr::from(&s)),
        ("String", ItemStr::from(own.clone())),
        ("&String", ItemStr::from(&own)),
        ("Cow borrowed", ItemStr::from(cow.clone())),
        ("&Cow borrowed", ItemStr::from(&cow)),
        ("Cow owned", ItemStr::from(cow_own.clone())),
        ("&Cow owned", ItemStr::from(&cow_own)),
        ("Rc<String>", ItemStr::from(Rc::new(own.clone()))),
        ("&ItemStr", ItemStr::from(&ItemStr::Static(intern(s)))),
        ("clone", ItemStr::from(own).clone()),
    ]
}

fn all_equal<T: Ord + std::hash::Hash + Debug>(a: &T, b: &T, e: Ordering, what: &dyn Debug) -> Verdict {
    if (a == b) != (e == Ordering::Equal) || (a != b) == (e == Ordering::Equal) {
        return Err(format!("equality of {a:?} and {b:?}: {what:?}"));
    }
    if a.cmp(b) != e || a.partial_cmp(b) != Some(e) || b.cmp(a) != e.reverse() {
        return Err(format!("order of {a:?} and {b:?}: {:?} {:?}, expected {e:?}: {what:?}", a.cmp(b), a.partial_cmp(b)));
    }
    if (a < b) != (e == Ordering::Less) || (a > b) != (e == Ordering::Greater) {
        return Err(format!("order of {a:?} and {b:?}: {what:?}"));
    }
    if e == Ordering::Equal && hash(a) != hash(b) {
        return Err(format!("hash of {a:?} and {b:?}: {what:?}"));
    }
    Ok(())
}

fn stored<L: Declares>(ctx: &mut Ctx) -> Verdict
where
    L::Config: Default,
{
    let r = &mut ctx.rng;
    let cfg = L::cfg(r);
    let uses = gen_uses::<L>(r, &cfg);
    let stream = |salt: u64, twice: bool| {
        let mut t = Tokens::<L>::new();
        for (k, u) in uses.iter().enumerate() {
            let salt = salt.wrapping_mul(2 * k as u64 + 3);
            // Note: the kind of conversion is part of the salt as well.
            L::put(u, &mut t, false, salt);
            t.push();
            if twice {
                L::put(u, &mut t, true, salt ^ 0x5555);
            }
        }
        t
    };
    let (s1, s2) = (r.u64(), r.u64());
    let a = stream(s1, false);
    let b = stream(s2, false);
    all_equal(&a, &b, Ordering::Equal, &uses)?;
    let one = render_file(&a, &cfg)?;
    let other = render_file(&b, &cfg)?;
    if one != other {
        return Err(format!("the files of equal streams differ:\n{one}\n---\n{other}"));
    }
    let twice = render_file(&stream(s2, true), &cfg)?;
    if one != twice {
        return Err(format!("imports are told apart by how they are stored:\n{one}\n---\n{twice}"));
    }
    // Streams are ordered like the texts of their items.
    let x = hostile_string(r, 3);
    let y = if r.one_in(3) { x.clone() } else { hostile_string(r, 3) };
    let mut a = Tokens::<L>::new();
    let mut b = Tokens::<L>::new();
    a.append(store(&x, s1));
    b.append(store(&y, s2));
    all_equal(&a, &b, x.cmp(&y), &"streams")?;
    ctx.saw_n("imports stored twice", uses.len() as u64);
    ctx.evaluated(&one, uses.len() >= 2);
    Ok(())
}

pub fn c24(ctx: &mut Ctx) -> Verdict {
    match ctx.index % 20 {
        0 => return stored::<rust::Rust>(ctx),
        1 => return stored::<js::JavaScript>(ctx),
        2 => return stored::<python::Python>(ctx),
        3 => return stored::<java::Java>(ctx),
        4 => return stored::<csharp::Csharp>(ctx),
        5 => return stored::<c::C>(ctx),
        6 => return stored::<go::Go>(ctx),
        7 => return stored::<dart::Dart>(ctx),
        8 => return stored::<swift::Swift>(ctx),
        9 => return stored::<nix::Nix>(ctx),
        _ => {}
    }
    let r = &mut ctx.rng;
    let mut x = if r.one_in(8) { hostile_string(r, 200) } else { hostile_string(r, 4) };
    if r.one_in(4000) {
        // Longer than what small counters can count.
        let unit = if x.is_empty() { "ab".to_string() } else { x.clone() };
        x = unit.repeat(*r.pick(&[260, 1030, 4100, 66_000]) / unit.chars().count() + 1);
    }
    let y = match r.below(5) {
        0 => x.clone(),
        // One is the beginning of the other.
        1 => format!("{x}{}", hostile_string(r, 1)),
        2 => {
            // Only the last character is different.
            let mut c = x.chars().collect::<Vec<_>>();
            c.pop();
            c.push(hostile_char(r));
            c.into_iter().collect()
        }
        _ => hostile_string(r, 4),
    };
    let fx = forms(&x);
    let fy = forms(&y);
    for (n, a) in &fx {
        if &**a != x || a.as_ref() != x || a.to_string() != x || format!("{a:>4}") != format!("{x:>4}") {
            return Err(format!("{x:?} as {n} is {a:?}"));
        }
        for (m, b) in &fx {
            all_equal(a, b, Ordering::Equal, &(n, m))?;
        }
        for (m, b) in &fy {
            all_equal(a, b, x.cmp(&y), &(n, m))?;
        }
        let mut t: Tokens<Tl> = Tokens::new();
        t.append(a);
        if t != vec![Item::Literal(ItemStr::from(&x))] {
            return Err(format!("a stream of {x:?} as {n}: {t:?}"));
        }
    }
    let n = fx.iter().chain(&fy).map(|f| f.1.clone()).collect::<HashSet<_>>().len();
    let m = fx.iter().chain(&fy).map(|f| f.1.clone()).collect::<BTreeSet<_>>().len();
    let e = if x == y { 1 } else { 2 };
    if (n, m) != (e, e) {
        return Err(format!("sets of {x:?} and {y:?} have {n} and {m} elements"));
    }
    ctx.saw_n("pairs compared", (fx.len() * (fx.len() + fy.len())) as u64);
    ctx.evaluated(&format!("{x:?} {y:?}"), !x.is_empty() && !y.is_empty());
    let _ = tokens::static_literal("");
    Ok(())
}
