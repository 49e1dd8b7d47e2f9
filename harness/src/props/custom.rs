//! C26: what the callbacks of a user-defined language see.

use std::cell::RefCell;
use std::fmt::Write as _;

use genco::fmt::{self, FmtWriter};
use genco::lang::{Lang, LangItem};
use genco::tokens::{Item, ItemStr};
use genco::Tokens;

use crate::gen::{hostile_string, token_text};
use crate::langs::store;
use crate::model::{config, Bounded, MFmt, Unit};
use crate::rng::Rng;
use crate::run::{Ctx, Verdict};

/// A callback as it was made, with the ids of what it was given.
#[derive(Debug, Clone, PartialEq, Eq)]
enum Ev {
    Open(bool, u64, u64),
    Close(bool, u64, u64),
    Start(u64, u64),
    End(u64, u64),
    Item(u64, u64, u64),
}

#[derive(Default)]
struct Log {
    events: Vec<Ev>,
    calls: usize,
    fail_at: Option<usize>,
    /// Calls made after one has failed.
    late: usize,
}

thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

fn begin(fail_at: Option<usize>) {
    LOG.with(|l| *l.borrow_mut() = Log { fail_at, ..Log::default() });
}

fn end() -> Log {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// Note a callback. Every other failing one has written something already.
fn call(e: &[Ev], out: &mut fmt::Formatter<'_>, text: &str) -> fmt::Result {
    let (fail, n) = LOG.with(|l| {
        let mut l = l.borrow_mut();
        let n = l.calls;
        l.calls += 1;
        l.events.extend_from_slice(e);
        if l.fail_at.is_some_and(|f| n > f) {
            l.late += 1;
        }
        (l.fail_at == Some(n), n)
    });
    if !fail || n % 2 == 1 {
        out.write_str(text)?;
    }
    if fail {
        return Err(std::fmt::Error);
    }
    Ok(())
}

#[derive(Debug)]
struct Conf {
    id: u64,
}

impl Default for Conf {
    fn default() -> Self {
        Conf { id: 0xc0 }
    }
}

#[derive(Debug)]
struct Form {
    id: u64,
}

impl Default for Form {
    fn default() -> Self {
        Form { id: 0xf0 }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct It(u64);

/// How quoted text is written: independent of how it's cut into pieces.
fn escaped(s: &str) -> String {
    s.chars().flat_map(|c| ['~', c]).collect()
}

const EVAL: (&str, &str) = ("<[", "]>");

fn marks(e: bool) -> (&'static str, &'static str) {
    if e {
        ("<E:", ":E>")
    } else {
        ("<P:", ":P>")
    }
}

macro_rules! trace_lang {
    ($name:ident, {$($extra:tt)*}) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        struct $name;

        impl LangItem<$name> for It {
            fn format(&self, out: &mut fmt::Formatter<'_>, c: &Conf, f: &Form) -> fmt::Result {
                call(&[Ev::Item(self.0, c.id, f.id)], out, &format!("item{}", self.0))
            }
        }

        impl Lang for $name {
            type Config = Conf;
            type Format = Form;
            type Item = It;

            fn open_quote(out: &mut fmt::Formatter<'_>, c: &Conf, f: &Form, has_eval: bool) -> fmt::Result {
                call(&[Ev::Open(has_eval, c.id, f.id)], out, marks(has_eval).0)
            }

            fn close_quote(out: &mut fmt::Formatter<'_>, c: &Conf, f: &Form, has_eval: bool) -> fmt::Result {
                call(&[Ev::Close(has_eval, c.id, f.id)], out, marks(has_eval).1)
            }

            fn start_string_eval(out: &mut fmt::Formatter<'_>, c: &Conf, f: &Form) -> fmt::Result {
                call(&[Ev::Start(c.id, f.id)], out, EVAL.0)
            }

            fn end_string_eval(out: &mut fmt::Formatter<'_>, c: &Conf, f: &Form) -> fmt::Result {
                call(&[Ev::End(c.id, f.id)], out, EVAL.1)
            }

            fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
                call(&[], out, &escaped(input))
            }

            $($extra)*
        }
    };
}

trace_lang!(Default1, {});

trace_lang!(Literal1, {
    fn default_indentation() -> fmt::Indentation {
        fmt::Indentation::Tab
    }

    fn string_eval_literal(out: &mut fmt::Formatter<'_>, c: &Conf, f: &Form, literal: &str) -> fmt::Result {
        let e = [Ev::Start(c.id, f.id), Ev::End(c.id, f.id)];
        call(&e, out, &format!("{}{literal}{}", EVAL.0, EVAL.1))
    }
});

trace_lang!(File1, {
    fn format_file(tokens: &Tokens<Self>, out: &mut fmt::Formatter<'_>, c: &Conf) -> fmt::Result {
        call(&[], out, "head")?;
        let mut head = Tokens::<Self>::new();
        head.line();
        head.format(out, c, &Form { id: 1 })?;
        tokens.format(out, c, &Form { id: 0xf0 })
    }
});

/// Everything as provided.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Bare;

impl LangItem<Bare> for It {
    fn format(&self, out: &mut fmt::Formatter<'_>, c: &Conf, f: &Form) -> fmt::Result {
        call(&[Ev::Item(self.0, c.id, f.id)], out, &format!("item{}", self.0))
    }
}

impl Lang for Bare {
    type Config = Conf;
    type Format = Form;
    type Item = It;
}

#[derive(Debug, Clone)]
enum Node {
    Lit(String),
    Item(u64),
    Reg(u64),
    Space,
    Push,
    Line,
    Ind(i16),
    Quote(bool, Vec<Node>),
    Eval(Vec<Node>),
}

fn code(r: &mut Rng, ids: &mut u64, depth: usize, layout: bool) -> Vec<Node> {
    let mut v = Vec::new();
    let n = r.below(6);
    for _ in 0..n {
        *ids += 1;
        v.push(match r.below(14) {
            0 | 1 => Node::Item(*ids),
            2 => Node::Reg(*ids),
            3 => Node::Space,
            4 if layout => Node::Push,
            5 if layout => Node::Line,
            6 if layout => Node::Ind(if r.bool() { 1 } else { -1 }),
            4..=9 if depth > 0 => {
                let e = r.bool();
                Node::Quote(e, quote(r, ids, depth - 1, e, false))
            }
            10 => Node::Lit(String::new()),
            _ => Node::Lit(token_text(r)),
        });
    }
    v
}

fn quote(r: &mut Rng, ids: &mut u64, depth: usize, eval: bool, nested: bool) -> Vec<Node> {
    let mut v = Vec::new();
    let n = r.below(6);
    for _ in 0..n {
        *ids += 1;
        v.push(match r.below(12) {
            0 => Node::Item(*ids),
            1 => Node::Reg(*ids),
            2 => Node::Space,
            3 | 4 if depth > 0 => Node::Quote(false, quote(r, ids, depth - 1, false, true)),
            5..=8 if eval => Node::Eval(if r.one_in(3) { vec![Node::Lit(token_text(r))] } else { code(r, ids, depth, false) }),
            9 => Node::Lit(String::new()),
            // Note: text of nested quotes might be escaped more than once.
            _ if nested => Node::Lit(token_text(r).chars().filter(char::is_ascii).collect()),
            _ => Node::Lit(hostile_string(r, 3)),
        });
    }
    v
}

fn put<L: Lang<Item = It>>(r: &mut Rng, t: &mut Tokens<L>, nodes: &[Node]) {
    for n in nodes {
        match n {
            Node::Lit(s) => t.extend([Item::Literal(if r.bool() { store(s, r.u64()) } else { ItemStr::from(s) })]),
            Node::Item(id) => t.extend([Item::Lang(0, Box::new(It(*id)))]),
            Node::Reg(id) => t.extend([Item::Register(0, Box::new(It(*id)))]),
            Node::Space => t.space(),
            Node::Push => t.push(),
            Node::Line => t.line(),
            Node::Ind(n) if *n > 0 => t.indent(),
            Node::Ind(_) => t.unindent(),
            Node::Quote(e, q) => {
                t.extend([Item::OpenQuote(*e)]);
                put(r, t, q);
                t.extend([Item::CloseQuote]);
            }
            Node::Eval(e) => {
                t.extend([Item::OpenEval]);
                put(r, t, e);
                t.extend([Item::CloseEval]);
            }
        }
    }
}

/// The callbacks and output there should be for what is in the stream.
struct Model {
    f: MFmt,
    events: Vec<Ev>,
    conf: u64,
    form: u64,
    bare: bool,
}

impl Model {
    fn item(&mut self, id: u64) {
        self.events.push(Ev::Item(id, self.conf, self.form));
    }

    fn open(&mut self, e: bool) -> &'static str {
        if self.bare {
            return "\"";
        }
        self.events.push(Ev::Open(e, self.conf, self.form));
        marks(e).0
    }

    fn close(&mut self, e: bool) -> &'static str {
        if self.bare {
            return "\"";
        }
        self.events.push(Ev::Close(e, self.conf, self.form));
        marks(e).1
    }

    fn escape(&self, s: &str) -> String {
        if self.bare {
            s.to_string()
        } else {
            escaped(s)
        }
    }

    /// The items from one on, up to the end of what it opens.
    fn code<L: Lang<Item = It>>(&mut self, it: &mut std::slice::Iter<'_, Item<L>>) {
        while let Some(i) = it.next() {
            match i {
                Item::Literal(s) => self.f.text(s),
                Item::Lang(_, l) => {
                    self.item(l.0);
                    self.f.text(&format!("item{}", l.0));
                }
                Item::Register(..) => {}
                Item::Push => self.f.push(),
                Item::Line => self.f.line(),
                Item::Space => self.f.space(),
                Item::Indentation(n) => self.f.ind(*n as i32),
                Item::OpenQuote(e) => {
                    let m = self.open(*e);
                    self.f.text(m);
                    self.quote(it);
                    let m = self.close(*e);
                    self.f.text(m);
                }
                Item::CloseEval => return,
                _ => unreachable!(),
            }
        }
    }

    fn quote<L: Lang<Item = It>>(&mut self, it: &mut std::slice::Iter<'_, Item<L>>) {
        while let Some(i) = it.next() {
            match i {
                Item::Literal(s) => {
                    let s = self.escape(s);
                    self.f.text(&s);
                }
                Item::Lang(_, l) => {
                    self.item(l.0);
                    self.f.text(&format!("item{}", l.0));
                }
                Item::Register(..) => {}
                Item::Space => self.f.space(),
                Item::OpenQuote(_) => {
                    let s = self.nested(it);
                    let s = self.escape(&s);
                    self.f.text(&s);
                }
                Item::OpenEval => {
                    if !self.bare {
                        self.events.push(Ev::Start(self.conf, self.form));
                        self.f.text(EVAL.0);
                    }
                    self.code(it);
                    if !self.bare {
                        self.events.push(Ev::End(self.conf, self.form));
                        self.f.text(EVAL.1);
                    }
                }
                Item::CloseQuote => return,
                _ => unreachable!(),
            }
        }
    }

    fn nested<L: Lang<Item = It>>(&mut self, it: &mut std::slice::Iter<'_, Item<L>>) -> String {
        let outer = std::mem::replace(&mut self.f, MFmt::new(Unit::Space(4), "\n"));
        let m = self.open(false);
        self.f.text(m);
        self.quote(it);
        let m = self.close(false);
        self.f.text(m);
        std::mem::replace(&mut self.f, outer).out
    }
}

fn run<L: Lang<Item = It, Config = Conf, Format = Form>>(ctx: &mut Ctx, bare: bool, unit: Unit) -> Verdict {
    let r = &mut ctx.rng;
    let newline = *r.pick(&["\n", "\r\n", "<nl>"]);
    let mut ids = 0;
    let depth = 1 + r.below(4);
    let mut nodes = code(r, &mut ids, depth, true);
    nodes.extend(code(r, &mut ids, depth, true));
    let mut t = Tokens::<L>::new();
    put(r, &mut t, &nodes);
    let items = t.iter().cloned().collect::<Vec<_>>();
    let conf = r.u64();
    let form = r.u64();
    let mut m = Model { f: MFmt::new(unit, newline), events: Vec::new(), conf, form, bare };
    m.code(&mut items.iter());
    let fc = config::<L>(unit, newline);
    let go = |fail_at: Option<usize>| {
        begin(fail_at);
        let mut w = FmtWriter::new(Bounded(String::new(), 4 << 20));
        let ok = t.format(&mut w.as_formatter(&fc), &Conf { id: conf }, &Form { id: form }).is_ok();
        (ok, w.into_inner().0, end())
    };
    let (ok, out, log) = go(None);
    if !ok {
        return Err(format!("formatting fails: {t:?}"));
    }
    if log.events != m.events {
        return Err(format!("callbacks:\n  expected {:?}\n  actual   {:?}\n  {t:?}", m.events, log.events));
    }
    if out != m.f.out {
        return Err(format!("output:\n  expected {:?}\n  actual   {out:?}\n  {t:?}", m.f.out));
    }
    // Every callback fails once.
    let n = log.calls;
    for k in 0..n.min(40) {
        let k = if n <= 40 { k } else { r.below(n) };
        let (ok, part, l) = go(Some(k));
        if ok {
            return Err(format!("the error of callback {k} is lost: {t:?}"));
        }
        if l.late > 0 || l.calls != k + 1 {
            return Err(format!("{} callbacks follow the error of callback {k}: {t:?}", l.calls as i64 - k as i64 - 1));
        }
        if l.events[..] != m.events[..l.events.len()] || !out.starts_with(&part) {
            return Err(format!("callbacks ahead of an error at {k}: {:?} {part:?}: {t:?}", l.events));
        }
    }
    ctx.saw_n("callbacks", n as u64);
    ctx.saw_n("failed callbacks", n.min(40) as u64);
    ctx.saw_n("events", m.events.len() as u64);
    ctx.evaluated(&format!("{out}"), m.events.len() > 4);
    Ok(())
}

/// Files: the provided entry points, with the default values.
fn file<L: Lang<Item = It, Config = Conf, Format = Form>>(ctx: &mut Ctx, head: bool, bare: bool, unit: Unit) -> Verdict {
    let r = &mut ctx.rng;
    let mut ids = 0;
    let nodes = code(r, &mut ids, 2, true);
    let mut t = Tokens::<L>::new();
    put(r, &mut t, &nodes);
    let items = t.iter().cloned().collect::<Vec<_>>();
    let mut m = Model { f: MFmt::new(unit, "\n"), events: Vec::new(), conf: 0xc0, form: 0xf0, bare };
    if head {
        m.f.text("head");
        m.f.line();
    }
    m.code(&mut items.iter());
    m.f.file_end();
    begin(None);
    let s = t.to_file_string().map_err(|_| format!("a file fails to format: {t:?}"))?;
    let log = end();
    if s != m.f.out || log.events != m.events {
        return Err(format!("a file:\n  expected {:?} {:?}\n  actual   {s:?} {:?}\n  {t:?}", m.f.out, m.events, log.events));
    }
    if !head {
        begin(None);
        let v = t.to_string().map_err(|_| format!("formatting fails: {t:?}"))?;
        let log = end();
        if v != m.f.out[..m.f.out.len() - 1] || log.events != m.events {
            return Err(format!("to_string: {v:?} of {t:?}"));
        }
    }
    // Every callback fails once.
    let n = log.calls;
    for k in 0..n.min(20) {
        let k = if n <= 20 { k } else { r.below(n) };
        begin(Some(k));
        let lines = r.below(3);
        let res = match lines {
            0 => t.to_file_string().is_ok(),
            1 => t.to_file_vec().is_ok(),
            _ => {
                let mut w = FmtWriter::new(Bounded(String::new(), 4 << 20));
                let f = fmt::Config::from_lang::<L>();
                let ok = t.format_file(&mut w.as_formatter(&f), &Conf::default()).is_ok();
                let part = w.into_inner().0;
                if !s.starts_with(&part) {
                    return Err(format!("a file up to an error at {k}: {part:?} of {s:?}: {t:?}"));
                }
                ok
            }
        };
        let l = end();
        if res {
            return Err(format!("the error of callback {k} of a file is lost: {t:?}"));
        }
        if l.late > 0 || l.calls != k + 1 || l.events[..] != m.events[..l.events.len()] {
            return Err(format!("callbacks of a file around an error at {k}: {:?}: {t:?}", l.events));
        }
    }
    // Lines are as they are in the text.
    begin(None);
    let lines = t.to_file_vec().map_err(|_| format!("a file fails to format: {t:?}"))?;
    let log = end();
    let joined = lines.iter().map(|l| format!("{l}\n")).collect::<String>();
    if joined != s || log.events != m.events {
        return Err(format!("lines of a file: {lines:?} for {s:?}: {t:?}"));
    }
    ctx.saw("files");
    ctx.saw_n("failed callbacks of files", n.min(20) as u64);
    ctx.evaluated(&s, m.events.len() > 4);
    Ok(())
}

pub fn c26(ctx: &mut Ctx) -> Verdict {
    let unit = super::files::layout(&mut ctx.rng).0;
    match ctx.index % 10 {
        0 => file::<Default1>(ctx, false, false, Unit::Space(4)),
        1 => file::<Literal1>(ctx, false, false, Unit::Tab),
        2 => file::<File1>(ctx, true, false, Unit::Space(4)),
        3 => file::<Bare>(ctx, false, true, Unit::Space(4)),
        4 | 5 => run::<Literal1>(ctx, false, unit),
        6 => run::<Bare>(ctx, true, unit),
        7 => run::<File1>(ctx, false, unit),
        _ => run::<Default1>(ctx, false, unit),
    }
}
