//! C03, C05 and C22: whole files, through every sink.

use std::fmt::Write as _;
use std::io;

use genco::fmt::{self, FmtWriter, IoWriter, VecWriter};
use genco::lang::{c, csharp, dart, go, java, js, nix, python, rust, swift};
use genco::tokens::{quoted, Item};
use genco::Tokens;

use super::imports::{gen_uses, open_mark, Declares};
use crate::gen::{hostile_string, spaced_text, token_text};
use crate::langs::*;
use crate::model::{config, Bounded, Unit};
use crate::rng::Rng;
use crate::run::{Ctx, Verdict};

/// Dispatch on all languages.
macro_rules! any_lang {
    ($ctx:expr, $f:ident) => {
        match $ctx.index % 10 {
            0 => $f::<rust::Rust>($ctx),
            1 => $f::<js::JavaScript>($ctx),
            2 => $f::<python::Python>($ctx),
            3 => $f::<java::Java>($ctx),
            4 => $f::<csharp::Csharp>($ctx),
            5 => $f::<c::C>($ctx),
            6 => $f::<go::Go>($ctx),
            7 => $f::<dart::Dart>($ctx),
            8 => $f::<swift::Swift>($ctx),
            _ => $f::<nix::Nix>($ctx),
        }
    };
}

pub const NEWLINES: &[&str] = &["\n", "\n", "\r\n", "\n\r", "<NL>", "\u{2028}", ""];

pub fn layout(r: &mut Rng) -> (Unit, &'static str) {
    let unit = match r.below(6) {
        0 => Unit::Tab,
        1 => Unit::Space(0),
        2 => Unit::Space(1),
        3 => Unit::Space(2),
        4 => Unit::Space(8),
        _ => Unit::Space(4),
    };
    (unit, NEWLINES[r.below(NEWLINES.len())])
}

/// A body with balanced indentation. Texts hold no line breaks.
pub fn body<L: TestLang>(r: &mut Rng, n: usize, edges: bool, uses: &[L::Use], salt: u64) -> Tokens<L>
where
    L::Config: Default,
{
    let mut t = Tokens::new();
    let mut level = 0;
    let most = if r.one_in(20) { 40 } else { 4 };
    let deeper = if most > 4 { 9 } else { 5 };
    if !edges {
        t.append("start");
    }
    for k in 0..n {
        match r.below(16) {
            0 | 1 => t.space(),
            2 | 3 => t.push(),
            4 => t.line(),
            k if (5..=deeper).contains(&k) && k != 6 && level < most => {
                t.indent();
                level += 1;
            }
            6 if level > 0 => {
                t.unindent();
                level -= 1;
            }
            7 => t.append(quoted(hostile_string(r, 4))),
            8 => {
                t.extend([Item::OpenQuote(false)]);
                for _ in 0..r.below(3) {
                    t.append(hostile_string(r, 3).replace('\n', "n"));
                    if r.one_in(3) {
                        t.append(quoted(hostile_string(r, 3)));
                    }
                }
                t.extend([Item::CloseQuote]);
            }
            9 | 10 if !uses.is_empty() => L::put(r.pick(uses), &mut t, false, salt.wrapping_add(k as u64 * 31)),
            11 if !uses.is_empty() => L::put(r.pick(uses), &mut t, true, salt.wrapping_add(k as u64 * 31)),
            12 => {
                let n = 1 + r.below(3);
                t.append(body::<L>(r, n, true, &[], salt));
            }
            13 => t.append(spaced_text(r)),
            _ => t.append(token_text(r)),
        }
    }
    while level > 0 {
        t.unindent();
        level -= 1;
    }
    if !edges {
        t.append("end");
    }
    t
}

// -- C03

/// A writer which fails at its nth call, and notes what comes after.
struct FailFmt {
    out: String,
    calls: usize,
    fail_at: usize,
    after: usize,
}

impl FailFmt {
    fn call(&mut self, s: &str) -> std::fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if n > self.fail_at {
            self.after += 1;
        }
        if n == self.fail_at {
            return Err(std::fmt::Error);
        }
        self.out.push_str(s);
        assert!(self.out.len() < 4 << 20, "genco: output without bounds");
        Ok(())
    }
}

impl std::fmt::Write for FailFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.call(s)
    }

    fn write_char(&mut self, c: char) -> std::fmt::Result {
        self.call(c.encode_utf8(&mut [0; 4]))
    }
}

#[derive(Debug, Clone, Copy)]
enum Fault {
    Error(io::ErrorKind),
    Zero,
}

/// A writer of bytes: short and interrupted writes, and one failing one.
struct BadIo {
    out: Vec<u8>,
    /// Writes which were given bytes to write.
    calls: usize,
    short: usize,
    interrupt: u64,
    fail_at: usize,
    fault: Fault,
    after: usize,
    rng: Rng,
    interrupted: u64,
}

impl io::Write for BadIo {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.calls <= self.fail_at && self.interrupt > 0 && self.rng.one_in(self.interrupt as usize) {
            self.interrupted += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        let n = self.calls;
        self.calls += 1;
        if n > self.fail_at {
            self.after += 1;
        }
        if n == self.fail_at {
            return match self.fault {
                Fault::Error(k) => Err(k.into()),
                Fault::Zero => Ok(0),
            };
        }
        let n = if self.short > 0 { b.len().min(1 + self.rng.below(self.short)) } else { b.len() };
        self.out.extend_from_slice(&b[..n]);
        assert!(self.out.len() < 4 << 20, "genco: output without bounds");
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn sinks<L: Declares>(ctx: &mut Ctx) -> Verdict
where
    L::Config: Default,
{
    let r = &mut ctx.rng;
    let cfg = L::cfg(r);
    let uses = gen_uses::<L>(r, &cfg);
    let salt = r.u64();
    let n = r.size(24);
    let edges = r.bool();
    let t = body::<L>(r, n, edges, &uses, salt);
    let (unit, newline) = if r.one_in(3) {
        (None, "\n")
    } else {
        let (u, n) = layout(r);
        (Some(u), n)
    };
    let f = match unit {
        Some(u) => config::<L>(u, newline),
        None => fmt::Config::from_lang::<L>(),
    };
    let c = L::config(&cfg);
    let file = r.bool();
    let go = |out: &mut fmt::Formatter<'_>| -> fmt::Result {
        if file {
            t.format_file(out, &c)
        } else {
            t.format(out, &c, &Default::default())
        }
    };

    let mut w = FmtWriter::new(Bounded(String::new(), 4 << 20));
    go(&mut w.as_formatter(&f)).map_err(|_| "formatting fails".to_string())?;
    let text = w.into_inner().0;
    let fail = |what: &str, got: &str| Err(format!("{what} differs\n  first {text:?}\n  other {got:?}\n{t:?}"));

    let mut w = IoWriter::new(Vec::new());
    go(&mut w.as_formatter(&f)).map_err(|_| "formatting to io fails".to_string())?;
    let io = String::from_utf8(w.into_inner()).map_err(|_| "io output isn't UTF-8".to_string())?;
    if io != text {
        return fail("io::Write", &io);
    }

    // Into what already holds something.
    let mut w = FmtWriter::new(String::from("before"));
    go(&mut w.as_formatter(&f)).map_err(|_| "formatting fails".to_string())?;
    if w.into_inner().strip_prefix("before") != Some(&text) {
        return fail("appending", "");
    }

    let mut w = VecWriter::new();
    go(&mut w.as_formatter(&f)).map_err(|_| "formatting to a vector fails".to_string())?;
    let lines = w.into_vec();
    let mut joined = lines.join(newline);
    if file {
        joined.push_str(newline);
    }
    if joined != text {
        return fail("the vector", &format!("{lines:?}"));
    }
    if lines.iter().any(|l| l.contains('\n')) || (lines.len() > 1 && lines.last().map_or(false, String::is_empty)) {
        return fail("the split of the vector", &format!("{lines:?}"));
    }

    if unit.is_none() && cfg == Cfg::default() {
        ctx.saw("default sinks");
        let err = |_| "a default sink fails".to_string();
        let (s, v) = if file {
            (t.to_file_string().map_err(err)?, t.to_file_vec().map_err(err)?)
        } else {
            (t.to_string().map_err(err)?, t.to_vec().map_err(err)?)
        };
        if s != text {
            return fail("to_string", &s);
        }
        if v != lines {
            return fail("to_vec", &format!("{v:?}"));
        }
    }

    // Written by hand, around a file.
    if ctx.rng.one_in(6) {
        use core::fmt::Write as _;
        let x = hostile_string(&mut ctx.rng, 6).replace('\n', "n");
        let y = hostile_string(&mut ctx.rng, 6).replace('\n', "n");
        fn put(w: &mut dyn core::fmt::Write, s: &str) -> core::fmt::Result {
            for (k, c) in s.chars().enumerate() {
                match k % 3 {
                    0 => w.write_char(c)?,
                    1 => w.write_fmt(format_args!("{c}"))?,
                    _ => w.write_str(c.encode_utf8(&mut [0; 4]))?,
                }
            }
            Ok(())
        }
        let e = |_| "writing to a sink fails".to_string();
        let want = format!("{x}{text}{y}");
        let mut w = FmtWriter::new(String::new());
        put(&mut w, &x).and_then(|_| go(&mut w.as_formatter(&f))).and_then(|_| put(&mut w, &y)).map_err(e)?;
        let got = w.into_inner();
        if got != want {
            return fail("what is around it in fmt::Write", &got);
        }
        let mut w = IoWriter::new(Vec::new());
        put(&mut w, &x).and_then(|_| go(&mut w.as_formatter(&f))).and_then(|_| put(&mut w, &y)).map_err(e)?;
        let got = w.into_inner();
        if got != want.as_bytes() {
            return fail("what is around it in io::Write", &String::from_utf8_lossy(&got));
        }
        let mut w = VecWriter::new();
        put(&mut w, &x).and_then(|_| go(&mut w.as_formatter(&f))).and_then(|_| put(&mut w, &y)).map_err(e)?;
        let got = w.into_vec().join(newline);
        let all = format!("{x}{}{y}", if file { text.strip_suffix(newline).unwrap() } else { &text });
        if got != all {
            return fail("what is around it in a vector", &got);
        }
        // By hand through the formatter.
        let mut w = FmtWriter::new(String::new());
        {
            let out = &mut w.as_formatter(&f);
            put(out, &x).and_then(|_| out.write_str("")).and_then(|_| put(out, &y)).map_err(e)?;
        }
        let got = w.into_inner();
        if got != format!("{x}{y}") {
            return fail("what is written to a formatter", &got);
        }
        ctx.saw("written by hand");
    }

    // Fail at every write.
    let fail_fmt = |k: usize| -> (FailFmt, bool) {
        let mut w = FmtWriter::new(FailFmt { out: String::new(), calls: 0, fail_at: k, after: 0 });
        let ok = go(&mut w.as_formatter(&f)).is_ok();
        (w.into_inner(), ok)
    };
    let (all, ok) = fail_fmt(usize::MAX);
    if !ok || all.out != text {
        return fail("fmt::Write", &all.out);
    }
    // Note: some of the middle is left out if there's a lot of it.
    let next = |r: &mut Rng, k: usize, all: usize| match all {
        601.. if (30..all - 30).contains(&k) => (k + 1 + r.below(all / 50)).min(all - 30),
        _ => k + 1,
    };
    let mut k = 0;
    while k < all.calls {
        let (w, ok) = fail_fmt(k);
        if ok || w.after > 0 || !text.starts_with(&w.out) {
            return Err(format!(
                "fmt write {k} of {} fails: result is ok: {ok}, {} later writes, written {:?}\n  of {text:?}\n{t:?}",
                all.calls, w.after, w.out
            ));
        }
        ctx.saw("failed fmt writes");
        k = next(&mut ctx.rng, k, all.calls);
    }

    let seed = ctx.rng.u64();
    let fail_io = |k: usize, short: usize, interrupt: u64, fault: Fault| -> (BadIo, bool) {
        let mut w = IoWriter::new(BadIo {
            out: Vec::new(),
            calls: 0,
            short,
            interrupt,
            fail_at: k,
            fault,
            after: 0,
            rng: Rng::new(seed),
            interrupted: 0,
        });
        let ok = go(&mut w.as_formatter(&f)).is_ok();
        (w.into_inner(), ok)
    };
    for (short, interrupt) in [(0, 0), (1, 0), (3, 0), (0, 2), (2, 3)] {
        let (all, ok) = fail_io(usize::MAX, short, interrupt, Fault::Zero);
        if !ok || all.out != text.as_bytes() {
            return fail(
                &format!("io::Write with writes of up to {short}, interrupted one in {interrupt},"),
                &String::from_utf8_lossy(&all.out),
            );
        }
        ctx.saw_n("interrupted io writes", all.interrupted);
        // Only one of these goes through every write.
        let mut k = 0;
        while k < all.calls {
            let fault = match ctx.rng.below(5) {
                0 => Fault::Zero,
                1 => Fault::Error(io::ErrorKind::WouldBlock),
                2 => Fault::Error(io::ErrorKind::BrokenPipe),
                3 => Fault::Error(io::ErrorKind::WriteZero),
                _ => Fault::Error(io::ErrorKind::Other),
            };
            let (w, ok) = fail_io(k, short, interrupt, fault);
            if ok || w.after > 0 || !text.as_bytes().starts_with(&w.out) {
                return Err(format!(
                    "io write {k} of {} fails with {fault:?}: result is ok: {ok}, {} later writes, written {:?}\n  of {text:?}\n{t:?}",
                    all.calls,
                    w.after,
                    String::from_utf8_lossy(&w.out)
                ));
            }
            ctx.saw("failed io writes");
            k = next(&mut ctx.rng, k, all.calls);
            k += if short == 0 && interrupt == 0 { 0 } else { ctx.rng.below(12) };
        }
    }

    ctx.evaluated(&format!("{file} {newline:?} {text}"), all.calls >= 2);
    Ok(())
}

pub fn c03(ctx: &mut Ctx) -> Verdict {
    any_lang!(ctx, sinks)
}

// -- C05

fn render_marked<L: Declares>(t: &Tokens<L>, cfg: &Cfg, uses: &[L::Use]) -> Result<(String, Vec<Vec<String>>), String>
where
    L::Config: Default,
{
    let text = render_file(t, cfg)?;
    let at = text.find("BODY").ok_or("the body is gone")?;
    let (header, body) = text.split_at(at);
    let mut names = Vec::new();
    for k in 0..uses.len() {
        let m = open_mark(k);
        let found = body.split(&m).skip(1).map(|s| s.split(']').next().unwrap().to_string()).collect();
        names.push(found);
    }
    Ok((header.to_string(), names))
}

/// A file in which the imports are used in some order.
fn variation<L: Declares>(r: &mut Rng, uses: &[L::Use], used: &[bool], plain: bool) -> (Tokens<L>, Vec<usize>)
where
    L::Config: Default,
{
    let mut plan: Vec<(usize, bool)> = Vec::new();
    for (k, used) in used.iter().enumerate() {
        plan.push((k, !used));
        if !plain {
            for _ in 0..r.below(3) {
                plan.push((k, !used));
            }
            if r.one_in(3) {
                plan.push((k, true));
            }
        }
    }
    if !plain {
        r.shuffle(&mut plan);
    }
    let mut start = Tokens::new();
    start.append("BODY");
    let mut parts = vec![start];
    let mut count = vec![0; uses.len()];
    for (k, reg) in plan {
        let mut t = Tokens::new();
        if r.bool() {
            t.push();
        }
        let salt = r.u64();
        if reg {
            L::put(&uses[k], &mut t, true, salt);
        } else {
            count[k] += 1;
            t.append(open_mark(k));
            L::put(&uses[k], &mut t, false, salt);
            t.append("]");
        }
        let at = if !plain && reg && r.bool() { 0 } else { parts.len() };
        parts.insert(at, t);
    }
    (assemble(r, parts), count)
}

fn deterministic<L: Declares>(ctx: &mut Ctx) -> Verdict
where
    L::Config: Default,
{
    let r = &mut ctx.rng;
    let cfg = L::cfg(r);
    let mut uses = Vec::<L::Use>::new();
    for u in gen_uses::<L>(r, &cfg) {
        if !uses.contains(&u) {
            uses.push(u);
        }
    }
    let used = uses.iter().map(|_| !r.one_in(4)).collect::<Vec<_>>();
    let (a, _) = variation::<L>(r, &uses, &used, true);

    let first = render_file(&a, &cfg)?;
    let before = a.clone();
    for _ in 0..2 {
        let again = render_file(&a, &cfg)?;
        if again != first {
            return Err(format!("rendering again differs:\n{first}\n---\n{again}"));
        }
    }
    if a != before {
        return Err("rendering changes the stream".into());
    }
    let copy = a.iter().cloned().collect::<Tokens<L>>();
    for t in [before, copy] {
        if t != a {
            return Err("a copy isn't equal".into());
        }
        let other = render_file(&t, &cfg)?;
        if other != first {
            return Err(format!("rendering a copy differs:\n{first}\n---\n{other}"));
        }
        ctx.saw("copies");
    }

    let (header, names) = render_marked(&a, &cfg, &uses)?;
    for _ in 0..3 {
        let (b, count) = variation::<L>(&mut ctx.rng, &uses, &used, false);
        let (h, n) = render_marked(&b, &cfg, &uses)?;
        if h != header {
            return Err(format!("the headers of two files with the same imports differ:\n{header}\n---\n{h}\n--- {uses:?} {used:?}"));
        }
        for k in 0..uses.len() {
            if n[k].len() != count[k] {
                return Err(format!("{} of {} uses are written", n[k].len(), count[k]));
            }
            if let Some(x) = n[k].iter().find(|x| **x != names[k][0]) {
                return Err(format!("one import is written as {:?} and {x:?}: {:?}\n{header}", names[k][0], uses[k]));
            }
            ctx.saw_n("names compared", n[k].len() as u64);
        }
        ctx.saw("variations");
    }
    ctx.evaluated(&first, uses.len() >= 2);
    Ok(())
}

pub fn c05(ctx: &mut Ctx) -> Verdict {
    any_lang!(ctx, deterministic)
}

// -- C22

fn scaffold<L: Declares>(ctx: &mut Ctx) -> Verdict
where
    L::Config: Default,
{
    use crate::decode::Dialect;

    let r = &mut ctx.rng;
    let mut cfg = L::cfg(r);
    if L::DIALECT == Dialect::Nix {
        cfg.scoped = r.bool();
    }
    let uses = if r.one_in(4) { Vec::new() } else { gen_uses::<L>(r, &cfg) };
    let (unit, newline) = layout(r);
    let newline = if newline.is_empty() { "\n" } else { newline };
    let f = config::<L>(unit, newline);
    let salt = r.u64();

    let mut imports = Tokens::<L>::new();
    for (k, u) in uses.iter().enumerate() {
        L::put(u, &mut imports, true, salt.wrapping_add(k as u64));
    }

    // The header is taken from a file whose body is a single word.
    let mut t = imports.clone();
    t.append("BODY");
    let text = render(&t, &cfg, &f)?;
    let at = text.find("BODY").ok_or("the body is gone")?;
    let header = text[..at].to_string();

    let namespaced = L::DIALECT == Dialect::Csharp && cfg.package.is_some();
    let nl2 = format!("{newline}{newline}");
    let step = match unit {
        Unit::Space(n) => " ".repeat(n),
        Unit::Tab => "\t".into(),
    };

    // Take the header apart.
    let mut rest = header.as_str();
    let fail = |what: &str| Err(format!("{what}:\n{header}\n---\n{header:?} {cfg:?} {uses:?}"));
    let package = match (L::DIALECT, &cfg.package) {
        (Dialect::Java, Some(p)) => Some(format!("package {p};{nl2}")),
        (Dialect::Go, Some(p)) => Some(format!("package {p}{nl2}")),
        _ => None,
    };
    if let Some(p) = package {
        ctx.saw("packages");
        match rest.strip_prefix(p.as_str()) {
            Some(tail) => rest = tail,
            None => return fail("expected the package first"),
        }
    }
    if namespaced {
        ctx.saw("namespaces");
        let open = format!("namespace {} {{{newline}{step}", cfg.package.as_ref().unwrap());
        match rest.strip_suffix(open.as_str()) {
            Some(head) => rest = head,
            None => return fail("expected the namespace around the body"),
        }
    }
    let sections = L::DIALECT == Dialect::Nix;
    if !rest.is_empty() {
        let Some(imports) = rest.strip_suffix(nl2.as_str()) else { return fail("expected a blank line after the imports") };
        if imports.is_empty() || imports.starts_with(newline) || imports.ends_with(newline) {
            return fail("blank lines around the imports");
        }
        let double = format!("{nl2}{newline}");
        if imports.contains(&double) || (!sections && imports.contains(&nl2)) {
            return fail("blank lines inside of the imports");
        }
        if imports.split(newline).any(|l| l.ends_with([' ', '\t']) && !l.contains('"')) {
            return fail("trailing whitespace in the imports");
        }
        ctx.saw("imports");
    }
    // Is there anything to import?
    let none = uses.is_empty() && !(sections && !cfg.scoped);
    if none && !rest.is_empty() {
        return fail("imports without anything to import");
    }
    let tail = if namespaced { format!("{newline}}}{newline}") } else { newline.to_string() };
    if &text[at + 4..] != tail {
        return fail("unexpected end of the file");
    }

    if namespaced {
        // The namespace is declared with nothing in it, too.
        let got = render(&imports, &cfg, &f)?;
        let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        let expected = format!("{header}}}");
        if squeeze(&got.replace(newline, "\n")) != squeeze(&expected.replace(newline, "\n")) {
            return Err(format!("an empty namespace isn't put together as expected:\n  expected {expected:?}\n  actual   {got:?}"));
        }
        ctx.saw("empty namespaces");
    }

    // Any other body has to be in the same place. In Nix, imports can't be part of
    // it without being arguments too, so they are all registered.
    for _ in 0..3 {
        let r = &mut ctx.rng;
        // Note: whitespace at the edges of a namespace is that of the namespace.
        let edges = !namespaced && r.bool();
        let n = r.size(16);
        let b = if r.one_in(8) && !namespaced { Tokens::new() } else { body::<L>(r, n, edges, &[], salt) };
        // What it looks like by itself.
        let mut alone = b.clone();
        if namespaced {
            let mut t = Tokens::new();
            t.append("{");
            t.indent();
            t.append(b.clone());
            alone = t;
        }
        let mut w = FmtWriter::new(Bounded(String::new(), 4 << 20));
        alone
            .format(&mut w.as_formatter(&f), &L::config(&cfg), &Default::default())
            .map_err(|_| "formatting fails".to_string())?;
        let alone = w.into_inner().0;
        let alone = if namespaced { &alone[1 + newline.len() + step.len()..] } else { &alone[..] };
        let mut expected = header.clone();
        if alone.is_empty() && !rest.is_empty() | header.ends_with(nl2.as_str()) {
            // Without a body there's nothing to be set apart.
            expected.truncate(expected.len() - 2 * newline.len());
        }
        let _ = write!(expected, "{alone}{tail}");

        let mut t = Tokens::new();
        let front = r.bool();
        if front {
            t.append(imports.clone());
        }
        t.append(b.clone());
        if !front {
            t.append(&imports);
        }
        let got = render(&t, &cfg, &f)?;
        if got != expected {
            return Err(format!("the file isn't put together as expected:\n  expected {expected:?}\n  actual   {got:?}\n{t:?}"));
        }
        ctx.saw("bodies");
        ctx.evaluated(&got, !alone.is_empty() && !header.is_empty());
    }
    Ok(())
}

pub fn c22(ctx: &mut Ctx) -> Verdict {
    any_lang!(ctx, scaffold)
}
