"""Monitors of the macros: generated programs are compiled, run and judged."""

import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import core, tmpl
from .core import CheckError

LANGS = ["Rust", "Rust", "JavaScript", "JavaScript", "Dart", "Dart", "Python", "Java", "Go", "Swift", "()"]

PRELUDE = r'''#![allow(warnings)]
use genco::prelude::*;
use genco::tokens::{from_fn, FormatInto, Item, ItemStr};
use genco::fmt;
use std::cell::RefCell;

thread_local!(static LOG: RefCell<Vec<u32>> = RefCell::new(Vec::new()));

fn mark(i: u32) {
    LOG.with(|l| l.borrow_mut().push(i));
}

/// An evaluation, and the writing of its value.
struct Ev<T>(u32, T);

impl<L: Lang, T: FormatInto<L>> FormatInto<L> for Ev<T> {
    fn format_into(self, t: &mut Tokens<L>) {
        if self.0 != 0 {
            mark(self.0 + 1000000);
        }
        self.1.format_into(t)
    }
}

fn ev<T>(i: u32, t: T) -> Ev<T> {
    mark(i);
    Ev(i, t)
}

/// An evaluation which logs where it stands.
#[track_caller]
fn here() -> &'static str {
    let l = std::panic::Location::caller();
    mark(2000000000 + l.line() * 10000 + l.column());
    "here"
}

fn cond(i: u32, b: bool) -> bool {
    mark(i);
    b
}

fn sc<T>(i: u32, t: T) -> T {
    mark(i);
    t
}

/// A value which says when it's dropped.
struct Tmp<T>(u32, T, RefCell<T>);

impl<T> Drop for Tmp<T> {
    fn drop(&mut self) {
        mark(self.0 + 3000000);
    }
}

impl<T> std::ops::Deref for Tmp<T> {
    type Target = T;

    fn deref(&self) -> &T {
        &self.1
    }
}

impl<T: Clone> Tmp<T> {
    fn get(&self) -> T {
        self.1.clone()
    }

    fn cell(&self) -> &RefCell<T> {
        &self.2
    }
}

fn tmp<T: Clone>(i: u32, t: T) -> Tmp<T> {
    mark(i);
    Tmp(i, t.clone(), RefCell::new(t))
}

fn res<T>(i: u32, t: T) -> Result<T, ()> {
    mark(i);
    Ok(t)
}

fn bad<T>(i: u32, t: T) -> Result<T, ()> {
    mark(i);
    Err(())
}

/// An iterator which logs that it's asked, and starts over if it's asked once too often.
struct It<T>(u32, Vec<T>, usize, u8);

impl<T: Clone> Iterator for It<T> {
    type Item = T;

    fn next(&mut self) -> Option<T> {
        mark(self.0 + 2000000);
        let k = self.2;
        self.2 += 1;
        if k == self.1.len() {
            return None;
        }
        self.1.get(k % (self.1.len() + 1)).cloned()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.3 {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            _ => (self.1.len().saturating_sub(self.2), Some(self.1.len().saturating_sub(self.2))),
        }
    }
}

fn it(i: u32, v: Vec<&'static str>, h: u8) -> It<&'static str> {
    mark(i);
    It(i, v, 0, h)
}

fn show<L: Lang>(t: &Tokens<L>) -> String where L::Config: Default, L::Format: Default {
    let mut w = fmt::FmtWriter::new(String::new());
    let c = fmt::Config::from_lang::<L>().with_indentation(fmt::Indentation::Space(2)).with_newline("\n");
    t.format(&mut w.as_formatter(&c), &L::Config::default(), &L::Format::default()).unwrap();
    w.into_inner()
}

fn if_else(b: bool) -> &'static str {
    if b { "yes" } else { "no" }
}

fn r#match<const N: usize>() -> String {
    format!("one {N}")
}

#[derive(Clone)]
struct Point { x: i32, y: i32 }

/// Templates which come through another macro.
macro_rules! wrapped {
    ($($t:tt)*) => { quote!{$($t)*} }
}

fn bytes(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}

fn run(name: &str, f: fn() -> Result<Vec<String>, ()>) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = std::panic::catch_unwind(f);
    let log = LOG.with(|l| l.borrow().iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
    match r {
        Ok(Ok(v)) => println!("{name} ok [{log}] {}", v.iter().map(|s| format!("={}", hex(s))).collect::<Vec<_>>().join(" ")),
        Ok(Err(())) => println!("{name} err [{log}]"),
        Err(e) => println!("{name} panic {}", hex(e.downcast_ref::<String>().map(|s| s.as_str())
            .or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))),
    }
}
'''


class Case:
    """A function of a generated program, and what it should do."""

    def __init__(self, name, source, expect, log=None, about=None):
        self.name = name
        self.source = source  # the body of the function
        self.expect = expect  # texts, or None if it returns early
        self.log = log
        self.about = about
        self.normal = None
        self.check = None  # rather than expecting texts: what's wrong with them, if anything
        self.same = False  # rather than expecting texts: they must be equal, and in a whole number of pairs


class Opts(list):
    """The options with which a program finds genco, and the toolchain to build it with."""

    toolchain = core.TOOLCHAIN


def artifacts(run, toolchain=core.TOOLCHAIN, package="harness", required=True):
    """Build genco, and return the options with which a program finds it."""
    p = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "-p", "genco", "--message-format", "json", "--manifest-path",
         os.path.join(core.ROOT, package, "Cargo.toml")],
        env=core.env(toolchain), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 and not required:
        run.failure = p.stderr
        return None
    if p.returncode != 0:
        raise CheckError("genco does not build:\n" + p.stderr[-3000:])
    dirs, genco = set(), []
    for line in p.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact":
            dirs.update(os.path.dirname(f) for f in d["filenames"])
            if d["target"]["name"] == "genco":
                genco = d["filenames"]
    if not genco:
        raise CheckError("cargo does not tell where genco is")
    opts = Opts()
    opts.toolchain = toolchain
    for d in sorted(dirs):
        opts += ["-L", "dependency=" + d]
    for f in genco:
        opts += ["--extern", "genco=" + f]
    run.log("genco built")
    return opts


def rustc(run, opts, path, out=None, timeout=400):
    """Compile a program: (exit code, diagnostics)."""
    cmd = ["rustc", "--edition", "2021", "--error-format", "json", "-Cdebuginfo=0", "-Ccodegen-units=4"] + opts
    cmd += ["-o", out] if out else ["--emit", "metadata", "-o", path + ".rmeta"]
    try:
        p = subprocess.run(cmd + [path], env=core.env(opts.toolchain), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("rustc did not end")
    diags = []
    for line in p.stderr.splitlines():
        try:
            diags.append(json.loads(line))
        except ValueError:
            diags.append({"level": "note", "message": line, "spans": [], "children": []})
    return p.returncode, diags


def lines_of(diag, path):
    """Lines of the program which a diagnostic points at, through expansions."""
    out = []
    for s in diag.get("spans", []):
        while s:
            if os.path.basename(s["file_name"]) == os.path.basename(path):
                out.append((s["line_start"], s["line_end"], s.get("is_primary", False)))
            s = (s.get("expansion") or {}).get("span")
    return out


def program(cases, path, main=True):
    """Write a program, and return the lines of each case."""
    parts = [PRELUDE]
    line = PRELUDE.count("\n") + 1
    ranges = {}
    for c in cases:
        src = f"fn {c.name}() -> Result<Vec<String>, ()> {{\n{c.source}\n}}\n"
        n = src.count("\n")
        ranges[c.name] = (line, line + n - 1)
        line += n
        parts.append(src)
    parts.append("fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n"
                 + "".join(f'    run("{c.name}", {c.name});\n' for c in cases) + "}\n")
    with open(path, "w", newline="") as f:
        s = "".join(parts)
        # Some programs are written on other systems.
        f.write(s.replace("\n", "\r\n") if len(s) % 4 == 0 else s)
    return ranges


def blame(diags, path, ranges):
    """Errors by the case they are in; None for those which are elsewhere."""
    out = {}
    for d in diags:
        if d.get("level") != "error":
            continue
        where = None
        for a, b, _ in lines_of(d, path):
            for n, (x, y) in ranges.items():
                if x <= a <= y:
                    where = n
                    break
            if where:
                break
        if where is None and ("aborting due to" in d["message"] or not d.get("spans")):
            if "aborting" in d["message"] or "could not compile" in d["message"]:
                continue
        out.setdefault(where, []).append(d)
    return out


def execute(run, opts, cases, name):
    """Compile and run cases; returns the observations by name. Records violations of those which don't compile."""
    path = os.path.join(run.work, name + ".rs")
    exe = os.path.join(run.work, name)
    left = list(cases)
    for attempt in range(3):
        ranges = program(left, path)
        for c in left:
            c.line = ranges[c.name][0]
        code, diags = rustc(run, opts, path, exe)
        if code == 0:
            break
        b = blame(diags, path, ranges)
        if not b or None in b:
            raise CheckError("a generated program does not compile: " + json.dumps((b.get(None) or diags)[:2])[:2000])
        for c in left:
            if c.name in b:
                run.res.violation(f"a valid template does not compile: {b[c.name][0].get('rendered') or b[c.name][0]['message']}\n{c.source}",
                                  kind="template", source=c.source, error=b[c.name][0]["message"])
        left = [c for c in left if c.name not in b]
        if not left:
            return {}
    else:
        raise CheckError("a generated program does not compile")
    try:
        p = subprocess.run([exe], capture_output=True, text=True, timeout=300, preexec_fn=core.limit)
    except subprocess.TimeoutExpired:
        raise CheckError("a generated program did not end")
    os.remove(exe)
    out = {}
    for line in p.stdout.splitlines():
        n, rest = line.split(" ", 1)
        out[n] = rest
    if p.returncode != 0:
        missing = [c for c in left if c.name not in out]
        if not missing:
            raise CheckError(f"a generated program ends with {p.returncode}: {p.stderr[-500:]}")
        c = missing[0]
        run.res.violation(f"the program of a template ends with {p.returncode}: {p.stderr[-300:]}\n{c.source}", kind="template",
                          source=c.source)
    return out


DART = re.compile(r"\$([A-Za-z_]\w*)")


def judge(run, c, seen):
    """Compare what was seen with what was expected."""
    if seen is None:
        return
    how, _, rest = seen.partition(" ")
    if how == "panic":
        m = bytes.fromhex(rest).decode()
        run.res.violation(f"a template panics: {m}\n{c.source}", kind="template", source=c.source)
        return
    log, _, texts = rest.partition("]")
    log = [int(x) for x in log[1:].split(",") if x]
    texts = [bytes.fromhex(x[1:]).decode() for x in texts.split()]
    n = c.normal or (lambda s: s)
    run.res.saw("evaluations logged", len(log))
    if c.check:
        bad = "the template returned early" if how == "err" else c.check(texts)
        if bad:
            run.res.violation(f"{bad}\n{c.source}", kind="template", source=c.source)
        return
    if c.same:
        bad = [(a, b) for a, b in zip(texts[::2], texts[1::2]) if n(a) != n(b)]
        if bad:
            run.res.violation(f"outputs differ:\n  {bad[0][0]!r}\n  {bad[0][1]!r}\n{c.source}", kind="template", source=c.source)
        return
    if c.log is not None and log != c.log:
        run.res.violation(f"evaluations differ:\n  expected {c.log}\n  actual   {log}\n{c.source}", kind="template",
                          source=c.source, expected=c.log, actual=log)
        return
    if (how == "err") != (c.expect is None):
        run.res.violation(f"the template returned {how}\n{c.source}", kind="template", source=c.source)
        return
    if c.expect is None:
        return
    for e, a in zip(c.expect, texts):
        if n(e) != n(a):
            run.res.violation(f"output differs:\n  expected {e!r}\n  actual   {a!r}\n{c.source}", kind="template",
                              source=c.source, expected=e, actual=a)
            return
    if len(texts) != len(c.expect):
        raise CheckError("a program writes another number of outputs")


def measure(run, t):
    """What a template has in it."""
    for el in _all(t):
        run.res.saw("element: " + el.kind)
    for a, g, b in _pairs(t):
        k = "line" if isinstance(g, tuple) else g
        run.pairs.add((a.kind, k, b.kind))


def _all(t):
    return t.walk()


def _pairs(t):
    for (_, a), (g, b) in zip(t.items, t.items[1:]):
        yield a, g, b
    for _, e in t.items:
        for b in tmpl.bodies(e):
            yield from _pairs(b)


# -- cases


def layout_text(s):
    return DART.sub(r"${\1}", s)


FORMS = {
    "quote": ("let out: Tokens<{L}> = quote!{o}", "{c};\n    Ok(vec![show(&out)])"),
    "in": ("let mut out: Tokens<{L}> = Tokens::new();\n    quote_in!{o} out =>", "{c};\n    Ok(vec![show(&out)])"),
    "inref": ("let mut toks: Tokens<{L}> = Tokens::new();\n    let out = &mut toks;\n    quote_in!{o} *out =>",
              "{c};\n    Ok(vec![show(&toks)])"),
    "inev": ("let mut toks: Tokens<{L}> = Tokens::new();\n    quote_in!{o} *sc(3000000, &mut toks) =>",
             "{c};\n    Ok(vec![show(&toks)])"),
    "wrapped": ("let out: Tokens<{L}> = wrapped!{o}", "{c};\n    Ok(vec![show(&out)])"),
    "fn": ("let out = quote_fn!{o}", "{c};\n    let mut t: Tokens<{L}> = Tokens::new();\n    t.append(out);\n    Ok(vec![show(&t)])"),
}


def write_case(r, form, lang, prelude, t, before=""):
    w = tmpl.W(r.random() < 0.1)
    for line in prelude:
        w.w("    " + line + "\n")
    o, c = r.choice(["()", "{}", "[]"])
    a, b = FORMS[form]
    if before:
        a, b = (x.replace("Tokens::new();", "Tokens::new(); " + before) for x in (a, b))
    a = a.replace("{L}", lang).replace("{o}", o)
    b = b.replace("{L}", lang).replace("{c}", c)
    w.w("    ")
    tmpl.Body(t).src(w, r, a, b)
    return w.source()


def template_case(run, r, name, profile, forms=("quote", "quote", "in", "inref", "inev", "wrapped", "fn"), flat=False):
    """One random template in one form."""
    lang = r.choice(LANGS)
    while True:
        form = r.choice(forms)
        size = r.choice([1, 2, 3, 4, 6, 8, 12, 16, 16, 40])
        depth = r.choice([0, 1, 1, 2, 2, 3])
        lines, env, t = tmpl.fresh(r, profile, lang, size, depth, form != "fn")
        text, log, lost = tmpl.interpret(t, env, flat=flat)
        if lost:
            run.res.saw("discarded: cancelled indentation")
            continue
        break
    if form == "inev":
        log = [3000000] + log
    c = Case(name, write_case(r, form, lang, lines, t), None if text is None else [text], log, t)
    c.normal = layout_text if lang == "Dart" else None
    run.res.saw("macro: " + form)
    if flat:
        run.res.saw("compiled by the stable compiler")
    run.res.saw("language: " + lang)
    if text is None:
        run.res.saw("returned early")
    measure(run, t)
    trivial = text is None or len(t.items) < 2
    run.res.evaluated((lang, text, tuple(log), c.source), not trivial)
    if len(run.res.samples) < 8 and text and "\n" in text and len(c.source) < 1500:
        run.res.samples.append({"source": c.source, "output": text, "evaluations": log[:20]})
    return c


def forms_case(run, r, name):
    """One random template in every form: the same output, and what was there before is left alone."""
    lang = r.choice(LANGS)
    while True:
        size = r.choice([1, 2, 3, 4, 6, 8, 12])
        lines, env, t = tmpl.fresh(r, "forms", lang, size, r.choice([1, 1, 2, 2, 3]), False)
        text, log, lost = tmpl.interpret(t, env)
        g = tmpl.Gen(r, "forms", lang)
        before = g.value("k")
        text2, log2, lost2 = tmpl.interpret(t, env, before)
        if lost or lost2:
            run.res.saw("discarded: cancelled indentation")
            continue
        break
    out = []
    for form in FORMS:
        more = [3000000] if form == "inev" else []
        out.append(Case(f"{name}_{form}", write_case(r, form, lang, lines, t), [text], more + log, t))
    for form in ("in", "inref", "fn"):
        calls = tmpl.api_calls("t", before)
        b = "{ let t = &mut %s; %s }" % ({"in": "out", "inref": "toks", "fn": "t"}[form], calls)
        out.append(Case(f"{name}_{form}_onto", write_case(r, form, lang, lines, t, b), [text2], log2, t))
    for c in out:
        c.normal = layout_text if lang == "Dart" else None
    measure(run, t)
    run.res.saw("templates in nine forms")
    for c in out:
        run.res.evaluated((lang, c.name.split("_", 1)[1], c.expect[0], tuple(log), c.source), len(t.items) > 1)
    if len(run.res.samples) < 8 and text and "\n" in text and len(out[0].source) < 1200:
        run.res.samples.append({"source": out[0].source, "output": text})
    return out


def batches(run, opts, make, total, per=150, salt=""):
    """Make, run and judge cases in parallel."""
    run.pairs = getattr(run, "pairs", set())
    jobs = []
    k = 0
    while k < total:
        n = min(per, total - k)
        jobs.append((k, n))
        k += n

    def one(job):
        k, n = job
        r = random.Random(f"{run.prop}/{run.seed}/{run.tier}/{salt}{k}")
        cases = []
        for i in range(n):
            c = make(r, f"c{k + i}")
            cases += c if isinstance(c, list) else [c]
        seen = execute(run, opts, cases, f"p{salt}{k}")
        for c in cases:
            judge(run, c, seen.get(c.name))

    in_parallel(run, one, jobs)
    run.res.counters["neighbouring kinds of elements, by what is between them"] = len(run.pairs)


# -- the recorded finding


def known(run, opts):
    """Lines around a deeper line which writes nothing."""
    bodies = ["$(for x in Vec::<u32>::new() => $x)", "$(if false => x)", "$(None::<&str>)"]
    cases = [Case(f"known{k}", f"    let out: Tokens<()> = quote! {{\n        a\n            {b}\n        b\n    }};\n    Ok(vec![show(&out)])",
                  ["a\nb"], []) for k, b in enumerate(bodies)]
    seen = execute(run, opts, cases, "known")
    listed = core.known_findings(run.prop)
    fused = []
    for c in cases:
        if seen.get(c.name) == "ok [] =" + b"ab".hex() and "indent-of-nothing" in listed:
            fused.append(c.name)
        else:
            judge(run, c, seen.get(c.name))
    if fused:
        run.res.known.append(listed["indent-of-nothing"])


# -- strings


ALL = ["Rust", "JavaScript", "Dart", "Python", "Java", "Go", "Swift", "C", "Csharp", "Nix"]
HOSTILE = list("abcxyz 019'\"\"\\\\${}()%#/*`@~^&|!?<>=+-_.,:;[]") + [chr(i) for i in range(32)] + list(
    "\x7f\x80\x85\x9f\xa0\xadßéñ名前→😊\u0301\u200b\u200d\u2028\u2029\ufeff\uffff\ud7ff\ue000\U00010000\U0010ffff\u061c\u202e")
TEXTS = ["${x}", "$(x)", "$x", "\\n", "\\u{41}", "''", "''${", "\"\"\"", "\\(x)", "{0}", "%s", "*/", "//", "??/", "#{x}", "\r\n", "\\\n"]


def hostile(r):
    return "".join(r.choice(TEXTS) if r.random() < 0.12 else r.choice(HOSTILE) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 20])))


BIDI = "\u061c\u200e\u200f\u202a\u202b\u202c\u202d\u202e\u2066\u2067\u2068\u2069"


def spell(r, v):
    """A string literal of Rust with this value, in one of its spellings."""
    if r.random() < 0.25 and not any(c in BIDI or c in "\r" for c in v):
        n = r.randrange(3)
        while '"' + "#" * n in v:
            n += 1
        return "r" + "#" * n + '"' + v + '"' + "#" * n
    out = ['"']
    prev = ""
    how = r.random()
    for c in v:
        x = how if r.random() < 0.5 else r.random()
        named = {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\\": "\\\\", "\0": "\\0", '"': '\\"', "'": "\\'"}
        if c not in " \t\n\r" and r.random() < 0.04 and not (out and prev == "raw space"):
            out.append("\\\n" + r.choice(["", "  ", "\t", "\n", " " * 20]))
        if c not in '"\\\r' and c not in BIDI and x < 0.6:
            # White space after a continued line is not part of it.
            cont = out[-1].startswith("\\\n")
            out.append("\\u{%x}" % ord(c) if cont and c in " \t\n" else c)
        elif c in named and x < 0.8:
            out.append(named[c])
        elif ord(c) < 128 and x < 0.9:
            out.append("\\x%02x" % ord(c) if r.random() < 0.5 else "\\x%02X" % ord(c))
        else:
            h = "%x" % ord(c)
            out.append("\\u{" + "0" * r.randrange(7 - len(h)) + h + ("_" if r.random() < 0.2 else "") + "}")
    return "".join(out) + '"'


def string_tokens(r):
    """Content of $[str](...), and its text."""
    src, text = [], []
    for k in range(r.randrange(7)):
        x = r.random()
        if k and r.random() < 0.7 or k and x < 0.45:
            n = r.choice([1, 1, 1, 2, 3, 9])
            src.append(" " * n)
            text.append(" " * n)
        if x < 0.45:
            t = r.choice(tmpl.PLAIN + ["é", "名前", "r#fn", "ñandú", "_"])
        elif x < 0.6:
            t = r.choice(["'a'", "'😊'", '"s"', '"two words"', '"é"', '"a\\n\\"b"', 'r"\\d"', "'\\''", "1.5", "0xFF", "b'x'"])
            src.append(" ")
            text.append(" ")
        elif x < 0.75:
            t = r.choice([".", ",", "!", "?", "+", "->", "::", "%", "&&", ";", "="])
            src.append(" ")
            text.append(" ")
        elif x < 0.87:
            v = hostile(r)
            src.append(f"$[const]({spell(r, v)})" if r.random() < 0.5 else f"$[const](bytes(&{list(v.encode())}))")
            text.append(v)
            continue
        elif x < 0.94:
            src.append("$$ ")
            text.append("$ ")
            continue
        else:
            o, c = r.choice(["()", "{}", "[]"])
            s2, t2 = string_tokens(r)
            src += [o, s2, c]
            text += [o, t2, c]
            continue
        src.append(t)
        text.append(t)
    return "".join(src), "".join(text)


ESCAPE = re.compile(r"\\(?:x([0-9a-fA-F]{2})|u\{([0-9a-fA-F]+)\}|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8})|([0-7]{3})|(0)|.)", re.S)


def escapes(s):
    """How a character is escaped depends on how its string was put together, but not which one it is."""

    def one(m):
        h, o = m[1] or m[2] or m[3] or m[4] or m[6], m[5]
        if o:
            return f"\\<{int(o, 8):x}>"
        # What may begin an interpolation along with what follows is escaped in time.
        return f"\\<{int(h, 16):x}>" if h else m[0][1:] if m[0] in ("\\$", "\\{", "\\`") else m[0]

    return ESCAPE.sub(one, s)


def string_case(run, r, name):
    """The string literals of templates, and their values quoted."""
    out = ["    let mut out = Vec::new();"]
    keys = []
    for _ in range(4):
        lang = r.choice(ALL)
        x = r.random()
        if x < 0.5:
            v = hostile(r)
            lit = spell(r, v)
            how, a = "literal", r.choice(["quote!({l})", "quote!{ {l} }", "quote_in!(t => {l})", "quote_fn!({l})",
                                           "quote!($(if true { {l} }))"]).replace("{l}", lit)
        elif x < 0.6:
            v = hostile(r)
            how, a = "constant", f"quote!($[str]($[const]({spell(r, v)})))"
        elif x < 0.7:
            v = hostile(r)
            how, a = "value", f"quote!($[str]($[const](bytes(&{list(v.encode())}))))"
        else:
            src, v = string_tokens(r)
            how, a = "tokens", f"quote!($[str]({src}))"
        out.append(f"    out.push({{ let mut t: Tokens<{lang}> = Tokens::new(); "
                   + (a.replace("t => ", "t => ", 1) + "; " if a.startswith("quote_in!") else f"t.append({a}); ") + "show(&t) });")
        out.append(f"    out.push({{ let mut t: Tokens<{lang}> = Tokens::new(); "
                   f"t.append(quoted(bytes(&{list(v.encode())}))); show(&t) }});")
        keys.append((lang, how, v))
        run.res.saw(f"string of {lang} by {how}")
    c = Case(name, "\n".join(out) + "\n    Ok(out)", None, about=keys)
    c.same = True
    c.normal = escapes
    run.res.evaluated(tuple(keys), any(v for _, _, v in keys))
    return c


# -- rejection


HEADERS = ["quote_in!(x)", "quote_in!()", "quote_in!(=> x)", "quote_in!(x y)", "quote_in!{ out, x }", "quote_in![*t = x]",
           "quote_in!(let t => x)", "quote_in!(t -> x)", "quote_in!(t; x)", "quote_in!($t => x)"]


def compile_only(run, opts, cases, name):
    """Compile cases and return the errors of each."""
    path = os.path.join(run.work, name + ".rs")
    ranges = program(cases, path)
    for c in cases:
        c.line = ranges[c.name][0]
    code, diags = rustc(run, opts, path)
    b = blame(diags, path, ranges)
    if code not in (0, 1):
        raise CheckError(f"rustc ends with {code}: " + json.dumps(diags[-2:])[:1500])
    for f in (path, path + ".rmeta"):
        if os.path.exists(f):
            os.remove(f)
    return b


def invalid_case(run, r, name):
    """A valid template with something invalid put in it."""
    while True:
        profile = r.choice(list(tmpl.PROFILES))
        lang = r.choice(LANGS)
        form = r.choice([f for f in FORMS if f != "inev"])
        lines, env, t = tmpl.fresh(r, profile, lang, r.choice([1, 2, 4, 8, 16]), r.choice([0, 1, 2, 3]), form != "fn")
        what = tmpl.spoil(r, t)
        if what is None:
            continue
        try:
            c = Case(name, write_case(r, form, lang, lines, t), None)
        except tmpl.NoRoom:
            continue
        c.what = what
        return c


def late_case(group):
    def case(run, r, name):
        """A template in the grammar with something which isn't Rust put in it."""
        while True:
            profile = r.choice(list(tmpl.PROFILES))
            lang = r.choice(LANGS)
            form = r.choice([f for f in FORMS if f != "inev"])
            lines, env, t = tmpl.fresh(r, profile, lang, r.choice([1, 2, 4, 8, 16]), r.choice([0, 1, 2, 3]), form != "fn")
            what = tmpl.spoil_late(r, t, group)
            try:
                c = Case(name, write_case(r, form, lang, lines, t), None)
            except tmpl.NoRoom:
                continue
            c.what = what
            return c

    return case


def judge_late(run, cases, errors):
    if errors.get(None):
        raise CheckError("an error is in no template: " + json.dumps(errors[None][:2])[:2000])
    for c in cases:
        run.res.saw("rejected for what it stands for")
        run.res.evaluated(("late", c.source))
        run.kinds.add(c.what)
        es = errors.get(c.name, [])
        if not es:
            run.res.violation(f"a template which stands for incorrect Rust is accepted: {c.what}\n{c.source}", kind="template",
                              source=c.source, what=c.what)
        for e in es:
            if "panicked" in e["message"] or "internal compiler" in e["message"]:
                run.res.violation(f"a macro panics: {e.get('rendered')}\n{c.source}", kind="template", source=c.source, what=c.what)
                break


def header_case(run, r, name):
    h = r.choice(HEADERS)
    c = Case(name, "    let mut out: Tokens<()> = Tokens::new();\n    let t = &mut out;\n    " + h + ";\n    Ok(vec![])", None)
    c.what = h
    return c


def mixed_case(run, r, name):
    """A template some of whose tokens come from the caller of another macro, which is on a later line."""
    words = ["a", "b", "fn", "x1", "0", "'l", "'c'", '"s"', ";", ",", "->", "::", "(", ")", "{", "}", "[", "]", "(", ")"]
    ts = []
    opened = []
    for _ in range(r.choice([1, 2, 3, 6, 12, 24])):
        w = r.choice(words)
        if w in "({[":
            opened.append(")}]"["({[".index(w)])
        elif w in ")}]":
            if not opened:
                continue
            w = opened.pop()
        ts.append(w)
    ts += reversed(opened)
    args = []
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        args.append(r.choice(["a", "fn", "9", "'l'", '"s"', "{ a }", "(\n        a\n    b)", "()", "[a b]", "+"]))
        ts.insert(r.randrange(len(ts) + 1), f"$a{len(args)}")
    out = ""
    for t in ts:
        out += r.choice([" ", " ", " ", "\n" + " " * r.choice([4, 8, 8, 8, 12]), "\n\n        "]) + t
    form = r.choice(["let t: Tokens<()> = quote!{%s};", "let mut t: Tokens<()> = Tokens::new(); quote_in!{t =>%s};",
                     "let f = quote_fn!{%s}; let mut t: Tokens<()> = Tokens::new(); t.append(f);"])
    sep = lambda: r.choice([" ", "\n", "\n" + " " * r.randrange(40)])
    c = Case(name, "    macro_rules! mixed { (" + " ".join(f"$a{k + 1}:tt" for k in range(len(args))) + ") => {{ "
             + form % out + " drop(t); }} }\n    mixed!(" + sep() + "".join(a + sep() for a in args)
             + ");\n    Ok(vec![])", None)
    c.what = "mixed"
    return c


def judge_mixed(run, cases, errors):
    """Where whitespace can't be known, the template is either rejected or taken for something, but nothing panics."""
    for c in cases:
        es = errors.get(c.name, [])
        run.res.saw("with tokens of several macros: " + ("rejected" if es else "accepted"))
        run.res.evaluated(("mixed", c.source))
        run.kinds.add(c.what)
        for e in es + errors.get(None, []):
            if "panicked" in e["message"] or "internal compiler" in e["message"]:
                run.res.violation(f"a macro panics: {e.get('rendered')}\n{c.source}", kind="template", source=c.source, what=c.what)
                break


def judge_invalid(run, cases, errors):
    if errors.get(None):
        raise CheckError("an error is in no template: " + json.dumps(errors[None][:2])[:2000])
    for c in cases:
        # Those of macros have no code.
        es = [e for e in errors.get(c.name, []) if not e.get("code")]
        run.res.saw("rejected for: " + ("indentation" if c.what == "indentation" else "syntax"))
        run.res.evaluated(("invalid", c.source))
        run.kinds.add(c.what)
        if not es:
            run.res.violation(f"an invalid template is accepted: {c.what}\n{c.source}", kind="template", source=c.source, what=c.what)
            continue
        for e in es:
            if "panicked" in e["message"] or "internal compiler" in e["message"]:
                run.res.violation(f"a macro panics on an invalid template: {e.get('rendered')}\n{c.source}", kind="template",
                                  source=c.source, what=c.what)
                break


def valid_case(run, r, name):
    profile = r.choice(list(tmpl.PROFILES))
    return template_case(run, r, name, profile)


def judge_valid(run, cases, errors):
    if errors.get(None):
        raise CheckError("an error is in no template: " + json.dumps(errors[None][:2])[:2000])
    for c in cases:
        run.res.saw("accepted")
        for e in errors.get(c.name, [])[:1]:
            run.res.violation(f"a valid template does not compile: {e.get('rendered') or e['message']}\n{c.source}", kind="template",
                              source=c.source, error=e["message"])


UNEVALUATED = ["Rust", "Python", "Java", "Go", "Swift", "C", "Csharp", "Nix", "()"]


def unevaluated_case(run, r, name):
    """A string with evaluations in a language which doesn't have them."""
    while True:
        lang = r.choice(UNEVALUATED)
        form = r.choice(["quote", "in", "inref", "wrapped", "fn"])
        lines, env, t = tmpl.fresh(r, "evals", lang, r.choice([1, 1, 2, 4]), r.choice([0, 1, 2, 3]), form != "fn", evals=True)
        # Just one place, most of the time: elsewhere it's said with a literal.
        at = [e for t2, _ in tmpl.templates(t) for _, e in t2.items if e.kind == "interpolated" and e.evals]
        if not at:
            continue
        keep = r.choice(at)
        plain(t, keep)
        c = Case(name, write_case(r, form, lang, lines, t), None)
        c.what = lang
        return c


def plain(t, keep):
    """Leave only one string with evaluations."""
    for k, (g, e) in enumerate(t.items):
        if e.kind == "interpolated" and e.evals and e is not keep:
            t.items[k] = (g, tmpl.Lit("x", '"x"'))
        else:
            for b in tmpl.bodies(e):
                if e is not keep:
                    plain(b, keep)


def judge_unevaluated(run, cases, errors):
    if errors.get(None):
        raise CheckError("an error is in no template: " + json.dumps(errors[None][:2])[:2000])
    for c in cases:
        run.res.saw("evaluated strings refused by " + c.what)
        run.res.evaluated(("unevaluated", c.source))
        if not errors.get(c.name):
            run.res.violation(f"an interpolated string is accepted in a language without them: {c.what}\n{c.source}", kind="template",
                              source=c.source, what=c.what)


def rejections(run, opts, n, per=120):
    """Compile n invalid, n/2 valid and n/8 unevaluated templates."""
    run.pairs = set()
    run.kinds = set()
    jobs = []
    for what, total in (("invalid", n), ("valid", n // 2), ("unevaluated", n // 8), ("header", len(HEADERS) * 4), ("mixed", n // 20),
                        *((g, n // 12) for g in tmpl.LATE)):
        k = 0
        while k < total:
            jobs.append((what, k, min(per, total - k)))
            k += per

    def one(job):
        what, k, m = job
        r = random.Random(f"{run.prop}/{run.seed}/{run.tier}/{what}/{k}")
        make, judge_ = (late_case(what), judge_late) if what in tmpl.LATE else {"invalid": (invalid_case, judge_invalid), "valid": (valid_case, judge_valid), "header":
                        (header_case, judge_invalid), "mixed": (mixed_case, judge_mixed), "unevaluated": (unevaluated_case, judge_unevaluated)}[what]
        cases = [make(run, r, f"c{k + i}") for i in range(m)]
        judge_(run, cases, compile_only(run, opts, cases, f"{what}{k}"))

    in_parallel(run, one, jobs)
    run.res.counters["kinds of invalid input"] = len(run.kinds)


def in_parallel(run, one, jobs):
    with ThreadPoolExecutor(core.JOBS) as pool:
        futures = [pool.submit(one, j) for j in jobs]
        for f in futures:
            f.result()
            if len(run.res.violations) > 20:
                break
        for f in futures:
            f.cancel()
