"""C27: a template means the same wherever it's written.

Random templates are written into functions of modules with hostile names in
scope, without a prelude, in generic code, closures, implementations and
through other macros, with genco under another name, in several editions, in
crates with and without std. What each of them renders is compared with the same
template in plain surroundings, in which all of its names are others as well."""

import json
import os
import random
import re
import subprocess

from . import core, macros
from .core import CheckError

# Names which a macro might also come up with, for what templates name.
POOL = ["it", "next", "iter", "toks", "tokens", "out", "output", "receiver", "item", "first", "value", "i", "stream", "module",
        "peek", "last", "buf", "result", "elem", "body", "literal", "separator", "join", "t", "o", "w", "fmt", "lang", "genco_",
        "expr", "cond", "it2", "n", "x", "line", "state", "content", "req", "check", "cx", "e", "el", "entry", "peekable"]

WORDS = ["a", "foo", "1.5", "'c'", '"s"', "{ k }", "g(p, q)", "[1]", "::", "->", "+ =", ";", ",", "$$", "fn", "'a", "b.c()", "r#if", "{}", "#[z]"]

ITEMS = """
enum E1 { Some, None, Ok, Err } use self::E1::*;
enum E1 { Some(u8, u8), None(u8), Ok(u8, u8), Err() } use self::E1::*;
fn Some() {} fn None() {} fn Ok() {} fn Err() {}
struct Some; struct None; struct Ok; struct Err;
trait IntoIterator {} trait Iterator {} trait Into {} trait From {} trait Default {} trait ToString {} trait AsRef {} trait Clone {} trait Extend {}
trait DoubleEndedIterator {} trait FromIterator {} trait ToOwned {} trait AsMut {} trait Eq {} trait Ord {} trait PartialEq {} trait PartialOrd {}
trait Drop {} trait Fn {} trait FnMut {} trait FnOnce {} trait Send {} trait Sync {} trait Sized2 {} trait Copy {} trait Unpin {} trait TryFrom {}
struct Option; struct Result; struct Vec; struct String; struct Box;
struct IntoIterator; struct Iterator; struct Default; struct From; struct Into; struct Clone; struct Peekable; struct Rc; struct Cow;
struct Tokens; struct Item; struct ItemStr; struct Formatter; struct Static; struct FormatInto; struct Lang; struct LangItem; struct Register;
struct OpenQuote; struct CloseQuote; struct OpenEval; struct CloseEval; struct Literal; struct Space; struct Push; struct Line; struct Indentation;
type u8 = (); type u16 = (); type u32 = (); type u64 = (); type usize = (); type i16 = (); type i32 = (); type bool = (); type str = (); type char = ();
fn drop() {} fn from_fn() {} fn quoted() {} fn display() {} fn register() {} fn append() {} fn static_literal() {} fn format_into() {}
fn append() {} fn space() {} fn push() {} fn line() {} fn indent() {} fn unindent() {} fn extend() {} fn peek() {} fn next() {} fn take() {}
mod core {} mod std {} mod alloc {} mod tokens {} mod fmt {} mod lang {} mod iter {} mod option {} mod prelude {} mod quote {} mod genco_macros {}
macro_rules! vec { () => {}; } macro_rules! format { () => {}; } macro_rules! write { () => {}; } macro_rules! writeln { () => {}; }
macro_rules! matches { () => {}; } macro_rules! panic { () => {}; } macro_rules! assert { () => {}; } macro_rules! debug_assert { () => {}; }
macro_rules! stringify { () => {}; } macro_rules! concat { () => {}; } macro_rules! line { () => {}; } macro_rules! column { () => {}; }
macro_rules! quote { () => {}; } macro_rules! quote_in { () => {}; } macro_rules! quote_fn { () => {}; } macro_rules! unreachable { () => {}; }
const toks: () = (); const tokens: () = (); const out: () = (); const it: () = (); const next: () = (); const first: () = (); const iter: () = ();
static output: () = (); static result: () = (); static value: () = (); static item: () = (); static receiver: () = (); static last: () = ();
const stream: () = (); const t: () = (); const x: () = (); const n: () = (); const e: () = (); const i: () = (); const o: () = (); const s: () = ();
trait Ext: Sized { fn append(self) {} fn space(self) {} fn push(self) {} fn line(self) {} fn indent(self) {} fn unindent(self) {} } impl<T> Ext for T {}
trait Ext: Sized { fn peekable(self) {} fn next(&self) {} fn peek(&self) {} fn into_iter(self) {} fn is_some(self) {} fn iter(&self) {} } impl<T> Ext for T {}
trait Ext: Sized { fn into(self) {} fn from(self) {} fn new() {} fn clone(&self) {} fn len(&self) {} fn borrow(&self) {} fn as_ref(&self) {} } impl<T> Ext for T {}
trait Ext { fn append(&self) {} fn extend(&mut self) {} fn peekable(&mut self) {} fn as_str(&self) {} fn to_string(&self) {} } impl<T: ?::core::marker::Sized> Ext for T {}
""".strip().splitlines()


KEYWORDS = """as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static
struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual
yield try union gen genco renamed""".split()


class Names:
    def __init__(self, r, found):
        self.pool = [n for n in POOL if n not in found]
        r.shuffle(self.pool)
        # The ones which expansions do use are taken first.
        found = list(found)
        r.shuffle(found)
        self.pool += found if r.random() < .8 else []
        self.all = set(self.pool)
        self.count = 0

    def new(self):
        """A name as a pair: elsewhere, and here."""
        self.count += 1
        return f"v{self.count}_", self.pool.pop()


class Lines:
    """Lines of a template, as pairs of texts."""

    def __init__(self):
        self.out = []

    def add(self, depth, a, b):
        self.out.append(("    " * depth + a, "    " * depth + b))


def fill(parts):
    """Join parts, each a text or a pair of names."""
    return "".join(p if isinstance(p, str) else p[0] for p in parts), "".join(p if isinstance(p, str) else p[1] for p in parts)


class Found:
    """The names which expansions are seen to use."""

    def __init__(self, run, opts):
        self.variables, self.items, self.scopes = [], [], []
        r = random.Random(f"{run.prop}/{run.seed}/{run.tier}/found")
        ts = [Template(r, k % 2 == 0, k % 3 != 0, ()) for k in range(40)]
        src = "#![allow(warnings)]\nextern crate alloc;\n" + MAIN + "    out\n}\n"
        for k, t in enumerate(ts):
            src += module(r, f"m{k}", [], "", function(r, t, 0, ["quote", "in", "fn"][k % 3] if t.closure else "fn", "plain", ""), "use ::genco;")
        path = os.path.join(run.work, "found.rs")
        with open(path, "w") as f:
            f.write(src)
        cmd = ["rustc", "--edition", "2021", "-Zunpretty=expanded", "--crate-type", "rlib"] + opts + [path]
        try:
            p = subprocess.run(cmd, env=core.env(opts.toolchain), capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            raise CheckError("rustc did not end")
        if p.returncode:
            # What doesn't compile is reported below.
            run.log("no expansion: " + p.stderr[-300:])
            return
        word = r"\b[A-Za-z_]\w*\b"
        known = set(re.findall(word, src)) | set(KEYWORDS)
        seen = re.findall(word, re.sub(r'"(\\.|[^"\\])*"', '""', p.stdout))
        names = sorted({n for n in seen if n not in known and not n.startswith("__") and n != "_"} - {"prelude_import", "rust_2021", "macro_use", "std", "core"})
        self.variables = [n for n in names if n[0].islower() or n[0] == "_"]
        self.items = [n for n in names if n not in self.variables]
        lower, upper = self.variables, self.items
        more = ["".join(f"const {n}: () = (); " for n in lower), "".join(f"static {n}: () = (); " for n in lower),
                "".join(f"fn {n}() {{}} " for n in lower + upper), "".join(f"mod {n} {{}} " for n in lower + upper),
                "".join(f"struct {n}; " for n in lower + upper), "".join(f"trait {n} {{}} " for n in lower + upper),
                "".join(f"macro_rules! {n} {{ () => {{}}; }} " for n in lower + upper)]
        self.scopes = [m for m in more if m] + [f"struct {n};" for n in lower + upper]
        run.res.counters["names which expansions are seen to use"] = len(names)
        run.log("names:", *names)


class Template:
    def __init__(self, r, js, closure, found=()):
        self.r = r
        self.js = js
        self.closure = closure
        self.kinds = set()
        self.names = Names(r, found)
        self.args = [self.names.new() for _ in range(5)]
        self.lines = Lines()
        self.block(0, [(self.args[0], "n")], 1 + r.randrange(6), 2)

    def inline(self, scope, depth=1):
        """A fragment within a line: parts."""
        r = self.r
        x, s, v, f, o = self.args
        num = r.choice(scope)[0]
        k = r.randrange(19)
        if k < 5 or depth < 0:
            return [r.choice(WORDS)]
        self.kinds.add(k)
        if k == 5:
            return ["$", r.choice([num, s, o])]
        if k == 6:
            return ["$(", num, " + 1)"]
        if k == 7:
            n = self.names.new() if len(self.names.pool) > 6 else None
            if not n:
                return ["$", s]
            it = r.choice([[v], ["0..3"], ["[7, 8]"], ["[", num, ", 5]"], ["4..4"]])
            body = self.inline(scope + [(n, "n")], depth - 1) if r.random() < .5 else []
            join = r.choice([" join (, )", " join(;)", " join ($[' '])", " join (+$['\\r'])", ""])
            return ["$(for ", n, " in ", *it, join, " => ", "$", n, *([" "] + body if body else []), ")"]
        if k == 8:
            return ["$(if ", f, " { ", *self.inline(scope, depth - 1), " } else { ", *self.inline(scope, depth - 1), " })"]
        if k == 9:
            return ["$(if ", num, " == 3 => ", *self.inline(scope, depth - 1), ")"]
        if k == 10:
            m = self.names.new() if len(self.names.pool) > 6 else None
            arm = [m, " if ", m, " > 2 => { $", m, " }, _ => z"] if m else ["_ => { z }"]
            return ["$(match ", num, " { 0 => a, 1 | 2 => (", *self.inline(scope, depth - 1), "), ", *arm, " })"]
        if k == 11:
            return ["$(genco::tokens::quoted(", s, "))"]
        if k == 12:
            return ["$(genco::quote!(", *self.inline(scope, depth - 1), " $", num, "))"]
        if k == 13:
            t = self.names.new() if len(self.names.pool) > 6 else None
            if not t:
                return ["$", s]
            return r.choice([
                ["$(ref ", t, " => { ", t, ".append(", s, "); ", t, ".space(); ", t, ".append(", num, "); })"],
                ["$(ref ", t, " { genco::quote_in!(*", t, " => k $", num, ") })"],
                ["$(ref ", t, " => ", t, ".append(", num, "))"],
            ])
        if k == 14:
            return [r.choice(["$[' ']", "$['\\r']", "$['\\n']"])]
        if k == 15 and self.js:
            return ["$[str](lit $x $(x + 1) $[const](\"c\"))"]
        if k == 15:
            return ["$[str](lit, $[const](\"c\") k)"]
        if k == 16 and self.closure:
            return ["$(genco::quote_fn!(", *self.inline(scope, depth - 1), " $", num, "))"]
        if k == 17 and len(self.names.pool) > 6:
            y = self.names.new()
            return ["$(let ", y, " = ", num, " * 2)$", y]
        if k == 18:
            return ["$(genco::tokens::from_fn(|t_: &mut genco::Tokens<_>| t_.append(", s, ")))"]
        return ["$", s]

    def line(self, scope):
        parts = []
        for k in range(self.r.randrange(1, 4)):
            if k:
                parts.append(" ")
            parts += self.inline(scope)
        return parts

    def block(self, depth, scope, n, nest):
        r = self.r
        x, s, v, f, o = self.args
        for k in range(n):
            c = r.randrange(10) if nest else 0
            if c < 5:
                self.lines.add(depth, *fill(self.line(scope)))
                if r.random() < .2 and k + 1 < n:
                    self.lines.add(0, "", "")
                continue
            if c < 7:
                self.lines.add(depth, *fill(["w {"]))
                self.block(depth + 1, scope, 1 + r.randrange(2), nest - 1)
                self.lines.add(depth, *fill(["}"]))
                continue
            if len(self.names.pool) <= 6:
                self.lines.add(depth, "end", "end")
                continue
            self.kinds.add("block")
            n_ = self.names.new()
            join = r.choice(["", "", " join ($['\\r'])", " join (,$['\\n'])", " join (, )"])
            head, inner = r.choice([
                (["$(for ", n_, " in ", v, join, " {"], scope + [(n_, "n")]),
                (["$(for ", n_, " in 0..2", join, " {"], scope + [(n_, "n")]),
                (["$(if ", f, " {"], scope),
                (["$(if let ", n_, " @ 1..=9 = ", r.choice(scope)[0], " {"], scope + [(n_, "n")]),
            ])
            self.lines.add(depth, *fill(head))
            self.block(depth + 1, inner, 1 + r.randrange(2), nest - 1)
            self.lines.add(depth, *fill(["})"]))


PARAMS = "super::AX, super::AS, super::AV, super::AF, super::AO"


def function(r, t, here, form, ctx, genco_use):
    """The function of a module; `here` picks the names."""
    p = [a[here] for a in t.args]
    lang = "genco::lang::js::JavaScript" if t.js else "genco::lang::rust::Rust"
    params = ", ".join(f"{a}: {ty}" for a, ty in zip(p, PARAMS.split(", ")))
    ind = "        "
    body = "".join(ind + l[here] + "\n" if l[here].strip() else "\n" for l in t.lines.out)
    quote = {
        "quote": f"genco::quote! {{\n{body}    }}",
        "in": f"{{ let mut zz = genco::Tokens::new(); genco::quote_in! {{ zz =>\n{body}    }} zz }}",
        "inref": f"{{ let mut zz = genco::Tokens::new(); {{ let zz = &mut zz; genco::quote_in! {{ *zz =>\n{body}    }} }} zz }}",
        "fn": f"{{ let mut zz = genco::Tokens::new(); genco::Tokens::append(&mut zz, genco::quote_fn! {{\n{body}    }}); zz }}",
        "through": f"zz_through! {{\n{body}    }}",
    }[form]
    sig = f"pub fn f({params}) -> genco::Tokens<{lang}>"
    call = ", ".join(p)
    out = ""
    if form == "through":
        out += "macro_rules! zz_through { ($($zz:tt)*) => { genco::quote! { $($zz)* } } }\n"
    if ctx == "plain":
        out += f"{sig} {{\n    {quote}\n}}\n"
    elif ctx == "generic":
        out += (f"fn g<L: genco::lang::Lang>({params}) -> genco::Tokens<L> {{\n    {quote}\n}}\n{sig} {{ g::<{lang}>({call}) }}\n")
    elif ctx == "closure":
        out += f"{sig} {{\n    let zz_c = move || -> genco::Tokens<{lang}> {{ {quote} }};\n    zz_c()\n}}\n"
    elif ctx == "impl":
        fields = ", ".join(PARAMS.split(", "))
        quote = f"genco::quote_in! {{ *zz_t =>\n{body}    }}"
        out += (f"struct ZzS({fields});\nimpl genco::tokens::FormatInto<{lang}> for ZzS {{ fn format_into(self, zz_t: &mut genco::Tokens<{lang}>) {{\n"
                f"    let ZzS({call}) = self;\n    {quote}\n}} }}\n"
                f"{sig} {{ let mut zz_t = genco::Tokens::new(); genco::Tokens::append(&mut zz_t, ZzS({call})); zz_t }}\n")
    elif ctx == "loop":
        out += f"{sig} {{\n    loop {{ break {quote}; }}\n}}\n"
    elif ctx == "trait":
        out += (f"trait ZzT {{ fn zz_f(&self, {params}) -> genco::Tokens<{lang}> {{\n    {quote}\n}} }}\nstruct ZzU; impl ZzT for ZzU {{}}\n"
                f"{sig} {{ ZzT::zz_f(&ZzU, {call}) }}\n")
    elif ctx == "async":
        out += (f"async fn zz_a({params}) -> genco::Tokens<{lang}> {{\n    ::core::future::ready(()).await;\n    {quote}\n}}\n"
                f"{sig} {{ super::zz_run(zz_a({call})) }}\n")
    elif ctx == "argument":
        out += f"fn zz_id<T>(zz_x: T) -> T {{ zz_x }}\n{sig} {{\n    zz_id((true, {quote}, 1)).1\n}}\n"
    elif ctx == "match":
        out += f"{sig} {{\n    match true {{ true => {quote}, _ => genco::Tokens::new() }}\n}}\n"
    elif ctx == "macro":
        out += (f"macro_rules! zz_m {{ ($zz_e:expr) => {{ $zz_e }} }}\n{sig} {{\n    zz_m!({quote})\n}}\n")
    return out


def module(r, name, scope, attr, fn, genco_use):
    return f"{attr}mod {name} {{\n{genco_use}\n" + "".join(s + "\n" for s in scope) + fn + "}\n"


CONTEXTS = ["plain", "plain", "generic", "closure", "impl", "loop", "trait", "macro", "async", "argument", "match"]
FORMS = ["quote", "quote", "in", "inref", "fn", "through"]

MAIN = """
pub type AX = u32;
pub type AS = &'static str;
pub type AV = [u32; 3];
pub type AF = bool;
pub type AO = Option<&'static str>;

pub fn zz_run<F: core::future::Future>(f: F) -> F::Output {
    let mut f = alloc::boxed::Box::pin(f);
    match core::future::Future::poll(f.as_mut(), &mut core::task::Context::from_waker(core::task::Waker::noop())) {
        core::task::Poll::Ready(x) => x,
        _ => loop {},
    }
}

pub fn all() -> alloc::vec::Vec<alloc::string::String> {
    let mut out = alloc::vec::Vec::new();
"""


def constants(scope):
    return set(re.findall(r"(?:const|static|struct) (\w+)[:;]", " ".join(scope)))


def build(run, opts, cases, name, edition, nostd):
    """Write, compile and run one library of cases. Returns its lines, or the diagnostics."""
    lib = os.path.join(run.work, name + ".rs")
    src = "#![allow(warnings)]\n" + ("#![no_std]\n" if nostd else "") + "extern crate alloc;\n" + MAIN
    for m in cases:
        for x, s, v, f, o in ((3, "s", "[1, 2, 3]", "true", 'Some("opt")'), (0, "", "[5, 5, 0]", "false", "None")):
            src += f"    out.push({m['name']}::f({x}, {s!r}, {v}, {f}, {o}).to_file_string().unwrap_or_default());\n".replace(f"'{s}'", f'"{s}"')
    src += "    out\n}\n\n"
    line = src.count("\n") + 1
    ranges = {}
    for m in cases:
        n = m["text"].count("\n")
        ranges[m["name"]] = (line, line + n - 1)
        line += n
        src += m["text"]
    with open(lib, "w") as f:
        f.write(src)
    rlib = os.path.join(run.work, f"lib{name}.rlib")
    code, diags = compile_(run, opts, lib, rlib, edition, ["--crate-type", "rlib", "--crate-name", name])
    if code:
        return None, macros.blame(diags, lib, ranges), diags
    main = os.path.join(run.work, name + "_main.rs")
    with open(main, "w") as f:
        f.write(f"fn main() {{ for s in {name}::all() {{ println!(\"{{:?}}\", s); }} }}\n")
    exe = os.path.join(run.work, name + "_exe")
    code, diags = compile_(run, opts, main, exe, "2021", ["--extern", f"{name}={rlib}"])
    if code:
        raise CheckError("a program does not link: " + json.dumps(diags[:2])[:2000])
    try:
        p = subprocess.run([exe], capture_output=True, text=True, timeout=120, preexec_fn=core.limit)
    except subprocess.TimeoutExpired:
        raise CheckError("a generated program did not end")
    os.remove(exe)
    os.remove(rlib)
    return p.stdout.splitlines(), p.returncode, p.stderr


def compile_(run, opts, path, out, edition, extra):
    cmd = ["rustc", "--edition", edition, "--error-format", "json", "-Cdebuginfo=0", "-Ccodegen-units=1"] + opts + extra + ["-o", out, path]
    try:
        p = subprocess.run(cmd, env=core.env(opts.toolchain), capture_output=True, text=True, timeout=400)
    except subprocess.TimeoutExpired:
        raise CheckError("rustc did not end")
    diags = []
    for l in p.stderr.splitlines():
        try:
            diags.append(json.loads(l))
        except ValueError:
            diags.append({"level": "note", "message": l, "spans": [], "children": []})
    return p.returncode, diags


def check(run):
    opts = macros.artifacts(run)
    bare = macros.artifacts(run, package="nostd", required=False)
    if bare is None:
        run.res.violation("genco does not build without std: " + run.failure[-1500:], kind="build", source=run.failure[-4000:])
        run.res.evaluated("build")
        return
    run.kinds = set()
    found = Found(run, opts)
    items = ITEMS + found.scopes
    total = 1200 if run.thorough else 56
    per = 10

    def one(k):
        r = random.Random(f"{run.prop}/{run.seed}/{run.tier}/{k}")
        edition = r.choice(["2018", "2021", "2021", "2024"])
        nostd = r.random() < .4
        mine = type(opts)(o.replace("genco=", "renamed=") if o.startswith("genco=") else o for o in (bare if nostd else opts))
        mine.toolchain = opts.toolchain
        renamed = r.random() < .4
        if not renamed:
            mine[:] = bare if nostd else opts
        use = "use ::renamed as genco;" if renamed else "use ::genco;"
        cases, groups = [], []
        for c in range(per):
            js = r.random() < .5
            form = r.choice(FORMS)
            ctx = r.choice(CONTEXTS)
            t = Template(r, js, form != "fn", found.variables)
            if ctx == "generic" and any(15 in [k_] for k_ in t.kinds) and js:
                ctx = "plain"
            if ctx in ("impl",):
                form = "in"
            if ctx in ("macro", "argument", "match", "async") and form == "through":
                ctx = "plain"
            run.kinds |= {("element", k_) for k_ in t.kinds} | {("form", form), ("context", ctx), ("edition", edition), ("std", not nostd), ("renamed", renamed)}
            name = f"m{c}"
            first = dict(name=name + "_clean", text=module(r, name + "_clean", [], "", function(r, t, 0, "quote", "plain", use), use), what="plain")
            group = [first]
            used = t.names.all - set(t.names.pool)
            for h in range(5):
                scope = []
                for s in r.sample(items, r.choice([0, 1, 1, 2, 3])):
                    # Names of the template are what it says.
                    if constants([s]) & used:
                        continue
                    if declared(s) & declared(" ".join(scope)):
                        continue
                    scope.append(s)
                    run.kinds.add(("scope", items.index(s)))
                attr = "#[no_implicit_prelude]\n" if r.random() < .25 and not any("trait Ext" in s for s in scope) and not sized(scope) else ""
                if attr:
                    run.kinds.add(("scope", "no prelude"))
                f = form if h else r.choice(FORMS[:-1]) if ctx != "impl" else form
                if f == "fn" and t.closure and 16 in t.kinds:
                    f = "quote"
                if through_macros(scope) and f == "through":
                    f = "quote"
                text = module(r, f"{name}_{h}", scope, attr, function(r, t, 1, f, ctx, use), use)
                group.append(dict(name=f"{name}_{h}", text=text, what=scope))
            cases += group
            groups.append(group)
        left = list(cases)
        for _ in range(3):
            got = build(run, mine, left, f"s{k}", edition, nostd)
            if got[0] is not None:
                break
            b = got[1]
            if not b or None in b:
                raise CheckError("a generated library does not compile: " + json.dumps((b.get(None) or got[2])[:2])[:2500])
            for m in left:
                if m["name"] in b:
                    d = b[m["name"]][0]
                    run.res.violation(f"a valid template does not compile ({edition}, {'no std' if nostd else 'std'}): {d.get('rendered') or d['message']}\n{m['text']}",
                                      kind="template", source=m["text"], error=d["message"])
            left = [m for m in left if m["name"] not in b]
            if not left:
                return
        else:
            raise CheckError("a generated library does not compile")
        out, code, err = got
        if code or len(out) != 2 * len(left):
            raise CheckError(f"a generated program ends with {code}: {err[-500:]}")
        seen = {m["name"]: out[2 * i:2 * i + 2] for i, m in enumerate(left)}
        for g in groups:
            want = seen.get(g[0]["name"])
            for m in g:
                if m["name"] not in seen:
                    continue
                run.res.saw("renderings")
                run.res.evaluated((m["text"], edition, nostd), m is not g[0])
                if want is not None and seen[m["name"]] != want:
                    run.res.violation(f"a template depends on where it is ({edition}, {'no std' if nostd else 'std'}):\n{want}\n{seen[m['name']]}\n{g[0]['text']}\n{m['text']}",
                                      kind="template", source=m["text"], clean=g[0]["text"])
        if len(run.res.samples) < 12:
            run.res.samples.append({"template": groups[0][1]["text"], "output": seen.get(groups[0][0]["name"])})

    macros.in_parallel(run, one, range(total))
    run.res.counters["kinds of elements, forms, contexts and scopes"] = len(run.kinds)


def declared(s):
    return set(re.findall(r"(?:struct|trait|fn|mod|type|macro_rules!|const|static|enum) (\w+)", s)) | set(re.findall(r"\b(Some|None|Ok|Err)\b", s))


def sized(scope):
    return any("Sized" in s for s in scope)


def through_macros(scope):
    return any("macro_rules! quote" in s for s in scope)


