"""Random templates: their source, and what they should do when they are run.

A template is a list of elements with the gap in front of each. It can be
written as source (with random widths, which must not matter) and be run by a
small interpreter of the documented rules, which yields the operations on the
token stream and a log of evaluations.
"""

import re

GLUE, SPACE, BAD = "glue", "space", "bad"

WORDS = ["foo", "bar", "baz", "x", "fn", "let", "if", "for", "match", "ref", "in", "else", "while", "self", "Self", "crate",
         "impl", "struct", "async", "join", "_", "_a", "r#type", "r#fn", "é", "名前", "True", "u8", "const", "str", "return"]
PLAIN = ["foo", "bar", "baz", "x", "qux", "alpha", "n1", "_y"]
NUMBERS = ["0", "1", "42", "1_000", "0xFF", "0b1010u8", "1.5", "2.0f64", "1e10", "3usize", "0o17", "1.", "9_u64", "1E-7"]
LITERALS = ["'a'", "'\\n'", "'\\''", "'\\u{41}'", "'😊'", "b'x'", "b\"by\\x00te\"", "br\"ra\\w\"", "br#\"a\"b\"#", "c\"cs\"",
            "cr#\"c\"#", "'\"'"]
LIFETIMES = ["'a", "'static", "'_", "'é"]
PUNCT = list("!%&*+,-./:;<=>?@^|~#")
MULTI = ["=>", "->", "::", "..", "..=", "&&", "||", "==", "!=", "<=", ">=", "+=", "<<", ">>=", "<-", "?.", ":", ";", "=",
         "...", "/="]
LONG = ["long " * 30 + "text", "x" * 300, "y" * 1100, "z " * 2200]
VALUES = ["v", "value", "two words", "→", "a.b", "x;", "{", "}", "(", "😊", "$x", "//c", "0", "  pad", "pad ", "#", "é"]


def rs(s):
    """A Rust string literal."""
    out = ['"']
    for c in s:
        if c in '"\\':
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif c == "\r":
            out.append("\\r")
        elif ord(c) < 32 or 0x7F <= ord(c) < 0xA0 or 0x2000 <= ord(c) < 0x2070 or ord(c) in (0xFEFF, 0x61C):
            out.append("\\u{%x}" % ord(c))
        else:
            out.append(c)
    return "".join(out) + '"'


class NoRoom(Exception):
    """There's no shallower column."""


class Stop(Exception):
    """The template returned early."""


class Machine:
    def __init__(self, env, flat=False):
        self.env = dict(env)
        # Stable compilers only tell columns: line breaks are like spaces.
        self.flat = flat
        self.ops = []
        self.log = []
        self.guards = []
        self.lost = False

    def dropped(self, i):
        """The value of an evaluation is dropped."""
        self.log.append(3000000 + i)

    def text(self, s):
        self.ops.append(("t", s))


class W:
    """Source being written."""

    def __init__(self, tabs=False):
        self.out = []
        self.line = 1
        self.col = 0
        self.indent = "\t" if tabs else " "

    def w(self, s):
        self.out.append(s)
        n = s.count("\n")
        if n:
            self.line += n
            self.col = len(s) - s.rfind("\n") - 1
        else:
            self.col += len(s)

    def nl(self, col, blanks=0, r=None):
        for _ in range(blanks):
            self.w("\n" + (self.indent * r.randrange(6) if r and r.random() < 0.3 else ""))
        self.w("\n" + self.indent * col)

    def source(self):
        return "".join(self.out)


# -- elements


class El:
    kind = "?"
    head = "word"  # what it starts and ends with, as far as the lexer cares
    tail = "word"
    evals = False

    def src(self, w, r):
        raise NotImplementedError

    def run(self, m):
        raise NotImplementedError


class Tok(El):
    def __init__(self, text, kind):
        self.text = text
        self.kind = kind
        self.head = self.tail = text[0] if kind == "punct" else ("number" if kind == "number" else "word")
        if kind == "punct":
            self.tail = text[-1]

    def src(self, w, r):
        w.w(self.text)

    def run(self, m):
        m.text(self.text)


class Open(El):
    kind = "open"

    def __init__(self, c):
        self.c = c
        self.head = self.tail = "delim"

    def src(self, w, r):
        w.w(self.c)

    def run(self, m):
        m.text(self.c)


class Close(Open):
    kind = "close"


class Dollar(El):
    kind = "dollar"
    head = "$"
    tail = "$$"

    def src(self, w, r):
        w.w("$$")

    def run(self, m):
        m.text("$")


class Str(El):
    kind = "string"

    def __init__(self, value, source):
        self.value = value
        self.source = source

    def src(self, w, r):
        w.w(self.source)

    def run(self, m):
        m.text('"' + self.value + '"')


class Lit(El):
    kind = "literal"
    head = "$"
    tail = "delim"

    def __init__(self, value, source):
        self.value = value
        self.source = source

    def src(self, w, r):
        w.w("$(")
        pad(w, r)
        w.w(self.source)
        pad(w, r)
        w.w(")")

    def run(self, m):
        if self.value:
            m.text(self.value)


class Ctl(El):
    kind = "control"
    head = "$"
    tail = "delim"

    def __init__(self, c):
        self.c = c

    def src(self, w, r):
        w.w({" ": "$[' ']", "\r": "$['\\r']", "\n": "$['\\n']"}[self.c])

    def run(self, m):
        m.ops.append(({" ": "sp", "\r": "push", "\n": "line"}[self.c],))


def pad(w, r, p=0.15):
    """Whitespace which means nothing."""
    x = r.random()
    if x < p * 0.6:
        w.w(" " * (1 + r.randrange(3)))
    elif x < p * 0.8:
        w.nl(r.randrange(24))
    elif x < p:
        w.w(" /* ) */ ")


def value_of(m, v):
    """Append a value to the stream."""
    if v is None:
        return
    if isinstance(v, list):
        items, _ = compress(v)
        m.ops.extend(items)
    elif isinstance(v, bool):
        m.text("true" if v else "false")
    else:
        m.text(str(v))


class Var(El):
    """An interpolated variable, in one of many forms."""

    kind = "interpolation"
    head = "$"

    def __init__(self, name, form, ident=None):
        self.name = name
        self.form = form
        self.id = ident
        self.tail = "word" if form == "$x" else "delim"

    def src(self, w, r):
        x, i = self.name, self.id
        if self.form == "$x":
            w.w("$" + x)
            return
        w.w("$(")
        pad(w, r)
        forms = {
            "(x)": x,
            "ev": f"ev({i}, {x})",
            "block": "{ mark(%s); %s }" % (i, x),
            "lines": f"ev(\n    {i},\n {x},\n)",
            "clone": f"{x}.clone()",
            "sc": f"sc({i}, {x})",
            "try": f"res({i}, {x})?",
            "bad": f"bad({i}, {x})?",
            "fn": f"from_fn(move |t| {{ mark({i}); t.append({x}); }})",
            "ref": f"ref t => t.append(sc({i}, {x}))",
            "refb": f"ref t {{ mark({i}); t.append({x}); }}",
            "if": f"if cond({i}, true) {{ ${x} }} else {{ $(ev(0, {x})) }}",
            "some": f"Some(ev({i}, {x}))",
        }
        w.w(forms[self.form])
        pad(w, r)
        w.w(")")

    def run(self, m):
        if self.id is not None and self.form not in ("$x", "(x)", "clone"):
            m.log.append(self.id)
        if self.form == "bad":
            raise Stop()
        if self.form in ("ev", "lines", "some"):
            m.log.append(self.id + 1000000)
        value_of(m, m.env[self.name])


EXPRS = [
    ("1", "1"), ("1 + 2 * 3", "7"), ("-(2i32)", "-2"), ("[7, 8][1]", "8"),
    ("(1u8, \"t\").1", "t"), ("\"a b\".split(' ').next().unwrap()", "a"), ("format!(\"{}-{x}\", 1, x = 2)", "1-2"),
    ("String::from(\"owned\")", "owned"), ("&String::from(\"ref\")", "ref"), ("vec![\"a\", \"b\"].join(\", \")", "a, b"),
    ("std::borrow::Cow::Borrowed(\"cow\")", "cow"), ("std::rc::Rc::<String>::new(\"rc\".into()).as_str()", "rc"),
    ("(|a: i32, b: i32| a - b)(5, 3)", "2"), ("\"3\".parse::<i64>().unwrap()", "3"), ("{ let a = 1; a + 1 }", "2"),
    ("loop { break \"l\" }", "l"), ("(\"p\")", "p"), ("concat!(\"x\", 1)", "x1"), ("1u8 as u64", "1"),
    ("(0..4).map(|n| n * n).sum::<i32>()", "14"), ("\"=> {\".len()", "4"), ("std::mem::size_of::<[u8; 3]>()", "3"),
    ("unsafe { \"u\" }", "u"), ("<i32>::from(4u8)", "4"), ("Some(Some(\"x\"))", "x"), ("None::<i32>", ""),
    ("display(1.25)", "1.25"), ("display(format_args!(\"{:>3}\", 1).to_string())", "  1"), ("\"a\" .to_owned()+ \"b\"", "ab"),
    ("quoted(\"q\")", '"q"'), ("quoted(quoted(\"q\"))", None), ("if_else(true)", "yes"), ("r#match::<1>()", "one 1"),
    ("Point { x: 1, y: 2 }.x", "1"), ("[quoted(1), quoted(2)].into_iter().nth(1)", '"2"'),
    ("b'a'", "97"), ("&&*\"s\"", None), ("i64::MIN", "-9223372036854775808"), ("u64::MAX", "18446744073709551615"),
]
EXPRS = [e for e in EXPRS if e[1] is not None]


class Expr(El):
    """An expression, as Rust has many."""

    kind = "expression"
    head = "$"
    tail = "delim"

    def __init__(self, source, text):
        self.source = source
        self.text = text

    def src(self, w, r):
        w.w("$(")
        pad(w, r)
        w.w(self.source)
        pad(w, r)
        w.w(")")

    def run(self, m):
        if self.text:
            m.text(self.text)


class Own(El):
    """A variable which is moved into the stream."""

    kind = "owned"
    head = "$"

    def __init__(self, name, text, paren):
        self.name = name
        self.value = text
        self.tail = "delim" if paren else "word"

    def src(self, w, r):
        w.w("$(" + self.name + ")" if self.tail == "delim" else "$" + self.name)

    def run(self, m):
        value_of(m, self.value)


class Bad(El):
    """Something which isn't part of any template."""

    kind = "invalid"
    head = "$"
    tail = "$$"

    def __init__(self, source):
        self.source = source

    def src(self, w, r):
        w.w(self.source)


class Mark(El):
    kind = "scope"
    head = "$"
    tail = "delim"

    def __init__(self, ident, form):
        self.id = ident
        self.form = form

    def src(self, w, r):
        w.w(["$(ref _ { mark(%d); })", "$(ref _ => mark(%d))", "$(ref _t { mark(%d) })", "$(ref t => { let _ = &t; mark(%d) })",
             "$({ mark(%d); None::<&str> })"][self.form] % self.id)

    def run(self, m):
        m.log.append(self.id)


class Api(El):
    """A scope which works on the stream itself."""

    kind = "scope"
    head = "$"
    tail = "delim"

    def __init__(self, ops, brace):
        self.ops = ops
        self.brace = brace

    def src(self, w, r):
        code = api_calls("t", self.ops)
        w.w("$(ref t { " + code + " })" if self.brace else "$(ref t => { " + code + " })")

    def run(self, m):
        m.ops.extend(self.ops)


def api_calls(t, ops):
    out = []
    for o in ops:
        if o[0] == "t":
            out.append(f"{t}.append({rs(o[1])});")
        elif o[0] == "ind":
            out.append(f"{t}.indent();" if o[1] > 0 else f"{t}.unindent();")
        else:
            out.append({"sp": f"{t}.space();", "push": f"{t}.push();", "line": f"{t}.line();"}[o[0]])
    return " ".join(out)


class Body:
    """A nested template inside of delimiters."""

    def __init__(self, t, sensitive=False, lead=False, trail=False):
        self.t = t
        self.sensitive = sensitive
        self.lead = lead
        self.trail = trail

    def src(self, w, r, opening, closing):
        w.w(opening)
        t = self.t
        if self.sensitive:
            if self.lead:
                w.w(" " * (1 + r.randrange(3)))
            t.src(w, r)
            if self.trail:
                w.w(" " * (1 + r.randrange(3)))
        elif r.random() < 0.45 or (t.items and t.items[0][1].kind == "x"):
            outer_pad(w, r)
            t.src(w, r)
            outer_pad(w, r)
        else:
            w.nl(r.randrange(40), r.randrange(3) if r.random() < 0.3 else 0, r)
            t.src(w, r)
            w.nl(r.randrange(40), r.randrange(3) if r.random() < 0.3 else 0, r)
        w.w(closing)

    def run(self, m):
        if self.sensitive and self.lead:
            m.ops.append(("sp",))
        self.t.run(m)
        # A space ahead of the unindentation of a last line doesn't show.
        if self.sensitive and self.trail and (self.t.items or not self.lead) and (m.flat or not self.t.last_level):
            m.ops.append(("sp",))


def outer_pad(w, r):
    x = r.random()
    if x < 0.5:
        w.w(" " * (1 + r.randrange(2)))
    elif x < 0.6:
        w.w(" /* note */ ")


class If(El):
    kind = "if"
    head = "$"
    tail = "delim"

    def __init__(self, cond, then, other, arrow):
        self.cond = cond
        self.then = then
        self.other = other
        self.arrow = arrow

    def src(self, w, r):
        w.w("$(if " + self.cond.source)
        if self.arrow:
            self.then.src(w, r, " =>", ")")
            return
        self.then.src(w, r, " {", "}")
        if self.other is not None:
            pad(w, r, 0.6)
            self.other.src(w, r, "else {", "}")
        pad(w, r)
        w.w(")")

    def run(self, m):
        env = dict(m.env)
        try:
            if self.cond.test(m):
                self.then.run(m)
            elif self.other is not None:
                self.other.run(m)
        finally:
            if self.cond.temp is not None:
                m.dropped(self.cond.temp)
        m.env = env


class Cond:
    """A condition, and what it does."""

    def __init__(self, source, test, temp=None):
        self.source = source
        self.test = test
        self.temp = temp  # a temporary which lives as long as the branches


class For(El):
    kind = "for"
    head = "$"
    tail = "delim"

    def __init__(self, pat, names, source, values, ident, join, body, arrow, temp=None):
        self.pat = pat
        self.temp = temp  # a temporary which lives as long as the loop
        self.names = names
        self.source = source
        self.values = values  # env -> list of values of the names
        self.id = ident
        self.join = join
        self.body = body
        self.arrow = arrow

    def src(self, w, r):
        w.w(f"$(for {self.pat} in {self.source}")
        if self.join is not None:
            pad(w, r, 0.1)
            self.join.src(w, r, " join (", ")")
        if self.arrow:
            self.body.src(w, r, " =>", ")")
        else:
            self.body.src(w, r, " {", "}")
            pad(w, r)
            w.w(")")

    def run(self, m):
        if self.temp is None:
            return self.loop(m)
        m.log.append(self.temp)
        try:
            self.loop(m)
        finally:
            m.dropped(self.temp)

    def loop(self, m):
        env = dict(m.env)
        values = self.values(m.env)
        if self.id is not None:
            m.log.append(self.id)
        for k, v in enumerate(values):
            m.env = dict(env)
            # The separator is written once there is a next element.
            if self.id is not None:
                m.log.append(2000000 + self.id)
            if self.join is not None and k:
                m.env.update(zip(self.names, values[k - 1]))
                self.join.run(m)
                m.env = dict(env)
            m.env.update(zip(self.names, v))
            self.body.run(m)
        if self.id is not None:
            m.log.append(2000000 + self.id)
        m.env = env


class Arm:
    def __init__(self, source, test, body, form, attr):
        self.source = source  # pattern and guard
        self.test = test
        self.body = body
        self.form = form
        self.attr = attr


class Match(El):
    kind = "match"
    head = "$"
    tail = "delim"

    def __init__(self, source, scrutinee, arms, temp=None):
        self.temp = temp
        self.source = source
        self.scrutinee = scrutinee
        self.arms = arms

    def src(self, w, r):
        w.w(f"$(match {self.source} {{")
        for k, a in enumerate(self.arms):
            last = k + 1 == len(self.arms)
            if r.random() < 0.5:
                w.nl(r.randrange(30))
            else:
                w.w(" ")
            w.w(a.attr + a.source)
            if a.form == "{":
                a.body.src(w, r, " => {", "}")
                w.w("," if r.random() < 0.5 else "")
            elif a.form == "(":
                a.body.src(w, r, " => (", ")")
                w.w("," if r.random() < 0.5 else "")
            else:
                w.w(" => ")
                a.body.t.src(w, r)
                if last and r.random() < 0.5:
                    w.w(" " if r.random() < 0.5 else "")
                else:
                    w.w(",")
        if r.random() < 0.5:
            w.nl(r.randrange(30))
        else:
            w.w(" ")
        w.w("})")

    def run(self, m):
        env = dict(m.env)
        v = self.scrutinee(m)
        try:
            for a in self.arms:
                m.env = dict(env)
                if "cfg(any())" in a.attr or "cfg(not(all()))" in a.attr:
                    continue
                if a.test(m, v):
                    a.body.run(m)
                    break
            else:
                raise AssertionError("no arm matches")
        finally:
            if self.temp is not None:
                m.dropped(self.temp)
        m.env = env


class Let(El):
    kind = "let"
    head = "$"
    tail = "delim"

    def __init__(self, source, bind):
        self.source = source
        self.bind = bind

    def src(self, w, r):
        w.w("$(")
        pad(w, r, 0.1)
        w.w("let " + self.source)
        pad(w, r, 0.1)
        w.w(")")

    def run(self, m):
        self.bind(m)


class Guard(El):
    """A binding whose value says when it's dropped."""

    kind = "let"
    head = "$"
    tail = "delim"

    def __init__(self, ident, now):
        self.id = ident
        self.now = now

    def src(self, w, r):
        w.w("$(")
        pad(w, r, 0.1)
        w.w("let " + ("_" if self.now else f"_g{self.id}") + f" = tmp({self.id}, 0)")
        pad(w, r, 0.1)
        w.w(")")

    def run(self, m):
        m.log.append(self.id)
        if self.now:
            m.dropped(self.id)
        else:
            m.guards.append(self.id)


class Embed(El):
    """A template which is quoted on its own and put in place."""

    kind = "embedding"
    head = "$"
    tail = "delim"

    def __init__(self, form, body, ident, lang):
        self.form = form
        self.body = body
        self.id = ident
        self.lang = lang

    def src(self, w, r):
        o, c = r.choice(["()", "{}", "[]"])
        forms = {
            "quote": (f"$(quote!{o}", f"{c})"),
            "typed": (f"$({{ mark({self.id}); let t: Tokens<{self.lang}> = quote!{o}", f"{c}; t }})"),
            "ref": (f"$(sc({self.id}, &quote!{o}", f"{c}))"),
            "fn": (f"$(quote_fn!{o}", f"{c})"),
            "fnev": (f"$(ev({self.id}, quote_fn!{o}", f"{c}))"),
            "in": ("$(ref t => quote_in!{ *t =>", "})"),
            "inp": ("$(ref t => quote_in!(*t =>", "))"),
            "inb": ("$(ref toks { mark(%d); quote_in! { *toks =>" % self.id, "} })"),
            "opt": (f"$(Some(quote!{o}", f"{c}))"),
        }
        a, b = forms[self.form]
        self.body.src(w, r, a, b)

    def run(self, m):
        env = dict(m.env)
        if self.form in ("typed", "inb"):
            m.log.append(self.id)
        if self.form == "fnev":
            m.log.append(self.id)
            m.log.append(self.id + 1000000)
        if self.form in ("quote", "typed", "ref", "opt"):
            # A stream of its own, which is then put in place.
            outer, m.ops = m.ops, []
            self.body.run(m)
            items, lost = compress(m.ops)
            m.lost |= lost
            m.ops = outer + items
        else:
            self.body.run(m)
        if self.form == "ref":
            m.log.append(self.id)
        m.env = env


class IStr(El):
    """$[str](...)"""

    kind = "interpolated"
    head = "$"
    tail = "delim"

    def __init__(self, parts, trail, lang):
        self.parts = parts  # (spaces in front, kind, data)
        self.trail = trail
        self.lang = lang
        self.evals = any(k in ("var", "code") for _, k, _ in parts)

    def src(self, w, r):
        w.w("$[str](")
        for sp, k, d in self.parts:
            w.w(" " * sp)
            if k == "tok":
                w.w(d)
            elif k == "dollar":
                w.w("$$")
            elif k == "var":
                w.w("$" + d)
            elif k == "code":
                w.w("$(")
                d.src_inline(w, r)
                w.w(")")
            elif k == "const":
                w.w(f"$[const]({d})")
            elif k == "constlit":
                w.w(f"$[const]({rs(d)})")
        w.w(" " * self.trail + ")")

    def run(self, m):
        js = self.evals and self.lang == "JavaScript"
        q = "`" if js else '"'
        m.text(q)
        for sp, k, d in self.parts:
            if sp:
                m.text(" " * sp)
            if k == "tok":
                m.text(d)
            elif k == "dollar":
                m.text("$")
            elif k == "var":
                m.text("${" + d + "}")
            elif k == "code":
                m.text("${")
                d.run(m)
                m.text("}")
            elif k == "const":
                value_of(m, m.env[d])
            elif k == "constlit":
                m.text(d)
        if self.trail:
            m.text(" " * self.trail)
        m.text(q)


class Code(Body):
    def __init__(self, t, lead, trail):
        super().__init__(t, True, lead, trail)

    def src_inline(self, w, r):
        super().src(w, r, "", "")


class Tmpl:
    def __init__(self, items):
        self.items = items

    @property
    def last_level(self):
        level = 0
        for g, _ in self.items:
            if isinstance(g, tuple):
                level = g[1]
        return level

    def walk(self):
        for _, e in self.items:
            yield e
            for b in bodies(e):
                yield from b.walk()

    def src(self, w, r):
        cols = [w.col]
        cur = 0
        prev = None
        for gap, e in self.items:
            if gap == SPACE:
                x = r.random()
                if x < 0.75:
                    w.w(" ")
                elif x < 0.9:
                    w.w(" " * (2 + r.randrange(5)))
                elif x < 0.94:
                    w.w("\t")
                elif x < 0.97 or prev.tail != "word":
                    w.w(" /* c */ ")
                else:
                    w.w("/**/")
            elif gap == BAD:
                # Shallower than the last line, and unlike any before it.
                free = [c for c in range(cols[cur]) if c not in cols]
                if not free:
                    raise NoRoom()
                w.nl(r.choice(free[-3:] if r.random() < 0.5 else free), r.randrange(2), r)
            elif isinstance(gap, tuple):
                blanks, level = gap
                if level > cur:
                    assert level == cur + 1
                    cols = cols[: cur + 1] + [cols[cur] + 1 + r.randrange(8)]
                else:
                    cols = cols[: level + 1]
                cur = level
                if r.random() < 0.06:
                    w.w(" // note")
                w.nl(cols[level], (r.choice([1, 1, 2, 5]) if r.random() < 0.99 else r.choice([9, 30, 70, 300])) if blanks else 0, r)
            e.src(w, r)
            prev = e

    def run(self, m):
        outer, m.guards = m.guards, []
        try:
            self.run_items(m)
        finally:
            for i in reversed(m.guards):
                m.dropped(i)
            m.guards = outer

    def run_items(self, m):
        cur = 0
        env = dict(m.env)
        for gap, e in self.items:
            if gap == SPACE or m.flat and isinstance(gap, tuple):
                m.ops.append(("sp",))
            elif isinstance(gap, tuple):
                blanks, level = gap
                if level > cur:
                    m.ops.append(("ind", 1))
                elif level < cur:
                    m.ops.append(("ind", level - cur))
                else:
                    m.ops.append(("push",))
                if blanks:
                    m.ops.append(("line",))
                cur = level
            e.run(m)
        if cur:
            m.ops.append(("ind", -cur))
        m.env = env


def bodies(e):
    if isinstance(e, If):
        yield e.then.t
        if e.other is not None:
            yield e.other.t
    elif isinstance(e, For):
        if e.join is not None:
            yield e.join.t
        yield e.body.t
    elif isinstance(e, Match):
        for a in e.arms:
            yield a.body.t
    elif isinstance(e, Embed):
        yield e.body.t
    elif isinstance(e, IStr):
        for _, k, d in e.parts:
            if k == "code":
                yield d.t


# -- layout


def compress(ops):
    """The items a stream holds after these operations; whether line breaks cancelled out."""
    out = []
    lost = False
    for o in ops:
        k = o[0]
        if k == "t":
            out.append(o)
        elif k == "sp":
            if not (out and out[-1][0] == "sp"):
                out.append(o)
        elif k == "push":
            while out and out[-1][0] in ("sp", "push"):
                out.pop()
            if not (out and out[-1][0] == "line"):
                out.append(o)
        elif k == "line":
            while out and out[-1][0] in ("line", "push"):
                out.pop()
            out.append(o)
        else:
            n = o[1]
            unindented = popped = False
            while out and out[-1][0] != "t":
                p = out.pop()
                if p[0] == "ind":
                    unindented = p[1] < 0
                    popped = True
                    n += p[1]
            if n:
                out.append(("ind", n))
            elif unindented:
                out.append(("push",))
            elif popped:
                lost = True
    return out, lost


def layout(items, unit=2):
    out = []
    gap = -1
    spaces = 0
    level = 0
    for o in items:
        k = o[0]
        if k == "t":
            if not o[1]:
                continue
            out.append("\n" * max(gap, 0))
            if gap:
                out.append(" " * (unit * max(level, 0)))
            out.append(" " * spaces + o[1])
            gap = spaces = 0
        elif k == "sp":
            spaces += 1
        else:
            spaces = 0
            if k == "line":
                gap = 2 if gap >= 0 else -1
            else:
                if k == "ind":
                    level += o[1]
                if gap == 0:
                    gap = 1
    return "".join(out)


# -- generation


class Scope:
    def __init__(self):
        self.vars = {"s": [], "i": [], "k": [], "o": []}
        self.can_try = False
        self.shadow = True
        self.guard = True

    def copy(self):
        s = Scope()
        s.shadow = self.shadow
        s.guard = self.guard
        s.vars = {k: list(v) for k, v in self.vars.items()}
        s.can_try = self.can_try
        return s

    def bind(self, kind, name):
        for v in self.vars.values():
            if name in v:
                v.remove(name)
        self.vars[kind].append(name)


PROFILES = {
    # weights of element kinds
    "layout": dict(tok=30, group=10, var=12, ctl=6, lit=3, str=3, istr=1, flow=8, let=2, mark=1, api=2, embed=5, dollar=1, expr=2,
                   nl=0.45, glue=0.35, rich=0.15),
    "tokens": dict(tok=45, group=12, var=6, ctl=1, lit=4, str=8, istr=7, flow=2, let=0, mark=0, api=0, embed=1, dollar=4, expr=4,
                   nl=0.12, glue=0.5, rich=0.9),
    "flow": dict(tok=14, group=3, var=16, ctl=2, lit=2, str=1, istr=1, flow=22, let=6, mark=5, api=1, embed=5, dollar=0, expr=2,
                 nl=0.3, glue=0.3, rich=0.1),
    "forms": dict(tok=20, group=6, var=10, ctl=4, lit=2, str=2, istr=2, flow=7, let=2, mark=2, api=3, embed=20, dollar=1, expr=2,
                  nl=0.45, glue=0.3, rich=0.2),
    "evals": dict(tok=12, group=3, var=4, ctl=1, lit=1, str=1, istr=14, flow=14, let=1, mark=1, api=1, embed=8, dollar=1, expr=1,
                  nl=0.3, glue=0.3, rich=0.1),
}


class Gen:
    def __init__(self, r, profile, lang):
        self.r = r
        self.p = PROFILES[profile]
        self.lang = lang
        self.ids = 0
        self.names = 0
        self.evals_ok = lang in ("JavaScript", "Dart")
        self.in_code = False
        self.deepest = 6 if r.random() < 0.95 else 16
        self.steep = False
        self.many = False
        self.chain = 0

    def id(self):
        self.ids += 1
        return self.ids

    def name(self, kind):
        self.names += 1
        # The names of the implementation are as good as any.
        return f"{kind}{self.names}" if self.r.random() < 0.95 else f"__{kind}{self.names}"

    def value(self, kind):
        r = self.r
        if kind == "s":
            return r.choice(VALUES) if r.random() < 0.99 else r.choice(LONG)
        if kind == "i":
            return r.choice([0, 1, 2, 3, 7, -1, 100, 2 ** 40])
        if kind == "o":
            return r.choice([None, "some", "other"])
        ops = []
        for _ in range(r.randrange(7)):
            ops.append(r.choice([("t", r.choice(PLAIN)), ("t", r.choice(PLAIN)), ("sp",), ("push",), ("line",), ("ind", 1),
                                 ("ind", -1)]))
        return ops

    def prelude(self):
        """Variables of a case: (source lines, env, scope)."""
        r = self.r
        lines, env, scope = [], {}, Scope()
        for kind in "sssiikkoo":
            n = self.name(kind)
            v = self.value(kind)
            env[n] = v
            scope.bind(kind, n)
            if kind == "s":
                lines.append(f"let {n} = {rs(v)};")
            elif kind == "i":
                lines.append(f"let {n} = {v}i64;")
            elif kind == "o":
                lines.append(f"let {n}: Option<&str> = " + ("None;" if v is None else f"Some({rs(v)});"))
            else:
                lines.append(f"let {n}: &Tokens<{self.lang}> = &{{ let mut t = Tokens::new(); {api_calls('t', v)} t }};")
        return lines, env, scope

    # elements

    def token(self):
        r = self.r
        x = r.random()
        if r.random() < 0.003:
            w = r.choice(PLAIN)
            return Tok(w * (r.choice([130, 260, 1100]) // len(w) + 1), "ident")
        if r.random() >= self.p["rich"]:
            if x < 0.75:
                return Tok(r.choice(PLAIN), "ident")
            return Tok(r.choice(PUNCT), "punct")
        if x < 0.3:
            return Tok(r.choice(WORDS), "ident")
        if x < 0.45:
            return Tok(r.choice(NUMBERS), "number")
        if x < 0.6:
            return Tok(r.choice(LITERALS), "other literal")
        if x < 0.65:
            return Tok(r.choice(LIFETIMES), "lifetime")
        if x < 0.8:
            return Tok(r.choice(MULTI), "punct")
        return Tok(r.choice(PUNCT), "punct")

    def string(self):
        r = self.r
        # Characters which are the same in the strings of all languages.
        v = "".join(r.choice("abc xyz.,;:!?()[]<>=+-*/_09") for _ in range(r.randrange(9)))
        x = r.random()
        if x < 0.5:
            src = rs(v)
        elif x < 0.7:
            src = 'r"' + v + '"'
        elif x < 0.8:
            src = 'r##"' + v + '"##'
        elif x < 0.84 and not self.in_code:
            # Over several lines.
            k = r.randrange(len(v) + 1)
            src = '"' + v[:k] + "\\\n" + " " * r.randrange(12) + "".join("\\x%02x" % ord(c) for c in v[k : k + 1]) + v[k + 1 :] + '"'
        elif x < 0.9:
            src = '"' + "".join("\\x%02x" % ord(c) if r.random() < 0.4 else c for c in v) + '"'
        else:
            src = '"' + "".join("\\u{%x}" % ord(c) if r.random() < 0.4 else c for c in v) + '"'
        return v, src

    def var(self, scope):
        r = self.r
        kinds = [k for k in "ssiiikko" if scope.vars[k]]
        if not kinds:
            return self.token()
        kind = r.choice(kinds)
        n = r.choice(scope.vars[kind])
        forms = ["$x"] * 5 + ["(x)", "ev", "ev", "ev", "block", "lines", "clone", "sc", "fn", "ref", "refb", "if", "some"]
        if scope.can_try:
            forms += ["try", "try"] + (["bad"] if r.random() < 0.1 else [])
        if kind == "o":
            forms = [f for f in forms if f != "some"]
        f = r.choice(forms)
        return Var(n, f, self.id())

    def boolean(self, scope, depth):
        """An expression of type bool: (source, what it does, how tightly it binds)."""
        r = self.r
        b = r.random() < 0.5
        lit = str(b).lower()
        x = r.randrange(14 if depth else 6)
        if x == 0:
            return lit, lambda m: b, 9
        if x in (1, 2):
            i = self.id()
            return f"cond({i}, {lit})", lambda m: (m.log.append(i), b)[1], 9
        if x == 3 and scope.vars["i"]:
            n = r.choice(scope.vars["i"])
            k = r.choice([0, 1, 3])
            op, f = r.choice([("==", lambda a: a == k), (">", lambda a: a > k), ("<=", lambda a: a <= k), ("!=", lambda a: a != k)])
            return f"{n} {op} {k}", lambda m: f(m.env[n]), 4
        if x == 4 and scope.vars["o"]:
            n = r.choice(scope.vars["o"])
            src, f = r.choice([
                (f"{n}.is_some()", lambda v: v is not None),
                (f'{n}.is_some_and(|v| v == "some")', lambda v: v == "some"),
                (f'matches!({n}, Some("some") | None)', lambda v: v in ("some", None)),
                (f'{n}.map_or({lit}, |v| {{ v.len() > 4 }})', lambda v: b if v is None else len(v) > 4),
            ])
            return src, lambda m: f(m.env[n]), 9
        if x == 5 and scope.vars["s"]:
            n = r.choice(scope.vars["s"])
            w = r.choice(VALUES)
            src, f = r.choice([
                (f"{n} == {rs(w)}", lambda v: v == w),
                (f"({n}.len() as u64) < 3u64", lambda v: len(v.encode()) < 3),
                (f"{n}.len() << 1 >= 6", lambda v: len(v.encode()) >= 3),
            ])
            return src, lambda m: f(m.env[n]), 4
        if x < 6:
            return lit, lambda m: b, 9
        a, f, p = self.boolean(scope, depth - 1)
        if x == 6:
            a = a if p > 8 and r.random() < 0.7 else f"({a})"
            return "!" + a, lambda m: not f(m), 8
        if x == 7:
            return f"({a})", f, 9
        if x == 8:
            i = self.id()
            return f"({{ mark({i}); {a} }})", lambda m: (m.log.append(i), f(m))[1], 9
        if x == 9:
            i = self.id()
            return f"(|| {{ mark({i}); {a} }})()", lambda m: (m.log.append(i), f(m))[1], 9
        c, g, q = self.boolean(scope, depth - 1)
        if x == 10:
            d, h, _ = self.boolean(scope, 0)
            return f"(if {a} {{ {c} }} else {{ {d} }})", lambda m: g(m) if f(m) else h(m), 9
        op, level = r.choice([("&&", 3), ("||", 2), ("&", 6), ("|", 5), ("^", 5), ("==", 4)])
        a = a if p > level else f"({a})"
        c = c if q > level else f"({c})"
        if op == "&&":
            f2 = lambda m: f(m) and g(m)  # noqa: E731
        elif op == "||":
            f2 = lambda m: f(m) or g(m)  # noqa: E731
        else:
            def f2(m):
                u, v = f(m), g(m)
                return {"&": u and v, "|": u or v, "^": u != v, "==": u == v}[op]
        return f"{a} {op} {c}", f2, level

    def cond(self, scope):
        """(condition, scope of the then branch)."""
        r = self.r
        x = r.random()
        b = r.random() < 0.6
        inner = scope.copy()
        if r.random() < 0.3:
            src, test, _ = self.boolean(scope, 3)
            return Cond(src, test), inner
        if r.random() < 0.2:
            return self.pattern_cond(scope, inner), inner
        if r.random() < 0.06:
            i = self.id()

            def test(m):
                m.log.append(i)
                m.dropped(i)
                return b

            return Cond(f"*tmp({i}, {str(b).lower()})", test), inner
        if x < 0.35:
            i = self.id()
            return Cond(f"cond({i}, {str(b).lower()})", lambda m: (m.log.append(i), b)[1]), inner
        if x < 0.5 and scope.vars["i"]:
            n = r.choice(scope.vars["i"])
            k = r.choice([0, 1, 3])
            op = r.choice(["==", ">", "<=", "!="])
            f = {"==": lambda a: a == k, ">": lambda a: a > k, "<=": lambda a: a <= k, "!=": lambda a: a != k}[op]
            return Cond(f"{n} {op} {k}", lambda m: f(m.env[n])), inner
        if x < 0.8 and scope.vars["o"]:
            n = r.choice(scope.vars["o"])
            i = self.id()
            v = self.name("s")
            inner.bind("s", v)

            def test(m, n=n, v=v):
                m.log.append(i)
                if m.env[n] is None:
                    return False
                m.env[v] = m.env[n]
                return True

            return Cond(f"let Some({v}) = sc({i}, {n})", test), inner
        if x < 0.9:
            i, j = self.id(), self.id()
            a, b = r.random() < 0.5, r.random() < 0.5
            op = r.choice(["&&", "||"])

            def test(m):
                m.log.append(i)
                if (op == "&&") != a:
                    return a
                m.log.append(j)
                return b

            return Cond(f"cond({i}, {str(a).lower()}) {op} cond({j}, {str(b).lower()})", test), inner
        return Cond(str(b).lower(), lambda m: b), inner

    def pattern(self, inner, depth=2):
        """A pattern with a value: (pattern, value's source, whether it matches, bindings)."""
        r = self.r
        x = r.randrange(13 if depth else 7)
        if x == 0:
            return "_", "0i64", True, []
        if x in (1, 2):
            k, v = r.randrange(6), self.name("i")
            inner.bind("i", v)
            pat = r.choice([v, f"mut {v}", f"{v} @ _", f"{v} @ 0..=9", f"{v} @ (-1 | 0..)"])
            return pat, f"{k}i64", True, [(v, k)]
        if x == 3:
            k, j = r.randrange(3), r.randrange(3)
            pat, ok = r.choice([(f"{j}", j == k), (f"{j}..=3", k >= j), (f"..={j}", k <= j), (f"{j} | 2", k in (j, 2)), (f"-1..{j}", k < j),
                                ("i64::MIN", False), ("0x1", k == 1)])
            if "|" in pat:
                pat = f"({pat})"
            return pat, f"{k}i64", ok, []
        if x == 4:
            w, v = r.choice(PLAIN), self.name("s")
            inner.bind("s", v)
            return v, rs(w), True, [(v, w)]
        if x == 5:
            w, u = r.choice(PLAIN), r.choice(PLAIN)
            return rs(u), rs(w), u == w, []
        if x == 6:
            c = r.choice("amz")
            return "'a'..='m'", f"'{c}'", c <= "m", []
        if x == 11:
            ok = r.random() < 0.7
            v = self.name("i")
            inner.bind("i", v)
            return (r.choice([f"Point {{ x: 1, y: {v} }}", f"Point {{ y: {v}, x: 0..=1 }}", f"Point {{ y: {v}, .. }}" if ok else f"Point {{ x: 1, y: {v} }}"]),
                    f"(Point {{ x: {1 if ok else 2}, y: 7 }})", ok, [(v, 7)])
        if x == 12:
            v, u = self.name("i"), self.name("i")
            inner.bind("i", v)
            inner.bind("i", u)
            n = 2 + r.randrange(3)
            pat, ok, binds = r.choice([
                (f"[{v}, {u}]", n == 2, [(v, 0), (u, 1)]),
                (f"[{v}, .., {u}]", True, [(v, 0), (u, n - 1)]),
                (f"[.., {v}, {u}]", True, [(v, n - 2), (u, n - 1)]),
                (f"[{v}, {u}, _]", n == 3, [(v, 0), (u, 1)]),
            ])
            return "&" + pat, "&vec![" + ", ".join(f"{k}i64" for k in range(n)) + "][..]", ok, binds
        a = self.pattern(inner, depth - 1)
        if x == 7:
            return f"Some({a[0]})", f"Some({a[1]})", a[2], a[3]
        if x == 8 and a[0][0] not in "-&" and not a[0].startswith("mut"):
            return f"&{a[0]}" if " " not in a[0] and ".." not in a[0] else f"&({a[0]})", f"&{a[1]}", a[2], a[3]
        if x == 8:
            return a
        b = self.pattern(inner, depth - 1)
        if x == 9:
            return f"({a[0]}, {b[0]})", f"({a[1]}, {b[1]})", a[2] and b[2], a[3] + b[3]
        return f"({a[0]}, .., {b[0]},)", f"({a[1]}, 'x', {b[1]})", a[2] and b[2], a[3] + b[3]

    def pattern_cond(self, scope, inner):
        i = self.id()
        pat, src, ok, binds = self.pattern(inner)

        def test(m):
            m.log.append(i)
            if ok:
                m.env.update(binds)
            return ok

        if self.r.random() < 0.25:
            return Cond(f"let {pat} = tmp({i}, {src}).get()", test, i)
        return Cond(f"let {pat} = sc({i}, {src})", test)

    def body(self, scope, depth, sensitive=False, arm=False, small=False):
        r = self.r
        size = 0 if r.random() < 0.06 and not arm else 1 + r.randrange(3 if small else 6)
        lead = sensitive and r.random() < 0.4
        trail = sensitive and r.random() < 0.4
        force = ()
        if self.chain:
            # Each in the one before.
            self.chain -= 1
            size, depth = 0, 2
            force = ["tok"] * r.randrange(3) + [r.choice(["flow", "flow", "embed"])] + ["tok"] * r.randrange(2)
        t = self.tmpl(scope.copy(), depth - 1, size, force=force, arm=arm, single=sensitive and (lead or r.random() < 0.7))
        if not t.items and sensitive:
            # Just one stretch of whitespace.
            trail = False
        return Body(t, sensitive, lead, trail)

    def flow(self, scope, depth):
        x = self.r.random()
        if x < 0.35:
            return self.gen_if(scope, depth)
        if x < 0.7:
            return self.gen_for(scope, depth)
        return self.gen_match(scope, depth)

    def gen_if(self, scope, depth):
        r = self.r
        c, inner = self.cond(scope)
        then = self.body(inner, depth)
        if r.random() < 0.4:
            return If(c, then, None, True)
        return If(c, then, self.body(scope, depth) if r.random() < 0.5 else None, False)

    def gen_for(self, scope, depth):
        r = self.r
        inner = scope.copy()
        n = r.choice([0, 1, 1, 2, 2, 3]) if r.random() < 0.96 else 4 + r.randrange(12)
        ident = temp = None
        x = r.random()
        if self.chain:
            n = min(n, 2)
        many = not self.many and r.random() < self.p.get("many", 0.006)
        if many:
            # More than small counters can count, just once and of little each.
            self.many = True
            n, depth = r.choice([100, 260, 300, 1030]), 0
            x = r.choice([0, 0.5, 0.7, 0.8, 0.9])
        if x < 0.25:
            lo = r.randrange(3)
            v = self.name("i")
            inner.bind("i", v)
            pat, names, values = v, [v], [[k] for k in range(lo, lo + n)]
            src = r.choice([f"{lo}i64..{lo + n}", f"({lo}i64..{lo + n}).into_iter()"])
            if r.random() < 0.3:
                src, values = f"({lo}i64..{lo + n}).rev()", values[::-1]
            vals = lambda env: values  # noqa: E731
        elif x < 0.45 and scope.vars["s"]:
            ns = [r.choice(scope.vars["s"]) for _ in range(n)]
            v = self.name("s")
            inner.bind("s", v)
            pat, names = v, [v]
            src = r.choice(["[{}] as [&str; %d]" % n, "vec![{}] as Vec<&str>"]).format(", ".join(ns))
            if n:
                src = src.split(" as ")[0] + r.choice(["", ".into_iter()"])
            else:
                src = r.choice(["None::<&str>", "std::iter::empty::<&str>()", "Vec::<&str>::new()"])
            vals = lambda env: [[env[k]] for k in ns]  # noqa: E731
        elif x < 0.6 and scope.vars["k"] and n:
            ns = [r.choice(scope.vars["k"]) for _ in range(n)]
            v = self.name("k")
            inner.bind("k", v)
            pat, names = v, [v]
            src = "[" + ", ".join(ns) + "]"
            vals = lambda env: [[env[k]] for k in ns]  # noqa: E731
        elif x < 0.75:
            v, k = self.name("s"), self.name("i")
            inner.bind("s", v)
            inner.bind("i", k)
            words = [r.choice(PLAIN) for _ in range(n)]
            pat, names = f"({k}, {v})", [k, v]
            if n:
                src = "[" + ", ".join(f"({j}i64, {rs(s)})" for j, s in enumerate(words)) + "]"
            else:
                src = "Vec::<(i64, &str)>::new()"
            values = [[j, s] for j, s in enumerate(words)]
            vals = lambda env: values  # noqa: E731
        elif x < 0.86:
            # What's iterated over is borrowed from a temporary, taken apart by a pattern.
            temp = self.id()
            v, k = self.name("s"), self.name("i")
            words = [r.choice(PLAIN) for _ in range(n)]
            pairs = f"Vec::<(i64, &str)>::from([{', '.join(f'({j}i64, {rs(s)})' for j, s in enumerate(words))}])"
            plain = f"Vec::<&str>::from([{', '.join(map(rs, words))}])"
            cell = r.choice([".get()", ".get().to_vec()", ".cell().borrow()", ""]) + ".iter()"
            pat, src, names, row = r.choice([
                (f"&({k}, {v})", pairs + cell, [k, v], lambda j, s: [j, s]),
                (f"&(_, {v})", pairs + cell, [v], lambda j, s: [s]),
                (f"({k}, _)", pairs + cell + ".copied()", [k], lambda j, s: [j]),
                (f"&{v}", plain + cell, [v], lambda j, s: [s]),
                (f"&(ref _x, {v})", pairs + cell, [v], lambda j, s: [s]),
                (f"{v} @ _", plain + cell + ".cloned()", [v], lambda j, s: [s]),
                ("_", plain + cell, [], lambda j, s: []),
                (f"({k}, {v})", f"Vec::<&str>::from([{', '.join(map(rs, words))}])" + cell + ".copied().zip(0i64..).map(|(s, k)| (k, s))", [k, v],
                 lambda j, s: [j, s]),
            ])
            head, tail = src.split("])", 1)
            src = f"tmp({temp}, {head}]))" + tail
            if v in names:
                inner.bind("s", v)
            if k in names:
                inner.bind("i", k)
            values = [row(j, s) for j, s in enumerate(words)]
            vals = lambda env: values  # noqa: E731
        else:
            ident = self.id()
            v = self.name("s")
            inner.bind("s", v)
            words = [r.choice(PLAIN) for _ in range(n)]
            pat, names = r.choice([v, "mut " + v]), [v]
            src = f"it({ident}, vec![{', '.join(map(rs, words))}], {r.randrange(3)})"
            values = [[s] for s in words]
            vals = lambda env: values  # noqa: E731
        join = None
        if r.random() < 0.5:
            # Whether the separator sees what the body binds is left open.
            inner.shadow = False
            # Nor whether the body's bindings are dropped first.
            inner.guard = False
            join = self.body(inner, min(depth, 2), sensitive=True, small=True)
        return For(pat, names, src, vals, ident, join, self.body(inner, depth, small=many), r.random() < 0.5, temp)

    def arm_body(self, scope, depth):
        r = self.r
        form = r.choice(["{", "(", "=>", "=>"])
        return form, self.body(scope, depth, sensitive=form == "(", arm=form == "=>")

    def gen_match(self, scope, depth):
        r = self.r
        kinds = [k for k in "iiso" if scope.vars[k]]
        kind = r.choice(kinds) if kinds else None
        arms = []

        def add(source, test, inner):
            form, body = self.arm_body(inner, depth)
            attr = "".join(r.choice(["#[allow(unused)]", "#[cfg(all())]", "#[cfg(not(any()))]", "#[cfg(any())]", "#[cfg(not(all()))]"])
                           + r.choice(["", " ", "\n "]) for _ in range(r.choice([0, 0, 0, 0, 1, 1, 2, 3])))
            arms.append(Arm(source, test, body, form, attr))
            return attr

        if kind is None:
            i = self.id()
            add("_", lambda m, v: True, scope.copy())
            arms[-1].attr = ""
            return Match(f"sc({i}, ())", lambda m: m.log.append(i), arms)
        n = r.choice(scope.vars[kind])
        i = self.id()
        temp = None
        if r.random() < 0.5:
            src = f"sc({i}, {n})"
            scrutinee = lambda m: (m.log.append(i), m.env[n])[1]  # noqa: E731
            if r.random() < 0.3:
                src, temp = f"tmp({i}, {n}).get()", i
        else:
            src = n
            scrutinee = lambda m: m.env[n]  # noqa: E731

        def guarded(inner, source, test):
            """Maybe add a guard."""
            if r.random() < 0.25:
                g_src, g_test, _ = self.boolean(inner, 2)
                return f"{source} if {g_src}", lambda m, v: test(m, v) and g_test(m)
            if r.random() < 0.4:
                g, b = self.id(), r.random() < 0.5
                return (f"{source} if cond({g}, {str(b).lower()})",
                        lambda m, v: test(m, v) and (m.log.append(g), b)[1])
            return source, test

        arms_n = r.randrange(3) if r.random() < 0.95 else 3 + r.randrange(8)
        many = 0
        if r.random() < 0.01:
            many, depth = r.choice([12, 20, 40, 70, 270]), min(depth, 1)
            arms_n += many
        for k in range(arms_n):
            inner = scope.copy()
            if kind == "i" and k < many:
                src_, test = f"{k + 1000}", lambda m, v: False
            elif kind == "i":
                a = r.randrange(4)
                b = a + 1 + r.randrange(3)
                src_, test = r.choice([
                    (f"{a} | {b}", lambda m, v, a=a, b=b: v in (a, b)),
                    (f"{a}..={b}", lambda m, v, a=a, b=b: a <= v <= b),
                    (f"{a}", lambda m, v, a=a: v == a),
                    (f"| {a}", lambda m, v, a=a: v == a),
                ])
            elif kind == "s":
                a, b = r.sample(VALUES, 2)
                src_, test = f"{rs(a)} | {rs(b)}", lambda m, v, a=a, b=b: v in (a, b)
            else:
                a = r.choice(["some", "other"])
                src_, test = r.choice([(f"Some({rs(a)})", lambda m, v, a=a: v == a), ("None", lambda m, v: v is None)])
            src_, test = guarded(inner, src_, test)
            add(src_, test, inner)
        # One which binds.
        if r.random() < 0.6:
            inner = scope.copy()
            v = self.name(kind if kind != "o" else "s")
            if kind == "o":
                inner.bind("s", v)
                src_ = f"Some({v})"
            else:
                inner.bind(kind, v)
                src_ = r.choice([v, f"{v} @ _"])

            def test(m, x, v=v):
                if x is None:
                    return False
                m.env[v] = x
                return True

            src_, test = guarded(inner, src_, test)
            add(src_, test, inner)
        add("_", lambda m, v: True, scope.copy())
        arms[-1].attr = ""
        return Match(src, scrutinee, arms, temp)

    def let(self, scope):
        r = self.r
        x = r.random()
        i = self.id()
        if x < 0.3 and scope.vars["s"]:
            n = r.choice(scope.vars["s"])
            v = n if scope.shadow and r.random() < 0.5 else self.name("s")
            scope.bind("s", v)
            src = r.choice([f"{v} = sc({i}, {n})", f"mut {v} = {{ mark({i}); {n} }}"])

            def bind(m):
                m.log.append(i)
                m.env[v] = m.env[n]
        elif x < 0.5 and scope.vars["i"]:
            n = r.choice(scope.vars["i"])
            v = self.name("i")
            scope.bind("i", v)
            src = f"{v} = sc({i}, {n} + 1)"

            def bind(m):
                m.log.append(i)
                m.env[v] = m.env[n] + 1
        elif x < 0.7:
            a, b = self.name("s"), self.name("i")
            w = r.choice(PLAIN)
            scope.bind("s", a)
            scope.bind("i", b)
            src = f"({a}, {b}) = ({rs(w)}, sc({i}, 5i64))"

            def bind(m):
                m.log.append(i)
                m.env[a] = w
                m.env[b] = 5
        elif x < 0.85:
            v = self.name("s")
            scope.bind("s", v)
            b = r.random() < 0.5
            src = f'{v} = if cond({i}, {str(b).lower()}) {{ "yes" }} else {{ "no" }}'

            def bind(m):
                m.log.append(i)
                m.env[v] = "yes" if b else "no"
        else:
            v = self.name("o")
            scope.bind("o", v)
            src = f'{v} = sc({i}, Some("some"))'

            def bind(m):
                m.log.append(i)
                m.env[v] = "some"
        return Let(src, bind)

    def embed(self, scope, depth):
        r = self.r
        inner = scope.copy()
        form = r.choice(["quote", "quote", "typed", "ref", "fn", "fn", "fnev", "in", "inp", "inb", "opt"])
        if form in ("fn", "fnev"):
            inner.can_try = False
        return Embed(form, self.body(inner, depth), self.id(), self.lang)

    def istr(self, scope, depth):
        r = self.r
        parts = []
        opened = []
        prev = None
        evals = self.evals_ok and not self.in_code and r.random() < 0.7
        for _ in range(r.randrange(8)):
            x = r.random()
            if x < 0.5:
                t = self.r.choice(PLAIN) if r.random() < 0.7 else r.choice([".", ",", "!", "?", ":", "-", "+", ";", "1", "=>"])
                part = ("tok", t)
                k = Tok(t, "punct" if not t[0].isalnum() and t[0] != "_" else ("number" if t == "1" else "ident"))
            elif x < 0.65 and evals:
                if r.random() < 0.5:
                    v = r.choice(PLAIN)
                    part, k = ("var", v), Var(v, "$x")
                else:
                    self.in_code = True
                    lead, trail = r.random() < 0.3, r.random() < 0.3
                    t = self.tmpl(scope.copy(), 1, 1 + r.randrange(3), single=True, code=True)
                    self.in_code = False
                    part, k = ("code", Code(t, lead, trail)), Lit("", "")
            elif x < 0.75 and self.safe(scope):
                v = r.choice(self.safe(scope))
                part, k = ("const", v), Lit("", "")
            elif x < 0.85:
                part, k = ("constlit", r.choice(["lit", "two words", "l"])), Lit("", "")
            elif x < 0.92 and self.lang not in ("JavaScript", "Dart", "Nix"):
                part, k = ("dollar", None), Dollar()
            else:
                if opened and r.random() < 0.5:
                    c = opened.pop()
                    part, k = ("tok", c), Close(c)
                else:
                    # Rarely many, one in another.
                    for last in reversed(range(1 if r.random() < 0.97 else 2 + r.randrange(20))):
                        o, c = r.choice(["()", "[]", "{}"])
                        opened.append(c)
                        part, k = ("tok", o), Open(o)
                        if last:
                            parts.append((r.choice([0, 1]) if prev is None or can_glue(prev, k) else 1,) + part)
                            prev = k
            sp = r.choice([0, 1, 1, 1, 2, 3]) if r.random() < 0.99 else r.choice([9, 20, 40, 300])
            if prev is not None and sp == 0 and not can_glue(prev, k):
                sp = 1
            if prev is None and r.random() < 0.7:
                sp = 0
            parts.append((sp,) + part)
            prev = k
        for c in reversed(opened):
            parts.append((r.choice([0, 1]), "tok", c))
        return IStr(parts, r.choice([0, 0, 0, 1, 2]) if r.random() < 0.99 else r.choice([10, 40, 300]), self.lang)

    def safe(self, scope):
        """Variables with values which no language has to escape."""
        return [n for n in scope.vars["s"] if n in self.env and self.env[n].isascii() and "$" not in self.env[n]]

    def tmpl(self, scope, depth, size, arm=False, single=False, code=False, force=()):
        r = self.r
        force = list(force)
        p = self.p
        items = []
        opened = []
        prev = None
        level = 0
        kinds = ["tok", "group", "var", "ctl", "lit", "str", "istr", "flow", "let", "mark", "api", "embed", "dollar", "expr"]
        weights = [p[k] for k in kinds]
        k = -1
        while k + 1 < size or force:
            k += 1
            kind = force.pop(0) if force else "tok" if code and k == 0 else r.choices(kinds, weights)[0]
            if depth <= 0 and kind in ("flow", "embed"):
                kind = "var"
            if code and kind not in ("tok", "var", "group", "mark", "let"):
                kind = "tok"
            if kind == "dollar" and self.evals_ok and code:
                kind = "tok"
            if kind == "group" and not force and r.random() < 0.03:
                # One in another, around something.
                force = ["open"] * r.choice([3, 4, 7, 12, 20]) + ["tok", "comma"] + ["tok"] * r.randrange(3)
            if kind == "comma":
                e = Tok(",", "punct") if opened or not arm else Tok("foo", "ident")
            elif kind == "tok":
                e = self.token()
                if code:
                    e = Tok(r.choice(PLAIN), "ident") if r.random() < 0.7 or k == 0 else Tok(r.choice("+-*.,"), "punct")
                if arm and not opened and e.kind == "punct" and "," in e.text:
                    e = Tok("foo", "ident")
            elif kind in ("group", "open"):
                if kind == "group" and opened and r.random() < 0.5:
                    e = Close(opened.pop())
                else:
                    o, c = r.choice(["()", "{}", "[]"])
                    if arm and not items or isinstance(prev, Ctl):
                        # Not an arm in parenthesis, nor an argument of the control.
                        o, c = "[]"
                    elif code:
                        o, c = "()"
                    e = Open(o)
                    opened.append(c)
            elif kind == "var":
                e = self.var(scope)
                if code and isinstance(e, Var):
                    if e.name in scope.vars["s"] or e.name in scope.vars["k"] or e.form == "bad":
                        e = Tok(r.choice(PLAIN), "ident")
            elif kind == "ctl":
                e = Ctl(r.choice(" \r\n"))
            elif kind == "lit":
                v = r.choice(VALUES) if r.random() < 0.98 else r.choice(LONG)
                e = Lit(v, r.choice([rs(v), 'r#"' + v + '"#']))
            elif kind == "str":
                e = Str(*self.string())
            elif kind == "istr":
                e = self.istr(scope, depth)
            elif kind == "flow":
                e = self.flow(scope, depth)
            elif kind == "let":
                e = Guard(self.id(), code or not scope.guard or r.random() < 0.3) if r.random() < 0.2 else self.let(scope)
            elif kind == "mark":
                e = Mark(self.id(), r.randrange(5))
            elif kind == "api":
                e = Api(self.value("k"), r.random() < 0.5)
            elif kind == "embed":
                e = self.embed(scope, depth)
            elif kind == "expr":
                e = Expr(*r.choice(EXPRS))
            else:
                e = Dollar()
            gap, level = self.gap(prev, e, level, single)
            items.append((gap, e))
            prev = e
        while opened:
            e = Close(opened.pop())
            gap, level = self.gap(prev, e, level, single)
            items.append((gap, e))
            prev = e
        if prev is not None and prev.kind in ("if", "for", "match", "embedding"):
            # Whether its temporaries are dropped ahead of the bindings is left open.
            for _, e in items:
                if isinstance(e, Guard):
                    e.now = True
        return Tmpl(items)

    def gap(self, prev, e, level, single):
        r = self.r
        if prev is None:
            return None, 0
        if not single and r.random() < (0.75 if self.steep else self.p["nl"]):
            x = r.random()
            blanks = r.random() < 0.25
            if self.steep and x < 0.6:
                # Mostly up, and down by some or all of it.
                if x < 0.5 and level < self.deepest:
                    level += 1
                elif level > 1:
                    level -= 1 + r.randrange(level if x > 0.55 else 2)
            elif x < 0.3 and level < self.deepest:
                level += 1
            elif x < 0.55 and level:
                level = r.randrange(level)
            return (blanks, level), level
        if r.random() < self.p["glue"] and can_glue(prev, e):
            return GLUE, level
        return SPACE, level


def can_glue(a, b):
    """Would the lexer still see two tokens?"""
    x, y = a.tail, b.head
    if y in ("word", "number"):
        if x in ("word", "number"):
            return False
        if x == "$$":
            return True
        # r#"..."#, and numbers behind a dot.
        return x not in ("#", ".", "'") or y == "word" and x == "."
    if x in ("word", "number"):
        if y in ("#", "'"):
            return False
        if x == "number" and y == ".":
            return False
        return True
    if x == "delim" or y == "delim":
        return True
    if y == "$":
        return x != "$"
    if x == "$$":
        return True
    if x == "/" and y in "/*" or x == "*" and y == "/":
        return False
    return True


def fresh(r, profile, lang, size, depth, can_try, evals=None):
    """A case: (prelude, env, template)."""
    g = Gen(r, profile, lang)
    if evals is not None:
        g.evals_ok = evals
    lines, env, scope = g.prelude()
    scope.can_try = can_try
    g.env = env
    x = r.random()
    if x < 0.02:
        # A long one.
        size, depth = size + 20 + r.randrange(60), min(depth, 1)
    elif x < 0.04:
        # A deeply nested one.
        size, depth = 3, depth + 3
    elif x < 0.06:
        # One of many levels of indentation.
        g.steep = True
        g.deepest = 30
        size, depth = size + 40, min(depth, 1)
    elif x < 0.07:
        # One which is nested many times, and little else.
        g.chain = 8 + r.randrange(16)
        size, depth = 1, 1
    elif x < 0.075:
        # A very long one.
        size, depth = size + 300, 0
    t = g.tmpl(scope, depth, size, force=["flow"] if g.chain else ())
    if r.random() < 0.3 and t.items:
        # Something which can only be used once.
        kind, paren = r.randrange(3), r.random() < 0.5
        n = g.name("own")
        if kind == 0:
            lines.append(f"let {n} = String::from(\"owned\");")
            v = "owned"
        elif kind == 1:
            v = g.value("k")
            lines.append(f"let {n} = {{ let mut t: Tokens<{lang}> = Tokens::new(); {api_calls('t', v)} t }};")
        else:
            v = "made"
            lines.append(f"let {n} = {{ let s = String::from(\"made\"); from_fn(move |t: &mut Tokens<{lang}>| t.append(s)) }};")
        k = r.randrange(len(t.items) + 1)
        gap = None if k == 0 else SPACE
        t.items.insert(k, (gap, Own(n, v, paren)))
        if k == 0:
            t.items[1] = (SPACE, t.items[1][1])
        elif k + 1 < len(t.items) and t.items[k + 1][0] == GLUE:
            t.items[k + 1] = (SPACE, t.items[k + 1][1])
    return lines, env, t


def interpret(t, env, before=(), flat=False):
    """(text or None if it returned early, log, whether a line break was cancelled)."""
    m = Machine(env, flat)
    m.ops.extend(before)
    try:
        t.run(m)
    except Stop:
        return None, m.log, False
    items, lost = compress(m.ops)
    return layout(items), m.log, lost or m.lost


# -- invalid templates


FRAGMENTS = """
$[foo](x)
$[foo]
$['x']
$['x'](y)
$['\\t']
$["str"](x)
$[str] ;
$[' '](x)
$['\\r']()
$['\\n']("")
$[]
$[](x)
$[str x](y)
$[' ' ' ']
$[1](x)
$[String](x)
$[const](x)
$[const]
$[str](a
    b)
$[str]("a"
    )
$[str](
    a)
$[str]({ a
    })
$[str]($)
$[str]($[foo](x))
$[str]($[' '])
$[str]($[str](a))
$[str]($[const])
$[str]($[])
$[str]($[const](a b))
$[str]($[const]())
$[str]($[const](let))
$[str]($[const]("a" "b"))
$[str]([ $[foo](x) ])
$[str](( $ ))
$[str]($($[foo]))
$(for)
$(for x)
$(for x in)
$(for x in y)
$(for x y => z)
$(for x in => z)
$(for in y => z)
$(for x in y { z } w)
$(for x in y { z } join (,))
$(for x in y join (,))
$(for x in y join , => z)
$(for x in y join { , } => z)
$(for x in y join [,] => z)
$(for x in y join (,) join (,) => z)
$(for x in y join => z)
$(for x in y separated (,) => z)
$(if)
$(if true)
$(if => x)
$(if true x)
$(if true { a } b)
$(if true { a } else)
$(if true { a } else b)
$(if true { a } else if true { b })
$(if true { a } else => b)
$(if true { a } else { b } else { c })
$(if true { a } else { b } c)
$(if true { a } { b })
$(if let x => y)
$(if let Some(x) => y)
$(match)
$(match x)
$(match x => y)
$(match x { a })
$(match x { a => b } c)
$(match x { a => b, , })
$(match x { => b })
$(match x { a if => b })
$(match x { a if })
$(match x { a { b } })
$(match x { a => { b } c => { d } e })
$(match x { #[cfg(all())] })
$(match { a => b })
$(let)
$(let x)
$(let x =)
$(let = 1)
$(let x = 1; b)
$(let x = 1;)
$(let x = 1, y = 2)
$(let x := 1)
$(ref)
$(ref x)
$(ref => x)
$(ref x y)
$(ref x { y } z)
$(ref x y => z)
$(ref (x) => z)
$(ref _)
$()
$( )
$(a b)
$(a, b)
$(a;)
$(a; b)
$(;)
$("a" "b")
$("a" b)
$(+)
$(a +)
$(foo => bar)
$(loop)
$(a.)
$(*)
$($x)
$(while)
$(struct X;)
$(#x)
$(join (,))
$(else { x })
$(in x)
$(let x 1)
$(let x == 1)
$(let x => 1)
$(let x y = 1)
$(let x += 1)
$(let x y)
$(if let Some(x) y => z)
$(if let Some(x) => y => z)
$(for x on y => z)
$(for x => z)
$(for x of y => z)
$(for x in y -> z)
$(for x in y join (,) z)
$(for x in y join (,) -> z)
$(for x in y, z => w)
$(for x in y { z } { w })
$(for x in y { z } => w)
$(for x in y [ z ])
$(for x in y join (,) [ z ])
$(if x -> y)
$(if x { y } => z)
$(if x [ y ])
$(if x { y } else [ z ])
$(if x { y } else ( z ))
$(if x && => y)
$(match x { a -> b })
$(match x { a = b })
$(match x { a => b } else { c })
$(match x [ a => b ])
$(match x ( a => b ))
$(match x => { a => b })
$(match x { 1 | => b })
$(match x { a => { b }; c => d })
$(match x { a if b -> c })
$(ref x -> y)
$(ref x = y)
$(ref mut x => y)
$(ref &x => y)
$(ref x, y => z)
$(ref x [ y ])
$(ref x (y))
$(ref 1 => y)
$[str](a $[const] b)
$[str](a
    $b)
$[str](a $(b)
    $(c))
$[str](a
    $[const]("x"))
$[str]([
    a])
$[str]({ a }
    { b })
$[str](a "b"
    )
$[str](a
    $(b))
$[str]{a}
$[str][a]
$[str, x](a)
$[const str](a)
$['\\r' x]
$['\\n', ' ']
$[str;](a)
$[str]($[const "a"](b))
$[str]($[const](a,))
$[str]($[const](a; b))
$[str]($[const] (a b))
$(quote!(a) b)
$(a => b)
$(x: u8)
$(=> a)
$(mut x)
$(&)
$(!)
$(..=)
$(a ? b)
$(a,)
$(..., a)
$(@)
$(#)
$(let)
$(fn)
$(a b => c)
"""
FRAGMENTS = re.split(r"\n(?=\$)", FRAGMENTS.replace("\\\\", "\\").strip())


def templates(t, lead=False, single=False):
    """All templates in a template which are certain to be expanded: (template, it starts after whitespace)."""
    yield t, lead
    for _, e in t.items:
        if isinstance(e, If):
            inner = [e.then, e.other]
        elif isinstance(e, For):
            inner = [e.join, e.body]
        elif isinstance(e, Match):
            inner = [a.body for a in e.arms if "cfg(any())" not in a.attr and "not(all" not in a.attr]
        elif isinstance(e, Embed):
            inner = [e.body]
        else:
            inner = []
        for b in inner:
            if b is not None:
                yield from templates(b.t, b.lead)


# What is in the grammar, but stands for Rust which isn't correct: (the group, what). The compiler finds what is wrong in
# one group before it looks for what is in the next.
LATE = {
    "names": """
$undefined
$(undefined)
$(undefined())
$(for x in undefined => a)
$(for x in undefined join (, ) => a)
$(for x in [1] join ($(y)) => $x)
$(for x in [$u] => a)
$(for x in [1] { $x } ) $x
$(if undefined => a)
$(if let Some(x) = Some(1) { $x } else { $x })
$(if let Undefined(x) = Some(1) { a })
$(match undefined { _ => a })
$(match Some(1) { Some(x) => $x, None => $x })
$(match 1 { undefined::X => a, _ => b })
$(match 1 { _ if undefined => a, _ => b })
$(let x = undefined)
$(let x = x)
$(undefined::call())
$[str](a $[const](undefined) b)
$(ref out => $undefined)
$(ref out { $(undefined) })
""",
    "types": """
$(())
$(Undisplayable)
$(&())
$(|x: i32| x)
$(for x in 5 => a)
$(for x in 5 join (, ) => a)
$(for (x, y) in [1] => a)
$(for (x, y) in [1] join (, ) => a)
$(for x in [()] => $x)
$(for x in [()] join (, ) => $x)
$(for x in [1] join ($(())) => $x)
$(if 1 => a)
$(if 1 { a } else { b })
$(if let Some(x) = 5 => a)
$(match 1 { "a" => b, _ => c })
$(match 1 { x if 5 => b, _ => c })
$(match Some(()) { Some(x) => $x, None => a })
$(let (x, y) = 5)
$(let x = 1 + "a")
$(let x = ()) $x
$(if () => a)
$(1.5)
$[str](a $[const](()) b)
$(ref out => $(()))
$(ref out => $(out.undefined()))
$(ref out { $(if 1 => a) })
$({ let x: u8 = "a"; x })
$('c')
$(true)
""",
    "patterns": """
$(for Some(x) in [Some(1)] => $x)
$(for Some(x) in [Some(1)] join (, ) => $x)
$(for Some(_) in [Some(1), None] { a })
$(for Some(_) in [Some(1), None] join (, ) { a })
$(for 1 in [1] => a)
$(for 1 in [1] join (, ) => a)
$(for (0, x) in [(0, 1)] => $x)
$(for (0, x) in [(0, 1)] join (;) { $x })
$(for [x] in [vec![1].as_slice()] => $x)
$(for [x] in [vec![1].as_slice()] join (/) => $x)
$(for Ok(x) in [Ok::<u8, u8>(1)] => $x)
$(for Ok(x) in [Ok::<u8, u8>(1)] join ($[' ']) => $x)
$(for 'a'..='z' in "a".chars() => a)
$(for 'a'..='z' in "a".chars() join (,) => a)
$(let Some(x) = Some(1))
$(let 1 = 1)
$(let Some(x) = Some(1)) $x
$(let [x, y] = vec![1, 2].as_slice())
$(match 1 { 1 => a })
$(match 1 { x if x == 1 => a })
$(match true { true => a })
$(match Some(1) { Some(x) => $x })
$(match Some(1) { Some(1) => a, None => b })
$(match (true, false) { (true, _) => a, (_, true) => b })
$(match 1 { })
""",
}
LATE = {k: v.strip().split("\n") for k, v in LATE.items()}


def spoil_late(r, t, group):
    """Put something which is not correct Rust in a template; returns what."""
    t2, lead = r.choice(list(templates(t)))
    text = r.choice(LATE[group])
    insert(r, t2, text)
    return text


def spoil(r, t):
    """Put something invalid in a template; returns what, or None."""
    places = list(templates(t))
    t2, lead = r.choice(places)
    if r.random() < 0.3:
        # A line of an indentation which no enclosing line has.
        if lead or len(t2.items) < 1:
            return None
        k = 1 + r.randrange(len(t2.items))
        opened = []
        for _, e in t2.items[:k]:
            if type(e) is Open:
                opened.append({"(": ")", "[": "]", "{": "}"}[e.c])
            elif type(e) is Close:
                opened.pop()
        last = r.choice([Tok("foo", "ident"), Lit("x", '"x"'), Ctl(" "), Str("s", '"s"'), Tok("+", "punct"), Dollar(), Mark(1, 0)])
        t2.items[k:] = [(BAD, last)]
        for c in reversed(opened):
            t2.items.append((SPACE, Close(c)))
        return "indentation"
    # Something in between.
    text = r.choice(FRAGMENTS)
    insert(r, t2, text)
    return text


def insert(r, t2, text):
    k = r.randrange(len(t2.items) + 1)
    t2.items.insert(k, (None if k == 0 else SPACE, Bad(text)))
    if k + 1 < len(t2.items) and t2.items[k + 1][0] in (None, GLUE):
        t2.items[k + 1] = (SPACE, t2.items[k + 1][1])
