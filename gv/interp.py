"""C15: interpolated strings written in templates, and a reader of what they become."""

import re

from . import macros
from .macros import Case, hostile, spell
from .tmpl import PLAIN

VALUES = {"a": "‹a›", "b1": "‹b1›", "_x": "‹_x›", "V": "‹V›", "x.y": "‹x.y›", "f(a)": "‹f(‹a›)›", "w[0]": "‹w[0]›", "(a)": "‹a›"}
ALONE = {"1": "1", "true": "true", "null": "null"}
IDENTS = ["a", "b1", "_x", "V", "null"]
RUST = {"e1": "a", "e2": "x.y", "e3": "f(a)"}
TOKENS = [".", ",", "!", "?", "+", "->", "::", "%", "&&", ";", "=", "/", "`", "\\"][:12]


class Broken(Exception):
    pass


# -- generation


class Gen:
    def __init__(self, r, lang):
        self.r = r
        self.lang = lang

    def spaces(self, n):
        return " " * n

    def content(self, depth, evals=True, size=None):
        """Content of $[str](...), and its value."""
        r = self.r
        src, val = [], []
        tight = True  # whether something can follow without a space
        for k in range(r.choice([0, 1, 1, 2, 3, 4, 6, 9]) if size is None else size):
            x = r.random()
            sp = r.choice([0, 0, 1, 1, 2, 5]) if tight else r.choice([1, 1, 1, 2, 4])
            if x < 0.25:
                s = v = r.choice(PLAIN + ["é", "名前", "_", "if", "true", "x1"])
                t = False
            elif x < 0.35:
                s = v = r.choice(TOKENS)
                # Not to be joined with what's around it.
                sp, t = max(sp, 1), False
            elif x < 0.5 and evals:
                v = r.choice(IDENTS)
                s = "$" + v
                v = VALUES.get(v, v)
                t = False
                if r.random() < 0.5:
                    # What follows could be read as a part of it.
                    lit = r.choice(["b", "1", "_", "é", ".y", "[0]", "(a)", "{a}", "$", "-", " ", "", "\u00aa", "名"])
                    s += f"$[const]({spell(r, lit)})"
                    v += lit
                    t = True
                elif r.random() < 0.5:
                    lit = r.choice([".", ",", ";", "!", "-", "()", "[1]", "{a}", "?"])
                    s += lit
                    v += lit
            elif x < 0.7 and evals:
                c, v = self.code(depth)
                s = f"$({c})"
                t = True
            elif x < 0.82:
                v = hostile(r)
                s = f"$[const]({spell(r, v)})" if r.random() < 0.5 else f"$[const](bytes(&{list(v.encode())}))"
                t = True
            elif x < 0.88:
                s, v = "$$", "$"
                t = True
            else:
                o, c = r.choice(["()", "{}", "[]"])
                s2, v2 = self.content(max(depth - 1, 0), evals, r.randrange(4))
                n = r.choice([0, 0, 1, 2])
                s, v = o + s2 + " " * n + c, o + v2 + " " * n + c
                t = True
            if k == 0 and r.random() < 0.7 and x >= 0.35:
                sp = 0
            if src and src[-1].endswith("$$") and (s.startswith("$") or s[0] in "!%&+-*/=:,.;?"):
                sp = max(sp, 1)
            src += [" " * sp, s]
            val += [" " * sp, v]
            tight = t
        n = r.choice([0, 0, 0, 1, 3])
        return "".join(src) + " " * n, "".join(val) + " " * n

    def code(self, depth):
        """Content of $(...) within a string, and what it evaluates to."""
        r = self.r
        x = r.random()
        if x < 0.12:
            s = r.choice(list(ALONE))
            return s, ALONE[s]
        if x < 0.2:
            return self.wrap(s := r.choice(list(VALUES))), VALUES[s]
        src, val = [], []
        for k in range(r.choice([1, 1, 2, 3])):
            s, v = self.operand(depth)
            src.append(self.wrap(s))
            val.append(v)
        return r.choice([" + ", "+ ", "  +  ", "   + "]).join(src), "".join(val)

    def wrap(self, s):
        """The same code by way of the Rust it's written in."""
        r = self.r
        x = r.random()
        if s.startswith("$") or x < 0.8:
            return s
        if x < 0.86:
            return f"$(if yes {{ {s} }} else {{ b1 }})"
        if x < 0.92:
            return f"$(for _ in 0..1 => {s})"
        if x < 0.96:
            return f"$(match 1 {{ 1 => {s}, _ => b1 }})"
        return f"$(ref t => quote_in!(*t => {s}))"

    def operand(self, depth):
        r = self.r
        x = r.random()
        if x < 0.12:
            e = r.choice(list(RUST))
            return r.choice([f"${e}", f"$({e})", f"$({e}.to_string())"]), VALUES[RUST[e]]
        if x < 0.3 and depth > 0:
            s, v = self.content(depth - 1)
            return f"$[str]({s})", v
        if x < 0.42:
            v = hostile(r)
            return spell(r, v), v
        if x < 0.5:
            v = hostile(r)
            return f"$(quoted(bytes(&{list(v.encode())})))", v
        if x < 0.56 and depth > 0:
            s, v = self.content(depth - 1)
            return f"$(quote!($[str]({s})))", v
        s = r.choice(list(VALUES))
        return s, VALUES[s]


def case(run, r, name):
    lang = r.choice(["JavaScript", "Dart"])
    g = Gen(r, lang)
    out = ["    let mut out: Vec<String> = Vec::new();", '    let yes = true;']
    out += [f'    let {k} = "{v}";' for k, v in RUST.items()]
    values = []
    for _ in range(3):
        s, v = g.content(r.choice([0, 0, 1, 1, 2, 3]))
        t = r.choice(["quote!($[str]({s}))", "quote!{\n        $[str]({s})\n    }", "quote_fn!($[str]({s}))",
                      "quote!($(if yes { $[str]({s}) } else { no }))", "quote!($(quote!($[str]({s}))))"]).replace("{s}", s)
        out.append(f"    out.push({{ let mut t: Tokens<{lang}> = Tokens::new(); t.append({t}); show(&t) }});")
        values.append((v, "$(" in s or re.search(r"\$[a-zA-Z_]", s) is not None, s))
        run.res.evaluated((lang, s), "$(" in s or "$a" in s)
    c = Case(name, "\n".join(out) + "\n    Ok(out)", None)
    run.res.saw("strings of templates in " + lang, len(values))

    def check(texts):
        if len(texts) != len(values):
            return f"a program writes {len(texts)} outputs"
        for text, (v, evals, s) in zip(texts, values):
            try:
                got = read(lang, text)
            except Broken as e:
                return f"$[str]({s})\nbecomes\n{text}\nwhich {lang} does not accept: {e}"
            if got != v:
                return f"$[str]({s})\nbecomes\n{text}\nwhich is {got!r} instead of {v!r}"
            if lang == "JavaScript":
                run.rows.append((v, text))
        return None

    c.check = check
    return c


# -- reading


NAMED = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}
NUMERIC = re.compile(r"x([0-9a-fA-F]{2})|u\{([0-9a-fA-F]{1,6})\}|u([0-9a-fA-F]{4})")
IDENT = re.compile(r"[A-Za-z_$][A-Za-z0-9_$]*")
SIMPLE = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")


def read(lang, text):
    p = Reader(lang, text)
    v = p.string()
    if p.i != len(text):
        raise Broken(f"more than a string: {text[p.i:]!r}")
    return v


class Reader:
    def __init__(self, lang, text):
        self.dart = lang == "Dart"
        self.s = text
        self.i = 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def string(self):
        q = self.peek()
        if q != '"' and (self.dart or q != "`"):
            raise Broken(f"not a string: {self.s[self.i:]!r}")
        self.i += 1
        interpolated = self.dart or q == "`"
        out = []
        while True:
            c = self.peek()
            self.i += 1
            if c == "":
                raise Broken("it does not end")
            if c == q:
                # Surrogates in pairs are a character.
                return "".join(out).encode("utf-16", "surrogatepass").decode("utf-16")
            if c in "\r\n":
                raise Broken("it is more than one line")
            if c == "\\":
                out.append(self.escape())
            elif c == "$" and interpolated and self.peek() == "{":
                self.i += 1
                out.append(self.expr("}"))
            elif c == "$" and self.dart:
                m = SIMPLE.match(self.s, self.i)
                if not m:
                    raise Broken("a lone dollar")
                self.i = m.end()
                out.append(self.value(m[0]))
            else:
                out.append(c)

    def escape(self):
        c = self.peek()
        if c in NAMED:
            self.i += 1
            return NAMED[c]
        if c in "xu":
            m = NUMERIC.match(self.s, self.i)
            if not m:
                raise Broken("a bad escape")
            self.i = m.end()
            return chr(int(m[1] or m[2] or m[3], 16))
        if not self.dart and c.isdigit() and c.isascii():
            if c != "0" or self.s[self.i + 1:self.i + 2].isdigit():
                raise Broken("a bad escape")
            self.i += 1
            return "\0"
        if c in ("", "\r", "\n"):
            raise Broken("a line continuation")
        self.i += 1
        return c

    def value(self, name):
        if name in ALONE:
            return ALONE[name]
        if name not in VALUES:
            raise Broken(f"no variable {name}")
        return VALUES[name]

    def space(self):
        while self.peek() in (" ", "\n") and self.peek():
            self.i += 1

    def expr(self, end):
        out = []
        while True:
            self.space()
            out.append(self.primary())
            self.space()
            c = self.peek()
            self.i += 1
            if c == end:
                if len(out) > 1 and any(o is not None and o[0] == "alone" for o in out):
                    raise Broken("a sum of something else")
                return "".join(o[1] for o in out)
            if c != "+":
                raise Broken(f"an expression is followed by {c!r}")

    def primary(self):
        c = self.peek()
        if c and c in '"`':
            return ("str", self.string())
        if c == "(":
            self.i += 1
            return ("str", self.expr(")"))
        if c == "1":
            self.i += 1
            return ("alone", "1")
        m = IDENT.match(self.s, self.i)
        if not m:
            raise Broken(f"no expression: {self.s[self.i:]!r}")
        self.i = m.end()
        name = m[0]
        for tail in (".y", "[0]", "(a)"):
            if self.s.startswith(tail, self.i):
                name += tail
                self.i += len(tail)
                break
        return ("alone" if name in ALONE else "str", self.value(name))


def strings(run, opts, n):
    from . import real

    run.rows = []
    macros.batches(run, opts, lambda r, k: case(run, r, k), n // 3, per=100, salt="interp")
    rows = run.rows[:40000]
    d = real.scratch(run, "node-templates")
    got = real.read_js(run, d, rows, real.JS_PRELUDE)
    for (value, src), v in zip(rows, got):
        if v != value:
            run.res.violation(f"node evaluates\n{src}\nto {v!r} instead of {value!r}", kind="template", value=value, source=src)
            break
    run.res.saw("strings of templates evaluated by node", len(rows))
