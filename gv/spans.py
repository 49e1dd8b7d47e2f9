"""C28: errors and locations point at the part of a template they're about.

Fragments which are at fault are put in random templates, followed by a comment, so that it's known where they are
whatever surrounds them. What rustc reports has to be there. Evaluations which say where they stand (by #[track_caller])
have to be where they are written."""

import os
import random

from . import core, macros, tmpl
from .core import CheckError

MARK = "/*@*/"

# Statements which don't pass the borrow checker, in which all names are known.
LATE = dict(tmpl.LATE)
LATE["borrows"] = """
$({ let s = String::new(); drop(s); s })
$(let z = String::new()) $z $z
$(let z = vec![String::new()]) $(for x in z => $x) $(for x in z => $x)
$(for x in [String::new()] => $x $x)
$(for x in [String::new()] join (,) => $x $x)
$(let z = String::new()) $(for x in [1, 2] => $x $z)
$(let z = String::new()) $(for x in [1, 2] join ($z) => $x)
$(if let Some(x) = Some(String::new()) { $x $x })
$(match String::new() { x => $x $x })
$(match String::new() { x => { $x $x } })
$(ref out => { let z = String::new(); out.append(z); out.append(z); })
$(let z = 1) $({ z = 2; z })
$(let z = { let s = String::new(); &*s.as_str() }) $z
$(for x in { let s = String::new(); s.as_str().chars() } => $(x.to_string()))
$(let z: u8)
""".strip().split("\n")[:-1]

# Strings with evaluations, which most languages don't have.
EVALS = """
$[str](a $b c)
$[str]($b)
$[str](a $(b c))
$[str](a $(b $[str](c $d)))
$[str]({ $b })
$[str](a $[const]("b") $c)
$(if true => $[str](a $b))
$(if true { $[str](a $b) } else { c })
$(if true { a } else { $[str](a $b) })
$(for x in [1, 2] join ($[str](a $b)) => $x)
$(for x in [1, 2] join ($[str](a $b)) { $x $x })
$(for x in [1] { $x $[str](a $b) })
$(for x in [1] => $x $[str]($(b) c))
$(match 1 { _ => $[str]($b) })
$(match 1 { 1 => a, _ => { $[str]($b) } })
$(match 1 { _ => ( $[str]($b) ) })
$(if true { $(for x in [1] join (,) { $(match x { _ => $[str]($b) }) }) })
$[str](a $[const]("b")) $[str](a $b)
""".strip().split("\n")

# Where the receiver of quote_in! is wrong.
RECEIVERS = {
    "names": ["undefined", "*undefined", "undefined()", "undefined.x", "self", "*(undefined)"],
    "types": ["5u32", "String::new()", "*String::new()", "()", "\"text\"", "vec![1]", "*Box::new(1)", "(1, 2).0", "here()", "'c'"],
}

HERE = """
$(here())
$( here() )
$(for x in [here()] => $x)
$(for x in [here(); 3] join (, ) => $x)
$(for x in [1, 2] join ($(here())) => $x)
$(for x in [1, 2] join ($(here()),) { $x })
$(for x in [1] { $(here()) })
$(for x in [1] => a $(here()) b)
$(for x in [1, 2] join (,) { $(here()) })
$(if here().is_empty() => a)
$(if here().is_empty() { a } else { b })
$(if true { $(here()) } else { b })
$(if false { a } else { $(here()) })
$(if let Some(x) = Some(here()) => $x)
$(match here() { x => $x })
$(match 1 { _ if here().is_empty() => a, _ => b })
$(match 1 { _ => $(here()) })
$(match 1 { _ => { $(here()) } })
$(match 1 { _ => ( $(here()) ), })
$(match 1 { 2 => { a } _ => { $(here()) b } })
$(let x = here()) $x
$(let (x, _) = (here(), 1)) $x
$(ref r => r.append(here()))
$(ref r => { r.append(here()); })
$(ref r { r.append(here()) })
$(ref r { r.append("a"); let x = here(); r.append(x); })
$[str](a $[const](here()) b)
$[str]($[const](here()))
$(quote!(a $(here())))
$(quote_fn!(a $(here())))
$(ref r => quote_in!(*r => a $(here())))
$(ref r { quote_in!(*r => a $(here())) })
$({ let x = here(); x })
$((|| here())())
$(Some(here()).map(|x| x))
$(if true { $(for x in [1] join (,) { $(match x { _ => $(here()) }) }) })
""".strip().split("\n")


# What in a fragment is at fault, where it's one thing without doubt: (fragment, which part of it, how many times it's
# found before).
CULPRITS = {f: ("undefined", 0) for g in LATE.values() for f in g if f.count("undefined") == 1 and "(ref" not in f}
CULPRITS.update({
    "$[foo](x)": ("foo", 0), "$[foo]": ("foo", 0), "$['x']": ("'x'", 0), "$['x'](y)": ("'x'", 0), "$['\\t']": ("'\\t'", 0),
    "$[String](x)": ("String", 0), "$[' '](x)": ("(x)", 0), "$['\\n'](\"\")": ('("")', 0),
    "$[str]($[foo](x))": ("foo", 0), "$[str]($[' '])": ("' '", 0), "$[str]($[str](a))": ("str", 1), "$[str]([ $[foo](x) ])": ("foo", 0),
    "$[str]($($[foo]))": ("foo", 0),
    "$(for x in [1] join ($(y)) => $x)": ("y", 0),
    "$(for x in [$u] => a)": ("$", 1),
    "$(if let Some(x) = Some(1) { $x } else { $x })": ("x", 2),
    "$(match Some(1) { Some(x) => $x, None => $x })": ("x", 2),
    "$(let x = x)": ("x", 1),
    "$(for x in 5 => a)": ("5", 0),
    "$(for x in 5 join (, ) => a)": ("5", 0),
    "$(for (x, y) in [1] => a)": ("(x, y)", 0),
    "$(for (x, y) in [1] join (, ) => a)": ("(x, y)", 0),
    "$(for x in [()] => $x)": ("x", 1),
    "$(for x in [()] join (, ) => $x)": ("x", 1),
    "$(for x in [1] join ($(())) => $x)": ("()", 0),
    "$(if 1 => a)": ("1", 0),
    "$(if 1 { a } else { b })": ("1", 0),
    "$(if let Some(x) = 5 => a)": ("Some(x)", 0),
    '$(match 1 { "a" => b, _ => c })': ('"a"', 0),
    "$(match 1 { x if 5 => b, _ => c })": ("5", 0),
    "$(match Some(()) { Some(x) => $x, None => a })": ("x", 1),
    "$(let (x, y) = 5)": ("(x, y)", 0),
    "$(let x = ()) $x": ("x", 1),
    "$(if () => a)": ("()", 0),
    "$[str](a $[const](()) b)": ("()", 0),
    "$(let z = String::new()) $z $z": ("z", 2),
    "$(for x in [String::new()] => $x $x)": ("x", 2),
    "$(for x in [String::new()] join (,) => $x $x)": ("x", 2),
    "$(let z = String::new()) $(for x in [1, 2] => $x $z)": ("z", 1),
    "$(let z = String::new()) $(for x in [1, 2] join ($z) => $x)": ("z", 1),
    "$(for Some(x) in [Some(1)] => $x)": ("Some(x)", 0),
    "$(for Some(x) in [Some(1)] join (, ) => $x)": ("Some(x)", 0),
    "$(for 1 in [1] => a)": ("1", 0),
    "$(for 1 in [1] join (, ) => a)": ("1", 0),
    "$(let 1 = 1)": ("1", 0),
    "$(let Some(x) = Some(1))": ("Some(x)", 0),
    "$(match true { true => a })": ("true", 0),
    "$(match Some(1) { Some(x) => $x })": ("Some(1)", 0),
})


CULPRITS.update({f: (part, 0) for f in EVALS for part in ("$[str](a $b)", "$[str]($b)", "$[str]($(b) c)") if part in f})


class Marked(tmpl.Bad):
    def src(self, w, r):
        w.w(self.source + MARK)


def offset(source, at):
    before = source[:at]
    return before.count("\n"), at - (before.rfind("\n") + 1) + 1


def fragment(c):
    """The lines and columns of what's marked."""
    end = c.source.index(MARK)
    start = end - len(c.what)
    if c.source[start:end] != c.what:
        raise CheckError("a fragment is not where it's marked")
    if c.what in CULPRITS:
        part, n = CULPRITS[c.what]
        at = c.what.index(part)
        for _ in range(n):
            at = c.what.index(part, at + 1)
        start, end = start + at, start + at + len(part)
    (a, x), (b, y) = offset(c.source, start), offset(c.source, end)
    return (c.line + 1 + a, x), (c.line + 1 + b, y)


def insert(r, t2, text):
    tmpl.insert(r, t2, text)
    for k, (g, e) in enumerate(t2.items):
        if type(e) is tmpl.Bad:
            t2.items[k] = (g, Marked(text))


def start(r, langs=macros.LANGS):
    lang = r.choice(langs)
    form = r.choice([f for f in macros.FORMS if f != "inev"])
    profile = r.choice(list(tmpl.PROFILES))
    lines, env, t = tmpl.fresh(r, profile, lang, r.choice([1, 2, 4, 8, 16]), r.choice([0, 1, 2, 3]), form != "fn")
    return lang, form, lines, t


def case(r, name, texts, langs=macros.LANGS):
    while True:
        lang, form, lines, t = start(r, langs)
        t2, _ = r.choice(list(tmpl.templates(t)))
        text = r.choice(texts)
        insert(r, t2, text)
        try:
            c = macros.Case(name, macros.write_case(r, form, lang, lines, t), None)
        except tmpl.NoRoom:
            continue
        c.what = text
        return c


def shallow_case(r, name):
    """A line of an indentation which no enclosing line has; what's marked is the token it starts with."""
    while True:
        lang, form, lines, t = start(r)
        if not spoiled(r, t):
            continue
        try:
            c = macros.Case(name, macros.write_case(r, form, lang, lines, t), None)
        except tmpl.NoRoom:
            continue
        line = c.source[c.source.rindex("\n", 0, c.source.index(MARK)) + 1:c.source.index(MARK)]
        c.what = line.lstrip()
        return c


def spoiled(r, t):
    t2, lead = r.choice(list(tmpl.templates(t)))
    if lead or not t2.items:
        return False
    k = 1 + r.randrange(len(t2.items))
    opened = []
    for _, e in t2.items[:k]:
        if type(e) is tmpl.Open:
            opened.append({"(": ")", "[": "]", "{": "}"}[e.c])
        elif type(e) is tmpl.Close:
            opened.pop()
    t2.items[k:] = [(tmpl.BAD, Marked(r.choice(["foo", "'x'", "$[' ']", "$[str](s)", "+", "$$", "$(1)", "$(for x in [1] => $x)", "1.5", "'a"])))]
    for c in reversed(opened):
        t2.items.append((tmpl.SPACE, tmpl.Close(c)))
    return True


def receiver_case(r, name, texts):
    lines, env, t = tmpl.fresh(r, r.choice(list(tmpl.PROFILES)), "()", r.choice([1, 2, 4, 8]), r.choice([0, 1, 2]), True)
    text = r.choice(texts)
    w = tmpl.W(False)
    for l in lines:
        w.w("    " + l + "\n")
    o, c = r.choice(["()", "{}", "[]"])
    w.w("    ")
    tmpl.Body(t).src(w, r, f"let out: Tokens<()> = Tokens::new();\n    quote_in!{o} {text}{MARK} =>", f"{c};\n    Ok(vec![])")
    c = macros.Case(name, w.source(), None)
    c.what = text
    return c


def judge(run, cases, errors, group, path):
    if errors.get(None):
        raise CheckError("an error is in no template: " + str(errors[None][:2])[:2000])
    for c in cases:
        es = errors.get(c.name, [])
        if not es:
            # Whether it's an error is for C18 to say.
            run.res.saw("accepted")
            continue
        lo, hi = fragment(c)
        where = []
        for e in es:
            for s in e.get("spans", []):
                if s.get("is_primary") and os.path.basename(s["file_name"]) == os.path.basename(path):
                    where.append(((s["line_start"], s["column_start"]), (s["line_end"], s["column_end"])))
        run.res.saw("errors of: " + group)
        run.kinds.add((group, "a line" if group.startswith("indentation") else c.what))
        run.res.evaluated((group, c.source))
        if not any(lo <= a and z <= hi and a < z for a, z in where):
            run.res.violation(f"no error points at `{c.what}` ({group}), which is {lo} to {hi}, but at {where[:5]}: {es[0].get('rendered')}\n{c.source}",
                              kind="template", source=c.source, what=c.what)
        elif len(run.res.samples) < 12 and len(c.source) < 1500:
            run.res.samples.append({"source": c.source, "at fault": c.what, "error": es[0]["message"], "spans": where[:3], "expected in": [lo, hi]})


def judge_here(run, c, seen):
    if seen is None:
        return
    how, _, rest = seen.partition(" ")
    if how == "panic":
        raise CheckError("a template panics: " + bytes.fromhex(rest).decode())
    log = [int(x) for x in rest.partition("]")[0][1:].split(",") if x]
    places = {((x - 2000000000) // 10000, (x - 2000000000) % 10000) for x in log if x >= 2000000000}
    at = c.source.index(MARK) - len(c.what) + c.what.index("here()")
    line, col = offset(c.source, at)
    before = c.source[:at].rpartition("\n")[2]
    # A tab counts as four columns, and others as wide as they are.
    col += 3 * before.count("\t")
    if col > 9000:
        return
    want = (c.line + 1 + line, col)
    if not all(" " <= x <= "~" or x == "\t" for x in before):
        places = {(a, col) for a, _ in places}
    run.res.saw("evaluated" if places else "not evaluated")
    run.res.evaluated(("here", c.source), bool(places))
    run.kinds.add(("here", c.what))
    if places - {want}:
        run.res.violation(f"`here()` of `{c.what}` is at {want}, but says it's at {sorted(places)[:4]}\n{c.source}", kind="template",
                          source=c.source, what=c.what)


def check(run):
    opts = macros.artifacts(run)
    stable = macros.artifacts(run, core.STABLE)
    run.kinds = set()
    scale = 20 if run.thorough else 1
    jobs = []
    for group, n in (("syntax", 32), ("indentation", 12), *((g, 6) for g in LATE), ("evaluations", 4), ("evaluations, stable", 2), *((g + " of receivers", 2) for g in RECEIVERS), ("here", 16),
                     ("syntax, stable", 6), ("types, stable", 2), ("here, stable", 3)):
        jobs += [(group, k) for k in range(n * scale)]

    def one(job):
        group, k = job
        r = random.Random(f"{run.prop}/{run.seed}/{run.tier}/{group}/{k}")
        o = stable if group.endswith("stable") else opts
        kind = group.partition(",")[0]
        name = "s" + "".join(x for x in group if x.isalpha()) + str(k)
        names = [f"c{i}" for i in range(100)]
        if kind == "here":
            cases = [case(r, n, HERE) for n in names]
            seen = macros.execute(run, o, cases, name)
            for c in cases:
                judge_here(run, c, seen.get(c.name))
            return
        if kind == "syntax":
            # A stable compiler doesn't say where lines of strings end.
            kinds = tmpl.FRAGMENTS if o is opts else [f for f in tmpl.FRAGMENTS if "\n" not in str(f)]
            cases = [case(r, n, kinds) for n in names]
        elif kind == "evaluations":
            cases = [case(r, n, EVALS, [l for l in macros.LANGS if l not in ("JavaScript", "Dart")]) for n in names]
        elif kind == "indentation":
            cases = [shallow_case(r, n) for n in names]
        elif kind.endswith("of receivers"):
            cases = [receiver_case(r, n, RECEIVERS[kind.split(" ")[0]]) for n in names]
        else:
            cases = [case(r, n, LATE[kind]) for n in names]
        path = os.path.join(run.work, name + ".rs")
        judge(run, cases, macros.compile_only(run, o, cases, name), group, path)

    macros.in_parallel(run, one, jobs)
    run.res.counters["kinds of fragments"] = len(run.kinds)
